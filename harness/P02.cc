// P02: what threads may do at the same time
#include "graph.hh"
#include <lang/csupport/standard_types.hh>
#include <typelib/csvoutput.hh>
#include <typelib/endianness.hh>
#include <typelib/exporter.hh>
#include <typelib/importer.hh>
#include <typelib/typedisplay.hh>
#include <typelib/typename.hh>
#include <typelib/value_ops.hh>
#include <atomic>
#include <thread>
#include <unistd.h>
#include <iostream>
using namespace Typelib;

const char* vh_rule = "one case = 2 to 6 threads that each carry out a random sequence of tasks (uses of singletons and of the plugin manager, definition, export, import, merge, resize and removal in registries of their own, "
    "lookups, comparisons, extraction and export from a shared registry, operations on values of shared types and reading of shared values), with pauses at random places, under the thread sanitizer; "
    "each task's result is compared with the one it gives alone; distinct by the tasks and the order in which they ended; non-trivial when tasks of two threads overlapped in time";
bool vh_check_leaks = false;
void vh_setup(Ctx&)
{
    struct Null : std::streambuf { int overflow(int ch) { return ch == EOF ? 0 : ch; } };
    static Null null; std::cerr.rdbuf(&null);
}

static std::atomic<int> g_alive[3], g_twice(0);
template<int N> struct S
{
    int value; std::unique_ptr<utilmm::singleton::use< S<N ? N - 1 : 0> > > nested;
    S() : value(N) { if (g_alive[N].fetch_add(1) != 0) ++g_twice; if (N) nested.reset(new utilmm::singleton::use< S<N ? N - 1 : 0> >); }
    ~S() { value = -1; g_alive[N].fetch_sub(1); }
};

struct Shared
{
    Graph g; std::unique_ptr<Registry> reg; std::vector<std::string> names;
    std::unique_ptr<World> w; std::vector<SP> specs; std::vector<std::unique_ptr<NativeValue> > values;
    std::string doc;
    bool held;
};
static void pause(Rng& r) { if (r.chance(1, 3)) { if (r.chance(1, 2)) std::this_thread::yield(); else usleep(r.below(60)); } }
static std::string digest(Registry const& reg)
{
    std::ostringstream s;
    for (RegistryIterator it = reg.begin(); it != reg.end(); ++it) s << it.getName() << it.isAlias() << it.isPersistent() << it->getName() << it->getSize() << it.getSource() << ";";
    return s.str();
}
static const int NTASKS = 9;
static std::string task(int what, Rng& r, Shared const& sh)
{
    std::ostringstream out;
    switch (what)
    {
        case 0:     // singletons
        {
            std::vector<utilmm::singleton::use< S<0> > > a; std::vector<utilmm::singleton::use< S<1> > > b; std::vector<utilmm::singleton::use< S<2> > > d;
            for (int i = r.range(2, 12); i > 0; --i)
            {
                switch (r.below(6))
                {
                    case 0: a.push_back(utilmm::singleton::use< S<0> >()); out << a.back()->value; break;
                    case 1: b.push_back(utilmm::singleton::use< S<1> >()); out << b.back()->value; break;
                    case 2: d.push_back(utilmm::singleton::use< S<2> >()); out << d.back()->value << (*d.back()->nested)->value; break;
                    case 3: if (!a.empty()) { out << a.front()->value; a.pop_back(); } break;
                    case 4: if (!b.empty()) { out << b.front()->value; b.pop_back(); } break;
                    case 5: if (!d.empty()) { out << d.front()->value; d.pop_back(); } break;
                }
                pause(r);
            }
            break;
        }
        case 1:     // the plugin manager
        {
            for (int i = r.range(1, 3); i > 0; --i)
            {
                PluginManager::self m;
                pause(r);
                std::unique_ptr<Exporter> e; std::unique_ptr<Importer> p;
                try { if (r.chance(1, 2)) e.reset(m->exporter("tlb")); else p.reset(m->importer("tlb")); out << bool(e) << bool(p); if (r.chance(1, 4)) m->importer("nothing"); }
                catch (PluginNotFound& x) { out << x.what(); }
                pause(r);
            }
            break;
        }
        case 2:     // a document, read through the manager
        {
            std::istringstream s(sh.doc);
            std::unique_ptr<Registry> got(PluginManager::load("tlb", s));
            out << digest(*got);
            pause(r);
            out << PluginManager::save(r.chance(1, 2) ? "tlb" : "idl", *got);
            std::istringstream bad(sh.doc.substr(0, r.below(sh.doc.size())));
            try { PluginManager::load("tlb", bad, *got); out << "read"; } catch (std::exception& e) { out << "refused"; }
            out << digest(*got);
            break;
        }
        case 3:     // a registry of its own
        {
            Graph g; GOpts o; o.ntypes = r.range(2, 6); g.generate(r, o);
            Registry reg, other;
            CXX::addStandardTypes(reg);
            g.build(reg); pause(r);
            std::vector<std::string> al; al.push_back("/alias_a"); al.push_back("/A/alias_b");
            dress_registry(r, reg, al, true, true);
            out << digest(reg);
            other.merge(reg); pause(r);
            out << reg.isSame(other) << digest(other);
            std::vector<Type*> removed;
            std::vector<std::string> ns; for (RegistryIterator it = other.begin(); it != other.end(); ++it) if (!it.isAlias()) ns.push_back(it.getName());
            std::set<Type*> gone = other.remove(*other.get(r.pick(ns)));
            for (std::set<Type*>::iterator i = gone.begin(); i != gone.end(); ++i) delete *i;
            out << gone.size() << digest(other);
            pause(r);
            std::map<std::string, size_t> sizes; sizes["/int8_t"] = 2 + r.below(8);
            try { reg.resize(sizes); out << "resized"; } catch (std::exception& e) { out << "not resized"; }
            out << digest(reg);
            break;
        }
        case 4:     // a shared registry, only read
        {
            Registry const& reg = *sh.reg;
            for (int i = r.range(5, 25); i > 0; --i)
            {
                std::string const& n = r.pick(sh.names); std::string const& n2 = r.pick(sh.names);
                Type const* t = reg.get(n); Type const& t2 = *reg.get(n2);
                switch (r.below(7))
                {
                    case 0: out << (*t == t2) << t->canCastTo(t2) << t->isSame(t2); break;
                    case 1: out << reg.has(n + "*") << reg.has("/not" + n) << reg.find(n).isPersistent() << reg.find(n).getName(); break;
                    case 2: out << t->dependsOn().size() << t->getName() << t->getSize() << t->getNamespace() << t->getBasename(); break;
                    case 3: { std::set<std::string> al = reg.getAliasesOf(*t); for (std::set<std::string>::iterator k = al.begin(); k != al.end(); ++k) out << *k; break; }
                    case 4: { std::ostringstream d; if (t->getCategory() != Type::NullType) d << type_display(*t); out << d.str().size(); break; }
                    case 5: out << getMinimalPathTo(t->getName(), "/A/B"); break;
                    case 6: { std::vector<std::string> keys; MetaData::Values v = t->getMetaData().get("doc"); out << v.size(); break; }
                }
                if (r.chance(1, 6)) pause(r);
            }
            out << digest(reg);
            break;
        }
        case 5:     // extraction from, merge of and export of a shared registry
        {
            std::string const& n = r.pick(sh.names);
            if (r.chance(1, 2)) { std::unique_ptr<Registry> m(sh.reg->minimal(n)); out << digest(*m); }
            else { Registry m; m.merge(*sh.reg); out << digest(m) << m.isSame(*sh.reg); }
            pause(r);
            try { out << PluginManager::save("tlb", *sh.reg); } catch (std::exception& e) { out << "not exported"; }
            break;
        }
        case 6: case 7:     // values of their own of shared types; values that are shared
        {
            size_t k = r.below(sh.specs.size());
            SP s = sh.specs[k];
            Val v = gen_val(r, *s), v2 = gen_val(r, *s);
            NativeValue a(s, v, 0), b(s, v2, 0), z(s);
            Type const& t = *s->type;
            std::vector<uint8_t> d1, d2;
            MemoryLayout lay = layout_of(t);
            dump(a.mem.p, d1, lay); pause(r);
            load(b.value(), d1);
            out << hex(&d1[0], d1.size(), 4000) << compare(a.value(), b.value());
            copy(b.value(), Value(sh.values[k]->mem.p, t)); pause(r);
            dump(sh.values[k]->mem.p, d2, lay);
            out << compare(b.value(), Value(sh.values[k]->mem.p, t)) << compare(a.value(), Value(sh.values[k]->mem.p, t)) << hex(&d2[0], d2.size(), 4000) << getDumpSize(sh.values[k]->mem.p, lay);
            init(z.value()); out << show(*s, read_native(*s, z.mem.p)).size(); destroy(z.value());
            if (s->plain() && !s->has_wide)
            {
                std::ostringstream o; o << csv_header(t, "v") << csv(t, sh.values[k]->mem.p); out << o.str();
                try { endian_swap(a.value()); out << show(*s, read_native(*s, a.mem.p)); } catch (std::exception& e) { out << "no swap"; }
            }
            break;
        }
        case 8:     // registries come with what plugins define
        {
            Registry reg; pause(r);
            CXX::addStandardTypes(reg);
            for (int i = 0; i < 5; ++i) { std::string n = "/int" + str(8 << r.below(4)) + "_t"; for (int k = r.below(4); k > 0; --k) n += r.chance(1, 2) ? "*" : "[" + str(r.range(1, 9)) + "]"; out << reg.build(n)->getSize(); }
            out << digest(reg);
            break;
        }
    }
    return out.str();
}

void vh_case(Ctx& c)
{
    Rng& r = c.rng;
    Shared sh;
    sh.held = r.chance(1, 2);
    {
        // what is shared is made while the manager is held
        PluginManager::self m;
        GOpts o; o.ntypes = r.range(3, 8); o.recursive = r.chance(1, 3); o.metadata = true;
        sh.g.generate(r, o);
        sh.reg.reset(new Registry);
        sh.g.build(*sh.reg);
        std::vector<std::string> al; al.push_back("/alias_a"); al.push_back("/A/alias_b"); al.push_back("/alias_c");
        dress_registry(r, *sh.reg, al, true, true);
        for (RegistryIterator it = sh.reg->begin(); it != sh.reg->end(); ++it) sh.names.push_back(it.getName());
        sh.w.reset(new World); GenOpts go; go.ntypes = 4; go.zero_dim = false; go.empty_compounds = false;
        sh.w->populate(r, go);
        for (size_t i = 0; i < sh.w->types.size(); ++i) if (sh.w->types[i]->size && !sh.w->types[i]->has_ptr && !sh.w->types[i]->has_opq) sh.specs.push_back(sh.w->types[i]);
        for (size_t i = 0; i < sh.specs.size(); ++i) sh.values.emplace_back(new NativeValue(sh.specs[i], gen_val(r, *sh.specs[i]), 0));
        Graph dg; GOpts d2; d2.recursive = false; d2.holes = false; d2.ntypes = 5; if (r.chance(3, 4)) d2.opaques = d2.pointers = false; dg.generate(r, d2);
        Registry dr; if (r.chance(1, 3)) CXX::addStandardTypes(dr); dg.build(dr);
        sh.doc = PluginManager::save("tlb", dr);
    }
    std::unique_ptr<PluginManager::self> hold; if (sh.held) hold.reset(new PluginManager::self);
    int n = r.range(2, 6), per = r.range(2, 6);
    struct Job { std::vector<int> what; std::vector<uint64_t> seed; std::vector<std::string> alone, got; };
    std::vector<Job> jobs(n);
    std::string d = sh.held ? "held " : "not held ";
    for (int i = 0; i < n; ++i)
    {
        d += "| ";
        for (int k = 0; k < per; ++k)
        {
            int w = r.below(NTASKS);
            // derived types of containers are made from the factories that the manager registers: tasks that use
            // them outside of the manager's own functions need it to be there
            if (!sh.held && (w == 3 || w == 5)) w = r.below(3);
            jobs[i].what.push_back(w); jobs[i].seed.push_back(r.next());
            d += str(w) + " ";
        }
        jobs[i].got.resize(per); jobs[i].alone.resize(per);
    }
    c.desc(d);
    auto one = [&](int i, int k) -> std::string { Rng q(jobs[i].seed[k]); try { return task(jobs[i].what[k], q, sh); } catch (CaseFailed&) { return "harness"; } catch (std::exception& e) { return std::string("exception: ") + e.what(); } };
    bool before = r.chance(1, 2);
    for (int pass = 0; pass < 2; ++pass)
    {
        if ((pass == 0) == before) { for (int i = 0; i < n; ++i) for (int k = 0; k < per; ++k) jobs[i].alone[k] = one(i, k); continue; }
        std::atomic<int> ready(0), tick(0), running(0), overlaps(0);
        std::string order; std::vector<std::vector<std::pair<int, int> > > spans(n);
        std::vector<std::thread> th;
        for (int i = 0; i < n; ++i) th.emplace_back([&, i] {
            ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield();
            for (int k = 0; k < per; ++k)
            {
                // relaxed: the bookkeeping must not order the threads for the race detector
                if (running.fetch_add(1, std::memory_order_relaxed) > 0) overlaps.fetch_add(1, std::memory_order_relaxed);
                jobs[i].got[k] = one(i, k);
                running.fetch_sub(1, std::memory_order_relaxed);
                int t = tick.fetch_add(1, std::memory_order_relaxed);
                spans[i].push_back(std::make_pair(t, jobs[i].what[k]));
            }
        });
        for (int i = 0; i < n; ++i) th[i].join();
        std::map<int, std::string> by; for (int i = 0; i < n; ++i) for (size_t k = 0; k < spans[i].size(); ++k) by[spans[i][k].first] = str(i) + ":" + str(spans[i][k].second) + " ";
        for (std::map<int, std::string>::iterator k = by.begin(); k != by.end(); ++k) order += k->second;
        c.count("tasks run concurrently", n * per); c.count("tasks that began while others ran", overlaps.load());
        if (overlaps.load()) c.sig(vh_hash(order + d));
        c.sample(d + " ended as " + order);
    }
    CK(c, g_twice.load() == 0, "two-instances", "two instances of a singleton existed at a time");
    for (int i = 0; i < 3; ++i) CK(c, g_alive[i].load() == 0, "singleton-left", "a singleton exists that nothing uses");
    for (int i = 0; i < n; ++i) for (int k = 0; k < per; ++k)
    {
        c.count("results compared"); c.count("task " + str(jobs[i].what[k]));
        if (jobs[i].alone[k].compare(0, 10, "exception:") == 0) c.count("tasks that end with an exception");
        size_t at = 0; std::string const &a = jobs[i].alone[k], &b = jobs[i].got[k];
        while (at < a.size() && at < b.size() && a[at] == b[at]) ++at;
        CK(c, a == b, "different-result", "task " + str(jobs[i].what[k]) + " gives another result than alone: ..." + b.substr(at > 40 ? at - 40 : 0, 200) + " instead of ..." + a.substr(at > 40 ? at - 40 : 0, 200));
    }
}
