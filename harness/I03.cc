// I03: the order in which exporters are given the types, and exports to files
#include "graph.hh"
#include <lang/csupport/standard_types.hh>
#include <typelib/exporter.hh>
#include <typelib/plugins.hh>
#include <fstream>
#include <unistd.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <signal.h>
using namespace Typelib;

const char* vh_rule = "one case = a registry over a random graph of types (recursive or not, aliases, namespaces, persistent and not) given to an exporter that records what it is given, and to the tlb exporter writing into files that can and cannot be written completely; "
    "distinct by the recorded order; non-trivial when at least 4 entries are recorded, in two namespaces";
bool vh_check_leaks = true;
void vh_setup(Ctx&) { vh_hold_plugins(); signal(SIGXFSZ, SIG_IGN); }

struct Recorder : Exporter
{
    struct Rec { std::string name; bool alias; Type const* type; };
    std::vector<Rec> got;
    int begins, ends;
    std::string wrong;
    Rng* rng;
    int throw_at;
    Recorder() : begins(0), ends(0), rng(0), throw_at(-1) {}
    void begin(std::ostream&, Registry const&) { if (begins++ || !got.empty()) wrong = "begin() is not first, or repeated"; }
    void end(std::ostream&, Registry const&) { if (begins != 1) wrong = "end() without begin()"; ++ends; }
    bool save(std::ostream& s, RegistryIterator const& it)
    {
        if (!begins || ends) wrong = "save() outside of begin() and end()";
        Rec r = { it.getName(), it.isAlias(), &*it };
        if (throw_at >= 0 && int(got.size()) == throw_at) throw std::runtime_error("exporter error");
        got.push_back(r);
        s << it.getName() << "\n";
        return rng->chance(3, 4);
    }
    using Exporter::save;
};
static void deps(GNode const* n, std::set<GNode const*>& seen)
{
    if (n->elem && seen.insert(n->elem).second) deps(n->elem, seen);
    for (size_t i = 0; i < n->fields.size(); ++i) if (seen.insert(n->fields[i].type).second) deps(n->fields[i].type, seen);
}
static std::string slurp(std::string const& p) { std::ifstream f(p.c_str()); std::ostringstream s; s << f.rdbuf(); return s.str(); }

void vh_case(Ctx& c)
{
    Rng& r = c.rng;
    GOpts o; o.recursive = r.chance(1, 3); o.holes = o.recursive && r.chance(1, 2); o.nulls = r.chance(1, 2); o.weird_names = r.chance(1, 2); o.ntypes = r.range(1, 10); o.namespaces = r.chance(4, 5);
    Graph g; g.generate(r, o);
    Registry reg;
    if (r.chance(1, 4)) CXX::addStandardTypes(reg);
    g.build(reg);
    std::vector<std::string> names;
    static char const* const al[] = { "/alias_a", "/A/alias_b", "/alias_c", "/B/T1/other", "/A/B/base/T1x", "/zz/y" };
    for (int i = r.range(0, 5); i > 0; --i) names.push_back(al[r.below(6)]);
    dress_registry(r, reg, names, true, false);
    // types that are not persistent, with others that need them
    for (int i = r.range(0, 3); i > 0; --i)
    {
        std::string nm = "/A/hidden" + str(i);
        if (reg.has(nm)) continue;
        Compound* t = new Compound(nm);
        std::vector<Type const*> all;
        for (RegistryIterator it = reg.begin(); it != reg.end(); ++it) if (it->getSize() && it->getSize() < 10000 && it->getCategory() != Type::NullType) all.push_back(&*it);
        if (!all.empty()) t->addField("a", *r.pick(all), 0);
        reg.add(t, r.chance(1, 2), "");
    }
    if (r.chance(1, 3)) reg.setDefaultNamespace("/A/B");
    Snap s(reg);
    // recursive: what leads to itself, and whatever leads there
    bool recursive = false;
    for (std::map<std::string, Snap::Entry>::iterator i = s.names.begin(); i != s.names.end(); ++i)
    {
        std::set<GNode const*> d; deps(i->second.node, d);
        if (d.count(i->second.node)) recursive = true;
    }
    std::string d; for (std::map<std::string, Snap::Entry>::iterator i = s.names.begin(); i != s.names.end() && d.size() < 2000; ++i) d += i->first + (i->second.alias ? "(alias)" : "") + (i->second.persistent ? "" : "(np)") + " ";
    c.desc(d);
    Recorder e; e.rng = &r;
    std::ostringstream out;
    utilmm::config_set config;
    bool refused = false;
    try { e.save(out, config, reg); }
    catch (ExportError&) { refused = true; }
    catch (std::exception& x) { c.fail("unexpected-error", std::string("exporting fails: ") + x.what()); }
    CK(c, refused == recursive, "refusal", refused ? "a registry without recursive types is refused" : "recursive types are exported");
    CK(c, e.wrong.empty(), "protocol", e.wrong);
    CK(c, e.begins == 1 && e.ends == (refused ? 0 : 1), "protocol", "begin() called " + str(e.begins) + " times, end() " + str(e.ends));
    std::set<std::string> done; std::set<GNode const*> saved;
    std::string order;
    std::set<std::string> spaces;
    for (size_t i = 0; i < e.got.size(); ++i)
    {
        Recorder::Rec const& x = e.got[i];
        Snap::Entry const* en = s.find(x.name);
        order += x.name + " ";
        spaces.insert(getNamespace(x.name));
        CK(c, en, "unknown", x.name + " is exported, which is not in the registry");
        CK(c, en->type == x.type && en->alias == x.alias, "mismatch", x.name + " is exported as another type");
        CK(c, en->persistent, "not-persistent", x.name + " is exported, which is not persistent");
        CK(c, done.insert(x.name).second, "twice", x.name + " is exported twice");
        GNode const* n = en->node;
        if (x.alias)
            // the type of the alias, when that is exported at all
            CK(c, saved.count(n) || !s.find(n->name)->persistent, "alias-first", x.name + " is exported before " + n->name + ", the type it stands for");
        std::set<GNode const*> need; deps(n, need);
        for (std::set<GNode const*>::iterator k = need.begin(); k != need.end(); ++k)
            CK(c, saved.count(*k) || !s.find((*k)->name)->persistent, "dependency-first", x.name + " is exported before " + (*k)->name + ", which it needs");
        if (!x.alias) saved.insert(n);
    }
    if (!refused)
        for (std::map<std::string, Snap::Entry>::iterator i = s.names.begin(); i != s.names.end(); ++i)
            if (i->second.persistent) CK(c, done.count(i->first), "missing", i->first + " is not exported");
    CK(c, diff_snaps(s, Snap(reg)).empty(), "changed", "exporting changes the registry");
    c.count(refused ? "refused, recursive" : "exported"); c.count("entries given to the exporter", e.got.size());
    if (!refused)
    {
        // the same order to a file; nothing but that in the file
        std::string path = "out";
        { std::ofstream f(path.c_str()); f << std::string(r.range(0, 3000), 'x'); }
        Recorder f; f.rng = &r;
        std::string err = caught([&]{ f.save(path, config, reg); });
        std::string text; for (size_t i = 0; i < f.got.size(); ++i) text += f.got[i].name + "\n";
        CK(c, err.empty() && slurp(path) == text, "file", "the file does not hold what was exported " + err);
        // what cannot be written completely is reported
        if (text.size() > 1 && r.chance(1, 2))
        {
            size_t limit = r.below(text.size());
            rlimit old, cut; getrlimit(RLIMIT_FSIZE, &old); cut = old; cut.rlim_cur = limit;
            setrlimit(RLIMIT_FSIZE, &cut);
            err = caught([&]{ Recorder h; h.rng = &r; h.save(path, config, reg); });
            setrlimit(RLIMIT_FSIZE, &old);
            CK(c, !err.empty(), "cut-short", "a file of " + str(text.size()) + " bytes cut short after " + str(limit) + " is reported as written");
            c.count("files cut short");
        }
        err = caught([&]{ Recorder h; h.rng = &r; h.save("no/such/dir/out", config, reg); });
        CK(c, !err.empty(), "no-file", "a file that cannot be opened is reported as written");
        unlink(path.c_str());
        // an error of the exporter gets through
        if (!e.got.empty())
        {
            Recorder h; h.rng = &r; h.throw_at = r.below(e.got.size());
            err = caught([&]{ std::ostringstream o2; h.save(o2, config, reg); });
            CK(c, err.find("exporter error") != std::string::npos && !h.ends, "error-lost", "an error of the exporter is lost");
        }
    }
    if (e.got.size() >= 4 && spaces.size() > 1) { c.sig(vh_hash(order)); c.sample(order.substr(0, 300)); }
}
