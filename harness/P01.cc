// P01: singletons, and the plugin manager that is one
#include "core.hh"
#include <typelib/pluginmanager.hh>
#include <typelib/plugins.hh>
#include <typelib/importer.hh>
#include <typelib/exporter.hh>
#include <typelib/registry.hh>
#include <iostream>
#include <fstream>
#include <memory>
#include <algorithm>
#include <stdlib.h>
#include <limits.h>
#include <unistd.h>
#include <sys/stat.h>
using namespace Typelib;

const char* vh_rule = "one case = a history of uses of singletons (created, copied, assigned, dropped in any order; singletons that use others while they are built, live and are destroyed, whose construction fails), "
    "or one life of the plugin manager over a search path of stub plugins (missing, empty and repeated directories, files that are no plugins, plugins of the same name) with imports and exports that succeed and fail; "
    "distinct by the sequence of operations and results; non-trivial when at least 2 singletons or 2 plugins are involved";
bool vh_check_leaks = true;

// ---------------------------------------------------------------- singletons
static const int NS = 6;
struct Conf { int nested, ctor_tmp, dtor_tmp, dtor_keep; bool throws; };
static Conf g_conf[NS];
static long g_made[NS], g_dead[NS], g_failed[NS];
static bool g_twice;
struct Holder { virtual ~Holder() {} virtual void const* address() const = 0; virtual int value() const = 0; virtual Holder* copy() const = 0; virtual void assign(Holder const& o) = 0; int n; };
static Holder* make(int n);
static std::vector<Holder*> g_external;
template<int N> struct S
{
    std::unique_ptr<Holder> nested;
    int value; long serial;
    S() : value(0)
    {
        if (g_conf[N].nested >= 0) nested.reset(make(g_conf[N].nested));
        if (g_conf[N].ctor_tmp >= 0) delete make(g_conf[N].ctor_tmp);
        if (g_conf[N].throws) { ++g_failed[N]; throw std::runtime_error("cannot be built"); }
        serial = ++g_made[N];
        if (g_made[N] - g_dead[N] > 1) g_twice = true;
    }
    ~S()
    {
        if (g_conf[N].dtor_tmp >= 0) delete make(g_conf[N].dtor_tmp);
        if (g_conf[N].dtor_keep >= 0) g_external.push_back(make(g_conf[N].dtor_keep));
        ++g_dead[N];
        value = -1;
    }
};
template<int N> struct UseHolder : Holder
{
    utilmm::singleton::use< S<N> > u;
    UseHolder() { n = N; }
    UseHolder(UseHolder const& o) : u(o.u) { n = N; }
    void const* address() const { return &*u; }
    int value() const { return u->value++; }
    Holder* copy() const { return new UseHolder(*this); }
    void assign(Holder const& o) { u = static_cast<UseHolder const&>(o).u; }
};
static Holder* make(int n)
{
    switch (n)
    {
        case 0: return new UseHolder<0>; case 1: return new UseHolder<1>; case 2: return new UseHolder<2>;
        case 3: return new UseHolder<3>; case 4: return new UseHolder<4>; default: return new UseHolder<5>;
    }
}
struct Model
{
    int refs[NS], ext[NS]; long made[NS], dead[NS], failed[NS];
    Model() { memset(this, 0, sizeof *this); }
    bool attach(int n)      // false: the construction fails
    {
        if (!refs[n])
        {
            Conf const& k = g_conf[n];
            bool ok = true;
            if (k.nested >= 0) ok = attach(k.nested);
            if (!ok) return false;
            if (k.ctor_tmp >= 0) { ok = attach(k.ctor_tmp); if (ok) detach(k.ctor_tmp); }
            if (ok && k.throws) { ++failed[n]; ok = false; }
            if (!ok) { if (k.nested >= 0) detach(k.nested); return false; }
            ++made[n];
        }
        ++refs[n];
        return true;
    }
    void detach(int n)
    {
        if (--refs[n]) return;
        Conf const& k = g_conf[n];
        if (k.dtor_tmp >= 0) { attach(k.dtor_tmp); detach(k.dtor_tmp); }
        if (k.dtor_keep >= 0) { attach(k.dtor_keep); ++ext[k.dtor_keep]; }
        ++dead[n];
        if (k.nested >= 0) detach(k.nested);
    }
};
static void singletons(Ctx& c)
{
    Rng& r = c.rng;
    std::string d = "singletons:";
    for (int i = 0; i < NS; ++i)
    {
        Conf& k = g_conf[i];
        k.nested = i && r.chance(1, 3) ? int(r.below(i)) : -1;
        k.ctor_tmp = i && r.chance(1, 4) ? int(r.below(i)) : -1;
        k.dtor_tmp = i && r.chance(1, 4) ? int(r.below(i)) : -1;
        k.dtor_keep = i && r.chance(1, 6) ? int(r.below(i)) : -1;
        k.throws = false;
        d += " " + str(i) + "(" + str(k.nested) + "," + str(k.ctor_tmp) + "," + str(k.dtor_tmp) + "," + str(k.dtor_keep) + ")";
    }
    // constructions that fail: only where nothing is built from a destructor
    bool throwing = r.chance(1, 4);
    if (throwing) for (int i = 0; i < NS; ++i) { g_conf[i].dtor_tmp = g_conf[i].dtor_keep = -1; }
    memset(g_made, 0, sizeof g_made); memset(g_dead, 0, sizeof g_dead); memset(g_failed, 0, sizeof g_failed); g_twice = false; g_external.clear();
    Model m;
    std::vector<Holder*>& u = g_external;
    std::string trace; std::set<int> involved; int made = 0;
    for (int step = r.range(3, 30); step > 0; --step)
    {
        int op = r.below(10);
        if (u.size() > 8) op = 5;
        if (throwing && r.chance(1, 3)) { int i = r.below(NS); g_conf[i].throws = !g_conf[i].throws; }
        if (op < 4 || u.empty())
        {
            int n = r.below(NS);
            trace += "+" + str(n); c.desc(d + " " + trace);
            bool ok = m.attach(n);
            Holder* h = 0;
            std::string e = caught([&]{ h = make(n); });
            if (ok) { CK(c, h, "use-refused", "a singleton cannot be used: " + e); u.push_back(h); ++m.ext[n]; ++made; }
            else { CK(c, !h, "failure-lost", "a use is given though the construction of the singleton fails"); CK(c, e == "exception: cannot be built", "failure-lost", "the construction fails with " + e); }
            involved.insert(n);
        }
        else if (op == 4)
        {
            Holder* h = u[r.below(u.size())];
            trace += "c" + str(h->n); c.desc(d + " " + trace);
            m.attach(h->n); u.push_back(h->copy()); ++m.ext[h->n];
        }
        else if (op < 8)
        {
            size_t i = r.below(u.size());
            Holder* h = u[i]; u.erase(u.begin() + i);
            int n = h->n;
            trace += "-" + str(n); c.desc(d + " " + trace);
            --m.ext[n];
            bool was = g_conf[n].throws;
            m.detach(n); delete h;
            g_conf[n].throws = was;
        }
        else
        {
            Holder* a = u[r.below(u.size())];
            for (size_t i = 0; i < u.size(); ++i) if (u[i]->n == a->n) { u[i]->assign(*a); break; }
            trace += "="; c.desc(d + " " + trace);
        }
        CK(c, !g_twice, "two-instances", "there are two instances of a singleton");
        for (int i = 0; i < NS; ++i)
        {
            CK(c, g_made[i] == m.made[i] && g_dead[i] == m.dead[i], "lifetime", "singleton " + str(i) + " was created " + str(g_made[i]) + " times and destroyed " + str(g_dead[i]) + " times, "
               "expected " + str(m.made[i]) + " and " + str(m.dead[i]) + ", with " + str(m.refs[i]) + " uses left");
            CK(c, g_failed[i] == m.failed[i], "lifetime", "the construction of singleton " + str(i) + " was tried " + str(g_failed[i]) + " times in vain, expected " + str(m.failed[i]));
            void const* at = 0; int v = -1, count = 0;
            for (size_t k = 0; k < u.size(); ++k) if (u[k]->n == i)
            {
                ++count;
                if (!at) { at = u[k]->address(); v = u[k]->value(); continue; }
                CK(c, u[k]->address() == at, "another-instance", "two uses of singleton " + str(i) + " lead to different objects");
                CK(c, u[k]->value() == ++v, "another-instance", "two uses of singleton " + str(i) + " do not share its state");
            }
            CK(c, count == m.ext[i], "harness", "number of uses");
        }
        c.count("singleton operations checked");
    }
    for (int i = 0; i < NS; ++i) g_conf[i].dtor_keep = -1;
    while (!u.empty()) { size_t i = r.below(u.size()); Holder* h = u[i]; u.erase(u.begin() + i); m.detach(h->n); delete h; }
    for (int i = 0; i < NS; ++i) CK(c, g_made[i] == g_dead[i] && g_made[i] == m.made[i], "lifetime", "singleton " + str(i) + " was created " + str(g_made[i]) + " times and destroyed " + str(g_dead[i]) + " times once everything is dropped");
    if (involved.size() > 1 && made > 1) c.sig(vh_hash(d + trace));
    c.sample(d + trace);
}

// ---------------------------------------------------------------- plugin manager
static long g_live_plugins, g_live_objects;
struct Def : TypeDefinitionPlugin
{
    int id; Def(int id) : id(id) { ++g_live_plugins; } ~Def() { --g_live_plugins; }
    void registerTypes(Registry& r);
};
static std::vector<int> g_deftrace;
void Def::registerTypes(Registry& r) { g_deftrace.push_back(id); if (!r.has("/def" + str(id))) r.add(new Numeric("/def" + str(id), 4, Numeric::SInt), false, ""); }
enum Fault { OK, THROW_STD, THROW_IMPORT, THROW_INT };
static Fault g_fault;
static std::string g_seen; static int g_last_id;
static void fault() { if (g_fault == THROW_STD) throw std::logic_error("fault"); if (g_fault == THROW_IMPORT) throw ImportError("f", "fault"); if (g_fault == THROW_INT) throw 42; }
struct Imp : Importer
{
    int id; Imp(int id) : id(id) { ++g_live_objects; } ~Imp() { --g_live_objects; }
    void load(std::istream& s, utilmm::config_set const& k, Registry& r)
    {
        std::ostringstream o; o << s.rdbuf(); g_seen = o.str() + "|" + k.get<std::string>("key", "none"); g_last_id = id;
        r.add(new Numeric("/imported" + str(id), 4, Numeric::SInt));
        fault();
    }
    using Importer::load;
};
struct Exp : Exporter
{
    int id; Exp(int id) : id(id) { ++g_live_objects; } ~Exp() { --g_live_objects; }
    void begin(std::ostream& s, Registry const&) { s << "begin" << id << "\n"; fault(); }
    void end(std::ostream& s, Registry const&) { s << "end\n"; }
    bool save(std::ostream& s, RegistryIterator const& t) { s << t.getName() << "\n"; return true; }
    using Exporter::save;
};
struct ImpPlug : ImportPlugin { int id; ImpPlug(std::string const& n, int id) : ImportPlugin(n), id(id) { ++g_live_plugins; } ~ImpPlug() { --g_live_plugins; } Importer* create() { return new Imp(id); } };
struct ExpPlug : ExportPlugin { int id; ExpPlug(std::string const& n, int id) : ExportPlugin(n), id(id) { ++g_live_plugins; } ~ExpPlug() { --g_live_plugins; } Exporter* create() { return new Exp(id); } };

struct Reg { char kind; std::string name; int id; };
static std::map<std::string, std::vector<Reg> > g_content;      // what a stub registers, by file
static std::vector<std::string> g_entered;
static std::map<std::string, int> m_imp, m_exp; static std::vector<int> m_def;     // the model
static std::string g_bad;
static void apply(PluginManager& m, Reg const& x)
{
    if (x.kind == 'd') { int id = x.id + 1000 * m_def.size(); m.add(new Def(id)); m_def.push_back(id); return; }
    bool fresh = x.kind == 'i' ? m_imp.insert(std::make_pair(x.name, x.id)).second : m_exp.insert(std::make_pair(x.name, x.id)).second;
    bool got;
    if (x.kind == 'i') { ImpPlug* p = new ImpPlug(x.name, x.id); got = m.add(p); if (!got) delete p; }
    else { ExpPlug* p = new ExpPlug(x.name, x.id); got = m.add(p); if (!got) delete p; }
    if (got != fresh) g_bad = "registering " + x.name + (got ? " again is accepted" : " for the first time is refused");
}
extern "C" void vh_stub_entry(PluginManager& m, char const* path)
{
    // the path the library was first loaded from: files that are the same have the same content
    char real[PATH_MAX];
    std::string p = realpath(path, real) ? real : path;
    p = p.substr(p.rfind("/stubs/") + 7);
    g_entered.push_back(p);
    std::vector<Reg> const& c = g_content[p];
    for (size_t i = 0; i < c.size(); ++i) apply(m, c[i]);
}
static std::string g_base;
static std::string real_dir(char const* n) { return std::string(getenv("VERIF_LIBDIR")) + "/lang/" + n; }
static void put(std::string const& f, std::string const& text) { std::ofstream o((g_base + f).c_str()); o << text; }
void vh_setup(Ctx&)
{
    char cwd[4096];
    if (!getcwd(cwd, sizeof cwd)) throw std::runtime_error("getcwd");
    g_base = std::string(cwd) + "/stubs/";
    mkdir(g_base.c_str(), 0755);
    std::ifstream in((std::string(getenv("VERIF_SODIR")) + "/stubplugin.so").c_str()); std::ostringstream o; o << in.rdbuf();
    if (o.str().size() < 1000) throw std::runtime_error("no stub plugin");
    static char const* const dirs[] = { "one", "two", "three", "none", "junk", "dup" };
    for (int i = 0; i < 6; ++i) mkdir((g_base + dirs[i]).c_str(), 0755);
    static char const* const stubs[] = { "one/a.so", "two/b.so", "two/c.so", "three/d.so", "junk/e.so" };
    for (int i = 0; i < 5; ++i) put(stubs[i], o.str());
    put("junk/text.so", "this is no library\n"); put("junk/readme.txt", "text\n"); put("junk/copy.so.bak", o.str());
    put("two/b.dylib.txt", "text\n"); mkdir((g_base + "junk/dir.so").c_str(), 0755); mkdir((g_base + "three/sub").c_str(), 0755);
    put("three/sub/f.so", o.str());
    symlink("/lib/x86_64-linux-gnu/libm.so.6", (g_base + "junk/noentry.so").c_str());
    symlink("/nonexistent", (g_base + "junk/dangling.so").c_str());
    symlink("../one/a.so", (g_base + "dup/a.so").c_str());
    put("file", "not a directory\n");
    static std::ostringstream sink;
    struct Null : std::streambuf { int overflow(int ch) { return ch == EOF ? 0 : ch; } };
    static Null null; std::cerr.rdbuf(&null);
}
// the environment, without setenv's leaks
static void set_path(std::string const* p)
{
    static char buf[20000];
    if (!p) { unsetenv("TYPELIB_PLUGIN_PATH"); return; }
    snprintf(buf, sizeof buf, "TYPELIB_PLUGIN_PATH=%s", p->c_str());
    putenv(buf);
}
static void manager(Ctx& c)
{
    Rng& r = c.rng;
    static char const* const names[] = { "x", "y", "z", "tlb", "" };
    int id = 1;
    g_content.clear();
    static char const* const stubs[] = { "one/a.so", "two/b.so", "two/c.so", "three/d.so", "junk/e.so" };
    std::string d;
    // with the real plugin in the path, nothing else has its name
    bool with_real = r.chance(1, 4);
    char const* nm[5]; for (int i = 0; i < 5; ++i) nm[i] = with_real && i == 3 ? "tlb2" : names[i];
    for (int i = 0; i < 5; ++i) for (int k = r.below(4); k > 0; --k)
    {
        Reg x = { "ied"[r.below(3)], nm[r.below(5)], id++ };
        g_content[stubs[i]].push_back(x);
        d += std::string(stubs[i]) + ":" + x.kind + "'" + x.name + "'=" + str(x.id) + " ";
    }
    // the search path, and the stubs it leads to
    std::string path; std::vector< std::vector<std::string> > expected; bool unset = r.chance(1, 15), real = false;
    for (int n = r.range(0, 5), i = 0; i < n; ++i)
    {
        if (i) path += ":";
        std::vector<std::string> e;
        switch (r.below(11))
        {
            case 0: path += g_base + "one"; e.push_back("one/a.so"); break;
            case 1: path += g_base + "two"; e.push_back("two/b.so"); e.push_back("two/c.so"); break;
            case 2: path += g_base + "three/"; e.push_back("three/d.so"); break;
            case 3: path += g_base + "none"; break;
            case 4: path += g_base + "junk"; e.push_back("junk/e.so"); break;
            case 5: path += g_base + "dup"; e.push_back("one/a.so"); break;
            case 6: path += g_base + "missing"; break;
            case 7: path += g_base + "file"; break;
            case 8: break;                          // an empty entry
            case 9: if (!with_real) { path += g_base + "none"; break; } path += real_dir("tlb"); real = true; break;
            case 10: path += g_base + "one/../three"; e.push_back("three/d.so"); break;
        }
        expected.push_back(e);
    }
    if (r.chance(1, 5)) path += ":";
    if (unset) { expected.clear(); real = false; }
    c.desc("path " + (unset ? "unset" : path) + "; " + d);
    set_path(unset ? 0 : &path);
    m_imp.clear(); m_exp.clear(); m_def.clear(); g_entered.clear(); g_bad = ""; g_fault = OK;
    long p0 = g_live_plugins, o0 = g_live_objects;
    std::string trace;
    {
        std::unique_ptr<PluginManager::self> self;
        std::string e = caught([&]{ self.reset(new PluginManager::self); });
        CK(c, self.get(), "unusable-path", "no plugin manager: " + e);
        size_t at = 0;
        for (size_t i = 0; i < expected.size(); ++i)
        {
            std::vector<std::string> got;
            for (size_t k = 0; k < expected[i].size() && at < g_entered.size(); ++k) got.push_back(g_entered[at++]);
            std::sort(got.begin(), got.end());
            CK(c, got == expected[i], "not-loaded", "the plugins of entry " + str(i) + " of the search path are not those loaded in its place");
        }
        CK(c, at == g_entered.size(), "loaded-too-much", "plugins are loaded that are not in the search path");
        PluginManager& pm = **self;
        std::vector<PluginManager::self> more;
        std::string ns[2];
        for (int step = r.range(2, 14); step > 0; --step)
        {
            std::string name = nm[r.below(5)];
            int op = r.below(9);
            std::map<std::string, int> const& known = op == 1 || op == 7 ? m_exp : m_imp;
            if (r.chance(1, 8)) name = "unknown";
            else if (r.chance(2, 3) && !known.empty()) { std::map<std::string, int>::const_iterator k = known.begin(); std::advance(k, r.below(known.size())); name = k->first; }
            trace += str(op) + name + " ";
            c.desc("path " + (unset ? "unset" : path) + "; " + d + "; " + trace);
            if (op == 0)
            {
                std::unique_ptr<Importer> got;
                std::string e = caught([&]{ got.reset(pm.importer(name)); });
                CK(c, bool(got) == bool(m_imp.count(name)), "importer", "importer '" + name + "': " + (got ? "given" : e));
                if (got) { Imp* k = dynamic_cast<Imp*>(got.get()); CK(c, k && k->id == m_imp[name], "first-wins", "the importer of '" + name + "' is not the one first registered"); }
                else { bool ok = false; try { pm.importer(name); } catch (PluginNotFound&) { ok = true; } catch (...) {} CK(c, ok, "not-found", "an unknown importer is reported as " + e); }
            }
            else if (op == 1)
            {
                std::unique_ptr<Exporter> got;
                std::string e = caught([&]{ got.reset(pm.exporter(name)); });
                CK(c, bool(got) == bool(m_exp.count(name)), "exporter", "exporter '" + name + "': " + (got ? "given" : e));
                if (got) { Exp* k = dynamic_cast<Exp*>(got.get()); CK(c, k && k->id == m_exp[name], "first-wins", "the exporter of '" + name + "' is not the one first registered"); }
                else { bool ok = false; try { pm.exporter(name); } catch (PluginNotFound&) { ok = true; } catch (...) {} CK(c, ok, "not-found", "an unknown exporter is reported as " + e); }
            }
            else if (op == 2)
            {
                Reg x = { "ied"[r.below(3)], name, id++ };
                apply(pm, x);
            }
            else if (op == 3)
            {
                g_deftrace.clear();
                std::unique_ptr<Registry> made; std::string e = caught([&]{ made.reset(new Registry); });
                CK(c, made.get(), "type-definitions", "no registry can be made: " + e);
                Registry& reg = *made;
                CK(c, g_deftrace == m_def, "type-definitions", "the type definitions are not applied once each, in order, to a new registry");
                g_deftrace.clear();
                e = caught([&]{ pm.registerPluginTypes(reg); });
                CK(c, e.empty() && g_deftrace == m_def, "type-definitions", "the type definitions are not applied once each, in order " + e);
                for (size_t i = 0; i < m_def.size(); ++i) CK(c, reg.has("/def" + str(m_def[i])), "type-definitions", "types of a plugin are not registered");
            }
            else if (op < 7)
            {
                // imports through the static interface, into new and existing registries, from streams and files
                bool has = m_imp.count(name);
                bool file = r.chance(1, 2), into = r.chance(1, 2), cfg = r.chance(1, 2), missing = file && r.chance(1, 4);
                g_fault = r.chance(2, 3) ? OK : Fault(r.range(1, 3));
                std::string text = "text" + str(r.below(1000)), fn = "import.txt";
                if (file && !missing) { std::ofstream o(fn.c_str()); o << text; }
                if (missing) fn = "missing.txt";
                std::istringstream s(text);
                utilmm::config_set k; if (cfg) k.set("key", "value");
                Registry dest; std::unique_ptr<Registry> fresh;
                size_t before = dest.size();
                g_seen = ""; g_last_id = 0;
                int outcome = 0; std::string what;
                try
                {
                    if (into) { if (file) { if (cfg) PluginManager::load(name, fn, k, dest); else PluginManager::load(name, fn, dest); }
                                else { if (cfg) PluginManager::load(name, s, k, dest); else PluginManager::load(name, s, dest); } }
                    else { if (file) fresh.reset(cfg ? PluginManager::load(name, fn, k) : PluginManager::load(name, fn));
                           else fresh.reset(cfg ? PluginManager::load(name, s, k) : PluginManager::load(name, s)); }
                    outcome = 1;
                }
                catch (PluginNotFound& e) { outcome = 2; }
                catch (ImportError& e) { outcome = 3; what = e.what(); }
                catch (std::logic_error& e) { outcome = 4; }
                catch (int) { outcome = 5; }
                catch (std::exception& e) { outcome = 6; what = e.what(); }
                int want = !has ? 2 : missing ? 3 : g_fault == OK ? 1 : g_fault == THROW_STD ? 4 : g_fault == THROW_IMPORT ? 3 : 5;
                CK(c, outcome == want, "import-outcome", "importing with '" + name + "' ends with outcome " + str(outcome) + " (" + what + "), expected " + str(want));
                if (has && !missing)
                {
                    CK(c, g_last_id == m_imp[name], "first-wins", "imports go to another plugin than the first registered");
                    CK(c, g_seen == text + (cfg ? "|value" : "|none"), "import-input", "the importer is given '" + g_seen + "'");
                }
                if (outcome == 1) CK(c, (into ? dest : *fresh).has("/imported" + str(m_imp[name])), "import-result", "what was imported is not in the registry");
                if (into && outcome != 1 && !(has && !missing)) CK(c, dest.size() == before, "import-result", "a refused import changes the registry: " + str(outcome) + " " + name);
                g_fault = OK;
                c.count(outcome == 1 ? "imports" : "imports that fail");
            }
            else if (op == 7)
            {
                bool has = m_exp.count(name);
                g_fault = r.chance(2, 3) ? OK : Fault(r.range(1, 3));
                Registry reg; reg.add(new Numeric("/n", 4, Numeric::SInt), true, "");
                utilmm::config_set k; std::string text; int outcome = 0;
                try
                {
                    std::ostringstream s;
                    switch (r.below(4))
                    {
                        case 0: text = PluginManager::save(name, reg); break;
                        case 1: text = PluginManager::save(name, k, reg); break;
                        case 2: PluginManager::save(name, reg, s); text = s.str(); break;
                        case 3: PluginManager::save(name, k, reg, s); text = s.str(); break;
                    }
                    outcome = 1;
                }
                catch (PluginNotFound&) { outcome = 2; }
                catch (ImportError&) { outcome = 3; }
                catch (std::logic_error&) { outcome = 4; }
                catch (int) { outcome = 5; }
                catch (std::exception& e) { outcome = 6; }
                int want = !has ? 2 : g_fault == OK ? 1 : g_fault == THROW_STD ? 4 : g_fault == THROW_IMPORT ? 3 : 5;
                CK(c, outcome == want, "export-outcome", "exporting with '" + name + "' ends with outcome " + str(outcome) + ", expected " + str(want));
                if (outcome == 1) CK(c, text == "begin" + str(m_exp[name]) + "\n/n\nend\n", "export-output", "the document is '" + text + "'");
                g_fault = OK;
                c.count(outcome == 1 ? "exports" : "exports that fail");
            }
            else
            {
                // more uses of the same manager, some of them outliving the first
                if (r.chance(1, 2)) more.push_back(PluginManager::self());
                else if (!more.empty()) more.pop_back();
                if (!more.empty()) CK(c, &*more.back() == &pm, "another-manager", "there are two plugin managers");
            }
            CK(c, g_bad.empty(), "registration", g_bad);
            CK(c, g_live_objects == o0, "importers-kept", "importers or exporters are not destroyed after use");
            CK(c, g_live_plugins - p0 == long(m_imp.size() + m_exp.size() + m_def.size()), "plugins", str(g_live_plugins - p0) + " plugins exist, expected " + str(m_imp.size() + m_exp.size() + m_def.size()));
        }
        if (real) { std::unique_ptr<Importer> i; std::string e = caught([&]{ i.reset(pm.importer("tlb")); }); CK(c, bool(i), "not-loaded", "the tlb plugin is in the search path but not available: " + e); }
        if (!more.empty()) { self.reset(); CK(c, &*more.back() == &pm, "another-manager", "the manager does not survive with its uses"); CK(c, g_live_plugins - p0 == long(m_imp.size() + m_exp.size() + m_def.size()), "plugins", "plugins are destroyed while the manager is used"); }
    }
    CK(c, g_live_plugins == p0, "plugins-kept", "plugins are not destroyed with the manager");
    c.count("plugin managers"); c.count("stub plugins loaded", g_entered.size());
    if (m_imp.size() + m_exp.size() + m_def.size() >= 2) c.sig(vh_hash(path + d + trace));
    c.sample("path " + (unset ? "unset" : path) + "; " + d + trace);
}

void vh_case(Ctx& c) { if (c.rng.chance(1, 2)) singletons(c); else manager(c); }
