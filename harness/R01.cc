// R01: names, lookups, namespaces, aliases and iteration
#include "model.hh"
#include <algorithm>
using namespace Typelib;

const char* vh_rule = "one case = a random history of 15 to 45 operations on a registry (adding types and derived types, aliasing by any name, removing types and aliases, choosing a default namespace, "
    "importing namespaces, source IDs, invalid and repeated names), after each of which every name that was ever used, absolute or relative to any namespace, is looked up, the types are listed, "
    "also by prefix, and compared with a reference map; distinct by history; non-trivial when the default namespace changed and a relative name was hidden or uncovered";
bool vh_check_leaks = true;
void vh_setup(Ctx&) { vh_hold_plugins(); }

struct MEntry { Type const* t; bool persistent; std::string source; };
struct Less { bool operator()(std::string const& a, std::string const& b) const
{
    // members of a namespace come before what follows it: '/' is smaller than all other characters
    for (size_t i = 0; i < a.size() && i < b.size(); ++i) if (a[i] != b[i]) return a[i] == '/' ? true : b[i] == '/' ? false : a[i] < b[i];
    return a.size() < b.size();
} };
typedef std::set<Type const*> Allowed;     // what a relative name can lead to; 0 for nothing
struct Model
{
    std::map<std::string, MEntry, Less> names;
    std::vector<std::string> path;          // innermost last, with trailing '/'
    std::map<std::string, Allowed> rel;     // relative names where imports have a say; others follow the path
    std::set<std::string> imported;
    Type const* abs(std::string const& n) const { std::map<std::string, MEntry, Less>::const_iterator i = names.find(n); return i == names.end() ? 0 : i->second.t; }
    Type const* by_path(std::string const& r) const
    { for (size_t i = path.size(); i > 0; --i) if (Type const* t = abs(path[i - 1] + r)) return t; return 0; }
    Allowed relative(std::string const& r) const
    {
        std::map<std::string, Allowed>::const_iterator i = rel.find(r);
        if (i != rel.end()) return i->second;
        Allowed a; a.insert(by_path(r)); return a;
    }
};

static std::vector<std::string> const bases = { "x", "y", "Foo", "T</A/x>", "V</int,4>", "a b", "x2" };
static std::vector<std::string> const spaces = { "/", "/A/", "/A/B/", "/A/A/", "/B/", "/A/B/C/", "/T</A/x>/", "/A/AB/", "/z/", "/A/B/B/" };
static std::vector<std::string> const bad = { "", "x", "A/x", "/A//x", "/A/", "/A/x]", "/A/x<", "/A/!x", "/A/x>y" };

struct World1
{
    Ctx& c; Registry reg; Model m; std::string log; std::set<std::string> ever, ever_rel; int hidden; bool ns_changed;
    World1(Ctx& c_) : c(c_), hidden(0), ns_changed(false) { m.path.push_back("/"); for (RegistryIterator i = reg.begin(); i != reg.end(); ++i) { MEntry e = { &*i, i.isPersistent(), i.getSource() }; m.names[i.getName()] = e; used(i.getName()); } }
    std::string name() { return c.rng.pick(spaces) + c.rng.pick(bases); }
    void used(std::string const& n)
    {
        if (!ever.insert(n).second) return;
        for (size_t i = 0; i < spaces.size(); ++i) if (n.compare(0, spaces[i].size(), spaces[i]) == 0 && n.size() > spaces[i].size()) ever_rel.insert(n.substr(spaces[i].size()));
    }
    // some name by which the model says that a type can be reached
    std::string reachable()
    {
        std::vector<std::string> k;
        for (auto const& e : m.names) k.push_back(e.first);
        for (auto const& r : ever_rel) { Allowed a = m.relative(r); if (a.size() == 1 && *a.begin()) k.push_back(r); }
        return k.empty() ? "/none" : c.rng.pick(k);
    }
    Type const* resolve(std::string const& n) { if (n[0] == '/') return m.abs(n); Allowed a = m.relative(n); return a.size() == 1 ? *a.begin() : 0; }
    void added(std::string const& n, Type const* t, bool persistent, std::string const& src)
    {
        MEntry e = { t, persistent, src };
        // relative names that imports reached before, and that the new type now competes for
        for (size_t i = 0; i < m.path.size(); ++i)
            if (n.compare(0, m.path[i].size(), m.path[i]) == 0 && n.size() > m.path[i].size())
            {
                std::string r = n.substr(m.path[i].size());
                Type const* before = m.by_path(r);
                auto it = m.rel.find(r);
                if (it != m.rel.end()) it->second.insert(t);        // left open which one has priority
                else if (before) ++hidden;
            }
        m.names[n] = e; used(n);
    }
    // aliases carry over to the pointers and arrays
    void trigger(Type const* d)
    {
        Indirect const* i = dynamic_cast<Indirect const*>(d);
        if (!i) return;
        std::string suffix = d->getName().substr(i->getIndirection().getName().size());
        std::set<std::string> al;
        for (auto const& e : m.names) if (e.second.t == &i->getIndirection() && e.first != e.second.t->getName()) al.insert(e.first);
                for (auto const& a : al) if (!m.abs(a + suffix)) { added(a + suffix, d, false, ""); c.count("derived aliases"); dependents(d); }
    }
    void dependents(Type const* t)
    {
        std::vector<Type const*> ds;
        for (auto const& e : m.names) if (e.first == e.second.t->getName()) if (Indirect const* i = dynamic_cast<Indirect const*>(e.second.t)) if (&i->getIndirection() == t) ds.push_back(i);
        for (auto d : ds) trigger(d);
    }
    // after types or aliases went away (imports were computed before)
    void erased(std::set<Type const*> const& gone)
    {
        for (auto it = m.rel.begin(); it != m.rel.end(); ++it)
        {
            Allowed a;
            for (auto t : it->second) if (t && !gone.count(t)) a.insert(t);
            a.insert(m.by_path(it->first));
            for (auto const& ns : m.imported) if (Type const* t = m.abs(ns + it->first)) a.insert(t);
            it->second = a;
        }
    }
    void check(bool full)
    {
        for (auto const& n : ever)
        {
            Type const* want = m.abs(n);
            Type const* got = reg.get(n);
            CK(c, got == want, "lookup", log + "\nlooking up " + n + " finds " + (got ? got->getName() : "nothing"));
            CK(c, reg.has(n, false) == (want != 0), "has", log + "\nhas(" + n + ") differs from what is there");
            RegistryIterator it = reg.find(n);
            CK(c, (it != reg.end()) == (want != 0) && (!want || (&*it == want && it.getName() == n)), "find", log + "\nfind(" + n + ") differs");
        }
        for (auto const& r : ever_rel)
        {
            Allowed a = m.relative(r);
            Type const* got = reg.get(r);
            CK(c, a.count(got), "relative-lookup", log + "\nlooking up " + r + " from " + m.path.back() + " finds " + (got ? got->getName() : "nothing") + " instead of " + (*a.rbegin() ? (*a.rbegin())->getName() : "nothing"));
            CK(c, reg.has(r, false) == (got != 0), "has", log + "\nhas(" + r + ") differs from what can be looked up");
            c.count("relative lookups");
            if (a.size() > 1) c.count("left open by imports");
        }
        CK(c, reg.size() == m.names.size(), "size", log + "\nthere are " + str(reg.size()) + " types instead of " + str(m.names.size()));
        RegistryIterator it = reg.begin();
        for (auto const& e : m.names)
        {
            CK(c, it != reg.end(), "iteration", log + "\nthe list of types ends before " + e.first);
            CK(c, it.getName() == e.first && &*it == e.second.t && &it.aliased() == e.second.t, "iteration", log + "\nthe list of types has " + it.getName() + " where " + e.first + " is expected");
            CK(c, it.isAlias() == (e.second.t->getName() != e.first) && it.isPersistent() == e.second.persistent && it.getSource() == e.second.source, "flags", log + "\n" + e.first + " has other flags or source (" + it.getSource() + ")");
            ++it;
        }
        CK(c, it == reg.end(), "iteration", log + "\nthe list of types goes on");
        if (!full) return;
        std::string p = c.rng.pick(spaces);
        switch (c.rng.range(0, 3)) { case 0: p.resize(p.size() - 1); break; case 1: p += c.rng.pick(bases).substr(0, 1); break; case 2: if (!m.names.empty()) { auto i = m.names.begin(); std::advance(i, c.rng.below(m.names.size())); p = i->first; } break; }
        std::vector<std::string> want, got;
        for (auto const& e : m.names) if (e.first.compare(0, p.size(), p) == 0) want.push_back(e.first);
        RegistryIterator e = reg.end(p);
        for (RegistryIterator i = reg.begin(p); i != e; ++i) { got.push_back(i.getName()); if (got.size() > m.names.size()) break; }
        CK(c, want == got, "prefix", log + "\nlisting the types that start with '" + p + "' gives " + str(got.size()) + " types instead of " + str(want.size()));
        c.count("prefix listings");
        if (!m.names.empty())
        {
            auto i = m.names.begin(); std::advance(i, c.rng.below(m.names.size()));
            std::set<std::string> al;
            for (auto const& f : m.names) if (f.second.t == i->second.t && f.first != i->second.t->getName()) al.insert(f.first);
            CK(c, reg.getAliasesOf(*i->second.t) == al, "aliases", log + "\nother aliases of " + i->second.t->getName());
            CK(c, reg.isIncluded(*i->second.t), "included", log + "\n" + i->second.t->getName() + " is said not to be included");
        }
        Numeric foreign("/A/x", 4, Numeric::SInt);
        CK(c, !reg.isIncluded(foreign), "included", log + "\na type of the same name is said to be included");
        std::string ns = m.path.back();
        CK(c, reg.getDefaultNamespace() == ns, "namespace", log + "\nthe default namespace is " + reg.getDefaultNamespace());
        CK(c, reg.getFullName("q") == ns + "q" && reg.getFullName("/A/q") == "/A/q", "full-name", log + "\nfull names are not relative to " + ns);
    }
    void op()
    {
        std::string err, l;
        int w = c.rng.range(0, 99);
        if (w < 30)
        {
            bool invalid = c.rng.chance(1, 8);
            std::string n = invalid ? c.rng.pick(bad) : name();
            std::vector<Type const*> ts;
            for (auto const& e : m.names) if (e.first == e.second.t->getName()) ts.push_back(e.second.t);
            std::unique_ptr<Type> t;
            if (!ts.empty() && c.rng.chance(1, 4)) { Compound* k = new Compound(n); t.reset(k); k->addField("f", *c.rng.pick(ts), 0); }
            else if (c.rng.chance(1, 2)) t.reset(new Numeric(n, 4, Numeric::SInt)); else t.reset(new OpaqueType(n, 8));
            bool given = c.rng.chance(1, 3), pers = c.rng.chance(1, 2);
            std::string src = c.rng.chance(1, 3) ? "src" + str(c.rng.below(3)) : "";
            log += "\nadd " + n; c.desc(log);
            err = caught([&] { if (given) reg.add(t.get(), pers, src); else reg.add(t.get(), src); });
            bool ok = !invalid && !m.abs(n);
            CK(c, err.empty() == ok, "add", log + "\nthe type is " + (ok ? "refused: " + err : "accepted"));
            if (ok) { added(n, t.get(), given ? pers : true, src); t.release(); c.count("added"); }
            else c.count("refused");
            if (!ok && !invalid) { std::string e2 = caught([&] { reg.add(const_cast<Type*>(m.abs(n))); }); bool prim = m.abs(n)->getName() == n; if (prim) CK(c, e2.empty(), "add-again", log + "\nadding the very same type again is refused: " + e2); trigger(m.abs(n)); }
        }
        else if (w < 40)
        {
            std::string n = reachable();
            if (c.rng.chance(2, 3)) while (n.size() > 1 && (n.back() == '*' || n.back() == ']')) n.resize(n.back() == '*' ? n.size() - 1 : n.rfind('['));
            for (int k = c.rng.range(1, 2); k > 0; --k) n += c.rng.chance(1, 2) ? "[" + str(c.rng.range(0, 4)) + "]" : "*";
            // known as such, or derived from what the rest of the name means
            Type const* t = 0; std::vector<std::string> mods;
            if (n[0] == '/') t = m.abs(n);
            else { Allowed a = m.relative(n); if (a.size() != 1) return; t = *a.begin(); }
            if (!t)
            {
                std::string b = n;
                while (b.back() == '*' || b.back() == ']') { size_t p = b.back() == '*' ? b.size() - 1 : b.rfind('['); mods.insert(mods.begin(), b.substr(p)); b.resize(p); }
                t = resolve(b);
                if (!t) return;
            }
            log += "\nbuild " + n; c.desc(log);
            CK(c, reg.has(n), "has-derived", log + "\nhas says that it cannot be");
            Type const* r = 0;
            err = caught([&] { r = reg.build(n); });
            CK(c, err.empty() && r, "build", log + "\nis refused: " + err);
            for (auto const& x : mods)
            {
                std::string nm = t->getName() + x;
                Type const* have = m.abs(nm), *now = reg.get(nm);
                CK(c, now, "build", log + "\ndoes not build " + nm);
                if (!have)
                {
                    Pointer const* p = dynamic_cast<Pointer const*>(now); Array const* a = dynamic_cast<Array const*>(now);
                    CK(c, now->getName() == nm && (x == "*" ? p && p->getIndirection() == *t : a && a->getIndirection() == *t && "[" + str(a->getDimension()) + "]" == x), "build-type", log + "\nbuilds something else");
                    added(nm, now, false, ""); trigger(now);
                }
                t = now;
            }
            CK(c, r == t, "build-name", log + "\ngives " + r->getName() + " instead of " + t->getName());
            c.count("built");
        }
        else if (w < 57)
        {
            bool unknown = c.rng.chance(1, 8), invalid = c.rng.chance(1, 8);
            std::string b = unknown ? "/z/unknown" : reachable(), n = invalid ? c.rng.pick(bad) : name();
            Type const* t = resolve(b);
            if (!unknown && !t) return;
            bool given = c.rng.chance(1, 2), pers = c.rng.chance(1, 2);
            std::string src = c.rng.chance(1, 3) ? "src" + str(c.rng.below(3)) : "";
            log += "\nalias " + n + " of " + b; c.desc(log);
            err = caught([&] { if (given) reg.alias(b, n, pers, src); else reg.alias(b, n, src); });
            bool ok = t && !invalid && (!m.abs(n) || m.abs(n) == t);
            CK(c, err.empty() == ok, "alias", log + "\nthe alias is " + (ok ? "refused: " + err : "accepted"));
            if (ok && !m.abs(n)) { added(n, t, given ? pers : true, src); c.count("aliases"); }
            if (ok) dependents(t);
        }
        else if (w < 64)
        {
            std::vector<std::string> al, all;
            for (auto const& e : m.names) { all.push_back(e.first); if (e.first != e.second.t->getName()) al.push_back(e.first); }
            std::string n = al.empty() || c.rng.chance(1, 5) ? (all.empty() || c.rng.chance(1, 2) ? "/z/unknown" : c.rng.pick(all)) : c.rng.pick(al);
            bool ok = std::find(al.begin(), al.end(), n) != al.end();
            log += "\nremoveAlias " + n; c.desc(log);
            err = caught([&] { reg.removeAlias(n); });
            CK(c, err.empty() == ok, "remove-alias", log + "\nis " + (ok ? "refused: " + err : "accepted"));
            if (ok) { m.names.erase(n); erased(std::set<Type const*>()); open_imports(); c.count("aliases removed"); }
        }
        else if (w < 66)
        {
            log += "\nclearAliases"; c.desc(log);
            reg.clearAliases();
            for (auto i = m.names.begin(); i != m.names.end();) if (i->first != i->second.t->getName()) m.names.erase(i++); else ++i;
            erased(std::set<Type const*>()); open_imports(); c.count("aliases cleared");
        }
        else if (w < 74)
        {
            if (m.names.empty()) return;
            auto i = m.names.begin(); std::advance(i, c.rng.below(m.names.size()));
            std::set<Type const*> gone; gone.insert(i->second.t);
            for (size_t n = 0; n != gone.size();)
            {
                n = gone.size();
                for (auto const& e : m.names)
                {
                    if (Compound const* k = dynamic_cast<Compound const*>(e.second.t)) { if (!k->getFields().empty() && gone.count(&k->getFields().front().getType())) gone.insert(k); }
                    else if (Indirect const* d = dynamic_cast<Indirect const*>(e.second.t)) { if (gone.count(&d->getIndirection())) gone.insert(d); }
                }
            }
            log += "\nremove " + i->first; c.desc(log);
            std::set<Type*> r = reg.remove(*i->second.t);
            bool same = std::set<Type const*>(r.begin(), r.end()) == gone;
            for (auto const& g : gone) for (size_t p = 0; p < m.path.size(); ++p) if (g->getName().compare(0, m.path[p].size(), m.path[p]) == 0)
            { std::string q = g->getName().substr(m.path[p].size()); for (size_t o = 0; o < p; ++o) if (m.abs(m.path[o] + q)) ++hidden; }
            for (auto j = m.names.begin(); j != m.names.end();) if (gone.count(j->second.t)) m.names.erase(j++); else ++j;
            erased(gone);
            CK(c, same, "remove", log + "\nanother set of types is removed");
            for (auto t : r) delete t;
            c.count("removed", r.size());
        }
        else if (w < 86)
        {
            bool invalid = c.rng.chance(1, 8);
            static char const* const bn[] = { "A", "", "/A/!", "/A[2]" };
            std::string n = invalid ? bn[c.rng.below(4)] : c.rng.pick(spaces);
            if (!invalid && n.size() > 1 && c.rng.chance(1, 2)) n.resize(n.size() - 1);
            log += "\nsetDefaultNamespace " + n; c.desc(log);
            bool ok = reg.setDefaultNamespace(n);
            bool templ = n.find('<') != std::string::npos;
            CK(c, ok == !invalid || templ, "namespace", log + "\nis " + (ok ? "accepted" : "refused"));
            if (!ok) return;
            if (n[n.size() - 1] != '/') n += "/";
            m.path.assign(1, "/"); m.rel.clear(); m.imported.clear();
            if (n == "/T</A/x>/") m.path.push_back(n);
            else for (size_t p = 1; p < n.size(); ++p) if (n[p] == '/') m.path.push_back(n.substr(0, p + 1));
            ns_changed = true;
            c.count("default namespaces");
        }
        else if (w < 95)
        {
            std::string n = c.rng.pick(spaces); bool erase = c.rng.chance(1, 2);
            log += std::string("\nimportNamespace ") + n + (erase ? " (erase)" : ""); c.desc(log);
            reg.importNamespace(c.rng.chance(1, 2) ? n : n.size() > 1 ? n.substr(0, n.size() - 1) : n, erase);
            for (auto const& e : m.names)
                if (e.first.compare(0, n.size(), n) == 0 && e.first.size() > n.size())
                {
                    std::string r = e.first.substr(n.size());
                    ever_rel.insert(r);
                    Allowed a = m.relative(r), x;
                    if (erase) x.insert(e.second.t);
                    else { x = a; if (x.count(0)) { x.erase(0); x.insert(e.second.t); } }
                    m.rel[r] = x;
                }
            m.imported.insert(n);
            c.count("imports");
        }
        else
        {
            if (m.names.empty()) return;
            auto i = m.names.begin(); std::advance(i, c.rng.below(m.names.size()));
            std::string s = "new" + str(c.rng.below(3));
            log += "\nsetSourceID " + i->first; c.desc(log);
            reg.setSourceID(*i->second.t, s);
            m.names[i->second.t->getName()].source = s;
            CK(c, i->second.t->getMetaData().get("source_id") == std::set<std::string>{ s }, "source", log + "\nthe metadata has another source");
        }
    }
    // whether imports outlive the removal of an alias is left open
    void open_imports() { for (auto& r : m.rel) r.second.insert(m.by_path(r.first)); }
};

void vh_case(Ctx& c)
{
    World1 w(c);
    for (int i = c.rng.range(15, 45); i > 0; --i) { w.op(); w.check(c.rng.chance(1, 3)); c.count("steps"); }
    w.check(true);
    if (c.rng.chance(1, 8)) { w.reg.clear(); w.m.names.clear(); w.m.rel.clear(); w.check(false); c.count("cleared"); }
    if (w.ns_changed && w.hidden) { c.sig(vh_hash(w.log)); c.count("with hidden names"); c.sample(w.log.substr(0, 500)); }
}
