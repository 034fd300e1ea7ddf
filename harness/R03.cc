// R03: minimal registries
#include "graph.hh"
using namespace Typelib;

const char* vh_rule = "one case = a registry built from parts of a random graph of types (recursive ones, aliases, sources, metadata), from which the minimal registries of up to 4 types "
    "(by name or alias, with and without aliases) or of what another registry does not have are extracted and compared with the closure computed by the model; "
    "the registry is then destroyed and the extracted ones used; distinct by registry and extraction; non-trivial when types are both kept and left out";
bool vh_check_leaks = true;
void vh_setup(Ctx&) { vh_hold_plugins(); }

typedef std::unique_ptr<Registry> RP;
static std::string base_name(std::string n)
{
    while (!n.empty())
    {
        char e = n[n.size() - 1];
        if (e == '*') n.resize(n.size() - 1);
        else if (e == ']') n.resize(n.find_last_of('['));
        else break;
    }
    return n;
}
static std::set<GNode*> reach(GNode* n, std::set<GNode*> seen = std::set<GNode*>()) { std::set<GNode*> c = closure(n); seen.insert(c.begin(), c.end()); return seen; }

struct Want { std::set<std::string> types; bool aliases; std::set<std::string> skip; std::string what; };

static void check(Ctx& c, Snap const& s0, Registry const& m, Want const& w)
{
    Snap r(m);
    CK(c, r.closed().empty(), "not-closed", w.what + " leads to " + r.closed() + ", which it does not have");
    for (std::set<std::string>::const_iterator i = w.types.begin(); i != w.types.end(); ++i)
    {
        Snap::Entry const* e = r.find(*i), *o = s0.find(*i);
        CK(c, e && !e->alias, "missing", w.what + " lacks " + *i);
        CK(c, e->type != o->type, "shared", w.what + " shares the type " + *i + " with the registry it comes from");
        std::string d = diff_nodes(o->node, e->node, true, true);
        CK(c, d.empty(), "differs", w.what + ": " + d);
        CK(c, e->source == o->source, "source-id", w.what + ": " + *i + " has source '" + e->source + "' instead of '" + o->source + "'");
    }
    for (std::map<std::string, Snap::Entry>::const_iterator i = r.names.begin(); i != r.names.end(); ++i)
    {
        Snap::Entry const& e = i->second;
        if (!e.alias) { CK(c, w.types.count(i->first), "not-minimal", w.what + " has " + i->first + ", which it does not need"); continue; }
        Snap::Entry const* o = s0.find(i->first);
        if (e.node->elem && !e.persistent) { c.count("derived aliases"); CK(c, !o || o->node->name == e.node->name, "alias-base", i->first + " stands for another type"); continue; }
        CK(c, w.aliases && o && o->alias && !w.skip.count(i->first), "spurious-alias", w.what + " has the alias " + i->first);
    }
    if (w.aliases) for (std::map<std::string, Snap::Entry>::const_iterator i = s0.names.begin(); i != s0.names.end(); ++i)
    {
        if (!i->second.alias || w.skip.count(i->first)) continue;
        Snap::Entry const* e = r.find(i->first), *b = r.find(i->second.node->name);
        if (!w.types.count(i->second.node->name)) { CK(c, !e, "spurious-alias", w.what + " has the alias " + i->first + " of a type that it does not have"); continue; }
        CK(c, e && e->alias && e->type == b->type, "missing-alias", w.what + " lacks the alias " + i->first);
        if (!e->node->elem) CK(c, e->persistent == i->second.persistent && e->source == i->second.source, "alias-flags", w.what + ": the alias " + i->first + " has other flags or source");
        c.count("aliases kept");
    }
    check_vectors(c, m);
    c.count("types kept", w.types.size());
}

void vh_case(Ctx& c)
{
    GOpts o; o.ntypes = c.rng.range(2, 9); o.metadata = c.rng.chance(1, 2); o.nulls = c.rng.chance(1, 6); o.weird_names = c.rng.chance(1, 3); o.namespaces = c.rng.chance(2, 3);
    Graph a; a.generate(c.rng, o);
    std::vector<GNode*> ra, rb;
    for (size_t i = 0; i < a.nodes.size(); ++i) if (c.rng.chance(1, 2)) ra.push_back(a.nodes[i].get());
    RP S(new Registry);
    a.build(*S, ra);
    static char const* const n[] = { "/alias_a", "/A/alias_b", "/B/alias_c", "/alias d", "/T1/alias_e" };
    std::vector<std::string> al;
    for (int i = 0; i < 5; ++i) if (c.rng.chance(1, 3)) al.push_back(n[i]);
    dress_registry(c.rng, *S, al, c.rng.chance(1, 2), o.metadata);
    if (c.rng.chance(1, 4)) S->setDefaultNamespace("/A/B");
    std::string d;
    { std::ostringstream s; for (size_t i = 0; i < ra.size(); ++i) s << " " << describe(ra[i]).substr(0, 200); d = s.str(); }
    c.desc(d);
    std::unique_ptr<Snap> s0(new Snap(*S));
    size_t prim = 0;
    std::vector<std::string> names;
    for (std::map<std::string, Snap::Entry>::iterator i = s0->names.begin(); i != s0->names.end(); ++i) { names.push_back(i->first); if (!i->second.alias) ++prim; }
    std::string e = caught([&] { RP m(S->minimal("/not/there")); });
    CK(c, !e.empty(), "unknown-accepted", "there is a minimal registry of a type that does not exist");
    if (names.empty()) return;
    std::vector<std::pair<RP, Want> > out;
    bool partial = false;
    for (int i = c.rng.range(1, 3); i > 0; --i)
    {
        std::string nm = c.rng.pick(names);
        Want w; w.aliases = c.rng.chance(1, 2);
        w.what = "the minimal registry of " + nm + (w.aliases ? "" : " without aliases");
        std::set<GNode*> k = reach(s0->names[nm].node);
        for (std::set<GNode*>::iterator j = k.begin(); j != k.end(); ++j) w.types.insert((*j)->name);
        bool byrel = c.rng.chance(1, 4);
        RP m(S->minimal(byrel ? nm.substr(1) : nm, w.aliases));
        if (byrel && S->get(nm.substr(1)) != s0->names[nm].type) continue;      // shadowed
        c.count("by name");
        if (w.types.size() < prim) { partial = true; c.sig(vh_hash(nm, vh_hash(d))); }
        out.push_back(std::make_pair(std::move(m), w));
    }
    {
        // what another registry does not have
        Graph b; clone_graph(a, b);
        for (size_t i = 0; i < b.nodes.size(); ++i) if (c.rng.chance(1, 5)) rb.push_back(b.nodes[i].get());
        RP A(new Registry);
        b.build(*A, rb);
        std::vector<std::string> mine;
        for (size_t i = 0; i < al.size(); ++i) if (c.rng.chance(1, 2)) mine.push_back(al[i]);
        if (c.rng.chance(1, 6)) mine.push_back(c.rng.pick(names));
        dress_registry(c.rng, *A, mine, false, false);
        Snap a0(*A);
        Want w; w.aliases = true;
        bool keep = c.rng.chance(1, 2);
        w.what = std::string("the minimal registry of what another lacks") + (keep ? ", its aliases kept" : "");
        for (std::map<std::string, Snap::Entry>::iterator i = s0->names.begin(); i != s0->names.end(); ++i)
        {
            bool there = a0.find(i->first) || a0.find(base_name(i->first));
            if (i->second.alias) { if (!keep && there) w.skip.insert(i->first); continue; }
            if (there) continue;
            std::set<GNode*> k = reach(i->second.node);
            for (std::set<GNode*>::iterator j = k.begin(); j != k.end(); ++j) w.types.insert((*j)->name);
        }
        RP m(S->minimal(*A, keep));
        std::string diff = diff_snaps(a0, Snap(*A));
        CK(c, diff.empty(), "other-changed", "the registry compared with is changed: " + diff);
        c.count("by registry");
        if (!w.types.empty() && w.types.size() < prim) { partial = true; c.sig(vh_hash(w.what + str(w.types.size()), vh_hash(d))); }
        out.push_back(std::make_pair(std::move(m), w));
    }
    std::string diff = diff_snaps(*s0, Snap(*S));
    CK(c, diff.empty(), "changed", "extracting changes the registry: " + diff);
    std::vector<Want> ws;
    for (size_t i = 0; i < out.size(); ++i) check(c, *s0, *out[i].first, out[i].second);
    S.reset();
    for (size_t i = 0; i < out.size(); ++i) check(c, *s0, *out[i].first, out[i].second);   // the entries' type pointers dangle here but are only compared
    if (partial) { c.count("partial"); c.sample(d.substr(0, 400)); }
}
