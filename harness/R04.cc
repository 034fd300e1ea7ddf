// R04: resizing types of a registry
#include "graph.hh"
using namespace Typelib;

const char* vh_rule = "one case = a registry of random types (recursive ones, arrays, containers, aliases), resized 1 to 3 times by random sets of types named by name, relative name or alias, "
    "now and then with an unknown name; every size, offset and dimension afterwards compared with those propagated by the model, everything else with what it was; "
    "distinct by registry and sizes; non-trivial when a field moves or an array grows";
bool vh_check_leaks = true;
void vh_setup(Ctx&) { vh_hold_plugins(); }

typedef std::map<GNode const*, size_t> Sizes;
static size_t new_size(GNode const* n, Sizes const& ex)
{
    Sizes::const_iterator i = ex.find(n);
    if (i != ex.end()) return i->second;
    if (n->k == GARR) return n->dim * new_size(n->elem, ex);
    size_t s = n->size;
    for (size_t f = 0; n->k == GCOMP && f < n->fields.size(); ++f) s += new_size(n->fields[f].type, ex) - n->fields[f].type->size;
    return s;
}
static bool holds(GNode const* n, std::set<GNode const*> const& set)    // by value
{
    if (set.count(n)) return true;
    if (n->k == GARR) return holds(n->elem, set);
    for (size_t f = 0; n->k == GCOMP && f < n->fields.size(); ++f) if (holds(n->fields[f].type, set)) return true;
    return false;
}
void vh_case(Ctx& c)
{
    GOpts o; o.ntypes = c.rng.range(2, 9); o.nulls = c.rng.chance(1, 8); o.weird_names = c.rng.chance(1, 3); o.namespaces = c.rng.chance(2, 3);
    Graph a; a.generate(c.rng, o);
    Registry reg;
    a.build(reg);
    std::vector<std::string> al; al.push_back("/alias_a"); al.push_back("/A/alias_b");
    dress_registry(c.rng, reg, al, c.rng.chance(1, 2), true);
    if (c.rng.chance(1, 4)) reg.setDefaultNamespace("/A");
    std::string d;
    { std::ostringstream s; for (size_t i = 0; i < a.nodes.size(); ++i) if (a.nodes[i]->k == GCOMP) s << " " << describe(a.nodes[i].get()).substr(0, 200); d = s.str(); }
    c.desc(d);
    for (int round = c.rng.range(1, 3); round > 0; --round)
    {
        Snap s0(reg);
        std::vector<GNode const*> can;
        std::map<GNode const*, std::vector<std::string> > called;
        for (std::map<std::string, Snap::Entry>::iterator i = s0.names.begin(); i != s0.names.end(); ++i)
        {
            called[i->second.node].push_back(i->first);
            if (i->first[0] == '/' && reg.get(i->first.substr(1)) == i->second.type) called[i->second.node].push_back(i->first.substr(1));
            if (!i->second.alias && i->second.node->k != GARR && i->second.node->k != GNULL) can.push_back(i->second.node);
        }
        if (can.empty()) return;
        Sizes ex; std::set<GNode const*> set; std::map<std::string, size_t> names;
        for (int i = c.rng.range(1, 4); i > 0; --i)
        {
            GNode const* n = c.rng.pick(can);
            // whether fields of a compound of explicit size move is left open
            if (set.count(n) || (n->k == GCOMP && holds(n, set))) continue;
            bool inside = false;
            for (std::set<GNode const*>::iterator j = set.begin(); j != set.end(); ++j) { std::set<GNode const*> one; one.insert(n); inside |= (*j)->k == GCOMP && holds(*j, one); }
            if (inside) continue;
            static size_t const ns[] = { 1, 2, 4, 8 };
            size_t sz = n->k == GNUM || n->k == GENUM ? ns[c.rng.below(4)] : n->k == GCOMP ? n->size + c.rng.below(20) : n->k == GOPQ || n->k == GPTR ? c.rng.range(1, 40) : c.rng.chance(1, 4) ? 4 * c.rng.range(1, 12) : n->size;
            if (n->k == GENUM && n->size == sizeof(int) && c.rng.chance(1, 2)) sz = sizeof(int);
            ex[n] = sz; set.insert(n);
            names[c.rng.pick(called[n])] = sz;
        }
        if (names.empty()) continue;
        bool unknown = c.rng.chance(1, 6);
        if (unknown)
        {
            std::map<std::string, size_t> bad(names);
            bad[c.rng.chance(1, 2) ? "/0unknown" : "zzz/unknown"] = 4;
            std::string e = caught([&] { reg.resize(bad); });
            CK(c, !e.empty(), "unknown-accepted", "resizing an unknown type is accepted");
            std::string diff = diff_snaps(s0, Snap(reg));
            CK(c, diff.empty(), "refused-changes", "a refused resize changes the registry: " + diff);
            c.count("refused");
        }
        std::string e = caught([&] { reg.resize(names); });
        CK(c, e.empty(), "refused", "the resize is refused: " + e);
        Snap s1(reg);
        CK(c, s0.names.size() == s1.names.size() && s1.closed().empty(), "registry-changed", "the set of types changes");
        bool moved = false;
        for (std::map<std::string, Snap::Entry>::iterator i = s0.names.begin(); i != s0.names.end(); ++i)
        {
            Snap::Entry const* e = s1.find(i->first);
            CK(c, e && e->type == i->second.type && e->alias == i->second.alias && e->persistent == i->second.persistent && e->source == i->second.source, "registry-changed", i->first + " is another type, or has other flags");
            GNode const *n = i->second.node, *m = e->node;
            size_t want = new_size(n, ex);
            CK(c, m->size == want, "size", n->name + " of size " + str(n->size) + " has size " + str(m->size) + " instead of " + str(want));
            if (want != n->size && !ex.count(n)) c.count("sizes propagated");
            CK(c, m->k == n->k && m->dim == n->dim && m->syms == n->syms && m->ncat == n->ncat && m->meta == n->meta && m->fields.size() == n->fields.size(), "definition", n->name + " has another definition");
            CK(c, !n->elem || m->elem->type == n->elem->type, "definition", n->name + " leads to another type");
            size_t shift = 0;
            for (size_t f = 0; f < n->fields.size(); ++f)
            {
                GField const &x = n->fields[f], &y = m->fields[f];
                CK(c, x.name == y.name && x.type->type == y.type->type, "definition", n->name + "." + x.name + " is another field");
                if (!ex.count(n)) CK(c, y.off == x.off + shift, "offset", n->name + "." + x.name + " at " + str(x.off) + " is now at " + str(y.off) + " instead of " + str(x.off + shift));
                else CK(c, y.off == x.off, "offset", n->name + "." + x.name + " moves although only the size of its compound was given");
                shift += new_size(x.type, ex) - x.type->size;
                if (shift) moved = true;
            }
        }
        check_vectors(c, reg);
        c.count("resizes");
        if (moved) { c.count("with moved fields"); std::string k; for (std::map<std::string, size_t>::iterator i = names.begin(); i != names.end(); ++i) k += i->first + "=" + str(i->second) + " "; c.sig(vh_hash(k, vh_hash(d))); c.sample(k + "in" + d.substr(0, 300)); }
    }
}
