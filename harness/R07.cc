// R07: comparing registries
#include "graph.hh"
using namespace Typelib;

const char* vh_rule = "one case = a registry and another built from the same random graph of types in another order, with 0 to 1 differences (structure, name, missing or additional type, alias, or what an alias stands for); "
    "the comparison in both directions judged by the model; distinct by the pair; non-trivial when the pair has types of at least two categories and the sizes of both are the same";
bool vh_check_leaks = true;
void vh_setup(Ctx&) { vh_hold_plugins(); }

void vh_case(Ctx& c)
{
    GOpts o; o.ntypes = c.rng.range(1, 8); o.metadata = c.rng.chance(1, 2); o.nulls = c.rng.chance(1, 8); o.weird_names = c.rng.chance(1, 3); o.namespaces = c.rng.chance(2, 3);
    Graph a; a.generate(c.rng, o);
    Graph b; clone_graph(a, b);
    int w = c.rng.range(0, 9);
    std::string what = "nothing";
    if (w < 4 && edit_type(c.rng, b)) what = "a type";
    b.fix_sizes();
    std::vector<GNode*> ra, rb;
    for (size_t i = 0; i < a.nodes.size(); ++i) if (c.rng.chance(2, 3)) { ra.push_back(a.nodes[i].get()); rb.push_back(b.find(a.nodes[i]->name)); }
    for (size_t i = rb.size(); i > 1; --i) std::swap(rb[i - 1], rb[c.rng.below(i)]);
    if (w == 4 && !rb.empty()) { rb.pop_back(); what = "missing type"; }
    if (w == 5) { rb.push_back(b.nodes[c.rng.below(b.nodes.size())].get()); what = "additional type"; }
    Registry A, B;
    a.build(A, ra); b.build(B, rb);
    std::vector<std::string> names;
    for (RegistryIterator it = A.begin(); it != A.end(); ++it) names.push_back(it.getName());
    static char const* const n[] = { "/alias_a", "/A/alias_b", "/alias_c" };
    for (int i = 0; i < 3 && !names.empty(); ++i)
    {
        if (!c.rng.chance(1, 2)) continue;
        std::string base = c.rng.pick(names), other = c.rng.pick(names);
        if (!B.has(base, false) || !B.has(other, false)) continue;
        A.alias(base, n[i]);
        if (w == 6) { if (!B.has(n[i], false)) B.alias(other, n[i]); what = "an alias of something else"; w = 10; }
        else if (w == 7) { B.alias(base, std::string(n[i]) + "x"); what = "an alias by another name"; w = 10; }
        else if (w == 8) { what = "missing alias"; w = 10; }
        else if (!B.has(n[i], false)) B.alias(base, n[i]);
    }
    if (c.rng.chance(1, 3)) { A.setDefaultNamespace("/A"); }
    if (c.rng.chance(1, 3)) dress_registry(c.rng, B, std::vector<std::string>(), true, true);
    Snap sa(A), sb(B);
    std::string diff;
    for (std::map<std::string, Snap::Entry>::iterator i = sa.names.begin(); diff.empty() && i != sa.names.end(); ++i)
    {
        Snap::Entry const* e = sb.find(i->first);
        if (!e) diff = i->first + " is missing";
        else if (e->node->name != i->second.node->name) diff = i->first + " stands for another type";
        else if (!same_structure(i->second.node, e->node, true)) diff = i->first + " has another definition";
    }
    if (diff.empty() && sa.names.size() != sb.names.size()) diff = "there are others";
    std::string d = what; for (size_t i = 0; i < ra.size(); ++i) d += " " + describe(ra[i]).substr(0, 150);
    c.desc(d);
    bool ab = A.isSame(B), ba = B.isSame(A);
    CK(c, ab == diff.empty(), ab ? "said-same" : "said-different", ab ? "registries are said to be the same, but " + diff : "registries with the same content are said to be different: " + d);
    CK(c, ba == ab, "asymmetric", "the comparison depends on the direction: " + diff);
    CK(c, A.isSame(A) && B.isSame(B), "irreflexive", "a registry is said to be different from itself");
    CK(c, diff_snaps(sa, Snap(A)).empty() && diff_snaps(sb, Snap(B)).empty(), "changed", "comparing changes the registries");
    c.count(ab ? "same" : "different"); c.count("difference: " + what);
    if (sa.names.size() == sb.names.size() && sa.names.size() > 3) { c.sig(vh_hash(d)); c.sample(d.substr(0, 300)); }
}
