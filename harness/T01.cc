// T01: type equality and castability
#include "graph.hh"
using namespace Typelib;

const char* vh_rule = "one case = a random graph of types (recursive ones included) and a second one derived from it by separate copies of shared types, "
    "unrolled recursion and 0 to 3 structural edits and opaque types of other names or sizes, each built in its own registry; pairs of types compared in both directions, within and across the registries, "
    "with the greatest structural equivalence computed on the model; non-trivial when the compared types are compounds, arrays, pointers or containers; distinct by the pair of structures";
bool vh_check_leaks = true;
void vh_setup(Ctx&) { vh_hold_plugins(); }

void vh_case(Ctx& c)
{
    GOpts o; o.ntypes = c.rng.range(2, 8); o.namespaces = c.rng.chance(1, 2); o.nulls = c.rng.chance(1, 6);
    Graph a; a.generate(c.rng, o);
    Graph b; clone_graph(a, b);
    int splits = c.rng.range(0, 3), edits = c.rng.range(0, 3), edited = 0;
    for (int i = 0; i < splits; ++i) split_type(c.rng, b);
    for (int i = 0; i < edits; ++i) edited += edit_type(c.rng, b);
    // opaque types are the same by name: some get another one, or another size
    std::vector<GNode*> opaques;
    for (size_t i = 0, n = b.nodes.size(); i < n; ++i)
    {
        GNode* x = b.nodes[i].get();
        if (x->k != GOPQ) continue;
        opaques.push_back(x);
        int w = c.rng.range(0, 5);
        if (w == 0) x->size += c.rng.range(1, 8);
        else if (w < 3)
        {
            GNode* y = b.add(GOPQ, x->name + "_too");
            y->size = x->size; opaques.push_back(y);
            for (size_t k = 0; k < n; ++k)
                for (size_t f = 0; f < b.nodes[k]->fields.size(); ++f)
                    if (b.nodes[k]->fields[f].type == x && c.rng.chance(1, 2)) { b.nodes[k]->fields[f].type = y; c.count("opaque fields of another name"); }
        }
    }
    b.fix_sizes();
    std::unique_ptr<Registry> ra(new Registry), rb(new Registry);
    a.build(*ra); b.build(*rb);
    for (int p = 0; p < 24; ++p)
    {
        GNode *x, *y;
        int w = c.rng.range(0, 9);
        if (w < 2 && opaques.size() > 1) { x = opaques[c.rng.below(opaques.size())]; y = opaques[c.rng.below(opaques.size())]; }
        else if (w < 6) { x = a.nodes[c.rng.below(a.nodes.size())].get(); y = b.by_name[x->name]; }
        else if (w < 8) { x = b.nodes[c.rng.below(b.nodes.size())].get(); y = b.nodes[c.rng.below(b.nodes.size())].get(); }
        else { x = a.nodes[c.rng.below(a.nodes.size())].get(); y = b.nodes[c.rng.below(b.nodes.size())].get(); }
        if (c.rng.chance(1, 2)) std::swap(x, y);
        c.desc("A = " + describe(x) + "   B = " + describe(y));
        bool want = same_structure(x, y, true);
        bool r1 = x->type->isSame(*y->type), r2 = y->type->isSame(*x->type);
        CK(c, r1 == want && r2 == want, want ? "same-types-differ" : "different-types-same",
            "A.isSame(B) is " + str(r1) + ", B.isSame(A) is " + str(r2) + ", the structures are " + (want ? "equal" : "different"));
        c.count(want ? "equal pairs" : "different pairs");
        bool cw = castable(x, y, true), lax = castable(x, y, false);
        if (cw == lax)
        {
            bool r = x->type->canCastTo(*y->type);
            CK(c, r == cw, cw ? "cast-refused" : "cast-accepted", "A.canCastTo(B) is " + str(r) + ", expected " + str(cw));
            if (cw != want) c.count("castable but different");
        }
        else c.count("casts left open");
        if (x->k == GCOMP && y->k == GCOMP && !x->fields.empty() && !y->fields.empty())
        {
            size_t i = c.rng.below(x->fields.size()), j = c.rng.chance(2, 3) && i < y->fields.size() ? i : c.rng.below(y->fields.size());
            Field const* f = static_cast<Compound const*>(x->type)->getField(x->fields[i].name);
            Field const* g = static_cast<Compound const*>(y->type)->getField(y->fields[j].name);
            bool fw = x->fields[i].name == y->fields[j].name && x->fields[i].off == y->fields[j].off && same_structure(x->fields[i].type, y->fields[j].type, true);
            CK(c, f && g && (*f == *g) == fw, "field-equality", "fields " + x->fields[i].name + " and " + y->fields[j].name + " compared equal: " + str(!fw));
        }
        if (x->k == GCOMP || x->elem) { c.sig(vh_hash(describe(x) + "|" + describe(y))); c.sample("A = " + describe(x) + "   B = " + describe(y)); }
    }
    for (size_t i = 0; i < a.nodes.size(); ++i) { std::string d = diff_type(*a.nodes[i]->type, a.nodes[i].get(), true, false); CK(c, d.empty(), "comparison-modifies", d); }
}
