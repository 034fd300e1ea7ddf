// R02: merging registries
#include "graph.hh"
#include <typelib/memory_layout.hh>
using namespace Typelib;

const char* vh_rule = "one case = two registries built from overlapping parts of one random graph of types (recursive ones included), the second with 0 to 2 structural edits, "
    "aliases under shared names, sources and metadata; the second merged into the first, the outcome compared with the union of what both held; the source registry is then destroyed "
    "and the result used; distinct by the pair of registries; non-trivial when both hold types of their own";
bool vh_check_leaks = true;
void vh_setup(Ctx&) { vh_hold_plugins(); }

static std::vector<std::string> alias_pool(Rng& rng, Graph const& g)
{
    std::vector<std::string> r;
    static char const* const n[] = { "/alias_a", "/A/alias_b", "/B/alias_c", "/alias d", "/T1/alias_e" };
    for (int i = 0; i < 5; ++i) if (rng.chance(1, 3)) r.push_back(n[i]);
    // names that are types in the other registry
    for (int i = 0; i < 2; ++i) if (rng.chance(1, 8)) { GNode* x = g.nodes[rng.below(g.nodes.size())].get(); if (x->k == GCOMP || x->k == GENUM || x->k == GOPQ) r.push_back(x->name); }
    return r;
}
void vh_case(Ctx& c)
{
    GOpts o; o.ntypes = c.rng.range(2, 9); o.metadata = c.rng.chance(1, 2); o.nulls = c.rng.chance(1, 6); o.weird_names = c.rng.chance(1, 3); o.namespaces = c.rng.chance(2, 3);
    Graph a; a.generate(c.rng, o);
    Graph b; clone_graph(a, b);
    for (int i = c.rng.range(0, 1); i > 0; --i) split_type(c.rng, b);
    int edits = c.rng.chance(1, 2) ? 0 : c.rng.range(1, 2);
    for (int i = 0; i < edits; ++i) edit_type(c.rng, b);
    b.fix_sizes();
    std::vector<GNode*> ra, rb;
    for (size_t i = 0; i < a.nodes.size(); ++i) if (c.rng.chance(1, 3)) ra.push_back(a.nodes[i].get());
    for (size_t i = 0; i < b.nodes.size(); ++i) if (c.rng.chance(1, 2)) rb.push_back(b.nodes[i].get());
    std::unique_ptr<Registry> T(new Registry), S(new Registry);
    a.build(*T, ra); b.build(*S, rb);
    std::vector<std::string> al = alias_pool(c.rng, a);
    dress_registry(c.rng, *T, al, c.rng.chance(1, 2), o.metadata);
    std::vector<std::string> mine;
    for (size_t i = 0; i < al.size(); ++i)
    {
        // the same alias for the same type, when it is there; now and then for another
        Type const* t = T->get(al[i]);
        if (!t || S->has(al[i], false)) continue;
        if (c.rng.chance(1, 12)) mine.push_back(al[i]);
        else if (c.rng.chance(1, 2) && S->has(t->getName(), false)) S->alias(t->getName(), al[i], c.rng.chance(1, 2), c.rng.chance(1, 2) ? "alias.src" : "");
    }
    mine.push_back("/other/alias"); if (c.rng.chance(1, 2)) mine.push_back("/other/alias2");
    dress_registry(c.rng, *S, mine, c.rng.chance(1, 2), o.metadata);
    if (c.rng.chance(1, 4)) T->setDefaultNamespace("/A/B");

    std::string d;
    { std::ostringstream s; s << "into:"; for (size_t i = 0; i < ra.size(); ++i) s << " " << describe(ra[i]).substr(0, 200); s << "  from:"; for (size_t i = 0; i < rb.size(); ++i) s << " " << describe(rb[i]).substr(0, 200); d = s.str(); }
    c.desc(d);
    std::unique_ptr<Snap> t0(new Snap(*T)), s0(new Snap(*S));
    // what it has to say
    std::string conflict;
    for (std::map<std::string, Snap::Entry>::iterator i = s0->names.begin(); i != s0->names.end(); ++i)
    {
        Snap::Entry const* e = t0->find(i->first);
        if (e && !same_structure(e->node, i->second.node, true)) conflict = i->first;
    }
    std::string err; bool mismatch = false;
    try { T->merge(*S); }
    catch (DefinitionMismatch const& e) { mismatch = true; err = e.what(); }
    catch (std::exception const& e) { err = e.what(); }
    CK(c, err.empty() || !conflict.empty(), "refused", "the merge fails (" + err + ") although the definitions agree");
    CK(c, conflict.empty() || mismatch, "conflict-accepted", conflict + " is defined differently, but the merge " + (err.empty() ? "succeeds" : "fails with: " + err));
    c.count(conflict.empty() ? "merges" : "refused merges");
    {
        Snap s1(*S); std::string diff = diff_snaps(*s0, s1);
        CK(c, diff.empty(), "source-changed", "the registry merged from is changed: " + diff);
    }
    // from here on the result stands alone
    S.reset();
    Snap t1(*T);
    CK(c, t1.closed().empty(), "not-closed", "types lead to " + t1.closed() + ", which is not in the registry");
    for (std::map<std::string, Snap::Entry>::iterator i = t0->names.begin(); i != t0->names.end(); ++i)
    {
        Snap::Entry const* e = t1.find(i->first);
        CK(c, e && e->type == i->second.type && e->alias == i->second.alias, "target-lost", i->first + " is gone or another type");
        CK(c, e->persistent == i->second.persistent, "target-changed", i->first + " has another persistence");
        std::string diff = diff_nodes(i->second.node, e->node, true, false);
        CK(c, diff.empty(), "target-changed", diff);
        CK(c, e->source == i->second.source || i->second.source.empty(), "source-id", i->first + " had source " + i->second.source + " and now has " + e->source);
    }
    size_t added = 0;
    for (std::map<std::string, Snap::Entry>::iterator i = t1.names.begin(); i != t1.names.end(); ++i)
    {
        Snap::Entry const* had = t0->find(i->first), *got = s0->find(i->first);
        Snap::Entry const& e = i->second;
        if (!had && (!got || (!conflict.empty() && e.alias && e.node->elem && !e.persistent)))
        {
            // follows from an alias of what it is derived from
            CK(c, e.alias && e.node->elem && !e.persistent, "spurious", i->first + " was in neither registry, as an alias or otherwise");
            c.count("derived aliases");
            continue;
        }
        if (!had)
        {
            ++added;
            CK(c, same_structure(e.node, got->node, true), "added-differs", i->first + " is added with another definition: " + describe(e.node) + " for " + describe(got->node));
            if (got->alias && !e.node->elem) { Snap::Entry const* base = t1.find(got->node->name); CK(c, base && base->type == e.type, "alias-base", i->first + " is not an alias of " + got->node->name); }
            if (got->alias && conflict.empty() && !e.node->elem) CK(c, e.persistent == got->persistent && e.source == got->source, "alias-flags", "alias " + i->first + " has other flags or source");
            if (!got->alias && !e.node->elem) CK(c, !e.alias && e.node->name == i->first, "added-name", i->first + " is added as " + e.node->name);
            for (size_t f = 0; !got->alias && f < e.node->fields.size(); ++f)
            {
                Snap::Entry const* ft = t1.find(got->node->fields[f].type->name);
                CK(c, ft && ft->node == e.node->fields[f].type, "added-field", i->first + "." + e.node->fields[f].name + " is not of type " + got->node->fields[f].type->name);
            }
            if (!got->alias && conflict.empty()) CK(c, e.source == got->source, "source-id", i->first + " has source " + e.source + " instead of " + got->source);
        }
        if (had && got && !had->alias && !got->alias && conflict.empty())
            CK(c, e.source == (had->source.empty() ? got->source : had->source), "source-id", i->first + " has source " + e.source);
    }
    if (conflict.empty())
    {
        for (std::map<std::string, Snap::Entry>::iterator i = s0->names.begin(); i != s0->names.end(); ++i)
            CK(c, t1.find(i->first), "missing", i->first + " was not merged");
        // merging again adds nothing
        for (std::map<std::string, Snap::Entry>::iterator i = t1.names.begin(); i != t1.names.end(); ++i)
            CK(c, T->get(i->first) == i->second.type && T->isIncluded(*i->second.type), "lookup", i->first + " cannot be looked up");
    }
    check_vectors(c, *T);
    c.count("types added", added);
    if (added && !ra.empty()) { c.sig(vh_hash(d)); c.sample(d.substr(0, 400)); }
}
