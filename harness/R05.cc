// R05: removing types
#include "graph.hh"
using namespace Typelib;

const char* vh_rule = "one case = a registry of random types (recursive ones, aliases, derived types), from which 1 to 3 types are removed one after the other; what is removed compared with the types that "
    "lead to the removed one in the model, the removed types are destroyed and the remaining ones used (and sometimes defined again); distinct by registry and removed types; "
    "non-trivial when types other than the given one are removed and some are left";
bool vh_check_leaks = true;
void vh_setup(Ctx&) { vh_hold_plugins(); }

void vh_case(Ctx& c)
{
    GOpts o; o.ntypes = c.rng.range(2, 10); o.nulls = c.rng.chance(1, 8); o.weird_names = c.rng.chance(1, 3); o.namespaces = c.rng.chance(2, 3);
    Graph a; a.generate(c.rng, o);
    Registry reg;
    a.build(reg);
    std::vector<std::string> al; al.push_back("/alias_a"); al.push_back("/A/alias_b"); al.push_back("/alias_c");
    dress_registry(c.rng, reg, al, c.rng.chance(1, 2), true);
    bool inA = c.rng.chance(1, 3);
    if (inA) reg.setDefaultNamespace("/A");
    std::string d;
    { std::ostringstream s; for (size_t i = 0; i < a.nodes.size(); ++i) if (a.nodes[i]->k == GCOMP) s << " " << describe(a.nodes[i].get()).substr(0, 200); d = s.str(); }
    c.desc(d);
    for (int round = c.rng.range(1, 3); round > 0; --round)
    {
        std::unique_ptr<Snap> s0(new Snap(reg));
        if (s0->names.empty()) return;
        std::map<std::string, Snap::Entry>::iterator it = s0->names.begin(); std::advance(it, c.rng.below(s0->names.size()));
        GNode* x = it->second.node;
        std::set<Type const*> gone;
        for (size_t i = 0; i < s0->nodes.size(); ++i) if (closure(s0->nodes[i].get()).count(x)) gone.insert(s0->nodes[i]->type);
        std::string what = "removing " + x->name + " from" + d;
        std::set<Type const*> rd = const_cast<Registry const&>(reg).reverseDepends(*x->type);
        CK(c, rd == gone, "reverse-depends", what + ": " + str(rd.size()) + " types are said to depend on it instead of " + str(gone.size()));
        std::set<Type*> r = reg.remove(*x->type);
        CK(c, std::set<Type const*>(r.begin(), r.end()) == gone, "removed", what + ": " + str(r.size()) + " types are removed instead of " + str(gone.size()));
        size_t n = gone.size();
        for (std::set<Type*>::iterator i = r.begin(); i != r.end(); ++i) delete *i;
        std::unique_ptr<Snap> s1(new Snap(reg));
        CK(c, s1->closed().empty(), "not-closed", what + ": types lead to " + s1->closed() + ", which is not there");
        size_t left = 0;
        for (std::map<std::string, Snap::Entry>::iterator i = s0->names.begin(); i != s0->names.end(); ++i)
        {
            Snap::Entry const* e = s1->find(i->first);
            if (gone.count(i->second.type)) { CK(c, !e && !reg.get(i->first), "still-there", what + ": " + i->first + " is still there"); continue; }
            CK(c, e, "lost", what + ": " + i->first + " is gone, too");
            CK(c, e->type == i->second.type && e->alias == i->second.alias && e->persistent == i->second.persistent && e->source == i->second.source, "changed", what + ": " + i->first + " has other flags");
            std::string diff = diff_nodes(i->second.node, e->node, true, true);
            CK(c, diff.empty(), "changed", what + ": " + diff);
            CK(c, reg.get(i->first) == e->type, "lookup", what + ": " + i->first + " cannot be looked up");
            ++left;
        }
        // names relative to the default namespace lead to what is left, or nowhere
        for (std::map<std::string, Snap::Entry>::iterator i = s0->names.begin(); i != s0->names.end(); ++i)
        {
            for (int inner = 0; inner < 2; ++inner)
            {
                std::string space = inner ? "/A/" : "/";
                if (i->first.compare(0, space.size(), space) != 0 || i->first.size() == space.size()) continue;
                std::string rel = i->first.substr(space.size());
                Snap::Entry const* e = inA ? s1->find("/A/" + rel) : 0;
                if (!e) e = s1->find("/" + rel);
                CK(c, reg.has(rel, false) == (e != 0) && reg.get(rel) == (e ? e->type : 0), "relative-lookup",
                    what + ": " + rel + (e ? " does not lead to what is left of that name" : " still leads to something") + (inA ? " from inside of /A" : ""));
                c.count("relative names");
            }
        }
        CK(c, s1->names.size() == left, "spurious", what + ": there are new names");
        c.count("removals"); c.count("removed types", n); c.count("types left", left);
        check_vectors(c, reg);
        if (n > 1 && left) { c.sig(vh_hash(x->name + str(round), vh_hash(d))); c.sample(what.substr(0, 400)); }
        if (c.rng.chance(1, 2))
        {
            // what was removed can be defined again
            std::vector<GNode*> roots;
            for (size_t i = 0; i < a.nodes.size(); ++i) if (a.nodes[i]->k != GNUM && a.nodes[i]->k != GOPQ && a.nodes[i]->k != GENUM && c.rng.chance(1, 3)) roots.push_back(a.nodes[i].get());
            Registry again; a.build(again, roots);
            std::string e = caught([&] { reg.merge(again); });
            CK(c, e.empty(), "define-again", what + ": defining types again is refused: " + e);
            for (size_t i = 0; i < roots.size(); ++i)
            {
                Type const* t = reg.get(roots[i]->name);
                CK(c, t, "define-again", what + ": " + roots[i]->name + " is not there after being defined again");
                std::string diff = diff_type(*t, roots[i], true, false);
                CK(c, diff.empty(), "define-again", what + ": " + diff);
            }
            c.count("defined again");
        }
    }
}
