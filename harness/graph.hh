// Independent model of type graphs (recursive types included), for the checks about types,
// registries and their files.  Nothing here asks typelib what a type is.
#ifndef VH_GRAPH_HH
#define VH_GRAPH_HH
#include "model.hh"
#include <lang/csupport/containers.hh>

enum GKind { GNUM, GENUM, GCOMP, GARR, GPTR, GVEC, GSTR, GOPQ, GNULL };
struct GNode;
struct GField { std::string name; GNode* type; size_t off; std::map<std::string, std::set<std::string> > meta; };
struct GNode
{
    GKind k;
    std::string name;
    size_t size;
    char ncat;
    std::map<std::string, int> syms;
    std::vector<GField> fields;
    GNode* elem;
    size_t dim;
    bool visible_rec;
    std::map<std::string, std::set<std::string> > meta;
    Typelib::Type const* type;
    GNode() : k(GNUM), size(0), ncat('i'), elem(0), dim(0), visible_rec(false), type(0) {}
};

struct GOpts
{
    bool recursive, opaques, nulls, containers, pointers, arrays, metadata, weird_names, packed, dup_numerics, namespaces, zero_dim, holes, spaces, underscores, vec_of_arrays;
    int ntypes, max_fields;
    GOpts() : recursive(true), opaques(true), nulls(false), containers(true), pointers(true), arrays(true), metadata(false),
        weird_names(false), packed(true), dup_numerics(true), namespaces(true), zero_dim(true), holes(true), spaces(true), underscores(false), vec_of_arrays(true), ntypes(8), max_fields(5) {}
};

struct Graph
{
    std::vector<std::unique_ptr<GNode> > nodes;
    std::map<std::string, GNode*> by_name;
    std::map<std::string, std::string> aliases;     // alias -> name of the type, as declared (derived ones not included)
    std::string prefix;
    int uid;
    Graph() : uid(0) {}
    GNode* add(GKind k, std::string const& name);
    GNode* find(std::string const& n) const { std::map<std::string, GNode*>::const_iterator i = by_name.find(n); return i == by_name.end() ? 0 : i->second; }
    GNode* num(std::string const& name, size_t size, char cat);
    GNode* array(GNode* e, size_t dim);
    GNode* ptr(GNode* e);
    GNode* vec(GNode* e);
    GNode* str();
    void generate(Rng& rng, GOpts const& o);
    GNode* some(Rng& rng, GOpts const& o, int depth);           // existing or derived
    GNode* sized(Rng& rng, GOpts const& o, int depth);          // usable as a field: complete, non null
    std::string fresh(Rng& rng, GOpts const& o);
    void fix_sizes();           // after edits: arrays and compounds at least as large as what they hold
    // builds the types into a registry, setting every node's type
    void build(Typelib::Registry& reg);
    void build(Typelib::Registry& reg, std::vector<GNode*> const& roots);   // these and what they need
    std::vector<GNode*> all() const { std::vector<GNode*> r; for (size_t i = 0; i < nodes.size(); ++i) r.push_back(nodes[i].get()); return r; }
private:
    std::set<GNode*> open, completed;
    void complete(Typelib::Registry& reg, GNode* n);
    Typelib::Type const* build(Typelib::Registry& reg, GNode* n);
};

// a copy with every node renamed through f (which also decides which shared nodes get separate copies)
void clone_graph(Graph const& from, Graph& to);

// greatest structural equivalence; mode 'e' for equality, 'c' for castability
bool same_structure(GNode const* a, GNode const* b, bool equality);
// castability, with the recursion hypothesis keyed by the mode or not: where both answers differ the rule leaves the result open
bool castable(GNode const* a, GNode const* b, bool keyed);
// compares a typelib type, all that it leads to, with the model (names included when asked); "" or the difference
std::string diff_type(Typelib::Type const& t, GNode const* n, bool names, bool meta);
std::set<GNode*> closure(GNode* n);     // the node and everything it needs
std::string describe(GNode const* n);

void split_type(Rng& rng, Graph& g);    // replaces a use of a type by a separate, structurally equal copy under another name
bool edit_type(Rng& rng, Graph& g);     // one change of structure; false when there was nothing to change
// gives a registry aliases under (some of) these names, and source identifiers and metadata
void dress_registry(Rng& rng, Typelib::Registry& reg, std::vector<std::string> const& alias_names, bool sources, bool metadata);

// What a registry holds, read through its public interface
struct Snap
{
    struct Entry { GNode* node; Typelib::Type const* type; bool alias, persistent; std::string source; };
    std::vector<std::unique_ptr<GNode> > nodes;
    std::map<Typelib::Type const*, GNode*> of;
    std::map<std::string, Entry> names;
    explicit Snap(Typelib::Registry const& reg);
    std::string closed() const;         // "" or the type that the registry's types lead to without being in it
    Entry const* find(std::string const& n) const { std::map<std::string, Entry>::const_iterator i = names.find(n); return i == names.end() ? 0 : &i->second; }
private:
    GNode* node(Typelib::Type const& t);
    Snap(Snap const&); Snap& operator=(Snap const&);
};
// structure, names and metadata all equal, through everything they lead to; "" or the difference
std::string diff_nodes(GNode const* a, GNode const* b, bool names, bool meta);
std::string diff_snaps(Snap const& before, Snap const& after);      // nothing changed
// vectors handle their elements as the element type says, even when that was not complete at first
void check_vectors(Ctx& c, Typelib::Registry const& reg);
#endif
