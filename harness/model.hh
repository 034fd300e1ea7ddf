// Independent reference model of types and values.  A Spec describes a type the way a C++
// compiler would lay it out; the typelib type is built from it, and every expected result is
// computed from the Spec alone (never from typelib's own layouts).
#ifndef VH_MODEL_HH
#define VH_MODEL_HH
#include "core.hh"
#include <memory>
#include <functional>
#include <typelib/typemodel.hh>
#include <typelib/registry.hh>
#include <typelib/registryiterator.hh>
#include <typelib/pluginmanager.hh>
#include <typelib/value.hh>
#include <typelib/value_ops.hh>

enum Kind { NUM, ENM, COMP, ARR, VEC, STR, PTR, OPQ };

struct Spec;
typedef std::shared_ptr<Spec> SP;
struct FieldSpec { std::string name; SP type; size_t off; };
struct Spec
{
    Kind k;
    std::string name;
    size_t size, align;
    char ncat;                                          // NUM: 'i' 'u' 'f'
    std::vector<std::pair<std::string, int> > syms;     // ENM, in declaration order
    std::vector<FieldSpec> fields;                      // COMP
    SP elem;                                            // ARR VEC STR PTR
    size_t dim;                                         // ARR
    bool has_ptr, has_opq, has_cont, has_pad, has_wide; // properties of the expanded type
    int depth;
    Typelib::Type const* type;
    Spec() : k(NUM), size(0), align(1), ncat('i'), dim(0), has_ptr(false), has_opq(false),
        has_cont(false), has_pad(false), has_wide(false), depth(0), type(0) {}
    bool plain() const { return !has_ptr && !has_opq && !has_cont; }
    std::string shape() const;  // structural description
    uint64_t hash() const { return vh_hash(shape()); }
};

struct Val
{
    std::vector<uint8_t> raw;   // NUM ENM PTR OPQ: bytes; STR: characters
    std::vector<Val> kids;      // COMP ARR VEC
    bool operator==(Val const& o) const { return raw == o.raw && kids == o.kids; }
    bool operator!=(Val const& o) const { return !(*this == o); }
};

struct GenOpts
{
    bool pointers, opaques, containers, wide, zero_dim, empty_compounds, gaps, enums, ldouble, packed, cont_of_any;   // cont_of_any: containers of elements without a layout (pointers, opaques)
    int ntypes, max_fields, max_depth;
    size_t max_size;
    GenOpts() : pointers(false), opaques(false), containers(true), wide(false), zero_dim(false),
        empty_compounds(true), gaps(true), enums(true), ldouble(false), packed(false), cont_of_any(false), ntypes(6), max_fields(6), max_depth(4),
        max_size(4096) {}
};

// A registry populated with random types
struct World
{
    std::unique_ptr<Typelib::Registry> reg;
    std::vector<SP> base, types;    // types: every user-visible spec, in creation order
    int uid;
    explicit World(bool standard_types = false);
    void populate(Rng& rng, GenOpts const& o);
    SP random_spec(Rng& rng, GenOpts const& o, int depth_left);   // base, existing or derived
    SP num(size_t size, char cat);
    SP make_enum(Rng& rng);
    SP make_compound(Rng& rng, GenOpts const& o);
    SP compound(std::string const& name, std::vector<std::pair<std::string, SP> > const& fields);
    SP array(SP e, size_t dim);
    SP vec(SP e);
    SP string_();
    SP pointer(SP e);
    SP opaque(std::string const& name, size_t size, size_t align);
    SP find(std::string const& name) const;
private:
    SP derived(SP s);
    std::map<std::string, SP> by_name;
};

// exactly-sized heap block, so that the address sanitizer guards both ends
struct Mem
{
    uint8_t* p; size_t n;
    explicit Mem(size_t n_) : p(static_cast<uint8_t*>(malloc(n_ ? n_ : 1))), n(n_) {}
    ~Mem() { free(p); }
private:
    Mem(Mem const&); Mem& operator=(Mem const&);
};

// A buffer that holds a value constructed natively (not by typelib); destroyed natively
struct NativeValue
{
    SP spec; Mem mem; bool live;
    NativeValue(SP s, Val const& v, int pad_fill);
    explicit NativeValue(SP s);         // raw memory, nothing constructed
    ~NativeValue();
    Typelib::Value value() { return Typelib::Value(mem.p, *spec->type); }
private:
    NativeValue(NativeValue const&); NativeValue& operator=(NativeValue const&);
};

struct GenVal { size_t budget; bool hostile; GenVal() : budget(400), hostile(false) {} };
Val gen_val(Rng& rng, Spec const& s, GenVal& g);
Val gen_val(Rng& rng, Spec const& s);
Val mutate_val(Rng& rng, Spec const& s, Val const& v, bool& changed);
Val default_val(Spec const& s);                        // what init() documents: containers empty
void build_native(Spec const& s, Val const& v, uint8_t* mem);    // constructs into raw memory
void assign_bytes(Spec const& s, Val const& v, uint8_t* mem);
void destroy_native(Spec const& s, uint8_t* mem);
Val read_native(Spec const& s, uint8_t const* mem);
std::string show(Spec const& s, Val const& v);

// Reference marshalling.  mask[i] is 0 where the byte is padding (carried, but with unspecified
// content).  min_size is the size without the value's trailing padding.
struct RefDump { std::vector<uint8_t> bytes, mask; size_t min_size; };
RefDump ref_dump(Spec const& s, Val const& v);
bool dump_matches(RefDump const& r, uint8_t const* d, size_t n, std::string& why);

// mask of the bytes of the in-memory representation: 'd' data, 'p' padding, 'c' container, '*' pointer, 'o' opaque
std::string byte_map(Spec const& s);
// total padding at the end of the value (recursive)
size_t trailing_pad(Spec const& s);

// tracks how many native objects a typelib call constructed or destroyed
void vh_hold_plugins();     // keeps the plugin manager alive for the process
#endif
