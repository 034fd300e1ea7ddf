// V01: marshalling round trip
#include "model.hh"
using namespace Typelib;

const char* vh_rule = "one case = a random registry of C++-like types, one type of it, one random value, one layout "
    "(default or with explicit flags) and one prior content of the destination; non-trivial when the value's "
    "type holds at least two leaves; distinct by type structure, value bytes, prior content class and layout flags";
bool vh_check_leaks = true;
void vh_setup(Ctx&) { vh_hold_plugins(); }

struct Recorder : public OutputStream
{
    std::vector<uint8_t> data; size_t writes;
    Recorder() : writes(0) {}
    void write(uint8_t const* d, size_t n) { data.insert(data.end(), d, d + n); ++writes; }
};
struct Player : public InputStream
{
    std::vector<uint8_t> const& data; size_t pos;
    Player(std::vector<uint8_t> const& d) : data(d), pos(0) {}
    void read(uint8_t* d, size_t n)
    {
        if (n > data.size() - pos) throw std::runtime_error("player: end of data");
        if (n) memcpy(d, data.data() + pos, n);
        pos += n;
    }
};

// the bytes dropped from a layout that does not merge padding: padding (and accepted opaques)
static Val blank_opaques(Spec const& s, Val const& v, Val const& from)
{
    if (s.k == OPQ) return from;
    Val r = v;
    for (size_t i = 0; i < r.kids.size(); ++i)
    {
        Spec const& e = s.k == COMP ? *s.fields[i].type : *s.elem;
        if (e.has_opq) r.kids[i] = s.k == VEC ? v.kids[i] : blank_opaques(e, v.kids[i], from.kids[i]);
    }
    return r;
}

void vh_case(Ctx& c)
{
    GenOpts o;
    bool explicit_layout = c.rng.chance(1, 2);
    bool ptrs = explicit_layout && c.rng.chance(1, 4), opqs = explicit_layout && c.rng.chance(1, 6);
    bool merge = explicit_layout ? c.rng.chance(1, 2) : true, trim = explicit_layout ? c.rng.chance(1, 2) : true;
    o.pointers = ptrs; o.opaques = opqs; o.ldouble = c.rng.chance(1, 4); o.zero_dim = c.rng.chance(1, 5);
    o.packed = c.rng.chance(1, 6);
    World w; w.populate(c.rng, o);
    SP s = c.rng.chance(3, 4) ? w.types[c.rng.below(w.types.size())] : w.random_spec(c.rng, o, 4);
    if (s->size == 0) return;
    Val v1 = gen_val(c.rng, *s), v2 = gen_val(c.rng, *s);
    c.desc("type " + s->shape() + " value " + show(*s, v1) + (explicit_layout ? " layout flags" + str(ptrs) + str(opqs) + str(merge) + str(trim) : ""));
    MemoryLayout layout = explicit_layout ? layout_of(*s->type, ptrs, opqs, merge, trim) : layout_of(*s->type);
    NativeValue src(s, v1, int(c.rng.below(256)));

    std::vector<uint8_t> wire;
    int how = c.rng.range(0, 2);
    size_t prefix = 0;
    if (how == 0) { prefix = c.rng.chance(1, 3) ? c.rng.range(1, 9) : 0; wire.assign(prefix, 0x77); explicit_layout ? dump(src.value(), wire, layout) : dump(src.value(), wire); }
    else if (how == 1) { Recorder r; explicit_layout ? dump(src.value(), r, layout) : dump(src.value(), r); wire.swap(r.data); }
    else { if (explicit_layout) dump(src.mem.p, wire, layout); else wire = dump(src.value()); }
    for (size_t i = 0; i < prefix; ++i) CK(c, wire.size() >= prefix && wire[i] == 0x77, "dump-overwrites-buffer", "dump() to a vector did not append");
    wire.erase(wire.begin(), wire.begin() + prefix);
    CK(c, read_native(*s, src.mem.p) == v1, "dump-modifies-source", "the dumped value changed");

    // destination: initialised by typelib, or holding an unrelated value already
    int prior = c.rng.range(0, 2);
    std::unique_ptr<NativeValue> dst;
    if (prior == 0) { dst.reset(new NativeValue(s)); memset(dst->mem.p, 0x5c, s->size); init(dst->value(), layout); dst->live = true; }
    else dst.reset(new NativeValue(s, prior == 1 ? v2 : default_val(*s), int(c.rng.below(256))));
    Val before = read_native(*s, dst->mem.p);
    int from = c.rng.range(0, 2);
    if (from == 0) { explicit_layout ? load(dst->value(), wire, layout) : load(dst->value(), wire); }
    else if (from == 1)
    {
        Mem m(wire.size()); if (!wire.empty()) memcpy(m.p, &wire[0], wire.size());
        explicit_layout ? load(dst->value(), m.p, wire.size(), layout) : load(dst->value(), m.p, wire.size());
    }
    else
    {
        Player p(wire); explicit_layout ? load(dst->value(), p, layout) : load(dst->value(), p);
        CK(c, p.pos == wire.size(), "load-consumes-wrong-amount", "load() read " + str(p.pos) + " of " + str(wire.size()) + " bytes");
    }
    Val got = read_native(*s, dst->mem.p), want = v1;
    if (s->has_opq) { want = blank_opaques(*s, v1, before); got = blank_opaques(*s, got, before); }
    CK(c, got == want, std::string("roundtrip-") + (prior == 1 ? "over-existing" : "fresh"),
        "loaded " + show(*s, got) + " expected " + show(*s, want) + " (destination held " + show(*s, before) + ")");
    // and the copy marshals to the same stream
    if (!s->has_opq)
    {
        std::vector<uint8_t> again;
        dump(dst->value(), again, layout);
        CK(c, again.size() == wire.size(), "redump-size", "marshalling the loaded value gives " + str(again.size()) + " bytes, not " + str(wire.size()));
    }
    if (c.rng.chance(1, 2)) { dst->live = false; destroy(dst->value(), layout); }
    c.count(prior == 1 ? "round trips over existing content" : "round trips into fresh values");
    c.count("bytes marshalled", wire.size());
    if (s->has_cont) c.count("values with containers");
    if (byte_map(*s).size() > 1 || s->has_cont)
    {
        c.sig(s->hash() ^ vh_hash(wire.data(), wire.size()) * 31 ^ (prior * 64 + explicit_layout * 16 + ptrs * 8 + opqs * 4 + merge * 2 + trim));
        c.sample("type " + s->shape() + ", value " + show(*s, v1) + " -> " + str(wire.size()) + " bytes -> equal");
    }
}
