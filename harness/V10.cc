// V10: byte-order conversion
#include "model.hh"
#include <typelib/endianness.hh>
using namespace Typelib;

const char* vh_rule = "one case = a random type and value, converted in place, converted back, and compiled once then applied out of place to "
    "several values; each result compared byte by byte with the reference swap of the same value; types that cannot be converted must "
    "be refused; non-trivial when a multi-byte leaf is swapped; distinct by type structure and value";
bool vh_check_leaks = true;
void vh_setup(Ctx&) { vh_hold_plugins(); }

static Val swapped(Spec const& s, Val const& v, size_t& wide)
{
    Val r = v;
    if (s.k == NUM || s.k == ENM) { if (s.size > 1) ++wide; r.raw.assign(v.raw.rbegin(), v.raw.rend()); }
    else if (s.k == COMP || s.k == ARR || s.k == VEC)
        for (size_t i = 0; i < r.kids.size(); ++i) r.kids[i] = swapped(s.k == COMP ? *s.fields[i].type : *s.elem, v.kids[i], wide);
    return r;
}
// some leaf of the type cannot be converted
static bool has_leaf(Spec const& s, bool (*f)(Spec const&))
{
    if (f(s)) return true;
    if (s.k == COMP) { for (size_t i = 0; i < s.fields.size(); ++i) if (has_leaf(*s.fields[i].type, f)) return true; return false; }
    return s.k == ARR && s.dim && has_leaf(*s.elem, f);
}
static bool unswappable(Spec const& s) { return s.k == PTR || s.k == OPQ || s.k == VEC || s.k == STR || (s.k == NUM && s.size > 8); }

template<typename T> static void scalar(Ctx& c)
{
    uint8_t b[sizeof(T)], r[sizeof(T)];
    for (size_t i = 0; i < sizeof(T); ++i) b[i] = uint8_t(c.rng.next());
    if (c.rng.chance(1, 4)) memset(b, c.rng.chance(1, 2) ? 0x80 : 0xff, sizeof b);
    for (size_t i = 0; i < sizeof(T); ++i) r[i] = b[sizeof(T) - 1 - i];
    T v; memcpy(&v, b, sizeof v);
    T s = Endian::swap(v), s2; Endian::swap(v, s2);
    CK(c, !memcmp(&s, r, sizeof s) && !memcmp(&s2, r, sizeof s), "scalar-swap", "Endian::swap of " + hex(b, sizeof b) + " gives " + hex(&s, sizeof s));
    T big = Endian::to_big(v), back = Endian::from_big(big), net = Endian::to_network(v), fnet = Endian::from_network(net);
    CK(c, !memcmp(&big, r, sizeof r) && !memcmp(&back, b, sizeof b) && !memcmp(&net, r, sizeof r) && !memcmp(&fnet, b, sizeof b), "scalar-big", "conversion of " + hex(b, sizeof b) + " to or from big endian");
    T lit = Endian::to_little(v), fl = Endian::from_little(lit), x, y;
    Endian::to_little(v, x); Endian::from_big(big, y);
    CK(c, !memcmp(&lit, b, sizeof b) && !memcmp(&fl, b, sizeof b) && !memcmp(&x, b, sizeof b) && !memcmp(&y, b, sizeof b), "scalar-little", "conversion of " + hex(b, sizeof b) + " to or from little endian");
    c.count("scalar conversions");
}

void vh_case(Ctx& c)
{
    scalar<int16_t>(c); scalar<uint32_t>(c); scalar<int64_t>(c); scalar<float>(c); scalar<double>(c); scalar<uint8_t>(c); scalar<uint16_t>(c); scalar<uint64_t>(c);
    GenOpts o; o.containers = c.rng.chance(1, 4); o.zero_dim = c.rng.chance(1, 5); o.pointers = c.rng.chance(1, 8); o.opaques = c.rng.chance(1, 8); o.ldouble = c.rng.chance(1, 8); o.packed = c.rng.chance(1, 6);
    World w; w.populate(c.rng, o);
    SP s = c.rng.chance(3, 4) ? w.types[c.rng.below(w.types.size())] : w.random_spec(c.rng, o, 4);
    if (s->size == 0) return;
    GenVal g; g.budget = 150;
    Val v = gen_val(c.rng, *s, g);
    size_t wide = 0;
    Val want = swapped(*s, v, wide);
    c.desc("type " + s->shape() + " value " + show(*s, v));
    bool ld = s->shape().find("f128") != std::string::npos;
    // in place
    if (!s->has_ptr && !s->has_opq && !ld)
    {
        NativeValue a(s, v, 0x5a);
        CK(c, caught([&] { endian_swap(a.value()); }).empty(), "in-place-refused", "endian_swap() refuses a type without pointers");
        CK(c, read_native(*s, a.mem.p) == want, "in-place", "endian_swap() gives " + show(*s, read_native(*s, a.mem.p)) + " instead of " + show(*s, want));
        endian_swap(a.value());
        CK(c, read_native(*s, a.mem.p) == v, "in-place-twice", "endian_swap() twice gives " + show(*s, read_native(*s, a.mem.p)));
        c.count("in-place conversions");
    }
    else if (has_leaf(*s, [](Spec const& t) { return t.k == PTR; }))
    {
        NativeValue a(s, v, 0x5a);
        bool refused = false;
        try { endian_swap(a.value()); } catch (std::exception const&) { refused = true; }
        CK(c, refused, "pointer-accepted", "endian_swap() accepts a value that has a pointer");
        c.count("in-place refusals");
    }
    // compiled, out of place
    CompileEndianSwapVisitor compiled;
    if (has_leaf(*s, unswappable))
    {
        std::string e;
        try { compiled.apply(*s->type); e = "accepted"; } catch (UnsupportedEndianSwap const&) {} catch (std::exception const& x) { e = x.what(); }
        CK(c, e.empty(), "unsupported-accepted", "compiling the conversion of a type with a leaf that cannot be converted: " + e);
        c.count("compile refusals");
        return;
    }
    if (!s->plain()) return;
    std::string e = caught([&] { compiled.apply(*s->type); if (c.rng.chance(1, 5)) compiled.apply(*s->type); });
    CK(c, e.empty(), "compile-refused", "compiling the conversion fails: " + e);
    for (int i = 0; i < 3; ++i)
    {
        NativeValue a(s, v, 0x5a), b(s, v, 0xc3);
        memset(b.mem.p, 0xc3, b.mem.n);
        compiled.swap(a.value(), b.value());
        CK(c, read_native(*s, b.mem.p) == want, "compiled", "the compiled conversion gives " + show(*s, read_native(*s, b.mem.p)) + " instead of " + show(*s, want));
        CK(c, read_native(*s, a.mem.p) == v, "compiled-input", "the compiled conversion modified its input");
        v = gen_val(c.rng, *s, g); want = swapped(*s, v, wide);
        c.count("compiled conversions");
    }
    if (wide) { c.sig(s->hash() ^ vh_hash(show(*s, v))); c.sample("type " + s->shape() + " value " + show(*s, v)); }
}
