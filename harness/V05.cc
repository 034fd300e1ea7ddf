// V05: equality of values
#include "model.hh"
using namespace Typelib;

const char* vh_rule = "one case = a random type, a value, independent re-constructions of it (other padding, other capacities, other "
    "registry, made by copy or load) and single-leaf mutations of it, each pair compared both ways; non-trivial when the type has "
    "more than one byte; distinct by type structure and value";
bool vh_check_leaks = true;
void vh_setup(Ctx&) { vh_hold_plugins(); }

static void expect(Ctx& c, NativeValue& a, NativeValue& b, bool want, char const* key, std::string const& what)
{
    bool r;
    r = compare(a.value(), b.value());
    CK(c, r == want, key, "compare() says " + str(r) + " for " + what);
    r = compare(b.value(), a.value());
    CK(c, r == want, key, "compare() with its arguments exchanged says " + str(r) + " for " + what);
    r = compare(a.mem.p, b.mem.p, *a.spec->type);
    CK(c, r == want, key, "compare() on raw memory says " + str(r) + " for " + what);
    c.count(want ? "equal pairs" : "different pairs");
}

void vh_case(Ctx& c)
{
    GenOpts o; o.ldouble = c.rng.chance(1, 6); o.zero_dim = c.rng.chance(1, 5); o.pointers = c.rng.chance(1, 4); o.packed = c.rng.chance(1, 6);
    Rng again = c.rng;
    World w; w.populate(c.rng, o);
    SP s = c.rng.chance(3, 4) ? w.types[c.rng.below(w.types.size())] : w.random_spec(c.rng, o, 4);
    if (s->size == 0) return;
    GenVal g; g.budget = 150;
    Val v = gen_val(c.rng, *s, g);
    c.desc("type " + s->shape() + " value " + show(*s, v));
    NativeValue a(s, v, 0x00), b(s, v, 0xff);
    expect(c, a, a, true, "value-differs-from-itself", "a value and itself");
    expect(c, a, b, true, "equal-values-differ", "two equal values with different padding: " + show(*s, v));
    if (!s->has_ptr)
    {
        NativeValue d(s, default_val(*s), 0x55);
        std::vector<uint8_t> wire = dump(b.value());
        if (c.rng.chance(1, 2)) load(d.value(), wire); else copy(d.value(), b.value());
        expect(c, a, d, true, "equal-values-differ", "a value and its copy");
    }
    for (int i = 0; i < 5; ++i)
    {
        bool changed; Val m = mutate_val(c.rng, *s, v, changed);
        if (!changed) break;
        NativeValue e(s, m, c.rng.chance(1, 2) ? 0 : 0xff);
        expect(c, a, e, false, "different-values-equal", show(*s, v) + " and " + show(*s, m));
    }
    Val u = gen_val(c.rng, *s, g);
    { NativeValue e(s, u, 0x77); expect(c, a, e, u == v, u == v ? "equal-values-differ" : "different-values-equal", show(*s, v) + " and " + show(*s, u)); }
    // the same type, described a second time in another registry
    {
        World w2; w2.populate(again, o);
        SP s2 = w2.find(s->name);
        if (s2 && s2->shape() == s->shape())
        {
            NativeValue x(s2, v, 0x33);
            expect(c, a, x, true, "equal-values-differ", "equal values of the same type in two registries");
            bool changed; Val m = mutate_val(c.rng, *s, v, changed);
            if (changed) { NativeValue y(s2, m, 0x33); expect(c, a, y, false, "different-values-equal", "different values of the same type in two registries"); }
            c.count("pairs across registries");
        }
    }
    // values of different types are never equal, and never read as if they were
    SP other = w.random_spec(c.rng, o, 2);
    if (other->size && !other->type->canCastTo(*s->type) && !s->type->canCastTo(*other->type))
    {
        NativeValue x(other, default_val(*other), 0);
        CK(c, !compare(a.value(), x.value()) && !compare(x.value(), a.value()), "different-types-equal", "values of " + s->name + " and " + other->name + " compare equal");
        c.count("pairs of different types");
    }
    CK(c, read_native(*s, a.mem.p) == v && read_native(*s, b.mem.p) == v, "compare-modifies", "comparing changed a value");
    if (s->size > 1) { c.sig(s->hash() ^ vh_hash(show(*s, v))); c.sample("type " + s->shape() + " value " + show(*s, v)); }
}
