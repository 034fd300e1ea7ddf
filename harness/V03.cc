// V03: loading hostile streams
#include "model.hh"
using namespace Typelib;

const char* vh_rule = "one case = a valid stream of a random value, damaged (truncated, extended, counts replaced, bytes flipped, random) and "
    "loaded over a live value; an independent parser of the stream format decides whether it must be accepted and with which value; "
    "non-trivial when the damaged stream differs from the valid one; distinct by type structure and damaged bytes";
bool vh_check_leaks = true;
void vh_setup(Ctx&) { vh_hold_plugins(); }

// reference parser; returns false when the stream is too short
struct Parser { uint8_t const* d; size_t n, pos; bool huge; };
static bool take(Parser& p, size_t n) { if (n > p.n - p.pos) return false; p.pos += n; return true; }
static bool parse(Spec const& s, Parser& p, Val& v, std::vector<size_t>& counts)
{
    switch (s.k)
    {
        case NUM: case ENM: case PTR: case OPQ:
        {
            size_t b = p.pos; if (!take(p, s.size)) return false;
            v.raw.assign(p.d + b, p.d + b + s.size); return true;
        }
        case COMP:
        {
            size_t cur = 0;
            for (size_t i = 0; i < s.fields.size(); ++i)
            {
                if (!take(p, s.fields[i].off - cur)) return false;
                v.kids.push_back(Val());
                if (!parse(*s.fields[i].type, p, v.kids.back(), counts)) return false;
                cur = s.fields[i].off + s.fields[i].type->size;
            }
            return take(p, s.size - cur);
        }
        case ARR:
            for (size_t i = 0; i < s.dim; ++i) { v.kids.push_back(Val()); if (!parse(*s.elem, p, v.kids.back(), counts)) return false; }
            return true;
        case VEC: case STR:
        {
            size_t b = p.pos; if (!take(p, 8)) return false;
            counts.push_back(b);
            uint64_t n; memcpy(&n, p.d + b, 8);
            if (s.k == STR)
            {
                if (n > p.n - p.pos) { p.huge = true; return false; }
                v.raw.assign(p.d + p.pos, p.d + p.pos + n); p.pos += n; return true;
            }
            if (n > p.n) { p.huge = true; return false; }   // an element takes at least one byte
            for (uint64_t i = 0; i < n; ++i) { v.kids.push_back(Val()); if (!parse(*s.elem, p, v.kids.back(), counts)) return false; }
            return true;
        }
    }
    return false;
}

void vh_case(Ctx& c)
{
    GenOpts o; o.ntypes = 4; o.max_size = 512; o.packed = c.rng.chance(1, 6);
    World w; w.populate(c.rng, o);
    SP s = c.rng.chance(2, 3) ? w.types[c.rng.below(w.types.size())] : w.random_spec(c.rng, o, 4);
    for (int i = 0; i < 4 && !s->has_cont; ++i) s = w.types[c.rng.below(w.types.size())];
    if (s->size == 0) return;
    GenVal g; g.budget = 60;
    Val v = gen_val(c.rng, *s, g);
    NativeValue src(s, v, 0x11);
    std::vector<uint8_t> good = dump(src.value());
    RefDump ref = ref_dump(*s, v);
    size_t imm = 0;     // padding that belongs to the outermost compound only
    if (s->k == COMP) { size_t e = 0; for (size_t i = 0; i < s->fields.size(); ++i) e = std::max(e, s->fields[i].off + s->fields[i].type->size); imm = s->size - e; }
    size_t tail = ref.bytes.size() - good.size();     // trailing padding that typelib leaves out of the stream
    if (good.size() > ref.bytes.size()) c.fail("stream-too-long", "the stream of a valid value is longer than the value");

    std::vector<size_t> counts;
    { Val x; Parser p = { ref.bytes.data(), ref.bytes.size(), 0, false }; if (!parse(*s, p, x, counts) || x != v) throw std::runtime_error("reference parser is wrong"); }

    int rounds = 6;
    for (int round = 0; round < rounds; ++round)
    {
        std::vector<uint8_t> bad = good;
        int mode = c.rng.range(0, 7);
        std::string what;
        switch (mode)
        {
            case 0: bad.resize(c.rng.below(good.size() + 1)); what = "truncated"; break;
            case 1: { size_t n = 1 + c.rng.below(24); for (size_t i = 0; i < n; ++i) bad.push_back(uint8_t(c.rng.next())); what = "extended"; break; }
            case 2: case 3: case 4:
                if (!counts.empty())
                {
                    static const uint64_t vals[] = { 0, 1, 2, 3, 0xff, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull,
                        0x1000000000000000ull, 0x2000000000000000ull, 0x4000000000000000ull, 0x0800000000000000ull, 0x5555555555555556ull,
                        0x8000000000000001ull, 0x1000000000000001ull, 0x2000000000000001ull, 0x0aaaaaaaaaaaaaabull, 0x1999999999999999ull, 0x199999999999999aull,
                        0x0666666666666667ull, 0x0888888888888889ull, 0x0555555555555556ull, 0x100000000ull, 0x100000001ull };
                    uint64_t n;
                    size_t at = c.rng.pick(counts);
                    if (at + 8 > bad.size()) break;
                    memcpy(&n, &bad[at], 8);
                    switch (c.rng.below(4))
                    {
                        case 0: n = n + 1; break;
                        case 1: n = n ? n - 1 : 1; break;
                        case 2: n = vals[c.rng.below(sizeof vals / sizeof vals[0])]; break;
                        default: { uint64_t sz = 1 + c.rng.below(80); n = (~0ull / sz) + 1 + c.rng.below(3); }   // wraps around for elements of sz bytes
                    }
                    memcpy(&bad[at], &n, 8);
                    what = "count at " + str(at) + " set to " + str(n);
                }
                break;
            case 5: if (!bad.empty()) for (int i = 0; i < 3; ++i) bad[c.rng.below(bad.size())] ^= uint8_t(1u << c.rng.below(8)); what = "bits flipped"; break;
            case 6: bad.resize(c.rng.below(64)); for (size_t i = 0; i < bad.size(); ++i) bad[i] = c.rng.chance(2, 3) ? 0 : uint8_t(c.rng.next() & 7); what = "random"; break;
            default: if (bad.size() > 8) { size_t at = c.rng.below(bad.size() - 8); bad.erase(bad.begin() + at, bad.begin() + at + 1 + c.rng.below(7)); } what = "bytes removed"; break;
        }
        // the reference verdict: parse with the missing trailing padding made up
        std::vector<uint8_t> padded = bad; padded.insert(padded.end(), tail, 0);
        Val expect; std::vector<size_t> dummy;
        Parser p = { padded.data(), padded.size(), 0, false };
        bool ok = parse(*s, p, expect, dummy);
        size_t used = p.pos;
        c.desc("type " + s->shape() + " stream " + hex(bad.data(), bad.size(), 400) + " (" + what + ")");

        Val v0 = gen_val(c.rng, *s);
        NativeValue dst(s, v0, 0x22);
        std::string e;
        if (c.rng.chance(1, 2)) e = caught([&] { load(dst.value(), bad); });
        else
        {
            Mem m(bad.size()); if (!bad.empty()) memcpy(m.p, &bad[0], bad.size());
            e = caught([&] { load(dst.value(), m.p, bad.size()); });
        }
        if (e.empty())
        {
            CK(c, ok, "malformed-stream-accepted", "a stream that is too short for its own counts was accepted");
            CK(c, used == padded.size() || used + imm == padded.size(),
                "oversized-stream-accepted", "stream of " + str(bad.size()) + " bytes accepted although " + str(used - tail) + " are enough");
            Val got = read_native(*s, dst.mem.p);
            CK(c, got == expect, "wrong-value-loaded", "loaded " + show(*s, got) + " expected " + show(*s, expect));
            c.count("damaged streams accepted with the right value");
        }
        else
        {
            CK(c, !(ok && used == padded.size()), "wellformed-stream-refused", "a well-formed stream was refused: " + e);
            c.count("damaged streams refused");
            if (p.huge) c.count("streams with counts beyond the data refused");
        }
        // whatever happened, the value must still be a valid C++ object: readable, marshallable, destroyable
        size_t now = getDumpSize(dst.value());
        if (now < 4000) { read_native(*s, dst.mem.p); dump(dst.value()); }
        if (c.rng.chance(1, 2)) { dst.live = false; destroy(dst.value()); }
        if (bad != good) c.sig(s->hash() ^ vh_hash(bad.data(), bad.size()) * 31);
    }
    c.sample("type " + s->shape() + ", valid stream of " + str(good.size()) + " bytes, " + str(rounds) + " damaged versions judged");
}
