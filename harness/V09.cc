// V09: CSV output
#include "model.hh"
#include <typelib/csvoutput.hh>
#include <sstream>
#include <cstdlib>
#include <cmath>
using namespace Typelib;

const char* vh_rule = "one case = a random type without containers (pointers lead to real values), a value and a separator; header and line are "
    "split and every column's name and text compared with the leaf it stands for; non-trivial when there are at least two columns; distinct by type structure and value";
bool vh_check_leaks = true;
void vh_setup(Ctx&) { vh_hold_plugins(); }

struct Col { std::string name; Spec const* s; uint8_t const* mem; };
static void columns(Spec const& s, uint8_t const* mem, std::string const& name, std::vector<Col>& out)
{
    switch (s.k)
    {
        case NUM: case ENM: case OPQ: { Col c = { name, &s, mem }; out.push_back(c); break; }
        case COMP: for (size_t i = 0; i < s.fields.size(); ++i) columns(*s.fields[i].type, mem + s.fields[i].off, name + "." + s.fields[i].name, out); break;
        case ARR: for (size_t i = 0; i < s.dim; ++i) columns(*s.elem, mem + i * s.elem->size, name + "[" + str(i) + "]", out); break;
        case PTR: { uint8_t* p; memcpy(&p, mem, sizeof p); columns(*s.elem, p, "*(" + name + ")", out); break; }
        default: break;
    }
}
static void patch(Rng& rng, Spec const& s, uint8_t* mem, std::vector<std::unique_ptr<NativeValue> >& pool)
{
    if (!s.has_ptr) return;
    if (s.k == PTR)
    {
        pool.push_back(std::unique_ptr<NativeValue>(new NativeValue(s.elem, gen_val(rng, *s.elem), 0x44)));
        uint8_t* p = pool.back()->mem.p; memcpy(mem, &p, sizeof p); patch(rng, *s.elem, p, pool);
    }
    else if (s.k == COMP) for (size_t i = 0; i < s.fields.size(); ++i) patch(rng, *s.fields[i].type, mem + s.fields[i].off, pool);
    else if (s.k == ARR) for (size_t i = 0; i < s.dim; ++i) patch(rng, *s.elem, mem + i * s.elem->size, pool);
}
static std::vector<std::string> split(std::string const& t, std::string const& sep)
{
    std::vector<std::string> r; size_t at = 0;
    if (t.empty()) return r;
    for (;;) { size_t e = t.find(sep, at); r.push_back(t.substr(at, e == std::string::npos ? e : e - at)); if (e == std::string::npos) return r; at = e + sep.size(); }
}
template<typename T> bool is_int(std::string const& t, uint8_t const* m) { T v; memcpy(&v, m, sizeof v); return t == (sizeof(T) == 1 ? str(int(v)) : str(v)); }
static bool text_ok(Col const& c, std::string const& t, std::string& want, bool numeric)
{
    Spec const& s = *c.s;
    if (s.k == OPQ) { want = "<" + s.name + ">"; return t == want; }
    if (s.k == ENM)
    {
        int v; memcpy(&v, c.mem, 4); bool named = false;
        for (size_t i = 0; i < s.syms.size(); ++i) if (s.syms[i].second == v) { named = true; if (t == s.syms[i].first) return true; }
        want = named ? "a symbol of value " + str(v) : str(v);
        return !named && t == str(v);
    }
    want = "the text of " + hex(c.mem, s.size) + " as " + s.name;
    if (s.ncat == 'f')
    {
        char* e;
        if (s.size == 4) { float f, g; memcpy(&f, c.mem, 4); g = strtof(t.c_str(), &e); return !*e && !t.empty() && ((std::isnan(f) && std::isnan(g)) || f == g); }
        double f, g; memcpy(&f, c.mem, 8); g = strtod(t.c_str(), &e); return !*e && !t.empty() && ((std::isnan(f) && std::isnan(g)) || f == g);
    }
    if (s.size == 1 && !numeric) return t.size() == 1 && uint8_t(t[0]) == *c.mem;
    switch (s.size)
    {
        case 1: return s.ncat == 'i' ? is_int<int8_t>(t, c.mem) : is_int<uint8_t>(t, c.mem);
        case 2: return s.ncat == 'i' ? is_int<int16_t>(t, c.mem) : is_int<uint16_t>(t, c.mem);
        case 4: return s.ncat == 'i' ? is_int<int32_t>(t, c.mem) : is_int<uint32_t>(t, c.mem);
        default: return s.ncat == 'i' ? is_int<int64_t>(t, c.mem) : is_int<uint64_t>(t, c.mem);
    }
}
void vh_case(Ctx& c)
{
    GenOpts o; o.containers = false; o.zero_dim = c.rng.chance(1, 5); o.pointers = c.rng.chance(1, 3); o.opaques = c.rng.chance(1, 3); o.max_size = 1500;
    World w; w.populate(c.rng, o);
    SP s = c.rng.chance(3, 4) ? w.types[c.rng.below(w.types.size())] : w.random_spec(c.rng, o, 4);
    if (!s->size) return;
    Val v = gen_val(c.rng, *s);
    bool numeric = c.rng.chance(2, 3);
    c.desc("type " + s->shape() + " value " + show(*s, v));
    NativeValue nv(s, v, 0x5e);
    std::vector<std::unique_ptr<NativeValue> > pool;
    patch(c.rng, *s, nv.mem.p, pool);
    // multi-character separators that no column can contain
    static char const* const seps[] = { "\x01#\x02", "\x01;;\x03", "\x02, \x01" };
    std::string sep = seps[c.rng.below(3)], base = c.rng.chance(1, 4) ? "" : "var";
    std::vector<Col> want; columns(*s, nv.mem.p, base, want);
    std::ostringstream h, l;
    if (c.rng.chance(1, 2)) { h << csv_header(*s->type, base, sep); l << csv(*s->type, nv.mem.p, sep, numeric); }
    else { CSVOutput out(*s->type, sep, numeric); out.header(h, base); out.display(l, nv.mem.p); }
    std::vector<std::string> hs = split(h.str(), sep), ls = split(l.str(), sep);
    if (want.size() == 1 && want[0].name.empty()) hs.assign(1, "");
    bool raw = !numeric;    // raw characters may contain part of the separator: only then is the split ambiguous
    if (raw) for (size_t i = 0; i < want.size(); ++i) if (want[i].s->size == 1 && *want[i].mem < 0x20) raw = false, numeric = true, ls.clear();
    CK(c, hs.size() == want.size(), "header-columns", "the header has " + str(hs.size()) + " columns, the type " + str(want.size()) + " leaves");
    for (size_t i = 0; i < want.size(); ++i) CK(c, hs[i] == want[i].name, "header-name", "column " + str(i) + " is named " + hs[i] + ", expected " + want[i].name);
    if (!(ls.empty() && !l.str().empty()))
    {
        CK(c, ls.size() == want.size(), "line-columns", "the line has " + str(ls.size()) + " columns, the header " + str(hs.size()));
        for (size_t i = 0; i < want.size(); ++i)
        {
            std::string exp;
            CK(c, text_ok(want[i], ls[i], exp, numeric), "line-value", "column " + want[i].name + " reads '" + ls[i] + "', expected " + exp);
        }
        c.count("columns compared", want.size());
    }
    if (want.size() > 1) { c.sig(s->hash() ^ vh_hash(l.str())); c.sample("header " + h.str().substr(0, 300)); }
}
