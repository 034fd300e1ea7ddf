#include "model.hh"
#include <lang/csupport/standard_types.hh>
#include <algorithm>
#include <new>
using namespace Typelib;

void vh_hold_plugins()
{
    static PluginManager::self* held = new PluginManager::self;
    (void)held;
}

std::string Spec::shape() const
{
    std::ostringstream s;
    switch (k)
    {
        case NUM: s << ncat << size * 8; break;
        case ENM: s << "enum{"; for (size_t i = 0; i < syms.size(); ++i) s << (i ? "," : "") << syms[i].first << "=" << syms[i].second; s << "}"; break;
        case COMP: s << "{"; for (size_t i = 0; i < fields.size(); ++i) s << (i ? " " : "") << fields[i].type->shape() << "@" << fields[i].off; s << "}" << size; break;
        case ARR: s << elem->shape() << "[" << dim << "]"; break;
        case VEC: s << "vec<" << elem->shape() << ">"; break;
        case STR: s << "str"; break;
        case PTR: s << elem->shape() << "*"; break;
        case OPQ: s << "opaque" << size; break;
    }
    return s.str();
}

World::World(bool standard_types) : reg(new Registry), uid(0)
{
    // the full standard table has ~80 aliases and is slow to build; most worlds do without it
    if (standard_types) CXX::addStandardTypes(*reg);
    static const struct { char const* n; size_t s; char c; } b[] = {
        {"/int8_t",1,'i'},{"/uint8_t",1,'u'},{"/int16_t",2,'i'},{"/uint16_t",2,'u'},{"/int32_t",4,'i'},
        {"/uint32_t",4,'u'},{"/int64_t",8,'i'},{"/uint64_t",8,'u'},{"/float",4,'f'},{"/double",8,'f'},{"/bool",1,'u'} };
    for (size_t i = 0; i < sizeof b / sizeof b[0]; ++i)
    {
        SP s(new Spec); s->k = NUM; s->name = b[i].n; s->size = s->align = b[i].s; s->ncat = b[i].c;
        if (!reg->has(s->name, false))
            reg->add(new Numeric(s->name, s->size, s->ncat == 'i' ? Numeric::SInt : s->ncat == 'u' ? Numeric::UInt : Numeric::Float));
        s->type = reg->get(s->name);
        base.push_back(s); by_name[s->name] = s;
    }
}
SP World::find(std::string const& n) const
{ std::map<std::string, SP>::const_iterator i = by_name.find(n); return i == by_name.end() ? SP() : i->second; }
SP World::num(size_t size, char cat)
{
    for (size_t i = 0; i < base.size(); ++i) if (base[i]->size == size && base[i]->ncat == cat) return base[i];
    throw std::logic_error("no such numeric");
}
SP World::derived(SP s)
{
    SP old = find(s->name);
    if (old) return old;
    by_name[s->name] = s;
    return s;
}
SP World::array(SP e, size_t dim)
{
    std::string name = e->name + "[" + str(dim) + "]";
    if (SP o = find(name)) return o;
    SP s(new Spec); s->k = ARR; s->elem = e; s->dim = dim; s->name = name;
    s->size = e->size * dim; s->align = e->align;
    s->has_ptr = e->has_ptr; s->has_opq = e->has_opq; s->has_cont = e->has_cont; s->has_pad = e->has_pad; s->has_wide = e->has_wide;
    s->depth = e->depth + 1;
    s->type = reg->build(name);
    return derived(s);
}
SP World::vec(SP e)
{
    std::string name = "/std/vector<" + e->name + ">";
    if (SP o = find(name)) return o;
    SP s(new Spec); s->k = VEC; s->elem = e; s->name = name;
    s->size = sizeof(std::vector<int>); s->align = sizeof(void*);
    s->has_ptr = e->has_ptr; s->has_opq = e->has_opq; s->has_cont = true; s->has_pad = e->has_pad; s->has_wide = e->has_wide;
    s->depth = e->depth + 1;
    s->type = &Container::createContainer(*reg, "/std/vector", *e->type);
    return derived(s);
}
SP World::string_()
{
    if (SP o = find("/std/string")) return o;
    SP s(new Spec); s->k = STR; s->elem = num(1, 'i'); s->name = "/std/string";
    s->size = sizeof(std::string); s->align = sizeof(void*); s->has_cont = true;
    s->type = reg->get("/std/string");
    if (!s->type) s->type = &Container::createContainer(*reg, "/std/string", *s->elem->type);
    return derived(s);
}
SP World::pointer(SP e)
{
    std::string name = e->name + "*";
    if (SP o = find(name)) return o;
    SP s(new Spec); s->k = PTR; s->elem = e; s->name = name; s->size = s->align = sizeof(void*);
    s->has_ptr = true; s->depth = 1;
    s->type = reg->build(name);
    return derived(s);
}
SP World::opaque(std::string const& name, size_t size, size_t align)
{
    SP s(new Spec); s->k = OPQ; s->name = name; s->size = size; s->align = align; s->has_opq = true;
    OpaqueType* t = new OpaqueType(name, size);
    reg->add(t); s->type = t;
    return derived(s);
}
SP World::make_enum(Rng& rng)
{
    static char const* const names[] = { "ZERO", "ONE", "Alpha", "beta", "_x", "MAX", "B2", "zz", "A", "LAST_ONE" };
    SP s(new Spec); s->k = ENM; s->size = s->align = 4;
    s->name = std::string(rng.chance(1, 3) ? "/ns/sub" : rng.chance(1, 2) ? "/ns" : "") + "/E" + str(uid++);
    int n = rng.range(1, 6);
    std::set<int> used;
    Enum* t = new Enum(s->name);
    int v = rng.chance(1, 3) ? rng.range(-5, 5) : 0;
    for (int i = 0; i < n; ++i)
    {
        std::string nm = names[(i * 3 + s->name.size() * 7 + uid) % 10];
        bool dup = false;
        for (size_t j = 0; j < s->syms.size(); ++j) dup |= s->syms[j].first == nm;
        if (dup) continue;
        if (rng.chance(1, 4)) v = int(rng.next());
        s->syms.push_back(std::make_pair(nm, v));
        t->add(nm, v);
        if (v < 0x7fffffff) ++v;
    }
    reg->add(t); s->type = t;
    return derived(s);
}
static size_t align_up(size_t v, size_t a) { return (v + a - 1) / a * a; }
SP World::compound(std::string const& name, std::vector<std::pair<std::string, SP> > const& fields)
{
    SP s(new Spec); s->k = COMP; s->name = name;
    size_t off = 0;
    for (size_t i = 0; i < fields.size(); ++i)
    {
        SP t = fields[i].second;
        size_t o = align_up(off, t->align);
        FieldSpec f = { fields[i].first, t, o };
        if (o != off) s->has_pad = true;
        s->fields.push_back(f);
        off = o + t->size;
        s->align = std::max(s->align, t->align);
        s->has_ptr |= t->has_ptr; s->has_opq |= t->has_opq; s->has_cont |= t->has_cont; s->has_pad |= t->has_pad; s->has_wide |= t->has_wide;
        s->depth = std::max(s->depth, t->depth + 1);
    }
    s->size = align_up(std::max<size_t>(off, 1), s->align);
    if (s->size != off) s->has_pad = true;
    Compound* c = new Compound(name);
    for (size_t i = 0; i < s->fields.size(); ++i) c->addField(s->fields[i].name, *s->fields[i].type->type, s->fields[i].off);
    c->setSize(s->size);
    reg->add(c); s->type = c;
    return derived(s);
}
SP World::make_compound(Rng& rng, GenOpts const& o)
{
    std::string name = std::string(rng.chance(1, 4) ? "/ns/sub" : rng.chance(1, 3) ? "/ns" : rng.chance(1, 4) ? "/a/b/c" : "") + "/C" + str(uid++);
    int n = rng.range(o.empty_compounds && rng.chance(1, 12) ? 0 : 1, o.max_fields);
    if (o.empty_compounds && rng.chance(1, 25)) n = 0;
    SP s(new Spec); s->k = COMP; s->name = name;
    size_t off = 0;
    for (int i = 0; i < n; ++i)
    {
        SP t = random_spec(rng, o, o.max_depth - 1);
        if (off + t->size > o.max_size) t = rng.pick(base);
        bool pk = o.packed && rng.chance(1, 3) && t->plain();
        size_t al = pk ? 1 : t->align;
        size_t fo = align_up(off, al);
        if (o.gaps && rng.chance(1, 10)) fo += al * rng.range(1, 3);
        FieldSpec f = { "f" + str(i) + (rng.chance(1, 5) ? "_name" : ""), t, fo };
        if (fo != off) s->has_pad = true;
        s->fields.push_back(f);
        off = fo + t->size;
        s->align = std::max(s->align, al);
        s->has_ptr |= t->has_ptr; s->has_opq |= t->has_opq; s->has_cont |= t->has_cont; s->has_pad |= t->has_pad; s->has_wide |= t->has_wide;
        s->depth = std::max(s->depth, t->depth + 1);
    }
    s->size = align_up(std::max<size_t>(off, 1), s->align);
    if (o.gaps && rng.chance(1, 10)) s->size += s->align * rng.range(1, 4);
    if (s->size != off) s->has_pad = true;
    Compound* c = new Compound(name);
    for (size_t i = 0; i < s->fields.size(); ++i) c->addField(s->fields[i].name, *s->fields[i].type->type, s->fields[i].off);
    c->setSize(s->size);
    reg->add(c); s->type = c;
    return derived(s);
}
SP World::random_spec(Rng& rng, GenOpts const& o, int depth_left)
{
    int r = rng.range(0, 99);
    SP s;
    if (depth_left <= 0 || r < 35) s = rng.pick(base);
    else if (r < 55 && !types.empty()) s = rng.pick(types);
    else if (r < 70)
    {
        size_t dim = o.zero_dim && rng.chance(1, 6) ? 0 : rng.chance(1, 8) ? rng.range(5, 20) : rng.range(1, 4);
        SP e = random_spec(rng, o, depth_left - 1);
        if (e->size * dim > o.max_size) e = rng.pick(base);
        s = array(e, dim);
    }
    else if (r < 82 && o.containers)
    {
        if (rng.chance(1, 3)) s = string_();
        else
        {
            SP e = random_spec(rng, o, depth_left - 1);
            if (e->size == 0 || (!o.cont_of_any && (e->has_ptr || e->has_opq))) e = rng.pick(base);
            s = vec(e);
        }
    }
    else if (r < 86 && o.enums) { s = make_enum(rng); types.push_back(s); }
    else if (r < 90 && o.pointers) s = pointer(random_spec(rng, o, depth_left - 1));
    else if (r < 94 && o.opaques)
    {
        size_t al = size_t(1) << rng.range(0, 3);
        s = opaque("/Opq" + str(uid++), al * rng.range(1, 4), al);
        types.push_back(s);
    }
    else if (r < 97 && o.ldouble)
    {
        s = find("/long double");
        if (!s)
        {
            s = SP(new Spec); s->k = NUM; s->name = "/long double"; s->size = s->align = 16; s->ncat = 'f'; s->has_wide = true;
            Numeric* t = new Numeric(s->name, 16, Numeric::Float); reg->add(t); s->type = t;
            s = derived(s);
        }
    }
    else if (!types.empty()) s = rng.pick(types);
    else s = rng.pick(base);
    if (s->depth > o.max_depth + 1 || s->size > o.max_size) s = rng.pick(base);
    return s;
}
void World::populate(Rng& rng, GenOpts const& o)
{
    for (int i = 0; i < o.ntypes; ++i)
        types.push_back(make_compound(rng, o));
}

// ---------------------------------------------------------------- values
static void gen_num(Rng& rng, Spec const& s, std::vector<uint8_t>& raw)
{
    raw.resize(s.size);
    int m = rng.range(0, 9);
    for (size_t i = 0; i < s.size; ++i) raw[i] = m == 0 ? 0 : m == 1 ? 0xff : m == 2 ? uint8_t(i + 1) : uint8_t(rng.next());
    if (m == 3) { std::fill(raw.begin(), raw.end(), 0); raw[s.size - 1] = 0x80; }
    if (m == 4) { std::fill(raw.begin(), raw.end(), 0); raw[0] = 1; }
    if (s.name == "/bool") raw[0] &= 1;
    if (s.ncat == 'f' && s.size == 4 && m > 5) { float f = float(rng.range(-100000, 100000)) / 64; memcpy(&raw[0], &f, 4); }
    if (s.ncat == 'f' && s.size == 8 && m > 5) { double f = double(int32_t(rng.next())) / 1024; memcpy(&raw[0], &f, 8); }
}
Val gen_val(Rng& rng, Spec const& s) { GenVal g; return gen_val(rng, s, g); }
Val gen_val(Rng& rng, Spec const& s, GenVal& g)
{
    Val v;
    switch (s.k)
    {
        case NUM: gen_num(rng, s, v.raw); break;
        case ENM:
        {
            int x = s.syms.empty() || rng.chance(1, 8) ? int(rng.next()) : s.syms[rng.below(s.syms.size())].second;
            v.raw.resize(4); memcpy(&v.raw[0], &x, 4); break;
        }
        case PTR: case OPQ:
            v.raw.resize(s.size);
            for (size_t i = 0; i < s.size; ++i) v.raw[i] = uint8_t(rng.next());
            if (s.k == PTR && rng.chance(1, 3)) std::fill(v.raw.begin(), v.raw.end(), 0);
            break;
        case COMP: for (size_t i = 0; i < s.fields.size(); ++i) v.kids.push_back(gen_val(rng, *s.fields[i].type, g)); break;
        case ARR: for (size_t i = 0; i < s.dim; ++i) v.kids.push_back(gen_val(rng, *s.elem, g)); break;
        case VEC:
        {
            size_t n = rng.chance(1, 5) ? 0 : rng.chance(1, 8) ? rng.range(6, 40) : rng.range(1, 4);
            if (n > g.budget) n = g.budget ? 1 : 0;
            for (size_t i = 0; i < n; ++i) { if (g.budget) --g.budget; v.kids.push_back(gen_val(rng, *s.elem, g)); }
            break;
        }
        case STR:
        {
            static const int lens[] = { 0, 1, 2, 7, 14, 15, 16, 17, 31, 64, 200 };
            size_t n = lens[rng.below(sizeof lens / sizeof lens[0])];
            if (g.budget < 8) n = 0; else g.budget -= 4;
            bool txt = rng.chance(1, 2);
            for (size_t i = 0; i < n; ++i) v.raw.push_back(txt ? 'a' + rng.below(26) : uint8_t(rng.next()));
            if (n && rng.chance(1, 6)) v.raw[rng.below(n)] = 0;
            break;
        }
    }
    return v;
}
Val mutate_val(Rng& rng, Spec const& s, Val const& v, bool& changed)
{
    // changes exactly one leaf (or one container's size); changed says whether anything could be
    Val r = v;
    changed = false;
    switch (s.k)
    {
        case NUM: case ENM: case PTR: case OPQ:
            if (r.raw.empty()) return r;
            r.raw[rng.below(r.raw.size())] ^= uint8_t(1u << rng.below(8)); changed = true; return r;
        case STR:
            if (r.raw.empty() || rng.chance(1, 4)) r.raw.push_back(rng.chance(1, 3) ? 0 : 'q');
            else if (rng.chance(1, 4)) r.raw.pop_back();
            else r.raw[rng.below(r.raw.size())] ^= uint8_t(1u << rng.below(8));
            changed = true; return r;
        case VEC:
            if (r.kids.empty() || rng.chance(1, 5)) { r.kids.push_back(gen_val(rng, *s.elem)); changed = true; return r; }
            if (rng.chance(1, 5)) { r.kids.pop_back(); changed = true; return r; }
            /* fallthrough */
        case ARR: case COMP:
        {
            if (r.kids.empty()) return r;
            size_t n = r.kids.size(), st = rng.below(n);
            for (size_t i = 0; i < n && !changed; ++i)
            {
                size_t j = (st + i) % n;
                r.kids[j] = mutate_val(rng, s.k == COMP ? *s.fields[j].type : *s.elem, r.kids[j], changed);
            }
            return r;
        }
    }
    return r;
}
Val default_val(Spec const& s)
{
    Val v;
    switch (s.k)
    {
        case NUM: case PTR: case OPQ: case ENM: v.raw.assign(s.size, 0); break;
        case COMP: for (size_t i = 0; i < s.fields.size(); ++i) v.kids.push_back(default_val(*s.fields[i].type)); break;
        case ARR: for (size_t i = 0; i < s.dim; ++i) v.kids.push_back(default_val(*s.elem)); break;
        case VEC: case STR: break;
    }
    return v;
}
void build_native(Spec const& s, Val const& v, uint8_t* mem)
{
    switch (s.k)
    {
        case NUM: case ENM: case PTR: case OPQ: if (s.size) memcpy(mem, &v.raw[0], s.size); break;
        case COMP: for (size_t i = 0; i < s.fields.size(); ++i) build_native(*s.fields[i].type, v.kids[i], mem + s.fields[i].off); break;
        case ARR: for (size_t i = 0; i < s.dim; ++i) build_native(*s.elem, v.kids[i], mem + i * s.elem->size); break;
        case VEC:
        {
            std::vector<uint8_t>* p = new (mem) std::vector<uint8_t>();
            p->resize(v.kids.size() * s.elem->size, 0xA5);
            for (size_t i = 0; i < v.kids.size(); ++i) build_native(*s.elem, v.kids[i], p->data() + i * s.elem->size);
            break;
        }
        case STR: new (mem) std::string(v.raw.begin(), v.raw.end()); break;
    }
}
void destroy_native(Spec const& s, uint8_t* mem)
{
    if (!s.has_cont) return;
    switch (s.k)
    {
        case COMP: for (size_t i = 0; i < s.fields.size(); ++i) destroy_native(*s.fields[i].type, mem + s.fields[i].off); break;
        case ARR: for (size_t i = 0; i < s.dim; ++i) destroy_native(*s.elem, mem + i * s.elem->size); break;
        case VEC:
        {
            std::vector<uint8_t>* p = reinterpret_cast<std::vector<uint8_t>*>(mem);
            size_t n = s.elem->size ? p->size() / s.elem->size : 0;
            for (size_t i = 0; i < n; ++i) destroy_native(*s.elem, p->data() + i * s.elem->size);
            p->~vector<uint8_t>();
            break;
        }
        case STR: { typedef std::string S; reinterpret_cast<S*>(mem)->~S(); break; }
        default: break;
    }
}
Val read_native(Spec const& s, uint8_t const* mem)
{
    Val v;
    switch (s.k)
    {
        case NUM: case ENM: case PTR: case OPQ: v.raw.assign(mem, mem + s.size); break;
        case COMP: for (size_t i = 0; i < s.fields.size(); ++i) v.kids.push_back(read_native(*s.fields[i].type, mem + s.fields[i].off)); break;
        case ARR: for (size_t i = 0; i < s.dim; ++i) v.kids.push_back(read_native(*s.elem, mem + i * s.elem->size)); break;
        case VEC:
        {
            std::vector<uint8_t> const* p = reinterpret_cast<std::vector<uint8_t> const*>(mem);
            size_t n = p->size() / s.elem->size;
            if (n * s.elem->size != p->size()) { v.raw.push_back(0xEE); return v; }   // not a whole number of elements
            for (size_t i = 0; i < n; ++i) v.kids.push_back(read_native(*s.elem, p->data() + i * s.elem->size));
            break;
        }
        case STR:
        {
            std::string const* p = reinterpret_cast<std::string const*>(mem);
            v.raw.assign(p->begin(), p->end()); break;
        }
    }
    return v;
}
std::string show(Spec const& s, Val const& v)
{
    std::string r;
    switch (s.k)
    {
        case NUM: case ENM: case PTR: case OPQ: return hex(v.raw.data(), v.raw.size(), 24);
        case STR: return "\"" + hex(v.raw.data(), v.raw.size(), 24) + "\"";
        case COMP: case ARR: case VEC:
            r = s.k == COMP ? "{" : s.k == ARR ? "[" : "<";
            for (size_t i = 0; i < v.kids.size() && r.size() < 600; ++i) r += (i ? "," : "") + show(s.k == COMP ? *s.fields[i].type : *s.elem, v.kids[i]);
            return r + (s.k == COMP ? "}" : s.k == ARR ? "]" : ">");
    }
    return r;
}

static void ref_dump_in(Spec const& s, Val const& v, RefDump& r, std::vector<size_t>* /*unused*/)
{
    switch (s.k)
    {
        case NUM: case ENM: case PTR: case OPQ:
            r.bytes.insert(r.bytes.end(), v.raw.begin(), v.raw.end());
            r.mask.insert(r.mask.end(), v.raw.size(), 1); break;
        case COMP:
        {
            size_t cur = 0;
            for (size_t i = 0; i < s.fields.size(); ++i)
            {
                for (; cur < s.fields[i].off; ++cur) { r.bytes.push_back(0); r.mask.push_back(0); }
                ref_dump_in(*s.fields[i].type, v.kids[i], r, 0);
                cur = s.fields[i].off + s.fields[i].type->size;
            }
            for (; cur < s.size; ++cur) { r.bytes.push_back(0); r.mask.push_back(0); }
            break;
        }
        case ARR: for (size_t i = 0; i < s.dim; ++i) ref_dump_in(*s.elem, v.kids[i], r, 0); break;
        case VEC: case STR:
        {
            uint64_t n = s.k == VEC ? v.kids.size() : v.raw.size();
            uint8_t b[8];
            for (int i = 0; i < 8; ++i) b[i] = uint8_t(n >> (8 * i));
            r.bytes.insert(r.bytes.end(), b, b + 8); r.mask.insert(r.mask.end(), 8, 1);
            if (s.k == STR) { r.bytes.insert(r.bytes.end(), v.raw.begin(), v.raw.end()); r.mask.insert(r.mask.end(), v.raw.size(), 1); }
            else for (size_t i = 0; i < v.kids.size(); ++i) ref_dump_in(*s.elem, v.kids[i], r, 0);
            break;
        }
    }
}
RefDump ref_dump(Spec const& s, Val const& v)
{
    RefDump r; r.min_size = 0;
    ref_dump_in(s, v, r, 0);
    r.min_size = r.bytes.size();
    size_t tp = trailing_pad(s);
    while (tp-- && r.min_size && !r.mask[r.min_size - 1]) --r.min_size;
    return r;
}
bool dump_matches(RefDump const& r, uint8_t const* d, size_t n, std::string& why)
{
    if (n < r.min_size || n > r.bytes.size())
    { why = "size " + str(n) + ", expected between " + str(r.min_size) + " and " + str(r.bytes.size()); return false; }
    for (size_t i = 0; i < n; ++i)
        if (r.mask[i] && r.bytes[i] != d[i])
        {
            why = "byte " + str(i) + " is " + hex(d + i, 1) + ", expected " + hex(&r.bytes[i], 1);
            return false;
        }
    return true;
}
std::string byte_map(Spec const& s)
{
    switch (s.k)
    {
        case NUM: case ENM: return std::string(s.size, 'd');
        case PTR: return std::string(s.size, '*');
        case OPQ: return std::string(s.size, 'o');
        case VEC: case STR: return std::string(s.size, 'c');
        case ARR: { std::string r, e = byte_map(*s.elem); for (size_t i = 0; i < s.dim; ++i) r += e; return r; }
        case COMP:
        {
            std::string r(s.size, 'p');
            for (size_t i = 0; i < s.fields.size(); ++i) r.replace(s.fields[i].off, s.fields[i].type->size, byte_map(*s.fields[i].type));
            return r;
        }
    }
    return "";
}
size_t trailing_pad(Spec const& s)
{
    std::string m = byte_map(s);
    size_t n = 0;
    while (n < m.size() && m[m.size() - 1 - n] == 'p') ++n;
    return n;
}
NativeValue::NativeValue(SP s, Val const& v, int pad_fill) : spec(s), mem(s->size), live(true)
{ memset(mem.p, pad_fill, mem.n); build_native(*s, v, mem.p); }
NativeValue::NativeValue(SP s) : spec(s), mem(s->size), live(false) {}
NativeValue::~NativeValue() { if (live) destroy_native(*spec, mem.p); }
