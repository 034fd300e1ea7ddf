// V08: visiting, casting and addressing values
#include "model.hh"
#include <typelib/value_cast.hh>
using namespace Typelib;

const char* vh_rule = "one case = a random type (with pointers to real values and opaques) and value, visited completely and with an early "
    "stop at a random leaf, the sequence of callbacks compared with the one computed from the type description; every field looked "
    "up by name, every numeric leaf cast to all ten numeric C types; non-trivial when at least two leaves are visited; distinct by type structure and value";
bool vh_check_leaks = true;
void vh_setup(Ctx&) { vh_hold_plugins(); }

struct Event { char what; void const* at; Type const* type; };
static bool same(Event const& a, Event const& b) { return a.what == b.what && a.at == b.at && a.type == b.type; }

// follows pointers to real objects
static void patch(Rng& rng, Spec const& s, uint8_t* mem, std::vector<std::unique_ptr<NativeValue> >& pool)
{
    if (!s.has_ptr) return;
    switch (s.k)
    {
        case PTR:
        {
            GenVal g; g.budget = 10;
            pool.push_back(std::unique_ptr<NativeValue>(new NativeValue(s.elem, gen_val(rng, *s.elem, g), 0x44)));
            uint8_t* p = pool.back()->mem.p;
            memcpy(mem, &p, sizeof p);
            patch(rng, *s.elem, p, pool);
            break;
        }
        case COMP: for (size_t i = 0; i < s.fields.size(); ++i) patch(rng, *s.fields[i].type, mem + s.fields[i].off, pool); break;
        case ARR: for (size_t i = 0; i < s.dim; ++i) patch(rng, *s.elem, mem + i * s.elem->size, pool); break;
        default: break;
    }
}
// the reference traversal; stop = index of the leaf at which the visitor returns false
static bool walk(Spec const& s, uint8_t* mem, std::vector<Event>& ev, long& leaves, long stop)
{
    switch (s.k)
    {
        case NUM: case ENM: case OPQ:
        {
            static char const codes[] = "?b?????????";
            (void)codes;
            char k = s.k == ENM ? 'E' : s.k == OPQ ? 'O' : s.ncat == 'f' ? (s.size == 4 ? 'f' : 'd') : char((s.ncat == 'i' ? 'a' : 'A') + s.size);
            Event e = { k, mem, s.k == NUM ? 0 : s.type }; ev.push_back(e);
            return leaves++ != stop;
        }
        case COMP:
        {
            Event e = { '{', mem, s.type }; ev.push_back(e);
            for (size_t i = 0; i < s.fields.size(); ++i)
            {
                Event f = { '.', mem + s.fields[i].off, s.fields[i].type->type }; ev.push_back(f);
                if (!walk(*s.fields[i].type, mem + s.fields[i].off, ev, leaves, stop)) return false;
            }
            return true;
        }
        case ARR:
        {
            Event e = { '[', mem, s.type }; ev.push_back(e);
            for (size_t i = 0; i < s.dim; ++i) if (!walk(*s.elem, mem + i * s.elem->size, ev, leaves, stop)) return false;
            return true;
        }
        case PTR:
        {
            Event e = { '*', mem, s.type }; ev.push_back(e);
            uint8_t* p; memcpy(&p, mem, sizeof p);
            return walk(*s.elem, p, ev, leaves, stop);
        }
        case VEC: case STR:
        {
            Event e = { '<', mem, s.type }; ev.push_back(e);
            uint8_t* p; size_t n, es = s.elem->size;
            if (s.k == STR) { std::string* x = reinterpret_cast<std::string*>(mem); p = reinterpret_cast<uint8_t*>(&(*x)[0]); n = x->size(); }
            else { std::vector<uint8_t>* x = reinterpret_cast<std::vector<uint8_t>*>(mem); p = x->data(); n = x->size() / es; }
            for (size_t i = 0; i < n; ++i) walk(*s.elem, p + i * es, ev, leaves, stop);
            return true;
        }
    }
    return true;
}
struct Log : public ValueVisitor
{
    std::vector<Event> ev; long leaves, stop;
    Log(long stop_) : ValueVisitor(true), leaves(0), stop(stop_) {}
    bool leaf(char w, void const* p, Type const* t) { Event e = { w, p, t }; ev.push_back(e); return leaves++ != stop; }
    void node(char w, Value const& v) { Event e = { w, v.getData(), &v.getType() }; ev.push_back(e); }
    bool visit_(int8_t& v) { return leaf('a' + 1, &v, 0); }   bool visit_(uint8_t& v) { return leaf('A' + 1, &v, 0); }
    bool visit_(int16_t& v) { return leaf('a' + 2, &v, 0); }  bool visit_(uint16_t& v) { return leaf('A' + 2, &v, 0); }
    bool visit_(int32_t& v) { return leaf('a' + 4, &v, 0); }  bool visit_(uint32_t& v) { return leaf('A' + 4, &v, 0); }
    bool visit_(int64_t& v) { return leaf('a' + 8, &v, 0); }  bool visit_(uint64_t& v) { return leaf('A' + 8, &v, 0); }
    bool visit_(float& v) { return leaf('f', &v, 0); }        bool visit_(double& v) { return leaf('d', &v, 0); }
    bool visit_(Enum::integral_type& v, Enum const& e) { return leaf('E', &v, &e); }
    bool visit_(Value const& v, OpaqueType const& t) { if (&v.getType() != &t) return false; return leaf('O', v.getData(), &t); }
    bool visit_(Value const& v, Pointer const& t) { node('*', v); return ValueVisitor::visit_(v, t); }
    bool visit_(Value const& v, Array const& t) { node('[', v); return ValueVisitor::visit_(v, t); }
    bool visit_(Value const& v, Container const& t) { node('<', v); return ValueVisitor::visit_(v, t); }
    bool visit_(Value const& v, Compound const& t) { node('{', v); return ValueVisitor::visit_(v, t); }
    bool visit_(Value const& v, Compound const& t, Field const& f) { node('.', v); return ValueVisitor::visit_(v, t, f); }
};
// visitor that overrides nothing: it must come to an end on any value
struct Idle : public ValueVisitor { Idle(bool d) : ValueVisitor(d) {} };

template<typename T> void cast_one(Ctx& c, Spec const& s, uint8_t* mem, char cat)
{
    bool want = s.k == NUM && s.ncat == cat && s.size == sizeof(T);
    T got = T(); bool ok = true;
    try { got = c.rng.chance(1, 2) ? value_cast<T>(Value(mem, *s.type)) : value_cast<T>(mem, *s.type); } catch (BadValueCast const&) { ok = false; }
    CK(c, ok == want, ok ? "cast-accepted" : "cast-refused", "value_cast of a " + s.name + " to a numeric of " + str(sizeof(T)) + " bytes, category " + cat);
    if (ok) CK(c, memcmp(&got, mem, sizeof(T)) == 0, "cast-wrong-value", "value_cast of " + hex(mem, sizeof(T)) + " returned " + hex(&got, sizeof(T)));
}
static void casts(Ctx& c, Spec const& s, uint8_t* mem)
{
    if (s.k == COMP) { for (size_t i = 0; i < s.fields.size(); ++i) casts(c, *s.fields[i].type, mem + s.fields[i].off); return; }
    if (s.k == ARR && s.dim) return casts(c, *s.elem, mem + (s.dim - 1) * s.elem->size);
    if (s.k != NUM && s.k != ENM) return;
    cast_one<int8_t>(c, s, mem, 'i'); cast_one<uint8_t>(c, s, mem, 'u'); cast_one<int16_t>(c, s, mem, 'i'); cast_one<uint16_t>(c, s, mem, 'u');
    cast_one<int32_t>(c, s, mem, 'i'); cast_one<uint32_t>(c, s, mem, 'u'); cast_one<int64_t>(c, s, mem, 'i'); cast_one<uint64_t>(c, s, mem, 'u');
    cast_one<float>(c, s, mem, 'f'); cast_one<double>(c, s, mem, 'f');
    c.count("leaves cast");
}
static void fields(Ctx& c, Spec const& s, uint8_t* mem)
{
    if (s.k != COMP) return;
    Compound const& ct = dynamic_cast<Compound const&>(*s.type);
    for (size_t i = 0; i < s.fields.size(); ++i)
    {
        FieldSpec const& f = s.fields[i];
        if (f.type->size == 0) continue;
        Value v = c.rng.chance(1, 2) ? value_get_field(Value(mem, *s.type), f.name) : value_get_field(mem, *s.type, f.name);
        CK(c, v.getData() == mem + f.off && &v.getType() == f.type->type, "field-wrong-place", "field " + f.name + " found at " + str(static_cast<uint8_t*>(v.getData()) - mem) + " instead of " + str(f.off));
        Field const* d = ct.getField(f.name);
        CK(c, d && d->getOffset() == f.off && &d->getType() == f.type->type, "getField", "getField(" + f.name + ")");
        c.count("fields looked up");
        fields(c, *f.type, mem + f.off);
    }
    bool thrown = false;
    std::string absent = "no_such_field";
    for (size_t i = 0; i < s.fields.size(); ++i)
        if (s.fields[i].type->k == COMP && !s.fields[i].type->fields.empty())
        {
            // a name that exists one level deeper only
            std::string deep = s.fields[i].type->fields.back().name; bool top = false;
            for (size_t j = 0; j < s.fields.size(); ++j) top |= s.fields[j].name == deep;
            if (!top) absent = deep;
        }
    try { value_get_field(Value(mem, *s.type), absent); } catch (FieldNotFound const& e) { thrown = e.name == absent; }
    CK(c, thrown, "absent-field-found", "looking up the field " + absent + " did not report that there is none");
    CK(c, ct.getField(absent) == 0, "absent-field-found", "getField(" + absent + ") is not null");
}

void vh_case(Ctx& c)
{
    GenOpts o; o.zero_dim = c.rng.chance(1, 5); o.pointers = c.rng.chance(1, 2); o.opaques = c.rng.chance(1, 3); o.packed = c.rng.chance(1, 6);
    World w; w.populate(c.rng, o);
    SP s = c.rng.chance(3, 4) ? w.types[c.rng.below(w.types.size())] : w.random_spec(c.rng, o, 4);
    if (!s->size) return;
    GenVal g; g.budget = 80;
    Val v = gen_val(c.rng, *s, g);
    c.desc("type " + s->shape() + " value " + show(*s, v));
    NativeValue nv(s, v, 0x5e);
    std::vector<std::unique_ptr<NativeValue> > pool;
    patch(c.rng, *s, nv.mem.p, pool);
    Val before = read_native(*s, nv.mem.p);
    long total = 0;
    for (int round = 0; round < 3; ++round)
    {
        long stop = round ? long(c.rng.below(total ? total : 1)) : -1, n = 0;
        std::vector<Event> want; walk(*s, nv.mem.p, want, n, stop);
        Log log(stop); log.apply(nv.value());
        if (!round) total = n;
        size_t i = 0;
        while (i < want.size() && i < log.ev.size() && same(want[i], log.ev[i])) ++i;
        CK(c, i == want.size() && i == log.ev.size(), round ? "early-stop-traversal" : "traversal",
            "callback " + str(i) + " of " + str(want.size()) + " expected (" + str(log.ev.size()) + " made) is " + (i < log.ev.size() ? std::string(1, log.ev[i].what) : "missing") +
            ", expected " + (i < want.size() ? std::string(1, want[i].what) : "none") + (round ? ", stopping at leaf " + str(stop) : ""));
        c.count("callbacks compared", want.size());
    }
    Idle idle(true); idle.apply(nv.value());
    Idle idle2(false); idle2.apply(nv.value());
    casts(c, *s, nv.mem.p);
    fields(c, *s, nv.mem.p);
    CK(c, read_native(*s, nv.mem.p) == before, "visit-modifies", "visiting changed the value");
    if (total > 1) { c.sig(s->hash() ^ vh_hash(show(*s, v))); c.sample("type " + s->shape() + ", " + str(total) + " leaves visited in order"); }
}
