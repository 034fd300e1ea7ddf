// V04: life cycle of values: init, copy, zero, load, destroy in any order
#include "model.hh"
using namespace Typelib;

const char* vh_rule = "one case = a random history of 12 to 40 operations (init on garbage, copy, self-copy, zero, load, native "
    "assignment, destroy) over four values of one random type, each slot compared with a model value after every operation; "
    "non-trivial when the type holds a container, an enum or several fields; distinct by type structure and operation sequence";
bool vh_check_leaks = true;
void vh_setup(Ctx&) { vh_hold_plugins(); }

// checks the memory after init(): containers empty, enums declared, everything else untouched
static void check_init(Ctx& c, Spec const& s, uint8_t const* mem, uint8_t const* before)
{
    switch (s.k)
    {
        case NUM: case PTR: case OPQ:
            CK(c, memcmp(mem, before, s.size) == 0, "init-touches-data", "init() changed bytes of a " + s.name); break;
        case ENM:
        {
            int v; memcpy(&v, mem, 4);
            bool ok = s.syms.empty();
            for (size_t i = 0; i < s.syms.size(); ++i) ok |= s.syms[i].second == v;
            CK(c, ok, "init-enum-undeclared", "init() left an enumeration at " + str(v) + ", which is none of its symbols");
            break;
        }
        case COMP:
        {
            std::string m(s.size, 'p');
            for (size_t i = 0; i < s.fields.size(); ++i)
            {
                check_init(c, *s.fields[i].type, mem + s.fields[i].off, before + s.fields[i].off);
                m.replace(s.fields[i].off, s.fields[i].type->size, std::string(s.fields[i].type->size, 'f'));
            }
            for (size_t i = 0; i < s.size; ++i)
                if (m[i] == 'p') CK(c, mem[i] == before[i], "init-touches-padding", "init() changed a padding byte");
            break;
        }
        case ARR: for (size_t i = 0; i < s.dim; ++i) check_init(c, *s.elem, mem + i * s.elem->size, before + i * s.elem->size); break;
        case VEC: case STR:
        {
            Val v = read_native(s, mem);
            CK(c, v.kids.empty() && v.raw.empty(), "init-container-not-empty", "init() produced a container that is not empty");
            break;
        }
    }
}

struct Slot { std::unique_ptr<NativeValue> nv; Val model; };

void vh_case(Ctx& c)
{
    GenOpts o; o.ldouble = c.rng.chance(1, 6); o.zero_dim = c.rng.chance(1, 5); o.packed = c.rng.chance(1, 6);
    bool ptrs = c.rng.chance(1, 5);
    o.pointers = ptrs;
    World w; w.populate(c.rng, o);
    SP s = c.rng.chance(3, 4) ? w.types[c.rng.below(w.types.size())] : w.random_spec(c.rng, o, 4);
    for (int i = 0; i < 3 && !s->has_cont; ++i) s = w.types[c.rng.below(w.types.size())];
    if (s->size == 0) return;
    bool ex = ptrs || c.rng.chance(1, 2);
    MemoryLayout lay = ex ? layout_of(*s->type, ptrs, false, c.rng.chance(1, 2), c.rng.chance(1, 2)) : layout_of(*s->type);
    GenVal g; g.budget = 120;

    Slot slots[4];
    std::string trace;
    int n = c.rng.range(12, 40);
    for (int step = 0; step < n; ++step)
    {
        int i = c.rng.range(0, 3), op = c.rng.range(0, 7);
        Slot& a = slots[i];
        if (!a.nv) op = c.rng.chance(2, 3) ? 0 : 1;
        int j = c.rng.range(0, 3);
        if ((op == 2 || op == 4) && !slots[j].nv) op = 5;
        trace += " " + str(op) + "." + str(i) + (op == 2 || op == 4 ? "<" + str(j) : "");
        c.desc("type " + s->shape() + " ops" + trace);
        bool over = c.rng.chance(1, 2);
        switch (op)
        {
            case 0:     // initialise garbage
            {
                if (a.nv) { a.nv->live = false; ex ? destroy(a.nv->value(), lay) : destroy(a.nv->value()); }
                a.nv.reset(new NativeValue(s));
                std::vector<uint8_t> before(s->size);
                for (size_t k = 0; k < s->size; ++k) a.nv->mem.p[k] = before[k] = uint8_t(c.rng.next());
                if (!ex && over) init(a.nv->value());
                else if (over) init(a.nv->value(), lay);
                else init(a.nv->mem.p, lay);
                check_init(c, *s, a.nv->mem.p, before.data());
                a.nv->live = true;
                a.model = read_native(*s, a.nv->mem.p);
                c.count("init");
                break;
            }
            case 1: case 5: // native construction, or native assignment over the existing value
                g.budget = 120;
                a.model = gen_val(c.rng, *s, g);
                if (a.nv) { destroy_native(*s, a.nv->mem.p); build_native(*s, a.model, a.nv->mem.p); }
                else a.nv.reset(new NativeValue(s, a.model, int(c.rng.below(256))));
                break;
            case 2:     // copy, possibly onto itself
                if (!ex && over) copy(a.nv->value(), slots[j].nv->value());
                else if (!ex) copy(a.nv->mem.p, slots[j].nv->mem.p, *s->type);
                else copy(a.nv->mem.p, slots[j].nv->mem.p, lay);
                a.model = slots[j].model;
                c.count(i == j ? "self copy" : "copy");
                break;
            case 3:     // zero
                if (!ex && over) zero(a.nv->value());
                else if (over) zero(a.nv->value(), lay);
                else zero(a.nv->mem.p, lay);
                a.model = default_val(*s);
                c.count("zero");
                break;
            case 4:     // load another slot's stream
            {
                std::vector<uint8_t> wire; dump(slots[j].nv->value(), wire, lay);
                load(a.nv->value(), wire, lay);
                a.model = slots[j].model;
                c.count("load");
                break;
            }
            default:    // destroy; the memory is garbage afterwards
                a.nv->live = false;
                if (!ex && over) destroy(a.nv->value());
                else if (over) destroy(a.nv->value(), lay);
                else destroy(a.nv->mem.p, lay);
                a.nv.reset();
                c.count("destroy");
                break;
        }
        for (int k = 0; k < 4; ++k)
            if (slots[k].nv)
            {
                Val now = read_native(*s, slots[k].nv->mem.p);
                if (now == slots[k].model) continue;
                static char const* const names[] = { "init", "assign", "copy", "zero", "load", "assign", "destroy", "destroy" };
                c.fail(std::string(names[op]) + (k == i ? "-wrong-value" : "-changes-another-value"),
                    "slot " + str(k) + " holds " + show(*s, now) + ", expected " + show(*s, slots[k].model) + " (last operation on slot " + str(i) + ")");
            }
    }
    for (int k = 0; k < 4; ++k)
        if (slots[k].nv && c.rng.chance(1, 2)) { slots[k].nv->live = false; destroy(slots[k].nv->value(), lay); }
    if (s->has_cont || byte_map(*s).size() > 1) { c.sig(s->hash() ^ vh_hash(trace)); c.sample("type " + s->shape() + " operations (0 init 1/5 assign 2 copy 3 zero 4 load 6/7 destroy)" + trace); }
}
