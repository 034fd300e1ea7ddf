// V06: memory layouts cover exactly the bytes they should, for every combination of flags
#include "model.hh"
#include <sstream>
using namespace Typelib;

const char* vh_rule = "one case = a random type whose layout is computed under all 16 combinations of the flags and interpreted, "
    "operation by operation, into a map of bytes that is compared with the type's own byte map; the stream written with padding "
    "excluded is compared with the value's data; non-trivial when the type has padding, containers, pointers or opaques; distinct by type structure";
bool vh_check_leaks = true;
void vh_setup(Ctx&) { vh_hold_plugins(); }

typedef MemoryLayout::const_iterator It;
struct Bad { std::string what; };

// interprets operations up to the end of the block; appends one letter per byte:
// M copied, S skipped, C container
static It walk(It it, It end, std::string& out, std::vector<std::pair<size_t, std::pair<Container const*, std::string> > >& conts, bool top)
{
    while (it != end && *it != MemLayout::FLAG_END)
    {
        if (end - it < 2) throw Bad{"operation without its operand"};
        size_t op = *it++, arg = *it++;
        switch (op)
        {
            case MemLayout::FLAG_MEMCPY: if (arg > 1000000) throw Bad{"absurd size"}; out.append(arg, 'M'); break;
            case MemLayout::FLAG_SKIP: if (arg > 1000000) throw Bad{"absurd size"}; out.append(arg, 'S'); break;
            case MemLayout::FLAG_ARRAY:
            {
                std::string e; std::vector<std::pair<size_t, std::pair<Container const*, std::string> > > sub;
                It close = walk(it, end, e, sub, false);
                for (size_t i = 0; i < arg; ++i)
                {
                    for (size_t j = 0; j < sub.size(); ++j) conts.push_back(std::make_pair(out.size() + sub[j].first, sub[j].second));
                    out += e;
                    if (out.size() > 1000000) throw Bad{"absurd size"};
                }
                it = close + 1;
                break;
            }
            case MemLayout::FLAG_CONTAINER:
            {
                Container const* t = reinterpret_cast<Container const*>(arg);
                std::string e; std::vector<std::pair<size_t, std::pair<Container const*, std::string> > > sub;
                It close = walk(it, end, e, sub, false);
                conts.push_back(std::make_pair(out.size(), std::make_pair(t, e)));
                out.append(t->getSize(), 'C');
                it = close + 1;
                break;
            }
            default: throw Bad{"unknown operation " + str(op)};
        }
    }
    if (!top && (it == end || *it != MemLayout::FLAG_END)) throw Bad{"unterminated block"};
    if (top && it != end) throw Bad{"unbalanced end of block"};
    return it;
}
static It walk_init(It it, It end, std::string& out, std::vector<uint8_t>& data, bool top)
{
    while (it != end && *it != MemLayout::FLAG_INIT_END)
    {
        if (end - it < 2) throw Bad{"init operation without its operand"};
        size_t op = *it++, arg = *it++;
        switch (op)
        {
            case MemLayout::FLAG_INIT:
                if (size_t(end - it) < arg) throw Bad{"init data runs past the end"};
                out.append(arg, 'I'); data.insert(data.end(), it, it + arg); it += arg; break;
            case MemLayout::FLAG_INIT_SKIP: if (arg > 1000000) throw Bad{"absurd size"}; out.append(arg, 'S'); data.insert(data.end(), arg, 0); break;
            case MemLayout::FLAG_INIT_REPEAT:
            {
                std::string e; std::vector<uint8_t> d;
                It close = walk_init(it, end, e, d, false);
                for (size_t i = 0; i < arg; ++i)
                {
                    out += e; data.insert(data.end(), d.begin(), d.end());
                    if (out.size() > 1000000) throw Bad{"absurd size"};
                }
                it = close + 1;
                break;
            }
            case MemLayout::FLAG_INIT_CONTAINER:
            {
                size_t n = reinterpret_cast<Container const*>(arg)->getSize();
                out.append(n, 'C'); data.insert(data.end(), n, 0); break;
            }
            default: throw Bad{"unknown init operation " + str(op)};
        }
    }
    if (!top && (it == end || *it != MemLayout::FLAG_INIT_END)) throw Bad{"unterminated init block"};
    if (top && it != end) throw Bad{"unbalanced end of init block"};
    return it;
}
// 'e' where an enum is, with the declared values
static void enum_map(Spec const& s, size_t off, std::vector<std::pair<size_t, Spec const*> >& out)
{
    if (s.k == ENM) out.push_back(std::make_pair(off, &s));
    else if (s.k == COMP) for (size_t i = 0; i < s.fields.size(); ++i) enum_map(*s.fields[i].type, off + s.fields[i].off, out);
    else if (s.k == ARR) for (size_t i = 0; i < s.dim; ++i) enum_map(*s.elem, off + i * s.elem->size, out);
}
static void containers(Spec const& s, size_t off, std::vector<std::pair<size_t, Spec const*> >& out)
{
    if (s.k == VEC || s.k == STR) out.push_back(std::make_pair(off, &s));
    else if (s.k == COMP) for (size_t i = 0; i < s.fields.size(); ++i) containers(*s.fields[i].type, off + s.fields[i].off, out);
    else if (s.k == ARR) for (size_t i = 0; i < s.dim; ++i) containers(*s.elem, off + i * s.elem->size, out);
}

static void check_cover(Ctx& c, Spec const& s, std::string const& got, bool merge, bool whole, std::string const& where)
{
    std::string want = byte_map(s);
    size_t tail = 0;
    while (tail < want.size() && (want[want.size() - 1 - tail] == 'p' || want[want.size() - 1 - tail] == 'o')) ++tail;
    CK(c, got.size() <= want.size(), "covers-too-much", where + ": covers " + str(got.size()) + " bytes of a type of " + str(want.size()));
    CK(c, whole ? got.size() == want.size() : got.size() + tail >= want.size(), "covers-too-little",
        where + ": covers " + str(got.size()) + " bytes of a type of " + str(want.size()) + " (" + want + ")");
    for (size_t i = 0; i < got.size(); ++i)
    {
        bool ok;
        switch (want[i])
        {
            case 'd': case '*': ok = got[i] == 'M'; break;
            case 'c': ok = got[i] == 'C'; break;
            default: ok = merge ? got[i] != 'C' : got[i] == 'S'; break;
        }
        CK(c, ok, std::string("byte-misclassified-") + want[i] + got[i], where + ": byte " + str(i) + " is " + got[i] + " in the layout of " + want + ": " + got);
    }
}

void vh_case(Ctx& c)
{
    GenOpts o; o.ldouble = c.rng.chance(1, 5); o.zero_dim = c.rng.chance(1, 5); o.pointers = c.rng.chance(1, 3); o.opaques = c.rng.chance(1, 3);
    o.cont_of_any = true; o.packed = c.rng.chance(1, 6); o.ntypes = 3; o.max_size = 700; o.max_fields = 5; o.max_depth = 3;
    World w; w.populate(c.rng, o);
    for (size_t k = 0; k < w.types.size() + 1; ++k)
    {
        SP s = k < w.types.size() ? w.types[k] : w.random_spec(c.rng, o, 4);
        std::string shape = s->shape(); bool zero = shape.find("[0]") != std::string::npos;
        c.desc("type " + shape);
        for (int f = 0; f < 16; ++f)
        {
            bool ptr = f & 1, opq = f & 2, merge = f & 4, trim = f & 8;
            std::string where = "flags accept_pointers=" + str(ptr) + " accept_opaques=" + str(opq) + " merge=" + str(merge) + " trim=" + str(trim);
            bool refuse = (s->has_ptr && !ptr) || (s->has_opq && !opq);
            MemoryLayout lay;
            bool threw = false;
            try { lay = layout_of(*s->type, ptr, opq, merge, trim); } catch (NoLayout const&) { threw = true; }
            // arrays without elements have no content that could be refused
            
            if (threw != refuse)
            {
                if (threw) CK(c, zero && refuse, "layout-refused", where + ": NoLayout although the flags accept everything the type holds");
                else CK(c, zero, "layout-accepted", where + ": a layout was returned although the type holds what the flags refuse");
            }
            if (threw) { c.count("layouts refused"); continue; }
            c.count("layouts interpreted");
            try
            {
                lay.validate();
                std::string got; std::vector<std::pair<size_t, std::pair<Container const*, std::string> > > conts;
                walk(lay.begin(), lay.end(), got, conts, true);
                check_cover(c, *s, got, merge, !trim, where);
                std::vector<std::pair<size_t, Spec const*> > want;
                containers(*s, 0, want);
                CK(c, want.size() == conts.size(), "container-count", where + ": " + str(conts.size()) + " containers in the layout, " + str(want.size()) + " in the type");
                for (size_t i = 0; i < want.size(); ++i)
                {
                    CK(c, conts[i].first == want[i].first && static_cast<Type const*>(conts[i].second.first) == want[i].second->type, "wrong-container", where + ": container " + str(i) + " is not the one at that place");
                    check_cover(c, *want[i].second->elem, conts[i].second.second, merge, false, where + ", elements of " + want[i].second->name);
                }
                std::string init; std::vector<uint8_t> data;
                walk_init(lay.init_begin(), lay.init_end(), init, data, true);
                std::string map = byte_map(*s);
                std::string expect(map.size(), 'S');
                for (size_t i = 0; i < map.size(); ++i) if (map[i] == 'c') expect[i] = 'C';
                std::vector<std::pair<size_t, Spec const*> > en; enum_map(*s, 0, en);
                for (size_t i = 0; i < en.size(); ++i) expect.replace(en[i].first, 4, "IIII");
                CK(c, init.size() <= expect.size(), "init-covers-too-much", where + ": " + init + " for " + expect);
                std::string full = init; full.append(expect.size() - init.size(), 'S');
                CK(c, full == expect, "init-wrong-bytes", where + ": initialises " + full + ", expected " + expect);
                for (size_t i = 0; i < en.size(); ++i)
                {
                    int v; memcpy(&v, &data[en[i].first], 4);
                    bool ok = false;
                    for (size_t j = 0; j < en[i].second->syms.size(); ++j) ok |= en[i].second->syms[j].second == v;
                    CK(c, ok, "init-enum-undeclared", where + ": initialises an enum with " + str(v));
                }
                std::ostringstream d; lay.display(d);
            }
            catch (Bad const& b) { c.fail("malformed-layout", where + ": " + b.what); }
            catch (InvalidMemoryLayout const& e) { c.fail("layout-does-not-validate", where + ": " + e.what()); }
        }
        // without merging, the stream of a value is its data and nothing else
        if (s->plain() || (s->has_cont && !s->has_ptr && !s->has_opq))
        {
            if (!s->size) continue;
            GenVal g; g.budget = 60; Val v = gen_val(c.rng, *s, g);
            NativeValue nv(s, v, 0x3d);
            MemoryLayout lay = layout_of(*s->type, false, false, false, c.rng.chance(1, 2));
            std::vector<uint8_t> out; dump(nv.value(), out, lay);
            RefDump ref = ref_dump(*s, v);
            std::vector<uint8_t> want;
            for (size_t i = 0; i < ref.bytes.size(); ++i) if (ref.mask[i]) want.push_back(ref.bytes[i]);
            CK(c, out == want, "data-only-stream", "stream without padding has " + str(out.size()) + " bytes " + hex(out.data(), out.size()) + ", the data is " + str(want.size()) + " bytes " + hex(want.data(), want.size()));
            CK(c, getDumpSize(nv.value(), lay) == want.size(), "data-only-stream", "getDumpSize() of the stream without padding");
            c.count("data-only streams compared");
        }
        std::string m = byte_map(*s);
        if (m.find_first_not_of('d') != std::string::npos) { c.sig(s->hash()); c.sample("type " + s->shape() + " bytes " + m.substr(0, 200)); }
    }
}
