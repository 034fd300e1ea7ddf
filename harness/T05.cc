// T05: compounds account for their fields; derived types for what they are derived from
#include "model.hh"
#include <algorithm>
using namespace Typelib;

const char* vh_rule = "one case = a compound given 0 to 12 fields at random offsets in random order (overlapping, apart, out of order), with every query compared after every step "
    "with the list of fields, then reordered; arrays and pointers of it; non-trivial when there are at least two fields; distinct by the fields given";
bool vh_check_leaks = true;
void vh_setup(Ctx&) { vh_hold_plugins(); }

struct F { std::string name; Type const* t; size_t off; };
static void verify(Ctx& c, Compound const& t, std::vector<F> const& fs, size_t size)
{
    CK(c, t.getSize() == size, "size", "size is " + str(t.getSize()) + " instead of " + str(size));
    CK(c, t.getFields().size() == fs.size(), "field-count", str(t.getFields().size()) + " fields instead of " + str(fs.size()));
    size_t i = 0, end = 0;
    std::set<Type const*> deps;
    for (Compound::FieldList::const_iterator it = t.getFields().begin(); it != t.getFields().end(); ++it, ++i)
    {
        CK(c, it->getName() == fs[i].name && &it->getType() == fs[i].t && it->getOffset() == fs[i].off, "field", "field " + str(i) + " is " + it->getName() + "@" + str(it->getOffset()) + " instead of " + fs[i].name + "@" + str(fs[i].off));
        CK(c, t.getField(fs[i].name) == &*it, "getField", "getField(" + fs[i].name + ") gives another field");
        end = std::max(end, fs[i].off + fs[i].t->getSize());
        deps.insert(fs[i].t);
    }
    CK(c, !t.getField("absent") && !t.getField(""), "getField", "getField() finds a field that is not there");
    CK(c, t.getTrailingPadding() == size - end, "trailing-padding", "trailing padding is " + str(t.getTrailingPadding()) + " instead of " + str(size - end));
    CK(c, t.dependsOn() == deps, "dependsOn", "the set of types of the fields differs");
}
static bool by_offset(F const& a, F const& b) { return a.off != b.off ? a.off < b.off : a.name < b.name; }

void vh_case(Ctx& c)
{
    GenOpts o; o.pointers = o.opaques = o.zero_dim = true; o.ntypes = 4;
    World w; w.populate(c.rng, o);
    std::string name = std::string(c.rng.chance(1, 2) ? "/NS" : "") + "/Built" + str(c.rng.below(100));
    Compound* t = new Compound(name);
    w.reg->add(t);
    CK(c, t->getName() == name && t->getBasename() == name.substr(name.rfind('/') + 1) && t->getNamespace() == name.substr(0, name.rfind('/') + 1), "names", "name, basename or namespace of " + name);
    std::vector<F> fs; size_t size = 0;
    int n = c.rng.range(0, 12);
    std::string hist;
    verify(c, *t, fs, 0);
    for (int i = 0; i < n; ++i)
    {
        SP s = w.random_spec(c.rng, o, 2);
        F f = { "f" + str(c.rng.below(1000)) + "_" + str(i), s->type, 0 };
        if (c.rng.chance(1, 2)) f.off = size; else f.off = c.rng.below(size + 20);
        hist += f.name + ":" + s->name + "@" + str(f.off) + " ";
        c.desc(hist);
        if (c.rng.chance(1, 2))
        {
            Field const& r = t->addField(f.name, *f.t, f.off);
            CK(c, r.getName() == f.name && r.getOffset() == f.off && &r.getType() == f.t, "addField-result", "addField() returns another field");
        }
        else { Field fd(f.name, *f.t); fd.getMetaData().set("k", f.name); t->addField(fd, f.off); CK(c, t->getField(f.name)->getMetaData("k").count(f.name) == 1, "addField-metadata", "metadata of the field given is lost"); }
        fs.push_back(f);
        size = std::max(size, f.off + f.t->getSize());
        verify(c, *t, fs, size);
        c.count("fields");
    }
    if (c.rng.chance(1, 2)) { size += c.rng.below(20); t->setSize(size); verify(c, *t, fs, size); }
    if (c.rng.chance(1, 2)) { std::sort(fs.begin(), fs.end(), by_offset); t->normalizeFieldOrder(); verify(c, *t, fs, size); c.count("reorderings"); }
    size_t dim = c.rng.chance(1, 10) ? 0 : c.rng.range(1, 500);
    Array const* a = dynamic_cast<Array const*>(w.reg->build(name + "[" + str(dim) + "]"));
    CK(c, a && a->getSize() == dim * size && a->getDimension() == dim && &a->getIndirection() == t && a->getName() == name + "[" + str(dim) + "]", "array", "array of " + str(dim) + " elements");
    Pointer const* p = dynamic_cast<Pointer const*>(w.reg->build(a->getName() + "*"));
    CK(c, p && p->getSize() == sizeof(void*) && &p->getIndirection() == a && p->dependsOn().size() == 1 && *p->dependsOn().begin() == a, "pointer", "pointer to an array");
    if (fs.size() > 1) { c.sig(vh_hash(hist)); c.sample(hist.substr(0, 300)); }
}
