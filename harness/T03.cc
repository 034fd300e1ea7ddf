// T03: metadata of types and fields
#include "model.hh"
using namespace Typelib;

const char* vh_rule = "one case = a random history of 15 to 50 operations (set, add one or several values, clear one key or all, copy, merge between types, "
    "fields and whole registries) on the metadata of types and fields, each compared afterwards with a map of sets; non-trivial always; distinct by the sequence of operations";
bool vh_check_leaks = true;
void vh_setup(Ctx&) { vh_hold_plugins(); }

typedef std::map<std::string, std::set<std::string> > MM;
struct Obj { Type* t; std::string field; MM* m; };
static char const* const keys[] = { "doc", "k", "source_id", "", "a b" };
static char const* const vals[] = { "1", "2", "", "long value with spaces", "x:y", "<&\"'>" };

struct Side
{
    std::unique_ptr<Registry> reg;
    std::map<std::string, MM> types, fields;    // by type name, by type.field
    std::map<std::string, std::string> alias;
    Side(Rng& rng, int which) : reg(new Registry)
    {
        reg->add(new Numeric("/n", 4, Numeric::SInt));
        reg->add(new Enum("/e"));
        reg->add(new OpaqueType("/o", 3));
        types["/n"]; types["/e"]; types["/o"];
        for (int i = 0; i < 3; ++i)
        {
            std::string nm = "/C" + str(i);
            if (which && rng.chance(1, 4)) continue;
            Compound* c = new Compound(nm);
            for (int f = 0; f < 3; ++f)
            {
                std::string fn = "f" + str(f);
                if (which && rng.chance(1, 5)) continue;
                c->addField(fn, *reg->get(f == 1 ? "/e" : "/n"), 4 * f);
                fields[nm + "." + fn];
            }
            reg->add(c); types[nm];
        }
        if (rng.chance(1, 2)) { reg->alias("/n", "/al"); alias["/al"] = "/n"; }
        else if (rng.chance(1, 2)) { reg->alias("/e", "/al"); alias["/al"] = "/e"; }
    }
    MetaData& at(std::string const& name) const
    {
        size_t dot = name.find('.');
        if (dot == std::string::npos) return reg->get(name)->getMetaData();
        return static_cast<Compound const*>(reg->get(name.substr(0, dot)))->getField(name.substr(dot + 1))->getMetaData();
    }
    std::string pick(Rng& rng, bool field) const
    {
        std::map<std::string, MM> const& m = field && !fields.empty() ? fields : types;
        std::map<std::string, MM>::const_iterator i = m.begin(); std::advance(i, rng.below(m.size()));
        return i->first;
    }
    MM& model(std::string const& n) { return n.find('.') == std::string::npos ? types[n] : fields[n]; }
};
static std::string same(MetaData const& md, MM const& want)
{
    if (md.get() != want) return "holds other keys or values than were given";
    for (size_t i = 0; i < 5; ++i)
    {
        MM::const_iterator w = want.find(keys[i]);
        if (md.include(keys[i]) != (w != want.end())) return std::string("include(") + keys[i] + ")";
        if (md.get(keys[i]) != (w == want.end() ? std::set<std::string>() : w->second)) return std::string("get(") + keys[i] + ")";
    }
    return "";
}
static void merge_into(MM& to, MM const& from)
{ for (MM::const_iterator i = from.begin(); i != from.end(); ++i) to[i->first].insert(i->second.begin(), i->second.end()); }

void vh_case(Ctx& c)
{
    std::vector<std::unique_ptr<Side> > sides;
    sides.push_back(std::unique_ptr<Side>(new Side(c.rng, 0))); sides.push_back(std::unique_ptr<Side>(new Side(c.rng, 1)));
    uint64_t sig = 1; std::string hist;
    int n = c.rng.range(15, 50);
    for (int i = 0; i < n; ++i)
    {
        int k = c.rng.below(2), op = c.rng.range(0, 9);
        Side& s = *sides[k];
        std::string who = s.pick(c.rng, c.rng.chance(1, 2)), key = keys[c.rng.below(5)], val = vals[c.rng.below(6)];
        MetaData& md = s.at(who); MM& m = s.model(who);
        hist += str(op) + ":" + str(k) + who + ":" + key + "=" + val + " ";
        sig = sig * 1099511628211ull ^ vh_hash(hist);
        c.desc(hist);
        switch (op)
        {
            case 0: case 1: md.set(key, val); m[key].clear(); m[key].insert(val); break;
            case 2: case 3: md.add(key, val); m[key].insert(val); break;
            case 4: { std::set<std::string> vs; for (int j = c.rng.range(0, 3); j > 0; --j) vs.insert(vals[c.rng.below(6)]); md.add(key, vs); m[key].insert(vs.begin(), vs.end()); break; }
            case 5: md.clear(key); m.erase(key); break;
            case 6: if (c.rng.chance(1, 3)) { md.clear(); m.clear(); } break;
            case 7:
            {
                Side& o = *sides[c.rng.below(2)];
                std::string other = o.pick(c.rng, c.rng.chance(1, 2));
                MM copy = o.model(other);
                md.merge(o.at(other)); merge_into(m, copy);
                c.count("merges of metadata");
                break;
            }
            case 8:
            {
                Side& o = *sides[1 - k];
                if (c.rng.chance(1, 2))
                {
                    // a type's merge brings its own entries, and its fields' by name
                    std::string a = s.pick(c.rng, false), b = o.pick(c.rng, false);
                    s.reg->get(a)->mergeMetaData(*o.reg->get(b));
                    merge_into(s.types[a], o.types[b]);
                    for (int f = 0; f < 3; ++f) { std::string fa = a + ".f" + str(f), fb = b + ".f" + str(f); if (s.fields.count(fa) && o.fields.count(fb)) merge_into(s.fields[fa], o.fields[fb]); }
                    c.count("merges of types");
                }
                else
                {
                    s.reg->mergeMetaData(*o.reg);
                    for (std::map<std::string, MM>::iterator t = o.types.begin(); t != o.types.end(); ++t) if (s.types.count(t->first)) merge_into(s.types[t->first], t->second);
                    for (std::map<std::string, MM>::iterator t = o.fields.begin(); t != o.fields.end(); ++t) if (s.fields.count(t->first)) merge_into(s.fields[t->first], t->second);
                    if (s.alias.count("/al") && o.alias.count("/al")) merge_into(s.types[s.alias["/al"]], o.types[o.alias["/al"]]);
                    c.count("merges of registries");
                }
                break;
            }
            case 9:
            {
                // a copy of a type or field is given its own metadata
                size_t dot = who.find('.');
                if (dot == std::string::npos)
                {
                    if (who != "/n") break;
                    Numeric t(*static_cast<Numeric const*>(s.reg->get(who)));
                    std::string d = same(t.getMetaData(), m); CK(c, d.empty(), "copy", "copy of a type " + d);
                    t.getMetaData().add("only the copy", "x"); t.getMetaData().clear(key);
                }
                else
                {
                    Field f(*static_cast<Compound const*>(s.reg->get(who.substr(0, dot)))->getField(who.substr(dot + 1)));
                    std::string d = same(f.getMetaData(), m); CK(c, d.empty(), "copy", "copy of a field " + d);
                    f.getMetaData().set("only the copy", "x"); f.getMetaData().clear();
                }
                c.count("copies");
                break;
            }
        }
        c.count("operations");
        for (size_t j = 0; j < 2; ++j)
        {
            for (std::map<std::string, MM>::iterator t = sides[j]->types.begin(); t != sides[j]->types.end(); ++t)
            { std::string d = same(sides[j]->reg->get(t->first)->getMetaData(), t->second); CK(c, d.empty(), "type-metadata", "metadata of " + t->first + " " + d); }
            for (std::map<std::string, MM>::iterator t = sides[j]->fields.begin(); t != sides[j]->fields.end(); ++t)
            { std::string d = same(sides[j]->at(t->first), t->second); CK(c, d.empty(), "field-metadata", "metadata of " + t->first + " " + d); }
        }
    }
    c.sig(sig); c.sample(hist.substr(0, 300));
}
