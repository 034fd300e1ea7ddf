// R06: deriving pointers and arrays by name
#include "graph.hh"
#include <typelib/typebuilder.hh>
using namespace Typelib;

const char* vh_rule = "one case = a registry of random types, asked for 10 to 30 names made of a base name (known or not, absolute, relative or an alias) and pointer and array modifiers, "
    "well formed, ill formed or mutated; the answers of has() and build(), the type that is built and everything else in the registry compared with the model; then types derived step by step from some of the types by pointers and outer and inner dimensions; "
    "distinct by name; non-trivial when a type of at least two modifiers is built";
bool vh_check_leaks = true;
void vh_setup(Ctx&) { vh_hold_plugins(); }

// splits a name in base and modifiers (leftmost first); false when a modifier is ill formed
static bool split(std::string n, std::string& base, std::vector<std::string>& mods)
{
    mods.clear();
    while (!n.empty())
    {
        char e = n[n.size() - 1];
        if (e == '*') { mods.insert(mods.begin(), "*"); n.resize(n.size() - 1); }
        else if (e == ']')
        {
            size_t p = n.rfind('[');
            if (p == std::string::npos) return false;
            std::string dim = n.substr(p + 1, n.size() - p - 2);
            if (dim.empty() || dim.find_first_not_of("0123456789") != std::string::npos) return false;
            size_t nz = dim.find_first_not_of('0');
            if (nz != std::string::npos && (dim.size() - nz > 10 || strtoll(dim.c_str(), 0, 10) > 2147483647ll)) return false;
            mods.insert(mods.begin(), "[" + (nz == std::string::npos ? std::string("0") : dim.substr(nz)) + "]"); n.resize(p);
        }
        else break;
    }
    base = n;
    return !n.empty();
}
// deriving types step by step
static void builder(Ctx& c, Registry& reg, Type const* from)
{
    std::unique_ptr<Snap> s0(new Snap(reg));
    Type const* base = from;
    std::vector<std::string> mods;
    std::string d;
    {
        TypeBuilder b(reg, from);
        if (from->getName().find(' ') == std::string::npos && c.rng.chance(1, 3))
        {
            std::list<std::string> names(1, from->getName());
            TypeBuilder other(reg, names);
            CK(c, &other.getType() == reg.get(from->getName()), "builder-list", "a builder on the name " + from->getName() + " starts with " + other.getType().getName());
            names.push_back("xyz");
            std::string e = caught([&] { TypeBuilder none(reg, names); });
            CK(c, !e.empty(), "builder-unknown", "a builder on an unknown name is accepted");
        }
        // what the type is made of
        for (Array const* a = 0; (a = dynamic_cast<Array const*>(base)); base = &a->getIndirection()) mods.insert(mods.begin(), "[" + str(a->getDimension()) + "]");
        double sz = from->getSize();
        for (int k = c.rng.range(1, 5); k > 0; --k)
        {
            int n = c.rng.range(1, 4);
            switch (c.rng.range(0, 2))
            {
                case 0: n = c.rng.range(0, 2); d += " pointer " + str(n); b.addPointer(n); for (int i = 0; i < n; ++i) { mods.push_back("*"); sz = sizeof(void*); } break;
                case 1: d += " major " + str(n); sz *= n; b.addArrayMajor(n); mods.push_back("[" + str(n) + "]"); break;
                default:
                {
                    d += " minor " + str(n); sz *= n;
                    size_t i = mods.size(); while (i && mods[i - 1] != "*") --i;
                    b.addArrayMinor(n); mods.insert(mods.begin() + i, "[" + str(n) + "]");
                }
            }
            Type const* at = base;
            for (size_t i = 0; i < mods.size(); ++i)
            {
                std::string nn = at->getName() + mods[i];
                Type const* t = reg.get(nn);
                CK(c, t, "builder", "a builder on " + from->getName() + d + " does not define " + nn);
                Indirect const* ind = dynamic_cast<Indirect const*>(t);
                CK(c, ind && ind->getIndirection() == *at && (t->getCategory() == Type::Pointer) == (mods[i] == "*"), "builder", nn + " is not derived from " + at->getName());
                CK(c, t->getSize() == (mods[i] == "*" ? sizeof(void*) : at->getSize() * atoi(mods[i].c_str() + 1)), "builder", nn + " has size " + str(t->getSize()));
                at = t;
            }
            CK(c, &b.getType() == at, "builder", "a builder on " + from->getName() + d + " gives " + b.getType().getName() + " instead of " + at->getName());
            c.count("built step by step");
            if (sz > 1e7) break;
        }
        c.sig(vh_hash(from->getName() + d));
    }
    Snap s1(reg);
    CK(c, s1.closed().empty(), "not-closed", "after a builder, types lead to " + s1.closed());
    for (std::map<std::string, Snap::Entry>::iterator i = s0->names.begin(); i != s0->names.end(); ++i)
    {
        Snap::Entry const* e = s1.find(i->first);
        CK(c, e && e->type == i->second.type, "builder-changes", "a builder changes " + i->first);
        std::string diff = diff_nodes(i->second.node, e->node, true, true);
        CK(c, diff.empty(), "builder-changes", "a builder: " + diff);
    }
}
void vh_case(Ctx& c)
{
    GOpts o; o.ntypes = c.rng.range(2, 6); o.weird_names = c.rng.chance(1, 3); o.namespaces = c.rng.chance(2, 3);
    Graph a; a.generate(c.rng, o);
    Registry reg;
    a.build(reg);
    std::vector<std::string> al; al.push_back("/alias_a"); al.push_back("/A/alias_b"); al.push_back("/B/z");
    dress_registry(c.rng, reg, al, false, false);
    static char const* const nss[] = { "/", "/A", "/A/B", "/B" };
    if (c.rng.chance(1, 2)) reg.setDefaultNamespace(nss[c.rng.below(4)]);
    for (int k = c.rng.range(10, 30); k > 0; --k)
    {
        std::unique_ptr<Snap> s0(new Snap(reg));
        std::string n;
        { std::map<std::string, Snap::Entry>::iterator i = s0->names.begin(); std::advance(i, c.rng.below(s0->names.size())); n = i->first; }
        if (c.rng.chance(1, 4)) { size_t p = n.find('/', 1); n = n.substr(p == std::string::npos || c.rng.chance(1, 2) ? 1 : p + 1); }
        if (c.rng.chance(1, 10)) n = c.rng.chance(1, 2) ? "/unknown" : "";
        int nm = c.rng.range(0, 3);
        for (int i = 0; i < nm; ++i) switch (c.rng.range(0, 11))
        {
            case 0: case 1: case 2: case 3: case 4: n += "*"; break;
            case 5: n += "[0" + str(c.rng.range(0, 3)) + "]"; break;
            case 6: if (c.rng.chance(1, 3)) { static char const* const junk[] = { "[]", "]", "[", "[x]", "[-1]", "[2147483648]", "[99999999999999999999]", "[1 2]", "[+1]", "[1][", "[0x2]" }; n += junk[c.rng.below(11)]; break; }
            default: n += "[" + str(c.rng.range(0, 5)) + "]";
        }
        if (c.rng.chance(1, 10) && !n.empty())
        {
            size_t p = c.rng.below(n.size());
            if (c.rng.chance(1, 2)) n.erase(p, 1); else n[p] = "*[]/<>a1"[c.rng.below(8)];
        }
        if (n.find(' ') != std::string::npos && c.rng.chance(1, 2)) continue;
        c.desc(n);
        std::string base; std::vector<std::string> mods;
        // known as it is, or derived from what the base stands for
        Type const* want = reg.get(n), *b = 0;
        bool ok = want;
        if (!ok) ok = split(n, base, mods) && (b = reg.get(base));
        {
            std::string pb; std::vector<std::string> pm;
            if (n.find(' ') == std::string::npos && split(n, pb, pm))
            {
                std::string got = caught([&] { std::string g = TypeBuilder::getBaseTypename(n); if (g != pb) throw std::runtime_error("is " + g); });
                CK(c, got.empty(), "base-name", "the base of " + n + " " + got);
                CK(c, TypeBuilder::getBaseType(reg, n) == reg.get(pb), "base-type", "the base type of " + n + " is not " + pb);
                c.count("base names");
            }
        }
        bool spaces = n.find(' ') != std::string::npos && !want;        // spaces between modifiers are left open
        size_t sz = 1; if (b) sz = b->getSize();
        for (size_t i = 0; i < mods.size(); ++i) sz = mods[i] == "*" ? sizeof(void*) : sz * atoi(mods[i].c_str() + 1);
        bool h = false; std::string e = caught([&] { h = reg.has(n); });
        CK(c, e.empty(), "has-throws", "has('" + n + "') throws " + e);
        if (!spaces) CK(c, h == ok, "has", "has('" + n + "') says " + (h ? "yes" : "no"));
        CK(c, reg.has(n, false) == (want != 0), "has-no-build", "has('" + n + "', false) does not tell what is there");
        std::string diff = diff_snaps(*s0, Snap(reg));
        CK(c, diff.empty(), "has-changes", "has('" + n + "') changes the registry: " + diff);
        Type const* t = 0; e = caught([&] { t = reg.build(n); });
        CK(c, e.empty(), "build-throws", "build('" + n + "') throws " + e);
        CK(c, h == (t != 0), "build", "has('" + n + "') says " + (h ? "yes" : "no") + ", but build() gives " + (t ? t->getName() : "nothing"));
        std::unique_ptr<Snap> s1(new Snap(reg));
        CK(c, s1->closed().empty(), "not-closed", "after build('" + n + "'), types lead to " + s1->closed());
        std::set<std::string> made;
        if (t && want) CK(c, t == want, "build-known", "build('" + n + "') gives another type than the one of that name");
        else if (t && !spaces)
        {
            Type const* at = b;
            for (size_t i = 0; i < mods.size(); ++i)
            {
                std::string nn = at->getName() + mods[i];
                Type const* d = reg.get(nn);
                CK(c, d && d->getName() == nn, "built", "build('" + n + "') does not define " + nn);
                Indirect const* ind = dynamic_cast<Indirect const*>(d);
                CK(c, ind && ind->getIndirection() == *at, "built", nn + " is not derived from " + at->getName());
                Array const* arr = dynamic_cast<Array const*>(d);
                CK(c, (mods[i] == "*") == !arr && (arr ? arr->getDimension() == size_t(atoi(mods[i].c_str() + 1)) && d->getSize() == arr->getDimension() * at->getSize() : d->getCategory() == Type::Pointer && d->getSize() == sizeof(void*)),
                    "built", nn + " has size " + str(d->getSize()));
                if (!s0->find(nn)) made.insert(nn);
                at = d;
            }
            CK(c, t == at, "built", "build('" + n + "') gives " + t->getName() + " instead of " + at->getName());
            CK(c, reg.build(n) == t && reg.get(t->getName()) == t, "built-again", "building " + n + " again gives another type");
            c.count("built");
            if (mods.size() > 1) { c.sig(vh_hash(n)); c.sample(n); }
        }
        else if (!t) c.count("refused");
        for (std::map<std::string, Snap::Entry>::iterator i = s1->names.begin(); i != s1->names.end(); ++i)
        {
            Snap::Entry const* had = s0->find(i->first);
            if (had)
            {
                CK(c, had->type == i->second.type && had->alias == i->second.alias && had->persistent == i->second.persistent && had->source == i->second.source, "changes", "build('" + n + "') changes " + i->first);
                std::string diff = diff_nodes(had->node, i->second.node, true, true);
                CK(c, diff.empty(), "changes", "build('" + n + "'): " + diff);
            }
            else if (!spaces) CK(c, i->second.alias ? made.count(i->second.node->name) : made.count(i->first) && !i->second.persistent, "spurious", "build('" + n + "') adds " + i->first);
        }
        CK(c, s1->names.size() >= s0->names.size(), "lost", "build('" + n + "') loses types");
        if (sz > (1u << 28)) return;
    }
    for (int k = c.rng.range(0, 4); k > 0; --k)
    {
        Snap s(reg);
        std::map<std::string, Snap::Entry>::iterator i = s.names.begin(); std::advance(i, c.rng.below(s.names.size()));
        Type const* t = reg.get(i->first);
        if (t->getSize() < 1000000) builder(c, reg, t);
    }
}
