// T07: the names of the standard C++ types mean what they mean to the compiler
#include "graph.hh"
#include <lang/csupport/standard_types.hh>
#include <algorithm>
#include <limits>
using namespace Typelib;

const char* vh_rule = "one case = a registry with random types, some of them standard ones under their own or under other names, that is given the standard types once or more, "
    "directly or by merging, and then asked for every order of specifiers of every C++ type, arrays, pointers and vectors of them, in random namespaces; "
    "non-trivial when the registry had standard types before; distinct by what it had";
bool vh_check_leaks = true;

struct Std { size_t size; char cat; bool required; };
static std::map<std::string, Std> table;
static void name(std::string const& n, size_t size, char cat, bool required)
{
    Std s = { size, cat, required };
    std::map<std::string, Std>::iterator i = table.find("/" + n);
    if (i == table.end()) table["/" + n] = s; else i->second.required |= required;
}
template<typename T> static void type(std::string const& n, bool required = true)
{
    char cat = !std::numeric_limits<T>::is_integer ? 'f' : std::numeric_limits<T>::is_signed ? 'i' : 'u';
    // every order
    std::vector<std::string> words; std::istringstream in(n); std::string w;
    while (in >> w) words.push_back(w);
    std::sort(words.begin(), words.end());
    do { std::string p; for (size_t i = 0; i < words.size(); ++i) p += (i ? " " : "") + words[i]; name(p, sizeof(T), cat, false); } while (std::next_permutation(words.begin(), words.end()));
    if (required) name(n, sizeof(T), cat, true);
}
void vh_setup(Ctx&)
{
    vh_hold_plugins();
    type<bool>("bool"); type<char>("char"); type<signed char>("signed char"); type<unsigned char>("unsigned char"); type<wchar_t>("wchar_t");
    type<short>("short"); type<short>("short int"); type<short>("signed short"); type<short>("signed short int");
    type<unsigned short>("unsigned short"); type<unsigned short>("unsigned short int"); type<unsigned short>("short unsigned int");
    type<int>("int"); type<int>("signed"); type<int>("signed int"); type<unsigned>("unsigned"); type<unsigned>("unsigned int");
    type<long>("long"); type<long>("long int"); type<long>("signed long"); type<long>("signed long int");
    type<unsigned long>("unsigned long"); type<unsigned long>("unsigned long int"); type<unsigned long>("long unsigned int");
    type<long long>("long long"); type<long long>("long long int"); type<long long>("signed long long"); type<long long>("signed long long int");
    type<unsigned long long>("unsigned long long"); type<unsigned long long>("unsigned long long int"); type<unsigned long long>("long long unsigned int");
    type<float>("float"); type<double>("double"); type<long double>("long double", false);
    type<int8_t>("int8_t"); type<int16_t>("int16_t"); type<int32_t>("int32_t"); type<int64_t>("int64_t");
    type<uint8_t>("uint8_t"); type<uint16_t>("uint16_t"); type<uint32_t>("uint32_t"); type<uint64_t>("uint64_t");
    type<char16_t>("char16_t", false); type<char32_t>("char32_t", false); type<size_t>("size_t", false);
}
static void check(Ctx& c, Registry& reg, std::set<std::string> const& own, std::string const& where)
{
    for (std::map<std::string, Std>::iterator i = table.begin(); i != table.end(); ++i)
    {
        if (own.count(i->first)) continue;
        Type const* t = reg.get(i->first);
        CK(c, t || !i->second.required, "missing", where + ": there is no " + i->first);
        if (!t) { c.count("unknown names"); continue; }
        Numeric const* n = dynamic_cast<Numeric const*>(t);
        CK(c, n, "not-a-number", where + ": " + i->first + " is not numeric");
        char cat = n->getNumericCategory() == Numeric::SInt ? 'i' : n->getNumericCategory() == Numeric::UInt ? 'u' : 'f';
        CK(c, n->getSize() == i->second.size && cat == i->second.cat, "wrong-type", where + ": " + i->first + " has size " + str(n->getSize()) + " and category " + cat + " instead of " + str(i->second.size) + " and " + i->second.cat);
        c.count("known names");
    }
    Type const* v = reg.get("/void");
    CK(c, own.count("/void") || (v && v->getCategory() == Type::NullType), "void", where + ": /void");
    Container const* s = dynamic_cast<Container const*>(reg.get("/std/string"));
    CK(c, s && s->getSize() == sizeof(std::string) && s->getIndirection().getSize() == sizeof(char), "string", where + ": /std/string");
}

void vh_case(Ctx& c)
{
    Registry reg;
    // what the registry has already, with the same meaning
    static char const* const common[] = { "/bool", "/int8_t", "/int16_t", "/int32_t", "/int64_t", "/uint8_t", "/uint16_t", "/uint32_t", "/uint64_t", "/float", "/double" };
    std::set<std::string> known, own;
    std::string d;
    int how = c.rng.below(4);
    if (how)
    {
        int n = c.rng.range(1, 5);
        for (int i = 0; i < n; ++i)
        {
            std::string nm = common[c.rng.below(11)];
            if (reg.has(nm, false)) continue;
            Std const& s = table[nm];
            reg.add(new Numeric(nm, s.size, s.cat == 'i' ? Numeric::SInt : s.cat == 'u' ? Numeric::UInt : Numeric::Float));
            d += nm + " "; known.insert(nm);
        }
    }
    if (how > 1)
    {
        // names of standard types for the user's own types of the same meaning
        std::vector<std::string> all;
        for (std::map<std::string, Std>::iterator i = table.begin(); i != table.end(); ++i) all.push_back(i->first);
        int n = c.rng.range(1, 4);
        for (int i = 0; i < n; ++i)
        {
            std::string nm = all[c.rng.below(all.size())];
            Std const& s = table[nm];
            if (reg.has(nm, false)) continue;
            std::string mine = "/mine" + str(i);
            reg.add(new Numeric(mine, s.size, s.cat == 'i' ? Numeric::SInt : s.cat == 'u' ? Numeric::UInt : Numeric::Float));
            reg.alias(mine, nm);
            d += mine + " as " + nm + " "; known.insert(nm);
        }
    }
    if (how > 2)
    {
        // something else under one of the names stays what it is
        std::vector<std::string> all;
        for (std::map<std::string, Std>::iterator i = table.begin(); i != table.end(); ++i)
            if (i->second.required && std::find(common, common + 11, i->first) == common + 11 && !known.count(i->first)) all.push_back(i->first);
        std::string nm = all[c.rng.below(all.size())];
        if (!reg.has(nm, false)) { reg.add(new OpaqueType(nm, 12)); own.insert(nm); d += "opaque " + nm + " "; }
    }
    if (c.rng.chance(1, 3)) { Compound* t = new Compound("/u/S"); if (reg.has("/int32_t", false)) t->addField("f", *reg.get("/int32_t"), 4); reg.add(t); }
    std::string ns = c.rng.chance(1, 3) ? "/u/" : "/";
    reg.setDefaultNamespace(ns);
    c.desc(d);
    Snap before(reg);
    bool merged = own.empty() && how < 2 && c.rng.chance(1, 3);
    if (merged) { Registry s; CXX::addStandardTypes(s); reg.merge(s); }
    else
        for (int i = c.rng.range(1, 3); i > 0; --i)
        {
            std::string e = caught([&] { CXX::addStandardTypes(reg); });
            CK(c, e.empty(), "refused", "adding the standard types to a registry that has " + d + ": " + e);
        }
    for (std::map<std::string, Snap::Entry>::iterator it = before.names.begin(); it != before.names.end(); ++it)
        CK(c, reg.get(it->first) == it->second.type, "replaced", it->first + " was replaced");
    check(c, reg, own, "a registry that had " + d);
    // derived from any of the names
    std::vector<std::string> all;
    for (std::map<std::string, Std>::iterator i = table.begin(); i != table.end(); ++i) if (!own.count(i->first) && reg.has(i->first, false)) all.push_back(i->first);
    for (int i = 0; i < 6; ++i)
    {
        std::string nm = all[c.rng.below(all.size())];
        Type const* base = reg.get(nm);
        int dim = c.rng.range(1, 9);
        std::string given = ns == "/" && c.rng.chance(1, 2) ? nm.substr(1) : nm;
        Type const* a = reg.build(given + "[" + str(dim) + "]");
        Type const* p = reg.build(given + "*");
        Type const* v = &Container::createContainer(reg, "/std/vector", *base);
        CK(c, a->getSize() == dim * table[nm].size && dynamic_cast<Indirect const&>(*a).getIndirection() == *base, "array", "an array of " + nm);
        CK(c, &dynamic_cast<Indirect const&>(*p).getIndirection() == base, "pointer", "a pointer to " + nm);
        CK(c, &dynamic_cast<Indirect const&>(*v).getIndirection() == base, "vector", "a vector of " + nm);
        c.count("derived types");
    }
    if (how) { c.sig(vh_hash(d + ns)); c.sample(d); }
}
