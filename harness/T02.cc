// T02: enumerations
#include "model.hh"
#include <algorithm>
using namespace Typelib;

const char* vh_rule = "one case = a random history of 10 to 60 operations (declarations with new and known names, equal and conflicting values, lookups of "
    "known and unknown names and values, copies, next-value queries) on enumerations, each answer compared with a map; non-trivial always; distinct by the sequence of operations";
bool vh_check_leaks = true;
void vh_setup(Ctx&) { vh_hold_plugins(); }

struct Slot { std::unique_ptr<Enum> e; std::map<std::string, int> m; int last; };

static void verify(Ctx& c, Slot const& s)
{
    CK(c, s.e->values() == s.m, "values", "values() lists other symbols than were declared");
    std::list<std::string> n = s.e->names();
    std::vector<std::string> got(n.begin(), n.end()), want;
    for (std::map<std::string, int>::const_iterator i = s.m.begin(); i != s.m.end(); ++i) want.push_back(i->first);
    std::sort(got.begin(), got.end());
    CK(c, got == want, "names", "names() lists other symbols than were declared");
    if (s.last != 2147483647) CK(c, s.e->getNextValue() == s.last + 1, "next-value", "getNextValue() is " + str(s.e->getNextValue()) + " after " + str(s.last));
    CK(c, s.e->getSize() == sizeof(int) && s.e->getCategory() == Type::Enum, "size", "size or category of the enumeration");
}

void vh_case(Ctx& c)
{
    std::vector<Slot> slots(1);
    int init = c.rng.chance(1, 2) ? 0 : c.rng.range(-5, 1000);
    slots[0].e.reset(new Enum("/E", init)); slots[0].last = init - 1;
    uint64_t sig = init;
    std::string hist;
    int n = c.rng.range(10, 60);
    for (int i = 0; i < n; ++i)
    {
        size_t k = c.rng.below(slots.size());
        Slot& s = slots[k];
        std::string name = c.rng.chance(1, 10) ? std::string(c.rng.chance(1, 2) ? "" : "odd name, \"&<") : "SYM_" + str(c.rng.below(8));
        int v = c.rng.chance(1, 10) ? (c.rng.chance(1, 2) ? 2147483647 : -2147483647 - 1) : c.rng.range(-4, 8);
        int op = c.rng.range(0, 9);
        sig = sig * 1099511628211ull ^ (op * 31 + k) ^ vh_hash(name) ^ uint64_t(v);
        hist += str(op) + "," + str(k) + "," + name + "," + str(v) + " ";
        c.desc(hist);
        if (op <= 3)
        {
            if (op == 3 && s.last != 2147483647) v = s.e->getNextValue();
            std::map<std::string, int>::iterator it = s.m.find(name);
            bool conflict = it != s.m.end() && it->second != v, threw = false;
            try { s.e->add(name, v); } catch (Enum::AlreadyExists const&) { threw = true; }
            CK(c, threw == conflict, "redeclaration", std::string("declaring ") + name + "=" + str(v) + (threw ? " is refused" : " is accepted"));
            if (!conflict) { s.m[name] = v; s.last = v; c.count("declarations"); } else c.count("refused declarations");
        }
        else if (op <= 5)
        {
            int r = 0; bool threw = false;
            try { r = s.e->get(name); } catch (Enum::SymbolNotFound const&) { threw = true; }
            CK(c, threw == !s.m.count(name), "lookup-name", "lookup of symbol " + name + (threw ? " fails" : " succeeds"));
            CK(c, threw || r == s.m[name], "lookup-name", "symbol " + name + " has value " + str(r));
            c.count(threw ? "unknown symbols" : "known symbols");
        }
        else if (op <= 7)
        {
            std::string r; bool threw = false, known = false;
            for (std::map<std::string, int>::iterator j = s.m.begin(); j != s.m.end(); ++j) known |= j->second == v;
            try { r = s.e->get(v); } catch (Enum::ValueNotFound const&) { threw = true; }
            CK(c, threw == !known, "lookup-value", "lookup of value " + str(v) + (threw ? " fails" : " succeeds"));
            CK(c, threw || (s.m.count(r) && s.m[r] == v), "lookup-value", "value " + str(v) + " is given symbol " + r);
            c.count(threw ? "unknown values" : "known values");
        }
        else if (op == 8 && slots.size() < 4)
        {
            slots.push_back(Slot());
            Slot& d = slots.back(); Slot& o = slots[k];
            d.e.reset(new Enum(*o.e)); d.m = o.m; d.last = o.last;
            CK(c, d.e->isSame(*o.e) && o.e->canCastTo(*d.e), "copy", "a copy of the enumeration is another type");
            c.count("copies");
        }
        for (size_t j = 0; j < slots.size(); ++j)
        {
            verify(c, slots[j]);
            bool eq = slots[j].m == slots[0].m, sub = true;
            for (std::map<std::string, int>::iterator x = slots[j].m.begin(); x != slots[j].m.end(); ++x)
                sub &= slots[0].m.count(x->first) && slots[0].m[x->first] == x->second;
            CK(c, slots[j].e->isSame(*slots[0].e) == eq, "equality", "isSame() of two enumerations is " + str(!eq));
            CK(c, j == 0 || slots[j].e->canCastTo(*slots[0].e) == sub, "castability", "canCastTo() of two enumerations is " + str(!sub));
        }
    }
    c.sig(sig); c.sample(hist.substr(0, 300));
}
