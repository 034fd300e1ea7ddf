// P03: option sets
#include "core.hh"
#include <typelib/utilmm/configset.hh>
#include <memory>
#include <limits>
#include <algorithm>
using utilmm::config_set;

const char* vh_rule = "one case = a random history of insertions, replacements, erasures and additions of sub-sections on a tree of option sets, all names read back in all types after every step and compared with a map of lists; "
    "distinct by the history; non-trivial with at least 4 steps and two values under one name";
bool vh_check_leaks = true;
void vh_setup(Ctx&) {}

struct M { config_set* set; M* parent; std::map<std::string, std::vector<std::string> > values; std::map<std::string, std::vector<M*> > children; };
static char const* const names[] = { "a", "b", "", "a b", "aa", "selection", "A", "a/b" };
static std::string text(Rng& r)
{
    static char const* const fixed[] = { "true", "false", "1", "0", "", "x y", "12", "-7", "255", "2147483647", "-2147483648", "2147483648", "1.5", "0x10", " 3", "3 ", "yes", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "TRUE", "1e3", "a", "+5", "007" };
    if (r.chance(1, 4)) { std::string s; for (int i = r.below(6); i > 0; --i) s += char(r.range(32, 126)); return s; }
    if (r.chance(1, 4)) return str(int64_t(r.next()) >> r.below(64));
    return fixed[r.below(25)];
}
// decimal numbers as they are written; 0: not one, 2: another notation, for which nothing is claimed
static int number(std::string const& s, __int128& v)
{
    size_t i = 0; bool neg = false;
    if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
    if (i == s.size()) return 0;
    v = 0;
    for (; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return 0; if (v < (__int128(1) << 100)) v = v * 10 + (s[i] - '0'); }
    if (neg) v = -v;
    return 1;
}
template<typename T> static bool conv(std::string const& s, T& v)
{
    __int128 n;
    if (!number(s, n) || n < std::numeric_limits<T>::min() || n > std::numeric_limits<T>::max()) return false;
    v = T(n); return true;
}
static bool conv(std::string const& s, bool& v) { v = s == "true" || s == "1"; return v || s == "false" || s == "0"; }
static bool conv(std::string const& s, std::string& v) { v = s; return true; }
template<typename T> static void reads(Ctx& c, M& m, std::string const& n, T const& def, char const* tn, bool negative_open)
{
    std::vector<std::string> const empty; std::map<std::string, std::vector<std::string> >::iterator it = m.values.find(n);
    std::vector<std::string> const& v = it == m.values.end() ? empty : it->second;
    std::list<T> want; bool ok = true;
    for (size_t i = 0; i < v.size(); ++i) { T t; if (negative_open && !v[i].empty() && v[i][0] == '-') return; if (conv(v[i], t)) want.push_back(t); else ok = false; }
    if (v.empty()) want.push_back(def);
    bool got1 = false, gotn = false, gotd = false; T one = T(); std::list<T> many, dl;
    std::list<T> d; d.push_back(def);
    std::string e1 = caught([&]{ one = m.set->get<T>(n, def); got1 = true; });
    std::string en = caught([&]{ many = m.set->get< std::list<T> >(n, d); gotn = true; });
    std::string ed = caught([&]{ dl = m.set->get< std::list<T> >(n); gotd = true; });
    std::string where = "'" + n + "' as " + tn;
    CK(c, gotn == ok, "conversion", where + (gotn ? " is converted" : " is refused: " + en) + ", values: " + (v.empty() ? "none" : v[0]));
    if (ok) CK(c, got1 && one == want.front() && many == want && (v.empty() ? dl.empty() : dl == want), "value", where + " is read as something else than what was put");
    else CK(c, !got1 && !gotd, "conversion", where + ": text that is not of the type is accepted");
    c.count("reads");
}
static void check(Ctx& c, M& m)
{
    CK(c, m.set->parent() == (m.parent ? m.parent->set : 0), "parent", "the parent changed");
    bool any = !m.values.empty() || !m.children.empty();
    CK(c, m.set->empty() == !any, "empty", "empty() is wrong");
    for (size_t k = 0; k < 8; ++k)
    {
        std::string n = names[k];
        CK(c, m.set->exists(n) == (m.values.count(n) || m.children.count(n)), "exists", "exists() is wrong for '" + n + "'");
        reads<std::string>(c, m, n, "default", "text", false);
        reads<int>(c, m, n, -99, "int", false); reads<long long>(c, m, n, 99, "long", false);
        reads<bool>(c, m, n, true, "bool", false); reads<bool>(c, m, n, false, "bool", false);
        reads<unsigned>(c, m, n, 7, "unsigned", true);
        std::list<config_set const*> ch = m.set->children(n);
        std::vector<M*> const& want = m.children.count(n) ? m.children[n] : std::vector<M*>();
        CK(c, ch.size() == want.size(), "children", "number of sections '" + n + "'");
        size_t i = 0; for (std::list<config_set const*>::iterator x = ch.begin(); x != ch.end(); ++x, ++i) CK(c, *x == want[i]->set, "children", "sections '" + n + "' are others, or in another order");
        config_set const& f = m.set->child(n);
        if (want.empty()) CK(c, f.empty(), "child", "a section that does not exist is not empty"); else CK(c, &f == want[0]->set, "child", "child() is not the first section");
    }
}
void vh_case(Ctx& c)
{
    Rng& r = c.rng;
    std::vector<std::unique_ptr<M> > all;
    config_set root; all.emplace_back(new M); all[0]->set = &root; all[0]->parent = 0;
    std::string d; bool two = false; int steps = r.range(2, 14);
    for (int s = 0; s < steps; ++s)
    {
        M& m = *all[r.below(all.size())];
        std::string n = names[r.below(r.chance(1, 2) ? 3 : 8)], v = text(r);
        std::list<std::string> l; for (int i = r.below(4); i > 0; --i) l.push_back(text(r));
        int op = r.below(7);
        d += str(op) + "'" + n + "'" + v + "; "; c.desc(d);
        std::vector<std::string>& mv = m.values[n];
        switch (op)
        {
            case 0: m.set->insert(n, v); mv.push_back(v); break;
            case 1: m.set->set(n, v); mv.assign(1, v); break;
            case 2: m.set->insert(n, l); mv.insert(mv.end(), l.begin(), l.end()); break;
            case 3: m.set->set(n, l); mv.assign(l.begin(), l.end()); break;
            case 4: m.set->erase(n); mv.clear(); break;
            case 5: case 6:
            {
                if (all.size() > 6) break;
                config_set* k = new config_set(m.set); m.set->insert(n, k);
                all.emplace_back(new M); all.back()->set = k; all.back()->parent = &m; m.children[n].push_back(all.back().get());
                break;
            }
        }
        two |= mv.size() > 1;
        if (mv.empty()) m.values.erase(n);
        for (size_t i = 0; i < all.size(); ++i) check(c, *all[i]);
    }
    c.count("steps", steps); c.count("sections", all.size() - 1);
    if (steps >= 4 && two) c.sig(vh_hash(d));
    c.sample(d);
}
