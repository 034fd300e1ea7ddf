// T04: names of types and namespaces
#include "model.hh"
#include <typelib/typename.hh>
#include <algorithm>
using namespace Typelib;

const char* vh_rule = "one case = three well-formed names (nested templates with type and integer arguments, pointers, arrays, spaces, deep namespaces), split, joined, "
    "resolved and sorted, with damaged forms of each; distinct by the names; non-trivial when a name has a namespace";
bool vh_check_leaks = true;
void vh_setup(Ctx&) { vh_hold_plugins(); }

struct Name { std::vector<std::string> comps; std::string full; };

static std::string ident(Rng& r)
{
    static char const* const common[] = { "A", "B", "AB", "base", "samples", "T", "Type", "x_1", "const int", "_p", "A", "B", "C", "9lives" };
    if (r.chance(5, 6)) return common[r.below(14)];
    static char const cs[] = "abcXYZ_ 019";
    std::string s;
    for (int i = r.range(1, 8); i > 0; --i) s += cs[r.below(sizeof cs - 1)];
    return s;
}
static std::string typearg(Rng& r, int depth);
static std::string comp(Rng& r, int depth)
{
    std::string s = ident(r);
    if (depth > 0 && r.chance(1, 5))
    {
        s += '<';
        for (int i = r.range(1, 3); ; )
        {
            if (r.chance(1, 4)) s += (r.chance(1, 4) ? "-" : "") + str(r.below(1000)); else s += typearg(r, depth - 1);
            if (--i == 0) break;
            s += ',';
        }
        s += '>';
    }
    return s;
}
static std::string suffix(Rng& r)
{
    std::string s;
    for (int i = r.chance(1, 4) ? r.range(1, 4) : 0; i > 0; --i) s += r.chance(1, 2) ? std::string("*") : "[" + str(r.below(r.chance(1, 3) ? 100000 : 10)) + "]";
    return s;
}
static Name make(Rng& r, int depth, bool modifiers = true)
{
    Name n;
    for (int i = r.range(1, r.chance(1, 3) ? 6 : 3); i > 0; --i) n.comps.push_back(comp(r, depth));
    if (modifiers) n.comps.back() += suffix(r);
    for (size_t i = 0; i < n.comps.size(); ++i) n.full += "/" + n.comps[i];
    return n;
}
static std::string typearg(Rng& r, int depth) { return make(r, depth).full; }
static std::string ns_of(std::vector<std::string> const& c, size_t n) { std::string s = "/"; for (size_t i = 0; i < n; ++i) s += c[i] + "/"; return s; }

static void path_to(Ctx& c, Name const& n, std::vector<std::string> const& ns, bool slash)
{
    std::string nsname = ns_of(ns, ns.size());
    if (!slash && nsname.size() > 1) nsname.erase(nsname.size() - 1);
    std::string p = getMinimalPathTo(n.full, nsname), tns = ns_of(n.comps, n.comps.size() - 1);
    std::string what = "getMinimalPathTo(" + n.full + ", " + nsname + ") gives \"" + p + "\"";
    size_t depth = n.comps.size() - 1, common = 0;
    while (common < depth && common < ns.size() && ns[common] == n.comps[common]) ++common;
    bool inside = common == ns.size();
    std::string remainder;
    for (size_t i = common; i < depth; ++i) remainder += n.comps[i] + "/";
    if (inside) { CK(c, p == remainder, "path-inside", what + ", although the type is within the namespace"); c.count("paths_inside"); return; }
    bool unrelated = common > 0 && common < depth;
    for (size_t i = common; i < depth; ++i) if (nsname.find(n.comps[i]) != std::string::npos) unrelated = false;
    if (unrelated) { CK(c, p == remainder, "path-minimal", what + ", but " + remainder + " is enough"); c.count("paths_minimal"); }
    if (!p.empty() && p[0] == '/') { CK(c, p == tns, "path-absolute", what); c.count("paths_absolute"); return; }
    CK(c, !p.empty() && p[p.size() - 1] == '/', "path-form", what);
    // resolve it, from the innermost namespace on; the namespaces known to exist are those of the type and of ns
    std::list<std::string> l = splitTypename("/" + p + "x");
    std::vector<std::string> t(l.begin(), l.end()); t.pop_back();
    for (size_t k = ns.size() + 1; k-- > 0; )
    {
        bool on_ns = k < ns.size() && ns[k] == t[0];
        bool on_type = k < depth && k <= common && n.comps[k] == t[0];
        if (!on_ns && !on_type) continue;
        std::string reached = ns_of(ns, k);
        for (size_t i = 0; i < t.size(); ++i) reached += t[i] + "/";
        CK(c, reached == tns, "path-ambiguous", what + ", which leads to " + reached);
        c.count("paths_relative");
        return;
    }
    c.fail("path-dangling", what + ", which leads nowhere");
}

void vh_case(Ctx& c)
{
    std::vector<Name> ns;
    for (int i = 0; i < 3; ++i) ns.push_back(make(c.rng, 3));
    c.desc(ns[0].full + "  " + ns[1].full + "  " + ns[2].full);
    uint64_t h = 0; bool deep = false;
    for (size_t k = 0; k < ns.size(); ++k)
    {
        Name const& n = ns[k];
        h = vh_hash(n.full, h); deep |= n.comps.size() > 1;
        CK(c, isValidTypename(n.full, true) && isValidTypename(n.full, false), "valid-refused", "refuses the well-formed name " + n.full);
        CK(c, isAbsoluteName(n.full) && !isAbsoluteName(n.full.substr(1)) && !isAbsoluteName(""), "absolute", "isAbsoluteName of " + n.full);
        CK(c, isValidTypename(n.full.substr(1), false) && !isValidTypename(n.full.substr(1), true), "relative-name", "relative form of " + n.full);
        std::string tns = ns_of(n.comps, n.comps.size() - 1);
        CK(c, getNamespace(n.full) == tns, "namespace", "getNamespace(" + n.full + ") gives " + getNamespace(n.full));
        CK(c, getTypename(n.full) == n.comps.back(), "basename", "getTypename(" + n.full + ") gives " + getTypename(n.full));
        std::list<std::string> sp = splitTypename(n.full);
        CK(c, std::vector<std::string>(sp.begin(), sp.end()) == n.comps, "split", "splitTypename(" + n.full + ") gives " + str(sp.size()) + " parts");
        // namespaces that lead to it, and others
        for (size_t d = 0; d <= n.comps.size(); ++d)
        {
            std::string nsp = ns_of(n.comps, d), bare = d ? nsp.substr(0, nsp.size() - 1) : "/";
            bool in = d < n.comps.size(), direct = d + 1 == n.comps.size();
            CK(c, getNormalizedNamespace(nsp) == nsp && getNormalizedNamespace(bare) == nsp, "normalized-namespace", "normalized form of " + bare);
            CK(c, isInNamespace(n.full, nsp, true) == in && isInNamespace(n.full, bare, true) == in, "in-namespace", "isInNamespace(" + n.full + ", " + bare + ", recursive)");
            CK(c, isInNamespace(n.full, nsp, false) == direct && isInNamespace(n.full, bare, false) == direct, "in-namespace", "isInNamespace(" + n.full + ", " + bare + ")");
            if (in)
            {
                std::string rel = n.full.substr(nsp.size());
                CK(c, getRelativeName(n.full, nsp) == rel && getRelativeName(n.full, bare) == rel, "relative", "getRelativeName(" + n.full + ", " + bare + ") gives " + getRelativeName(n.full, bare));
            }
            bool simple = true;
            for (size_t i = 0; i < d; ++i) if (n.comps[i].find_first_of("<>*[],") != std::string::npos) simple = false;
            if (d && simple)
            {
                CK(c, isValidNamespace(bare.substr(1), false) && !isValidNamespace(bare.substr(1), true), "valid-namespace", "relative namespace " + bare.substr(1));
                std::string bad = bare; bad.insert(c.rng.range(1, bad.size()), 1, ":.-*[]\n"[c.rng.below(7)]);
                CK(c, !isValidNamespace(bad, true) && !isValidNamespace(bad, false), "invalid-namespace", "accepts the namespace " + bad);
                c.count("namespaces");
            }
        }
        for (size_t o = 0; o < ns.size(); ++o)
        {
            std::vector<std::string> other = ns[o].comps;
            if (c.rng.chance(1, 2)) other.pop_back();
            // often share the beginning
            for (size_t i = 0, m = c.rng.below(3); i < m && i < other.size() && i + 1 < n.comps.size(); ++i) other[i] = n.comps[i];
            std::string on = ns_of(other, other.size());
            bool in = on == ns_of(n.comps, std::min(other.size(), n.comps.size())) && other.size() < n.comps.size();
            CK(c, isInNamespace(n.full, on, true) == in, "in-namespace", "isInNamespace(" + n.full + ", " + on + ", recursive)");
            bool plain = on.find_first_of("<>*[],") == std::string::npos && tns.find_first_of("<>*[],") == std::string::npos;
            if (plain) path_to(c, n, other, c.rng.chance(1, 2));
        }
        // damaged forms
        for (int i = 0; i < 6; ++i)
        {
            std::string bad = n.full, how;
            size_t at = c.rng.below(bad.size() + 1);
            switch (c.rng.below(9))
            {
                case 0: case 1: bad.insert(at, 1, ":.!@#$%^&()=?;{}|\\\"'~`\n\t\x01\xc3"[c.rng.below(25)]); how = "with a bad character"; break;
                case 2: { size_t p = bad.find('/', c.rng.below(bad.size())); if (p == std::string::npos) p = 0; bad.insert(p, 1, '/'); how = "with an empty component"; break; }
                case 3: bad += '/'; how = "ending in a separator"; break;
                case 4: { size_t p = bad.find_first_of("]>"); if (p == std::string::npos) { bad += c.rng.chance(1, 2) ? ">" : "]"; how = "with an unopened bracket"; } else { bad.erase(p, 1); how = "with an unclosed bracket"; } break; }
                case 5: bad += c.rng.chance(1, 2) ? "[" : "[]"; how = "without dimension"; break;
                case 6: bad += "[" + std::string(c.rng.chance(1, 2) ? "-1" : "3x") + "]"; how = "with a bad dimension"; break;
                case 7: bad += c.rng.chance(1, 2) ? "," : ",/A"; how = "with an argument list outside brackets"; break;
                case 8: bad += (bad[bad.size() - 1] == '*' || bad[bad.size() - 1] == ']' ? "x" : "*x"); how = "with text after its modifiers"; break;
            }
            c.desc(bad);
            CK(c, !isValidTypename(bad, true), "malformed-accepted", "accepts " + json_str(bad) + ", " + how);
            c.count("malformed_refused");
            // these do not validate, but have to give an answer
            splitTypename(bad); getNamespace(bad); getTypename(bad); isInNamespace(bad, n.full, true); isValidTypename(bad, false); isValidNamespace(bad, false);
        }
        CK(c, !isValidTypename("", true) && !isValidTypename("", false) && !isValidNamespace("", true) && !isValidNamespace("", false), "empty", "accepts an empty name");
        // arbitrary text
        std::string junk;
        static char const alphabet[] = "/<>,[]*aA 19-_:";
        for (int i = c.rng.range(1, 24); i > 0; --i) junk += alphabet[c.rng.below(sizeof alphabet - 1)];
        c.desc(junk);
        if (isValidTypename(junk, true))
        {
            c.count("junk_accepted");
            CK(c, junk[0] == '/' && std::count(junk.begin(), junk.end(), '<') == std::count(junk.begin(), junk.end(), '>')
                && std::count(junk.begin(), junk.end(), '[') == std::count(junk.begin(), junk.end(), ']') && junk.find("//") == std::string::npos && junk.find(':') == std::string::npos,
                "junk-accepted", "accepts " + json_str(junk));
            std::list<std::string> l = splitTypename(junk);
            std::string back; for (std::list<std::string>::iterator it = l.begin(); it != l.end(); ++it) back += "/" + *it;
            CK(c, back == junk && getNamespace(junk) + getTypename(junk) == junk, "junk-split", "splits " + junk + " into " + back);
        }
        else c.count("junk_refused");
    }
    // a strict total order in which a namespace's members come together, before longer siblings
    std::vector<std::string> s;
    for (size_t i = 0; i < ns.size(); ++i)
    {
        s.push_back(ns[i].full);
        for (size_t d = 1; d < ns[i].comps.size(); ++d) s.push_back(ns_of(ns[i].comps, d).substr(0, ns_of(ns[i].comps, d).size() - 1));
        s.push_back(ns[i].full + "/A"); s.push_back(ns[i].full + "_"); s.push_back(ns[i].full + " b"); s.push_back(ns[i].full + "*");
    }
    for (size_t i = 0; i < s.size(); ++i)
        for (size_t j = 0; j < s.size(); ++j)
        {
            bool ij = nameSort(s[i], s[j]), ji = nameSort(s[j], s[i]);
            CK(c, s[i] == s[j] ? !ij && !ji : ij != ji, "order", "nameSort does not order " + s[i] + " and " + s[j]);
            CK(c, !(s[j].size() > s[i].size() && s[j].compare(0, s[i].size(), s[i]) == 0) || ij, "order-prefix", s[i] + " does not sort before " + s[j]);
            for (size_t k = 0; ij && k < s.size(); ++k)
                if (nameSort(s[j], s[k])) { CK(c, nameSort(s[i], s[k]), "order-transitive", "nameSort is not transitive over " + s[i] + ", " + s[j] + ", " + s[k]); }
            c.count("comparisons");
        }
    std::sort(s.begin(), s.end(), nameSort);
    for (size_t i = 0; i < s.size(); ++i)
    {
        std::string n = s[i] + "/";
        bool left = false;
        for (size_t j = i + 1; j < s.size(); ++j)
        {
            bool in = s[j].compare(0, n.size(), n) == 0;
            if (s[j] == s[i]) continue;
            CK(c, !(in && left), "order-grouped", "the members of " + n + " are not sorted together");
            if (!in) left = true;
        }
    }
    if (deep) { c.sig(h); c.sample(ns[0].full); }
}
