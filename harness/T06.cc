// T06: visiting a type reaches each part of it, and what is displayed of types and registries is what they are
#include "graph.hh"
#include <typelib/typevisitor.hh>
#include <typelib/typedisplay.hh>
#include <algorithm>
using namespace Typelib;

const char* vh_rule = "one case = a registry of random types (nested, recursive, with aliases and sources) whose types are visited, following pointers and containers or not, up to a random point, "
    "and displayed, alone and in listings of the registry in all modes with all filters; calls and texts are compared with the definitions; non-trivial when a type has at least three parts; distinct by definition";
bool vh_check_leaks = true;
void vh_setup(Ctx&) { vh_hold_plugins(); }

// ---- visits
struct Log : public TypeVisitor
{
    std::string out; long left; bool follow; int depth;
    Log(long stop, bool follow_) : left(stop), follow(follow_), depth(0) {}
    bool note(std::string const& s) { out += s + "\n"; return left < 0 || --left > 0; }
    // what is behind pointers and containers may lead back
    template<typename T> bool indirect(T const& t)
    {
        if (!follow || depth > 3) return true;
        ++depth; bool r = TypeVisitor::visit_(t); --depth; return r;
    }
    bool visit_(NullType const& t) { return note("null " + t.getName()); }
    bool visit_(OpaqueType const& t) { return note("opaque " + t.getName()) && TypeVisitor::visit_(t); }
    bool visit_(Numeric const& t) { return note("numeric " + t.getName()) && TypeVisitor::visit_(t); }
    bool visit_(Enum const& t) { return note("enum " + t.getName()) && TypeVisitor::visit_(t); }
    bool visit_(Pointer const& t) { return note("pointer " + t.getName()) && indirect(t); }
    bool visit_(Array const& t) { return note("array " + t.getName()) && TypeVisitor::visit_(t); }
    bool visit_(Container const& t) { return note("container " + t.getName()) && indirect(t); }
    bool visit_(Compound const& t) { return note("compound " + t.getName()) && TypeVisitor::visit_(t); }
    bool visit_(Compound const& t, Field const& f) { return note("field " + t.getName() + "." + f.getName()) && TypeVisitor::visit_(t, f); }
};
struct Idle : public TypeVisitor {};
struct Want
{
    std::string out; long left; bool follow; int depth;
    bool note(std::string const& s) { out += s + "\n"; return left < 0 || --left > 0; }
    bool walk(GNode const* n)
    {
        switch (n->k)
        {
            case GNULL: return note("null " + n->name);
            case GOPQ: return note("opaque " + n->name);
            case GNUM: return note("numeric " + n->name);
            case GENUM: return note("enum " + n->name);
            case GARR: return note("array " + n->name) && walk(n->elem);
            case GPTR: case GVEC: case GSTR:
            {
                if (!note(std::string(n->k == GPTR ? "pointer " : "container ") + n->name)) return false;
                if (!follow || depth > 3) return true;
                ++depth; bool r = walk(n->elem); --depth; return r;
            }
            case GCOMP:
                if (!note("compound " + n->name)) return false;
                for (size_t i = 0; i < n->fields.size(); ++i)
                    if (!note("field " + n->name + "." + n->fields[i].name) || !walk(n->fields[i].type)) return false;
                return true;
        }
        return true;
    }
};
// whether visiting it with everything followed ends, without meeting a null type
static bool ends(GNode const* n, std::set<GNode const*>& on, bool& null, long& budget)
{
    if (--budget < 0 || on.count(n)) return false;
    if (n->k == GNULL) null = true;
    on.insert(n);
    bool r = true;
    if (n->elem) r = ends(n->elem, on, null, budget);
    for (size_t i = 0; r && i < n->fields.size(); ++i) r = ends(n->fields[i].type, on, null, budget);
    on.erase(n);
    return r;
}

// ---- displays: what must be found, in this order
static void essential(GNode const* n, std::vector<std::string>& out)
{
    switch (n->k)
    {
        case GNULL: out.push_back("null"); break;
        case GOPQ: out.push_back("opaque"); out.push_back(n->name); break;
        case GNUM: out.push_back(n->ncat == 'i' ? "sint" : n->ncat == 'u' ? "uint" : "float"); out.push_back(str(n->size)); out.push_back(n->name); break;
        case GENUM:
            out.push_back("enum"); out.push_back(n->name);
            for (std::map<std::string, int>::const_iterator i = n->syms.begin(); i != n->syms.end(); ++i) { out.push_back(i->first); out.push_back(str(i->second)); }
            break;
        case GPTR: out.push_back("pointer"); out.push_back(n->elem->name); break;
        case GARR: out.push_back("array"); out.push_back(str(n->dim)); essential(n->elem, out); break;
        case GVEC: case GSTR: out.push_back("container"); out.push_back(n->k == GSTR ? "/std/string" : "/std/vector"); out.push_back(n->elem->name); break;
        case GCOMP:
            out.push_back("compound"); out.push_back(n->name); out.push_back(str(n->size));
            for (size_t i = 0; i < n->fields.size(); ++i) { out.push_back(str(n->fields[i].off)); essential(n->fields[i].type, out); out.push_back(n->fields[i].name); }
            break;
    }
}
static bool word(char c) { return isalnum((unsigned char) c) || c == '_' || c == '-'; }
// whether the texts are found in this order; what stands between them is punctuation and the few words that say what things are
static std::string arranged(std::string const& text, std::vector<std::string> const& parts)
{
    size_t pos = 0;
    for (size_t i = 0; i < parts.size(); ++i)
    {
        std::string const& p = parts[i];
        size_t at = pos;
        for (;; ++at)
        {
            at = text.find(p, at);
            if (at == std::string::npos) return "'" + p + "' (part " + str(i) + ") is missing after: " + text.substr(0, pos);
            if (at && word(p[0]) && word(text[at - 1])) continue;
            size_t e = at + p.size();
            if (e < text.size() && word(p[p.size() - 1]) && word(text[e])) continue;
            break;
        }
        std::string gap = text.substr(pos, at - pos);
        if (gap.find('/') != std::string::npos || gap.find_first_of("0123456789") != std::string::npos) return "'" + gap + "' should not stand before '" + p + "' (part " + str(i) + ")";
        pos = at + p.size();
    }
    std::string rest = text.substr(pos);
    if (rest.find('/') != std::string::npos || rest.find_first_of("0123456789") != std::string::npos) return "'" + rest + "' should not stand at the end";
    return "";
}
static std::string squeezed(std::string const& s)
{
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) if (!isspace((unsigned char) s[i])) r += s[i];
    return r;
}
struct Longer { bool operator()(std::string const& a, std::string const& b) const { return a.size() > b.size(); } };

void vh_case(Ctx& c)
{
    GOpts o; o.nulls = c.rng.chance(1, 3); o.ntypes = c.rng.range(2, 8); o.spaces = false;
    Graph g; g.generate(c.rng, o);
    Registry reg;
    g.build(reg);
    std::vector<std::string> alias;
    for (int i = c.rng.range(0, 5); i > 0; --i) alias.push_back(std::string(c.rng.chance(1, 2) ? "/al" : "") + "/Al" + str(i));
    dress_registry(c.rng, reg, alias, true, false);
    Snap snap(reg);

    size_t parts = 0; std::string sig;
    for (std::map<std::string, Snap::Entry>::iterator it = snap.names.begin(); it != snap.names.end(); ++it)
    {
        if (it->second.alias) continue;
        GNode* n = g.find(it->first);
        if (!n || !n->type) continue;           // found by the registry itself
        Type const& t = *it->second.type;
        c.desc("type " + describe(n));
        // visits
        for (int k = 0; k < 2; ++k)
        {
            bool follow = k;
            long stop = c.rng.chance(1, 3) ? -1 : c.rng.range(1, 12);
            Want w; w.left = stop < 0 ? 3000 : stop; w.follow = follow; w.depth = 0;
            w.walk(n);
            Log l(stop < 0 ? 3000 : stop, follow);
            l.apply(t);
            CK(c, l.out == w.out, "visit", "visiting " + it->first + (follow ? ", followed," : "") + " up to " + str(stop) + " gave\n" + l.out + "instead of\n" + w.out);
            c.count("visits");
            parts = std::max<size_t>(parts, std::count(w.out.begin(), w.out.end(), '\n'));
            sig += w.out;
        }
        std::set<GNode const*> on; bool null = false; long budget = 20000;
        if (ends(n, on, null, budget))
        {
            Idle i; bool threw = false;
            try { i.apply(t); } catch (NullTypeFound const&) { threw = true; }
            CK(c, threw == null, "visit-null", std::string(threw ? "a" : "no") + " null type was found in " + it->first);
        }
        // displays
        std::vector<std::string> want; essential(n, want);
        std::ostringstream s, d, ind;
        s << t; d << type_display(t); ind << type_display(t, "      ");
        std::string bad = arranged(s.str(), want);
        CK(c, bad.empty(), "display", "displaying " + it->first + ": " + bad);
        CK(c, d.str() == s.str() && squeezed(ind.str()) == squeezed(s.str()), "display-form", "the ways of displaying " + it->first + " differ: " + s.str() + " / " + d.str() + " / " + ind.str());
        c.count("displays");
    }
    // listings
    std::vector<std::string> filters; filters.push_back("*"); filters.push_back(""); filters.push_back("none.h"); filters.push_back("alias.src");
    for (int i = 0; i < 3; ++i) filters.push_back("file" + str(i) + ".h");
    for (size_t f = 0; f < filters.size(); ++f)
        for (int mode = 0; mode < 4; ++mode)
        {
            std::ostringstream s;
            if (mode == Registry::AllType && filters[f] == "*" && c.rng.chance(1, 2)) reg.dump(s); else reg.dump(s, mode, filters[f]);
            std::string text = s.str(), where = "listing " + str(mode) + " of '" + filters[f] + "'";
            size_t eol = text.find('\n');
            CK(c, eol != std::string::npos, "listing", where + " has no heading");
            text = text.substr(eol + 1);
            if (!(mode & Registry::AllType))
            {
                std::multiset<std::string> got, want;
                std::istringstream in(text);
                for (std::string line; std::getline(in, line); )
                {
                    // the source comes first
                    size_t at = line.rfind('\t');
                    got.insert((mode & Registry::WithSourceId ? squeezed(line.substr(0, at + 1)) + ":" : "") + line.substr(at + 1));
                }
                for (std::map<std::string, Snap::Entry>::iterator it = snap.names.begin(); it != snap.names.end(); ++it)
                    if (it->second.persistent && (filters[f] == "*" || filters[f] == it->second.source))
                        want.insert((mode & Registry::WithSourceId ? it->second.source + ":" : "") + it->first);
                if (got != want)
                {
                    std::string diff;
                    for (std::multiset<std::string>::iterator i = want.begin(); i != want.end(); ++i) if (got.count(*i) < want.count(*i)) diff += " -" + *i;
                    for (std::multiset<std::string>::iterator i = got.begin(); i != got.end(); ++i) if (got.count(*i) > want.count(*i)) diff += " +" + *i;
                    c.fail("listing-names", where + " differs:" + diff);
                }
            }
            else
            {
                std::vector<std::string> segs; size_t sources = 0;
                std::string flat = squeezed(text), all;
                for (std::map<std::string, Snap::Entry>::iterator it = snap.names.begin(); it != snap.names.end(); ++it)
                {
                    if (!it->second.persistent || !(filters[f] == "*" || filters[f] == it->second.source)) continue;
                    std::ostringstream d;
                    if (it->second.alias)
                    {
                        // a line with both names
                        std::istringstream in(text); bool found = false;
                        for (std::string line; !found && std::getline(in, line); )
                        {
                            if (mode & Registry::WithSourceId) line = line.substr(line.rfind('\t') + 1);
                            found = line.compare(0, it->first.size() + 1, it->first + " ") == 0 && line.size() > it->second.type->getName().size() &&
                                line.compare(line.size() - it->second.type->getName().size() - 1, std::string::npos, " " + it->second.type->getName()) == 0;
                        }
                        CK(c, found, "listing-alias", where + " does not say that " + it->first + " is an alias for " + it->second.type->getName());
                    }
                    else { d << *it->second.type; segs.push_back(squeezed(d.str())); }
                    sources += it->second.source.size();
                }
                std::sort(segs.begin(), segs.end(), Longer());
                for (size_t i = 0; i < segs.size(); ++i)
                {
                    size_t at = flat.find(segs[i]);
                    CK(c, at != std::string::npos, "listing-type", where + " does not have " + segs[i]);
                    flat.erase(at, segs[i].size());
                    flat.insert(at, "|");
                }
                CK(c, flat.find("compound") == std::string::npos && flat.find("enum/") == std::string::npos && flat.find("opaque") == std::string::npos, "listing-more", where + " has more than it should: " + flat);
            }
            c.count("listings");
        }
    if (parts >= 3) { c.sig(vh_hash(sig)); c.sample(sig.substr(0, 300)); }
}
