// I04: IDL documents
#include "graph.hh"
#include <lang/csupport/standard_types.hh>
#include <typelib/exporter.hh>
#include <typelib/typevisitor.hh>
using namespace Typelib;

const char* vh_rule = "one case = a registry over a random graph of types (templates, leading underscores, aliases, namespaces) exported to IDL with random prefix, suffix, blob threshold, selection and handling of opaques; "
    "the document parsed and compared, declaration by declaration, with what the types call for; distinct by the document; non-trivial when it declares a struct with a reference to another declaration";
bool vh_check_leaks = true;
void vh_setup(Ctx&) { vh_hold_plugins(); }

typedef std::vector<std::string> Path;
static std::string strip(std::string const& s) { return !s.empty() && s[0] == '_' ? s.substr(1) : s; }
static std::string ident(std::string s) { for (size_t i = 0; i < s.size(); ++i) if (strchr("<>/,", s[i])) s[i] = '_'; return strip(s); }
// namespace and last part of a type name: the last '/' outside of template arguments
static void cut(std::string const& name, std::string& ns, std::string& base)
{
    int level = 0; size_t at = 0;
    for (size_t i = 0; i < name.size(); ++i) { if (name[i] == '<') ++level; if (name[i] == '>') --level; if (name[i] == '/' && !level) at = i; }
    ns = name.substr(0, at + 1); base = name.substr(at + 1);
}
struct Unsupported { std::string what; };
struct Expect
{
    std::string prefix, suffix;
    bool any;
    size_t blob;
    Expect() : any(false), blob(0) {}
    std::string scope(std::string const& ns) const     // "::A::B::"
    {
        std::string all = prefix + "/" + ns + "/" + suffix + "/", out = "::", part;
        for (size_t i = 0; i < all.size(); ++i)
            if (all[i] == '/') { if (!part.empty()) out += ident(part) + "::"; part.clear(); } else part += all[i];
        return out;
    }
    // scope ("" for what IDL has built in) and name
    std::pair<std::string, std::string> base(GNode const* n) const
    {
        std::string ns, b; cut(n->name, ns, b);
        switch (n->k)
        {
            case GNUM:
                if (n->name == "/bool") return std::make_pair("", "boolean");
                if (n->ncat == 'f') return std::make_pair("", n->size == 4 ? "float" : "double");
                if (n->size == 1) return std::make_pair("", "octet");
                return std::make_pair("", std::string(n->ncat == 'u' ? "unsigned " : "") + (n->size == 2 ? "short" : n->size == 4 ? "long" : "long long"));
            case GSTR: return std::make_pair("", "string");
            case GOPQ: if (any) return std::make_pair("", "any"); throw Unsupported{ "opaque " + n->name };
            case GENUM: return std::make_pair(scope(ns), ident(b));
            case GCOMP: return std::make_pair(scope(ns), ident(b));
            case GVEC:
            {
                std::pair<std::string, std::string> e = base(n->elem);
                std::string nm = n->elem->name;
                for (size_t i = 0; i < nm.size(); ++i) if (strchr("<>/, ", nm[i])) nm[i] = '_';
                return std::make_pair(e.first.empty() ? scope("/") : e.first, "vector_" + nm + "_");
            }
            case GNULL: throw Unsupported{ "null " + n->name };
            case GPTR: throw Unsupported{ "pointer " + n->name };
            case GARR: throw Unsupported{ "array of " + n->name };
        }
        return std::make_pair("", "");
    }
    std::string ref(GNode const* n) const { std::pair<std::string, std::string> b = base(n); return b.first + b.second; }
    std::string declarator(GNode const* n, std::string const& name) const
    { return n->k == GARR ? ref(n->elem) + " " + name + "[" + str(n->dim) + "]" : ref(n) + " " + name; }
    // the declaration an entry of the registry calls for ("" when none)
    std::string declaration(std::string const& name, Snap::Entry const& e) const
    {
        GNode const* n = e.node;
        std::string ns, b; cut(name, ns, b);
        if (e.alias)
        {
            if (n->k == GPTR) throw Unsupported{ "alias of a pointer" };
            if (n->k == GARR && (n->elem->k == GARR || n->elem->k == GPTR)) throw Unsupported{ "alias of an array of such" };
            if (b.find_first_of("/<>") != std::string::npos) return "";
            if (n->k == GOPQ && !any) return "";
            if (n->k == GVEC) return scope(ns) + " typedef sequence<" + ref(n->elem) + "> " + strip(b);
            return scope(ns) + " typedef " + declarator(n, strip(b));
        }
        if (blob && n->size > blob) return scope(ns) + " typedef sequence<octet> " + ident(b);
        switch (n->k)
        {
            case GENUM: { std::string s; for (std::map<std::string, int>::const_iterator i = n->syms.begin(); i != n->syms.end(); ++i) s += strip(i->first) + ","; return scope(ns) + " enum " + ident(b) + " {" + s + "}"; }
            case GCOMP: { std::string s; for (size_t i = 0; i < n->fields.size(); ++i) s += declarator(n->fields[i].type, strip(n->fields[i].name)) + ";"; return scope(ns) + " struct " + ident(b) + " {" + s + "}"; }
            case GVEC: { std::pair<std::string, std::string> p = base(n); return p.first + " typedef sequence<" + ref(n->elem) + "> " + p.second; }
            case GOPQ: if (!any) throw Unsupported{ "opaque " + name }; return "";
            case GNULL: throw Unsupported{ "null " + name };
            default: return "";
        }
    }
};

// A parser for the part of IDL that is used
struct Idl
{
    std::vector<std::string> t; size_t i;
    std::vector<std::string> decls;             // in order
    std::set<std::string> known;                // scoped names declared so far
    std::vector<std::string> unknown;           // referred to without having been declared
    std::string error;
    size_t refs;
    explicit Idl(std::string const& text) : i(0), refs(0)
    {
        for (size_t p = 0; p < text.size();)
        {
            if (isspace((unsigned char)text[p])) { ++p; continue; }
            size_t q = p;
            if (isalnum((unsigned char)text[p]) || text[p] == '_') while (q < text.size() && (isalnum((unsigned char)text[q]) || text[q] == '_')) ++q;
            else if (text.compare(p, 2, "::") == 0) q = p + 2;
            else q = p + 1;
            t.push_back(text.substr(p, q - p)); p = q;
        }
        try { definitions("::"); if (i != t.size()) bad("text after the last definition"); }
        catch (int) {}
    }
    void bad(std::string const& w) { std::string near; for (size_t k = i < 6 ? 0 : i - 6; k < t.size() && k < i + 4; ++k) near += (k == i ? ">>" : "") + t[k] + " "; error = w + " near: " + near; throw 0; }
    std::string const& peek() { static std::string const end; return i < t.size() ? t[i] : end; }
    void eat(char const* x) { if (peek() != x) bad(std::string("'") + x + "' expected"); ++i; }
    std::string id()
    {
        std::string s = peek();
        if (s.empty() || !isalpha((unsigned char)s[0])) bad("identifier expected");
        ++i; return s;
    }
    int definitions(std::string const& scope)
    {
        int n = 0;
        while (i < t.size() && peek() != "}")
        {
            ++n;
            if (peek() == "module")
            {
                ++i; std::string m = id(); eat("{");
                if (!definitions(scope + m + "::")) bad("empty module");
                eat("}"); eat(";");
            }
            else if (peek() == "struct")
            {
                ++i; std::string nm = id(), body; eat("{");
                while (peek() != "}") { body += type() + " "; body += declarator() + ";"; eat(";"); }
                eat("}"); eat(";"); add(scope, "struct " + nm + " {" + body + "}", nm);
            }
            else if (peek() == "enum")
            {
                ++i; std::string nm = id(), body; eat("{");
                for (;;) { body += id() + ","; if (peek() != ",") break; ++i; }
                eat("}"); eat(";"); add(scope, "enum " + nm + " {" + body + "}", nm);
            }
            else if (peek() == "typedef")
            {
                ++i; std::string ty = type(), d = declarator(); eat(";");
                add(scope, "typedef " + ty + " " + d, d.substr(0, d.find('[')));
            }
            else bad("definition expected");
        }
        return n;
    }
    void add(std::string const& scope, std::string const& d, std::string const& nm) { decls.push_back(scope + " " + d); known.insert(scope + nm); }
    std::string declarator() { std::string s = id(); if (peek() == "[") { ++i; s += "[" + peek() + "]"; ++i; eat("]"); } return s; }
    std::string type()
    {
        if (peek() == "sequence") { ++i; eat("<"); std::string e = type(); eat(">"); return "sequence<" + e + ">"; }
        if (peek() == "unsigned") { ++i; return "unsigned " + type(); }
        if (peek() == "long") { ++i; if (peek() == "long") { ++i; return "long long"; } return "long"; }
        static char const* const b[] = { "octet", "short", "float", "double", "boolean", "string", "any" };
        for (size_t k = 0; k < 7; ++k) if (peek() == b[k]) { ++i; return b[k]; }
        if (peek() != "::") bad("type expected");
        std::string s;
        while (peek() == "::") { ++i; s += "::" + id(); }
        ++refs;
        if (!known.count(s)) unknown.push_back(s);
        return s;
    }
};

void vh_case(Ctx& c)
{
    Rng& r = c.rng;
    GOpts o; o.recursive = false; o.holes = false; o.zero_dim = false; o.vec_of_arrays = false; o.spaces = false; o.underscores = true; o.weird_names = r.chance(1, 2);
    o.pointers = r.chance(1, 5); o.nulls = r.chance(1, 5); o.opaques = r.chance(2, 5); o.ntypes = r.range(1, 8); o.namespaces = r.chance(4, 5);
    Graph g; if (r.chance(1, 4)) g.prefix = r.chance(1, 2) ? "/Outer" : "/T</double>";
    g.generate(r, o);
    for (size_t i = 0; i < g.nodes.size(); ++i)
    {
        GNode* n = g.nodes[i].get();
        for (size_t f = 0; f < n->fields.size(); ++f)
        {
            // arrays of arrays are not in IDL: rarely
            if (n->fields[f].type->k == GARR && n->fields[f].type->elem->k == GARR && !r.chance(1, 12)) n->fields[f].type = n->fields[f].type->elem->elem;
            if (r.chance(1, 10)) n->fields[f].name = "_" + n->fields[f].name;
        }
        if (n->k == GENUM && r.chance(1, 6)) n->syms["_under"] = 3;
    }
    g.fix_sizes();
    Registry reg;
    if (r.chance(1, 8)) reg.add(new Numeric("/bool", 1, Numeric::UInt));
    g.build(reg);
    std::vector<std::string> prim;
    for (RegistryIterator it = reg.begin(); it != reg.end(); ++it) if (!it.isAlias()) prim.push_back(it.getName());
    static char const* const al[] = { "/alias_a", "/A/alias_b", "/_alias_c", "/B/T1/other", "/A/B/base/T1x", "/zz/y", "/A/al<b>" };
    for (int i = r.range(0, 3); i > 0; --i)
    {
        std::string nm = al[r.below(7)], b = r.pick(prim);
        Type::Category k = reg.get(b)->getCategory();
        if (reg.has(nm, false) || !isValidTypename(nm, true) || ((k == Type::NullType || k == Type::Pointer || k == Type::Array) && !r.chance(1, 4))) continue;
        reg.alias(b, nm);
    }
    Expect x;
    utilmm::config_set config;
    std::string opts;
    if (r.chance(1, 3)) { x.prefix = r.chance(1, 2) ? "Pre" : "Pre/_Fix"; config.set("namespace_prefix", (r.chance(1, 2) ? "/" : "") + x.prefix); opts += " prefix"; }
    if (r.chance(1, 3)) { x.suffix = r.chance(1, 2) ? "Suf" : "Suf/Fix"; config.set("namespace_suffix", x.suffix + (r.chance(1, 2) ? "/" : "")); opts += " suffix"; }
    if (r.chance(1, 2)) { x.any = r.chance(1, 2); config.set("opaque_as_any", x.any ? "true" : "false"); opts += " any"; }
    if (r.chance(1, 4)) { x.blob = r.range(32, 80); config.set("blob_threshold", str(x.blob)); opts += " blob"; }
    std::set<std::string> selected;
    if (r.chance(1, 4)) for (int i = r.range(1, 4); i > 0; --i) { std::string n = r.pick(prim); if (selected.insert(n).second) config.insert("selected", n); }
    Snap s(reg);
    std::multiset<std::string> want;
    std::string refuse;
    std::string d = opts + ":";
    for (std::map<std::string, Snap::Entry>::iterator i = s.names.begin(); i != s.names.end(); ++i)
    {
        if (!i->second.persistent || (!selected.empty() && !selected.count(i->second.node->name))) continue;
        d += " " + (i->second.alias ? i->first + "=" + i->second.node->name : describe(i->second.node).substr(0, 200));
        try { std::string x1 = x.declaration(i->first, i->second); if (!x1.empty()) want.insert(x1); }
        catch (Unsupported& u) { refuse = u.what + " in " + i->first; }
    }
    c.desc(d);
    std::ostringstream out;
    bool refused = false; std::string err;
    try { PluginManager::save("idl", config, reg, out); }
    catch (std::exception& e) { refused = true; err = e.what(); }
    CK(c, refused == !refuse.empty(), "refusal", refused ? "types that IDL can express are refused: " + err : "types that IDL cannot express are exported: " + refuse + "\n" + out.str());
    CK(c, diff_snaps(s, Snap(reg)).empty(), "changed", "exporting changes the registry");
    // an exporter used before, for something else or for something it refused
    {
        PluginManager::self pm;
        std::unique_ptr<Exporter> ex(pm->exporter("idl"));
        Registry other;
        GOpts p = o; p.ntypes = 3; p.pointers = r.chance(1, 3);
        Graph h; h.generate(r, p); h.build(other);
        std::ostringstream first, second; bool refused2 = false;
        try { ex->save(first, config, other); } catch (std::exception&) {}
        try { ex->save(second, config, reg); } catch (std::exception&) { refused2 = true; }
        CK(c, refused2 == refused && (refused || second.str() == out.str()), "reused", "an exporter that was used before gives another document:\n" + second.str() + "--- instead of:\n" + out.str());
    }
    if (refused) { c.count("refused"); return; }
    std::string text = out.str();
    Idl idl(text);
    CK(c, idl.error.empty(), "malformed", "the document is not well-formed: " + idl.error + "\n" + text);
    std::multiset<std::string> got(idl.decls.begin(), idl.decls.end());
    for (std::multiset<std::string>::iterator i = got.begin(); i != got.end(); ++i) CK(c, want.count(*i) == got.count(*i), "declaration", (want.count(*i) ? "declared more than once: " : "not called for: ") + *i + "\n" + text);
    for (std::multiset<std::string>::iterator i = want.begin(); i != want.end(); ++i) CK(c, got.count(*i) == want.count(*i), "missing", "missing: " + *i + "\n" + text);
    if (selected.empty()) CK(c, idl.unknown.empty(), "use-before-declaration", idl.unknown[0] + " is used before it is declared\n" + text);
    c.count("declarations", got.size()); c.count("references", idl.refs); c.count("documents");
    if (!opts.empty()) c.count("documents with options");
    if (!selected.empty()) c.count("documents with selected types");
    if (idl.refs) { c.sig(vh_hash(text)); c.sample(text.substr(0, 400)); }
}
