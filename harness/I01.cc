// I01: what is written to a tlb document is read back from it
#include "graph.hh"
#include <lang/csupport/standard_types.hh>
#include <unistd.h>
#include <sys/mman.h>
#include <libxml/parser.h>
#include <libxml/tree.h>
using namespace Typelib;

const char* vh_rule = "one case = a registry over a random graph of types (templates in names, metadata, aliases, sources, text special to XML everywhere text is free), written to a tlb document and read into a new registry, "
    "into one that holds part of it, and again into the result; every persistent entry compared; distinct by the document; non-trivial when the document defines compounds and at least 3 entries beyond the predefined ones";
bool vh_check_leaks = true;
static std::set<std::string> standard_names;
static void define_standard(Registry& reg) { CXX::addStandardTypes(reg); }
void vh_setup(Ctx&)
{
    vh_hold_plugins();
    Registry reg; define_standard(reg);
    for (RegistryIterator it = reg.begin(); it != reg.end(); ++it) standard_names.insert(it.getName());
    if (standard_names.size() < 5) throw std::runtime_error("there are no standard types");
}

static std::string weird(Rng& rng)
{
    static char const* const parts[] = { "&", "<", ">", "\"", "'", "]]>", "]]", "a", "b c", "&amp;", "&#65;", "<![CDATA[", "\n", "\t", "  ", "/x", "\xc3\xa9", "--", "</typelib>", "]", "=", "%s" };
    std::string s;
    for (int i = rng.range(1, 5); i > 0; --i) s += parts[rng.below(sizeof parts / sizeof *parts)];
    return s;
}
typedef std::map<std::string, std::set<std::string> > Meta;
static std::string show_meta(Meta const& m)
{
    std::string s;
    for (Meta::const_iterator i = m.begin(); i != m.end(); ++i) { s += i->first + "={"; for (std::set<std::string>::const_iterator v = i->second.begin(); v != i->second.end(); ++v) s += *v + "|"; s += "} "; }
    return s;
}
static std::string first_diff(std::string const& a, std::string const& b)
{
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    size_t from = i < 200 ? 0 : i - 200;
    return "\n" + a.substr(from, 500) + "\n--- instead of:\n" + b.substr(from, 500);
}
// the order of independent definitions is free
static std::multiset<std::string> sorted_lines(std::string const& s)
{
    std::multiset<std::string> r; std::istringstream in(s); std::string l;
    while (std::getline(in, l)) r.insert(l);
    return r;
}
// every persistent entry of a is in b, and is the same there
static std::string compare(Snap const& a, Snap const& b, bool metadata, bool extras, std::set<std::string> const& skip_meta)
{
    for (std::map<std::string, Snap::Entry>::const_iterator i = a.names.begin(); i != a.names.end(); ++i)
    {
        Snap::Entry const& x = i->second;
        if (!x.persistent) continue;
        Snap::Entry const* y = b.find(i->first);
        if (!y) return i->first + " is missing";
        if (x.alias != y->alias) return i->first + (x.alias ? " is not an alias anymore" : " became an alias");
        if (!y->persistent) return i->first + " is not persistent anymore";
        std::string d = diff_nodes(x.node, y->node, true, false);
        if (!d.empty()) return i->first + ": " + d;
        if (x.alias || skip_meta.count(i->first) || !metadata) continue;
        if (x.source != y->source) return i->first + " comes from '" + y->source + "' instead of '" + x.source + "'";
        if (x.node->meta != y->node->meta) return i->first + " has metadata " + show_meta(y->node->meta) + " instead of " + show_meta(x.node->meta);
        for (size_t f = 0; f < x.node->fields.size(); ++f)
            if (x.node->fields[f].meta != y->node->fields[f].meta)
                return i->first + "." + x.node->fields[f].name + " has metadata " + show_meta(y->node->fields[f].meta) + " instead of " + show_meta(x.node->fields[f].meta);
    }
    if (extras)
        for (std::map<std::string, Snap::Entry>::const_iterator i = b.names.begin(); i != b.names.end(); ++i)
        {
            if (!i->second.persistent) continue;
            Snap::Entry const* x = a.find(i->first);
            if (!x || !x->persistent) return i->first + " was not in what was written";
        }
    return "";
}
// the same definitions in another order, with comments and other white space
static std::string shuffled(Rng& r, std::string const& text)
{
    xmlDocPtr doc = xmlReadMemory(text.data(), text.size(), "doc", 0, XML_PARSE_NOBLANKS | XML_PARSE_NONET);
    if (!doc) throw std::logic_error("cannot parse the document");
    xmlNodePtr root = xmlDocGetRootElement(doc);
    std::vector<xmlNodePtr> n;
    for (xmlNodePtr k = root->children; k; k = k->next) n.push_back(k);
    for (size_t i = 0; i < n.size(); ++i) xmlUnlinkNode(n[i]);
    bool reverse = r.chance(1, 4);
    for (size_t i = n.size(); i > 1; --i) std::swap(n[i - 1], n[reverse ? 0 : r.below(i)]);
    for (size_t i = 0; i < n.size(); ++i)
    {
        xmlAddChild(root, n[i]);
        if (r.chance(1, 6)) xmlAddChild(root, xmlNewComment(BAD_CAST " a <comment/> "));
        if (r.chance(1, 6)) xmlAddChild(root, xmlNewText(BAD_CAST "\n \n\t"));
        if (r.chance(1, 2) && n[i]->type == XML_ELEMENT_NODE)
        {
            std::vector<xmlNodePtr> k;
            for (xmlNodePtr x = n[i]->children; x; x = x->next) k.push_back(x);
            for (size_t j = 0; j < k.size(); ++j) xmlUnlinkNode(k[j]);
            for (size_t j = k.size(); j > 1; --j) std::swap(k[j - 1], k[r.below(j)]);
            for (size_t j = 0; j < k.size(); ++j) xmlAddChild(n[i], k[j]);
        }
        if (r.chance(1, 6) && n[i]->type == XML_ELEMENT_NODE && n[i]->children) xmlAddPrevSibling(n[i]->children, xmlNewComment(BAD_CAST "c"));
    }
    xmlChar* mem; int len;
    xmlDocDumpMemory(doc, &mem, &len);
    std::string out(reinterpret_cast<char*>(mem), len);
    xmlFree(mem); xmlFreeDoc(doc);
    return out;
}
static void read(Ctx& c, std::string const& text, Registry& into, bool file)
{
    if (!file) { std::istringstream in(text); PluginManager::load("tlb", in, into); return; }
    int fd = memfd_create("tlb", 0);
    if (fd < 0 || write(fd, text.data(), text.size()) != ssize_t(text.size())) throw std::logic_error("memfd");
    std::string err;
    try { PluginManager::load("tlb", "/proc/self/fd/" + str(fd), into); } catch (std::exception& e) { err = e.what(); if (err.empty()) err = "?"; }
    close(fd);
    if (!err.empty()) throw std::runtime_error(err);
}

void vh_case(Ctx& c)
{
    Rng& r = c.rng;
    GOpts o; o.recursive = false; o.holes = false; o.metadata = r.chance(3, 4); o.nulls = r.chance(1, 2); o.weird_names = true; o.ntypes = r.range(1, 8); o.namespaces = r.chance(3, 4);
    Graph g; g.generate(r, o);
    bool special = r.chance(2, 3);
    if (special)
        for (size_t i = 0; i < g.nodes.size(); ++i)
        {
            GNode* n = g.nodes[i].get();
            for (size_t f = 0; f < n->fields.size(); ++f)
            {
                if (r.chance(1, 6)) n->fields[f].name += weird(r);
                if (r.chance(1, 5)) n->fields[f].meta[r.chance(1, 2) ? "doc" : weird(r)].insert(weird(r));
                if (r.chance(1, 16)) n->fields[f].meta["empty"];
            }
            if (n->k == GENUM && r.chance(1, 3)) n->syms[weird(r)] = r.range(-100, 100);
            if (standard_names.count(n->name) || n->k == GARR || n->k == GPTR) continue;
            if (r.chance(1, 4)) n->meta[r.chance(1, 2) ? "doc" : weird(r)].insert(weird(r));
            if (r.chance(1, 8)) n->meta["doc"].insert("");
            if (r.chance(1, 8)) n->meta["empty"];
        }
    // reading puts fields in this order
    for (size_t i = 0; i < g.nodes.size(); ++i)
        std::sort(g.nodes[i]->fields.begin(), g.nodes[i]->fields.end(), [](GField const& x, GField const& y) { return x.off != y.off ? x.off < y.off : x.name < y.name; });
    bool standard = r.chance(1, 3);
    std::set<std::string> const predefined = standard ? standard_names : std::set<std::string>();
    Registry src;
    if (standard) define_standard(src);
    g.build(src);
    std::vector<std::string> prim;
    for (RegistryIterator it = src.begin(); it != src.end(); ++it) if (!it.isAlias() && !predefined.count(it.getName())) prim.push_back(it.getName());
    for (int i = r.range(0, 4); i > 0; --i)
    {
        static char const* const al[] = { "/alias_a", "/A/alias<b>", "/alias_c", "/B/T1/a lias", "/A/B/base/T1", "/base", "/zz/T</double>" };
        std::string name = al[r.below(7)], b = prim.empty() || r.chance(1, 4) ? "/double" : r.pick(prim);
        if (!src.has(name, false) && !g.by_name.count(name) && isValidTypename(name, true)) src.alias(b, name);
    }
    for (size_t i = 0; i < prim.size(); ++i)
        if (r.chance(1, 3)) src.setSourceID(*src.get(prim[i]), special && r.chance(1, 2) ? "/inc/" + weird(r) + ".h" : "/inc/f" + str(r.below(3)) + ".h");
    bool resized = false;
    for (size_t i = 0; i < prim.size() && !resized; ++i)
    {
        GNode* n = g.find(prim[i]);
        if (!n || (n->k != GVEC && n->k != GSTR) || !r.chance(1, 16)) continue;
        std::map<std::string, size_t> sizes; sizes[prim[i]] = n->size + 8 * r.range(1, 4);
        src.resize(sizes);
        resized = true;
    }
    // what nothing depends on can be given any size
    for (size_t i = 0; i < prim.size() && !resized; ++i)
    {
        GNode* n = g.find(prim[i]);
        if (!n || (n->k != GVEC && n->k != GSTR) || !r.chance(1, 8)) continue;
        if (const_cast<Registry const&>(src).reverseDepends(*src.get(prim[i])).size() > 1) continue;
        src.get_(prim[i])->setSize(r.range(1, 60));
        resized = true;
    }
    if (r.chance(1, 3)) src.setDefaultNamespace("/A/B");
    Snap before(src);
    std::string d; for (size_t i = 0; i < prim.size(); ++i) d += prim[i] + " ";
    c.desc(d);
    std::string text, err;
    err = caught([&]{ text = PluginManager::save("tlb", src); });
    CK(c, err.empty(), "not-written", "writing a registry fails: " + err);
    c.desc(d + "\n" + text.substr(0, 3000));
    CK(c, diff_snaps(before, Snap(src)).empty(), "changed-by-writing", "writing the registry changes it: " + diff_snaps(before, Snap(src)));
    bool file = r.chance(1, 6);
    {
        Registry dst;
        if (standard) define_standard(dst);
        if (r.chance(1, 4)) dst.setDefaultNamespace("/base");
        err = caught([&]{ read(c, text, dst, file); });
        CK(c, err.empty(), "not-read", "what was written cannot be read: " + err);
        Snap s(dst);
        std::string diff = compare(before, s, true, true, predefined);
        CK(c, diff.empty(), "lost", "what was read back is not what was written: " + diff);
        CK(c, s.closed().empty(), "not-closed", "the registry that was read leads to a type it does not hold: " + s.closed());
        std::string again;
        err = caught([&]{ again = PluginManager::save("tlb", dst); });
        CK(c, err.empty() && sorted_lines(again) == sorted_lines(text), "unstable", "writing again what was read gives another document " + err + first_diff(text, again));
        // the same definitions again: nothing to do
        err = caught([&]{ read(c, text, dst, false); });
        CK(c, err.empty(), "not-read-again", "what was read cannot be read once more: " + err);
        CK(c, diff_snaps(s, Snap(dst)).empty(), "changed-by-rereading", "reading the same document again changes " + diff_snaps(s, Snap(dst)));
        for (int i = 0; i < 2; ++i) check_vectors(c, dst);
    }
    {
        Registry dst;
        if (standard) define_standard(dst);
        std::string other = shuffled(r, text);
        err = caught([&]{ read(c, other, dst, false); });
        CK(c, err.empty(), "not-read-in-order", "the same definitions in another order cannot be read: " + err + "\n" + other);
        std::string diff = compare(before, Snap(dst), true, true, predefined);
        CK(c, diff.empty(), "order", "the same definitions in another order give something else: " + diff + "\n" + other);
    }
    if (!resized)
    {
        Registry dst;
        if (standard) define_standard(dst);
        std::vector<GNode*> some;
        for (size_t i = 0; i < g.nodes.size(); ++i)
        {
            if (r.chance(1, 3)) some.push_back(g.nodes[i].get());
        }
        g.aliases.clear();
        g.build(dst, some);
        Snap pre(dst);
        err = caught([&]{ read(c, text, dst, false); });
        CK(c, err.empty(), "not-read-into", "what was written cannot be read where part of it is known: " + err);
        Snap post(dst);
        std::string diff = compare(before, post, false, false, predefined);
        CK(c, diff.empty(), "lost-known", "reading where part is known gives something else: " + diff);
        for (std::map<std::string, Snap::Entry>::iterator i = pre.names.begin(); i != pre.names.end(); ++i)
        {
            Snap::Entry const* e = post.find(i->first);
            CK(c, e && e->type == i->second.type, "replaced", "reading replaces the known type " + i->first);
        }
        CK(c, post.closed().empty(), "not-closed", "the registry leads to a type it does not hold: " + post.closed());
        c.count("read where part is known", pre.names.size() > predefined.size());
    }
    size_t n = 0, comps = 0;
    for (std::map<std::string, Snap::Entry>::iterator i = before.names.begin(); i != before.names.end(); ++i)
        if (i->second.persistent && !predefined.count(i->first)) { ++n; if (i->second.node->k == GCOMP) ++comps; if (i->second.alias) c.count("aliases"); }
    c.count("entries", n); c.count("bytes", text.size());
    if (special) c.count("documents with special text");
    if (file) c.count("read from a file");
    if (n >= 3 && comps) { c.sig(vh_hash(text)); c.sample(d.substr(0, 300)); }
}
