// I02: whatever a tlb document says, reading it is safe
#include "graph.hh"
#include <lang/csupport/standard_types.hh>
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <libxml/xmlerror.h>
using namespace Typelib;

const char* vh_rule = "one case = a tlb document written by the exporter, then damaged (elements and attributes dropped, duplicated, renamed, exchanged, given junk, or bytes changed, inserted, cut), read into a registry that holds other types or part of the same; "
    "distinct by the document; non-trivial when the document is still well-formed and differs from the original";
bool vh_check_leaks = true;
static void quiet(void*, const char*, ...) {}
static void squiet(void*, xmlErrorPtr) {}
void vh_setup(Ctx&)
{
    vh_hold_plugins();
    xmlInitParser();
    xmlSetGenericErrorFunc(0, quiet);
    xmlSetStructuredErrorFunc(0, reinterpret_cast<xmlStructuredErrorFunc>(squiet));
}

static char const* const junk_text[] = { "", "0", "-1", "1", "4294967296", "99999999999999999999", "1e3", "abc", "/", "//", "/a[", "/a]", "/int8_t[3]", "/int8_t*", "[3]", "*", "/a</b>", "/a<", "/a<b>", " ", "2147483647", "-2147483648", "18446744073709551615",
    "/std/vector", "/std/string", "/std/vector</int8_t>", "/std/vector</std/vector</int8_t>>", "sint", "float", "/int8_t[2147483648]", "/int8_t[-1]", "/int8_t[0]", "int8_t", "&", "/A/B/T1", "/double[5]*", "7" };
static char const* const elements[] = { "alias", "numeric", "null", "opaque", "enum", "compound", "container", "array", "pointer", "field", "value", "metadata", "typelib", "junk", "comment", "text" };
static char const* const attributes[] = { "name", "size", "category", "of", "kind", "symbol", "value", "source", "source_id", "type", "offset", "key", "dimension" };

static void collect(xmlNodePtr n, std::vector<xmlNodePtr>& out)
{ for (; n; n = n->next) if (n->type == XML_ELEMENT_NODE) { out.push_back(n); collect(n->children, out); } }

static std::string damaged(Ctx& c, std::string const& text, std::vector<std::string> const& names)
{
    Rng& r = c.rng;
    xmlDocPtr doc = xmlReadMemory(text.data(), text.size(), "doc", 0, XML_PARSE_NOBLANKS | XML_PARSE_NONET);
    if (!doc) throw std::logic_error("cannot parse the document");
    xmlNodePtr root = xmlDocGetRootElement(doc);
    for (int i = r.range(1, r.chance(1, 4) ? 8 : 2); i > 0; --i)
    {
        std::vector<xmlNodePtr> n;
        collect(root->children, n);
        if (n.empty()) break;
        xmlNodePtr x = r.pick(n), y = r.pick(n);
        std::vector<xmlAttrPtr> at;
        for (xmlAttrPtr a = x->properties; a; a = a->next) at.push_back(a);
        std::string junk = r.chance(1, 2) || names.empty() ? junk_text[r.below(sizeof junk_text / sizeof *junk_text)] : r.pick(names);
        if (r.chance(1, 8)) junk += r.chance(1, 2) ? "[2]" : r.chance(1, 2) ? "*" : " ";
        switch (r.range(0, 11))
        {
            case 0: xmlUnlinkNode(x); xmlFreeNode(x); break;
            case 1: case 2: case 3: if (!at.empty()) { xmlAttrPtr a = r.pick(at); std::string nm = reinterpret_cast<char const*>(a->name); xmlSetProp(x, BAD_CAST nm.c_str(), BAD_CAST junk.c_str()); } break;
            case 4: if (!at.empty()) xmlRemoveProp(r.pick(at)); break;
            case 5: xmlAddNextSibling(y, xmlCopyNode(x, 1)); break;
            case 6: xmlNodeSetName(x, BAD_CAST elements[r.below(sizeof elements / sizeof *elements)]); break;
            case 7: xmlSetProp(x, BAD_CAST attributes[r.below(sizeof attributes / sizeof *attributes)], BAD_CAST junk.c_str()); break;
            case 8:     // the definition of one type under the name of another
            {
                xmlNodePtr k = xmlCopyNode(x, 1);
                xmlChar* nm = xmlGetProp(y, BAD_CAST "name");
                if (nm) { xmlSetProp(k, BAD_CAST "name", nm); xmlFree(nm); }
                if (r.chance(1, 2)) xmlAddPrevSibling(y, k); else xmlAddNextSibling(y, k);
                break;
            }
            case 9:     // something made of itself
            {
                xmlChar* nm = xmlGetProp(x, BAD_CAST "name");
                if (!nm) break;
                std::string s = reinterpret_cast<char*>(nm); xmlFree(nm);
                if (r.chance(1, 4)) s += "*";
                xmlSetProp(x, BAD_CAST (r.chance(1, 2) ? "of" : "source"), BAD_CAST s.c_str());
                if (x->children) xmlSetProp(x->children, BAD_CAST "type", BAD_CAST s.c_str());
                break;
            }
            case 10: xmlAddChild(x, r.chance(1, 2) ? xmlNewCDataBlock(doc, BAD_CAST "data", 4) : xmlNewPI(BAD_CAST "pi", BAD_CAST "x")); break;
            case 11: xmlAddChild(root, r.chance(1, 2) ? xmlNewCDataBlock(doc, BAD_CAST "data", 4) : r.chance(1, 2) ? xmlNewPI(BAD_CAST "pi", BAD_CAST "x") : xmlNewReference(doc, BAD_CAST "amp")); break;
        }
    }
    xmlChar* mem; int len;
    xmlDocDumpMemory(doc, &mem, &len);
    std::string out(reinterpret_cast<char*>(mem), len);
    xmlFree(mem); xmlFreeDoc(doc);
    return out;
}
static std::string bytes_damaged(Rng& r, std::string s)
{
    for (int i = r.range(1, 4); i > 0 && !s.empty(); --i)
        switch (r.range(0, 4))
        {
            case 0: s[r.below(s.size())] = char(r.below(256)); break;
            case 1: s.erase(r.below(s.size()), r.range(1, 20)); break;
            case 2: s.insert(r.below(s.size()), s.substr(r.below(s.size()), r.range(1, 60))); break;
            case 3: s.resize(r.below(s.size())); break;
            case 4: s.insert(r.below(s.size()), junk_text[r.below(sizeof junk_text / sizeof *junk_text)]); break;
        }
    return s;
}

void vh_case(Ctx& c)
{
    Rng& r = c.rng;
    GOpts o; o.recursive = false; o.holes = false; o.metadata = r.chance(1, 2); o.nulls = r.chance(1, 2); o.weird_names = r.chance(1, 3); o.ntypes = r.range(1, 6); o.namespaces = r.chance(1, 2);
    Graph g; g.generate(r, o);
    std::string text;
    std::vector<std::string> names;
    {
        Registry src;
        g.build(src);
        static char const* const al[] = { "/alias_a", "/A/alias_b", "/alias_c" };
        dress_registry(r, src, std::vector<std::string>(al, al + r.range(0, 3)), true, false);
        text = PluginManager::save("tlb", src);
        for (RegistryIterator it = src.begin(); it != src.end(); ++it) names.push_back(it.getName());
    }
    bool structural = r.chance(4, 5);
    std::string doc = structural ? damaged(c, text, names) : bytes_damaged(r, text);
    if (r.chance(1, 200)) doc = junk_text[r.below(sizeof junk_text / sizeof *junk_text)];
    c.desc(doc.substr(0, 3500));
    bool wellformed = structural;
    {
        Registry dst;
        int known = r.range(0, 3);
        if (known == 1) CXX::addStandardTypes(dst);
        if (known == 2) { std::vector<GNode*> some; for (size_t i = 0; i < g.nodes.size(); ++i) if (r.chance(1, 3)) some.push_back(g.nodes[i].get()); g.build(dst, some); }
        if (known == 3) { GOpts p = o; p.recursive = true; p.ntypes = 4; Graph h; h.generate(r, p); h.build(dst); }
        if (r.chance(1, 3)) dst.setDefaultNamespace(r.chance(1, 2) ? "/A" : "/base/B");
        Snap before(dst);
        std::string err;
        for (int pass = 0; pass < 2; ++pass)
        {
            try { std::istringstream in(doc); PluginManager::load("tlb", in, dst); c.count("accepted"); }
            catch (std::exception& e) { err = e.what(); c.count("refused"); }
            catch (...) { c.fail("foreign-exception", "reading throws something that is not a std::exception"); }
        }
        Snap after(dst);
        for (std::map<std::string, Snap::Entry>::iterator i = before.names.begin(); i != before.names.end(); ++i)
        {
            Snap::Entry const* e = after.find(i->first);
            CK(c, e, "lost", i->first + ", known before, is gone (" + err + ")");
            CK(c, e->type == i->second.type && e->alias == i->second.alias && e->persistent == i->second.persistent && e->source == i->second.source, "replaced", i->first + ", known before, is another type or has other flags (" + err + ")");
            std::string d = diff_nodes(i->second.node, e->node, true, true);
            CK(c, d.empty(), "changed", "what was known before is changed: " + d + " (" + err + ")");
        }
        CK(c, after.closed().empty(), "not-closed", "the registry leads to a type it does not hold: " + after.closed());
        for (std::map<std::string, Snap::Entry>::iterator i = after.names.begin(); i != after.names.end(); ++i)
        {
            CK(c, dst.get(i->first) == i->second.type, "listed-only", i->first + " is listed but not found");
            CK(c, isValidTypename(i->first, true), "bad-name", "an invalid name was defined: " + i->first);
            CK(c, dst.has(i->second.type->getName(), false) && dst.get(i->second.type->getName()) == i->second.type, "unnamed", i->first + " leads to a type that is not known by its own name, " + i->second.type->getName());
        }
        // and a good document can still be read, where nothing of the same name is known
        if (err.empty() ? r.chance(1, 8) : r.chance(1, 2))
        {
            Graph h; h.num("/fresh/i", 4, 'i'); GNode* k = h.add(GCOMP, "/fresh/c"); GField f = { "f", h.find("/fresh/i"), 0 }; k->fields.push_back(f); k->size = 4;
            Registry s2; h.build(s2);
            std::string e2 = caught([&]{ std::istringstream in(PluginManager::save("tlb", s2)); PluginManager::load("tlb", in, dst); });
            CK(c, e2.empty() && dst.get("/fresh/c") && diff_type(*dst.get("/fresh/c"), k, true, false).empty(), "unusable", "after a bad document, a good one cannot be read: " + e2);
            c.count("good documents after bad ones");
        }
        if (after.names.size() > before.names.size()) c.count(err.empty() ? "accepted, with definitions" : "refused, with some definitions");
    }
    xmlResetLastError();
    if (wellformed && doc != text) { c.sig(vh_hash(doc)); c.sample(doc.substr(0, 300)); }
}
