#include "graph.hh"
#include <lang/csupport/standard_types.hh>
using namespace Typelib;

GNode* Graph::add(GKind k, std::string const& name)
{
    if (by_name.count(name)) throw std::logic_error("duplicate model name " + name);
    nodes.push_back(std::unique_ptr<GNode>(new GNode));
    GNode* n = nodes.back().get();
    n->k = k; n->name = name; by_name[name] = n;
    return n;
}
GNode* Graph::num(std::string const& name, size_t size, char cat)
{ GNode* n = find(name); if (n) return n; n = add(GNUM, name); n->size = size; n->ncat = cat; return n; }
GNode* Graph::array(GNode* e, size_t dim)
{
    std::string nm = e->name + "[" + ::str(dim) + "]";
    GNode* n = find(nm); if (n) return n;
    n = add(GARR, nm); n->elem = e; n->dim = dim; n->size = dim * e->size; return n;
}
GNode* Graph::ptr(GNode* e)
{ GNode* n = find(e->name + "*"); if (n) return n; n = add(GPTR, e->name + "*"); n->elem = e; n->size = sizeof(void*); return n; }
GNode* Graph::vec(GNode* e)
{
    std::string nm = "/std/vector<" + e->name + ">";
    GNode* n = find(nm); if (n) return n;
    n = add(GVEC, nm); n->elem = e; n->size = sizeof(std::vector<void*>); return n;
}
GNode* Graph::str()
{
    GNode* n = find("/std/string"); if (n) return n;
    GNode* c = num("/int8_t", 1, 'i');
    n = add(GSTR, "/std/string"); n->elem = c; n->size = sizeof(std::string); return n;
}
static char const* const ns_parts[] = { "A", "B", "base", "T1", "std", "x_y", "Z" };
std::string Graph::fresh(Rng& rng, GOpts const& o)
{
    for (;;)
    {
        std::string s = prefix;
        if (o.namespaces) for (int i = rng.range(0, 3); i > 0; --i) { s += "/"; s += ns_parts[rng.below(7)]; }
        s += "/";
        if (o.underscores && rng.chance(1, 6)) s += "_";
        if (rng.chance(1, 3)) s += ns_parts[rng.below(7)];
        else s += (rng.chance(1, 2) ? "T" : "some_type") + ::str(rng.below(40));
        if (o.weird_names && rng.chance(1, 6)) s += rng.chance(1, 2) ? "</double>" : "</int8_t,12>";
        if (o.weird_names && o.spaces && rng.chance(1, 8)) s += " with space";
        if (!by_name.count(s) && !aliases.count(s) && s.find("/std/vector") && s.find("/std/string") && isValidTypename(s, true)) return s;
        ++uid;
        if (rng.chance(1, 4)) { s += "_" + ::str(uid); if (!by_name.count(s) && !aliases.count(s) && isValidTypename(s, true)) return s; }
    }
}
GNode* Graph::some(Rng& rng, GOpts const& o, int depth)
{
    if (depth > 0 && rng.chance(2, 5))
    {
        int w = rng.range(0, 3);
        if (w == 0 && o.pointers) return ptr(some(rng, o, depth - 1));
        if (w == 1 && o.containers) { GNode* e = sized(rng, o, depth - 1); while (!o.vec_of_arrays && e->k == GARR) e = e->elem; return vec(e); }
        if (w == 2 && o.arrays) return array(sized(rng, o, depth - 1), o.zero_dim && rng.chance(1, 12) ? 0 : rng.range(1, 5));
        if (w == 3 && o.containers && rng.chance(1, 2)) return str();
    }
    for (;;)
    {
        GNode* n = nodes[rng.below(nodes.size())].get();
        if (n->k == GNULL && !o.nulls) continue;
        if (open.count(n) && !o.recursive) continue;
        return n;
    }
}
GNode* Graph::sized(Rng& rng, GOpts const& o, int depth)
{
    for (int tries = 0; tries < 50; ++tries)
    {
        GNode* n = some(rng, o, depth);
        GNode* r = n;
        while (r->k == GARR) r = r->elem;
        if (r->k == GNULL || open.count(r) || n->size > 5000) continue;
        return n;
    }
    return nodes[0].get();
}
static void random_meta(Rng& rng, std::map<std::string, std::set<std::string> >& m)
{
    static char const* const keys[] = { "doc", "source_file_line", "cxxname", "a key", "k" };
    static char const* const vals[] = { "v", "some longer text", "a b  c", "x/y:12", "0", "tail ", "v2" };
    for (int i = rng.range(0, 3); i > 0; --i) m[keys[rng.below(5)]].insert(vals[rng.below(7)]);
}
void Graph::generate(Rng& rng, GOpts const& o)
{
    static const struct { char const* n; size_t s; char c; } b[] = {
        {"/int8_t",1,'i'},{"/uint8_t",1,'u'},{"/int16_t",2,'i'},{"/int32_t",4,'i'},{"/uint64_t",8,'u'},{"/float",4,'f'},{"/double",8,'f'} };
    for (size_t i = 0; i < sizeof b / sizeof *b; ++i) num(b[i].n, b[i].s, b[i].c);
    if (o.dup_numerics) { num(prefix + "/my/int", 4, 'i'); num(prefix + "/my/char", 1, 'i'); num(prefix + "/my/real", 8, 'f'); }
    for (int t = 0; t < o.ntypes; ++t)
    {
        int w = rng.range(0, 9);
        std::string name = fresh(rng, o);
        if (w == 0 && o.opaques) { GNode* n = add(GOPQ, name); n->size = rng.range(1, 24); if (o.metadata) random_meta(rng, n->meta); continue; }
        if (w == 1 && o.nulls) { GNode* n = add(GNULL, name); n->size = 0; continue; }
        if (w <= 3)
        {
            GNode* n = add(GENUM, name); n->size = sizeof(int);
            int v = rng.range(-3, 3), cnt = rng.range(1, 5);
            for (int i = 0; i < cnt; ++i)
            {
                if (rng.chance(1, 8)) v = rng.chance(1, 2) ? 2147483647 : -2147483647 - 1;
                n->syms["SYM" + ::str(rng.below(9))] = v;
                v = v == 2147483647 ? 0 : v + rng.range(0, 3);
            }
            if (o.metadata) random_meta(rng, n->meta);
            continue;
        }
        GNode* n = add(GCOMP, name);
        open.insert(n);
        size_t off = 0;
        int cnt = rng.range(rng.chance(1, 8) ? 0 : 1, o.max_fields);
        for (int i = 0; i < cnt; ++i)
        {
            GNode* f;
            if (o.recursive && o.pointers && o.holes && rng.chance(1, 8))
            {
                // a pointer to a compound that may be defined later
                off = (off + 7) / 8 * 8;
                GField fd = { "p" + ::str(i), 0, off };
                n->fields.push_back(fd);
                off += sizeof(void*);
                continue;
            }
            if (o.recursive && (o.pointers || o.containers) && rng.chance(1, 6)) f = o.pointers && (!o.containers || rng.chance(2, 3)) ? ptr(n) : vec(n);
            else f = sized(rng, o, 3);
            size_t al = o.packed && rng.chance(1, 3) ? 1 : f->size >= 8 ? 8 : f->size >= 4 ? 4 : f->size >= 2 ? 2 : 1;
            off = (off + al - 1) / al * al;
            if (rng.chance(1, 12)) off += rng.range(1, 9);
            GField fd = { "f" + ::str(i), f, off };
            if (rng.chance(1, 5)) fd.name = rng.chance(1, 2) ? "field_" + ::str(i) : "X" + ::str(i);
            if (o.metadata) random_meta(rng, fd.meta);
            n->fields.push_back(fd);
            off += f->size;
        }
        if (rng.chance(1, 2)) off = (off + 7) / 8 * 8;
        if (rng.chance(1, 10)) off += rng.range(1, 16);
        n->size = off;
        if (o.metadata) random_meta(rng, n->meta);
        open.erase(n);
    }
    std::vector<GNode*> comps;
    for (size_t i = 0; i < nodes.size(); ++i) if (nodes[i]->k == GCOMP) comps.push_back(nodes[i].get());
    for (size_t i = 0; i < comps.size(); ++i)
        for (size_t f = 0; f < comps[i]->fields.size(); ++f)
        {
            GField& fd = comps[i]->fields[f];
            if (fd.type) continue;
            fd.type = ptr(rng.pick(comps));
            if (rng.chance(1, 8)) fd.type = ptr(fd.type);
        }
    for (int i = rng.range(0, 4); i > 0; --i) some(rng, o, 3);
}
Type const* Graph::build(Registry& reg, GNode* n)
{
    if (n->type) return n->type;
    if (reg.has(n->name, false) && n->k != GCOMP && n->k != GENUM && n->k != GOPQ)
        return n->type = reg.get(n->name);
    switch (n->k)
    {
        case GNUM: { Type* t = new Numeric(n->name, n->size, n->ncat == 'i' ? Numeric::SInt : n->ncat == 'u' ? Numeric::UInt : Numeric::Float); reg.add(t); return n->type = t; }
        case GENUM:
        {
            Enum* t = new Enum(n->name);
            for (std::map<std::string, int>::iterator i = n->syms.begin(); i != n->syms.end(); ++i) t->add(i->first, i->second);
            reg.add(t); return n->type = t;
        }
        case GNULL: { Type* t = new NullType(n->name); reg.add(t); return n->type = t; }
        case GOPQ: { Type* t = new OpaqueType(n->name, n->size); reg.add(t); return n->type = t; }
        case GARR: { Type const* e = build(reg, n->elem); if (n->type) return n->type; Type* t = new Array(*e, n->dim); reg.add(t); return n->type = t; }
        case GPTR: { Type const* e = build(reg, n->elem); if (n->type) return n->type; Type* t = new Pointer(*e); reg.add(t); return n->type = t; }
        case GVEC: { Type const* e = build(reg, n->elem); if (n->type) return n->type; return n->type = &Container::createContainer(reg, "/std/vector", *e); }
        case GSTR: { Type* t = new String(*build(reg, n->elem)); reg.add(t); return n->type = t; }
        case GCOMP:
        {
            // given its fields by complete()
            Compound* t = new Compound(n->name);
            n->type = t;
            reg.add(t);
            return t;
        }
    }
    return 0;
}
// What holds a compound by value (arrays, fields), or depends on how it is made (containers), needs it complete.
// Only pointers can lead to a compound that is not.
void Graph::complete(Registry& reg, GNode* n)
{
    if (n->k == GARR || n->k == GVEC || n->k == GSTR) complete(reg, n->elem);
    else if (n->k == GPTR) { GNode* e = n->elem; while (e->k == GPTR) e = e->elem; if (e->k != GCOMP) complete(reg, e); }
    else if (n->k == GCOMP && completed.insert(n).second)
    {
        Compound* t = const_cast<Compound*>(static_cast<Compound const*>(build(reg, n)));
        for (size_t i = 0; i < n->fields.size(); ++i)
        {
            complete(reg, n->fields[i].type);
            t->addField(n->fields[i].name, *build(reg, n->fields[i].type), n->fields[i].off);
        }
        t->setSize(n->size);
    }
}
void Graph::build(Registry& reg) { build(reg, all()); }
void Graph::build(Registry& reg, std::vector<GNode*> const& roots)
{
    std::set<GNode*> used;
    for (size_t i = 0; i < roots.size(); ++i) { std::set<GNode*> c = closure(roots[i]); used.insert(c.begin(), c.end()); }
    for (size_t i = 0; i < nodes.size(); ++i) nodes[i]->type = 0;
    for (size_t i = 0; i < nodes.size(); ++i)
    {
        GNode* n = nodes[i].get();
        if (!used.count(n)) continue;
        complete(reg, n);
        build(reg, n);
    }
    completed.clear();
    reg.updateContainers();     // as whatever defines recursive types does
    for (size_t i = 0; i < nodes.size(); ++i)
    {
        GNode* n = nodes[i].get();
        if (!n->type) continue;
        for (std::map<std::string, std::set<std::string> >::iterator m = n->meta.begin(); m != n->meta.end(); ++m) n->type->getMetaData().add(m->first, m->second);
        if (n->k == GCOMP)
            for (size_t f = 0; f < n->fields.size(); ++f)
                for (std::map<std::string, std::set<std::string> >::iterator m = n->fields[f].meta.begin(); m != n->fields[f].meta.end(); ++m)
                    static_cast<Compound const*>(n->type)->getField(n->fields[f].name)->getMetaData().add(m->first, m->second);
    }
    for (std::map<std::string, std::string>::iterator a = aliases.begin(); a != aliases.end(); ++a) if (reg.has(a->second, false)) reg.alias(a->second, a->first);
}
void clone_graph(Graph const& from, Graph& to)
{
    std::map<GNode const*, GNode*> m;
    for (size_t i = 0; i < from.nodes.size(); ++i)
    {
        GNode const* a = from.nodes[i].get();
        GNode* b = to.add(a->k, a->name);
        std::string nm = b->name; *b = *a; b->name = nm; b->type = 0;
        m[a] = b;
    }
    for (size_t i = 0; i < to.nodes.size(); ++i)
    {
        GNode* b = to.nodes[i].get();
        if (b->elem) b->elem = m[b->elem];
        for (size_t f = 0; f < b->fields.size(); ++f) b->fields[f].type = m[b->fields[f].type];
    }
    to.aliases = from.aliases; to.prefix = from.prefix; to.uid = from.uid;
}

namespace {
typedef std::set<std::pair<std::pair<GNode const*, GNode const*>, bool> > Hyp;
bool rel(GNode const* a, GNode const* b, bool eq, bool keyed, Hyp& hyp)
{
    if (a == b) return true;
    if (!hyp.insert(std::make_pair(std::make_pair(a, b), keyed ? eq : true)).second) return true;
    if (a->k != b->k) return false;
    if (a->size != b->size && (eq || a->k != GCOMP)) return false;
    switch (a->k)
    {
        case GNUM: return a->ncat == b->ncat;
        case GENUM:
            if (eq) return a->syms == b->syms;
            for (std::map<std::string, int>::const_iterator i = a->syms.begin(); i != a->syms.end(); ++i)
            { std::map<std::string, int>::const_iterator j = b->syms.find(i->first); if (j == b->syms.end() || j->second != i->second) return false; }
            return true;
        case GOPQ: case GNULL: return a->name == b->name;
        case GCOMP:
            if (a->fields.size() != b->fields.size()) return false;
            for (size_t i = 0; i < a->fields.size(); ++i)
                if (a->fields[i].name != b->fields[i].name || a->fields[i].off != b->fields[i].off || !rel(a->fields[i].type, b->fields[i].type, eq, keyed, hyp)) return false;
            return true;
        case GARR: return a->dim == b->dim && rel(a->elem, b->elem, true, keyed, hyp);
        case GPTR: return rel(a->elem, b->elem, eq, keyed, hyp);
        case GVEC: case GSTR: return rel(a->elem, b->elem, true, keyed, hyp);
    }
    return false;
}
}
bool same_structure(GNode const* a, GNode const* b, bool eq) { Hyp h; return rel(a, b, eq, true, h); }
bool castable(GNode const* a, GNode const* b, bool keyed) { Hyp h; return rel(a, b, false, keyed, h); }

static std::string meta_diff(MetaData const& m, std::map<std::string, std::set<std::string> > const& want, std::string const& where)
{
    MetaData::Map have = m.get();
    for (MetaData::Map::const_iterator i = have.begin(); i != have.end(); ++i)
    {
        if (i->first == "source_id") continue;
        std::map<std::string, std::set<std::string> >::const_iterator w = want.find(i->first);
        if (w == want.end()) return where + " has metadata " + i->first + " that was never given";
        if (w->second != i->second) return where + " has other values for metadata " + i->first;
    }
    for (std::map<std::string, std::set<std::string> >::const_iterator i = want.begin(); i != want.end(); ++i)
        if (!have.count(i->first)) return where + " lost metadata " + i->first;
    return "";
}
static std::string diff_in(Type const& t, GNode const* n, bool names, bool meta, std::set<std::pair<Type const*, GNode const*> >& seen)
{
    if (!seen.insert(std::make_pair(&t, n)).second) return "";
    std::string who = n->name + " (" + t.getName() + ")";
    if (names && t.getName() != n->name) return who + ": name";
    static const Type::Category cat[] = { Type::Numeric, Type::Enum, Type::Compound, Type::Array, Type::Pointer, Type::Container, Type::Container, Type::Opaque, Type::NullType };
    if (t.getCategory() != cat[n->k]) return who + ": category " + ::str(int(t.getCategory()));
    if (t.getSize() != n->size) return who + ": size " + ::str(t.getSize()) + " instead of " + ::str(n->size);
    std::string d;
    if (meta && (n->k == GCOMP || n->k == GENUM || n->k == GOPQ || n->k == GNUM) && !(d = meta_diff(t.getMetaData(), n->meta, who)).empty()) return d;
    switch (n->k)
    {
        case GNUM:
        {
            Numeric::NumericCategory c = static_cast<Numeric const&>(t).getNumericCategory();
            if (c != (n->ncat == 'i' ? Numeric::SInt : n->ncat == 'u' ? Numeric::UInt : Numeric::Float)) return who + ": numeric category";
            return "";
        }
        case GENUM: if (static_cast<Enum const&>(t).values() != n->syms) return who + ": enum symbols"; return "";
        case GOPQ: case GNULL: return "";
        case GCOMP:
        {
            Compound::FieldList const& f = static_cast<Compound const&>(t).getFields();
            if (f.size() != n->fields.size()) return who + ": " + ::str(f.size()) + " fields instead of " + ::str(n->fields.size());
            size_t i = 0;
            for (Compound::FieldList::const_iterator it = f.begin(); it != f.end(); ++it, ++i)
            {
                GField const& w = n->fields[i];
                if (it->getName() != w.name) return who + ": field " + ::str(i) + " is named " + it->getName() + " instead of " + w.name;
                if (it->getOffset() != w.off) return who + ": offset of " + w.name + " is " + ::str(it->getOffset()) + " instead of " + ::str(w.off);
                if (meta && !(d = meta_diff(it->getMetaData(), w.meta, who + "." + w.name)).empty()) return d;
                if (!(d = diff_in(it->getType(), w.type, names, meta, seen)).empty()) return d;
            }
            return "";
        }
        case GARR: if (static_cast<Array const&>(t).getDimension() != n->dim) return who + ": dimension"; /* fallthrough */
        case GPTR: case GVEC: case GSTR:
            if (n->k == GVEC && static_cast<Container const&>(t).kind() != "/std/vector") return who + ": container kind";
            if (n->k == GSTR && static_cast<Container const&>(t).kind() != "/std/string") return who + ": container kind";
            return diff_in(static_cast<Indirect const&>(t).getIndirection(), n->elem, names, meta, seen);
    }
    return "";
}
std::string diff_type(Type const& t, GNode const* n, bool names, bool meta)
{ std::set<std::pair<Type const*, GNode const*> > seen; return diff_in(t, n, names, meta, seen); }
std::set<GNode*> closure(GNode* n)
{
    std::set<GNode*> r; std::vector<GNode*> q(1, n);
    while (!q.empty())
    {
        GNode* x = q.back(); q.pop_back();
        if (!r.insert(x).second) continue;
        if (x->elem) q.push_back(x->elem);
        for (size_t i = 0; i < x->fields.size(); ++i) q.push_back(x->fields[i].type);
    }
    return r;
}
static void describe_in(GNode const* n, std::set<GNode const*>& seen, std::string& out)
{
    out += n->name;
    if (out.size() > 1500 || !seen.insert(n).second) return;
    switch (n->k)
    {
        case GNUM: out += std::string(":") + n->ncat + ::str(n->size); break;
        case GENUM: out += ":enum"; break;
        case GOPQ: out += ":opaque" + ::str(n->size); break;
        case GNULL: out += ":null"; break;
        case GCOMP: out += "{"; for (size_t i = 0; i < n->fields.size(); ++i) { out += n->fields[i].name + "@" + ::str(n->fields[i].off) + " "; describe_in(n->fields[i].type, seen, out); out += ";"; } out += "}" + ::str(n->size); break;
        default: out += "->"; describe_in(n->elem, seen, out);
    }
}
std::string describe(GNode const* n) { std::set<GNode const*> s; std::string o; describe_in(n, s, o); return o; }

Snap::Snap(Registry const& reg)
{
    for (RegistryIterator it = reg.begin(); it != reg.end(); ++it)
    {
        Entry e = { node(*it), &*it, it.isAlias(), it.isPersistent(), it.getSource() };
        names[it.getName()] = e;
    }
}
GNode* Snap::node(Type const& t)
{
    std::map<Type const*, GNode*>::iterator i = of.find(&t);
    if (i != of.end()) return i->second;
    nodes.push_back(std::unique_ptr<GNode>(new GNode));
    GNode* n = nodes.back().get();
    of[&t] = n;
    n->name = t.getName(); n->size = t.getSize(); n->type = &t; n->meta = t.getMetaData().get();
    switch (t.getCategory())
    {
        case Type::Numeric:
        {
            Numeric::NumericCategory c = static_cast<Numeric const&>(t).getNumericCategory();
            n->k = GNUM; n->ncat = c == Numeric::SInt ? 'i' : c == Numeric::UInt ? 'u' : 'f'; break;
        }
        case Type::Enum: n->k = GENUM; n->syms = static_cast<Enum const&>(t).values(); break;
        case Type::Opaque: n->k = GOPQ; break;
        case Type::NullType: n->k = GNULL; break;
        case Type::Compound:
        {
            n->k = GCOMP;
            Compound::FieldList const& f = static_cast<Compound const&>(t).getFields();
            for (Compound::FieldList::const_iterator it = f.begin(); it != f.end(); ++it)
            { GField g = { it->getName(), node(it->getType()), it->getOffset(), it->getMetaData().get() }; n->fields.push_back(g); }
            break;
        }
        case Type::Array: n->k = GARR; n->dim = static_cast<Array const&>(t).getDimension(); n->elem = node(static_cast<Array const&>(t).getIndirection()); break;
        case Type::Pointer: n->k = GPTR; n->elem = node(static_cast<Pointer const&>(t).getIndirection()); break;
        case Type::Container: n->k = static_cast<Container const&>(t).kind() == "/std/string" ? GSTR : GVEC; n->elem = node(static_cast<Container const&>(t).getIndirection()); break;
        default: throw std::logic_error("unexpected category of " + n->name);
    }
    return n;
}
std::string Snap::closed() const
{
    std::set<Type const*> in;
    for (std::map<std::string, Entry>::const_iterator i = names.begin(); i != names.end(); ++i) in.insert(i->second.type);
    for (std::map<Type const*, GNode*>::const_iterator i = of.begin(); i != of.end(); ++i) if (!in.count(i->first)) return i->second->name;
    return "";
}
static std::string diff_nodes_in(GNode const* a, GNode const* b, bool names, bool meta, std::set<std::pair<GNode const*, GNode const*> >& seen)
{
    if (!seen.insert(std::make_pair(a, b)).second) return "";
    if (names && a->name != b->name) return a->name + " is now named " + b->name;
    if (a->k != b->k) return a->name + " changes category";
    if (a->size != b->size) return a->name + " has size " + ::str(b->size) + " instead of " + ::str(a->size);
    if (a->ncat != b->ncat || a->syms != b->syms || a->dim != b->dim || a->fields.size() != b->fields.size()) return a->name + " has another definition";
    if (meta && a->meta != b->meta) return a->name + " has other metadata";
    std::string d;
    for (size_t i = 0; i < a->fields.size(); ++i)
    {
        GField const &f = a->fields[i], &g = b->fields[i];
        if (f.name != g.name || f.off != g.off) return a->name + " has field " + g.name + "@" + ::str(g.off) + " instead of " + f.name + "@" + ::str(f.off);
        if (meta && f.meta != g.meta) return a->name + "." + f.name + " has other metadata";
        if (!(d = diff_nodes_in(f.type, g.type, names, meta, seen)).empty()) return d;
    }
    if (a->elem && !(d = diff_nodes_in(a->elem, b->elem, names, meta, seen)).empty()) return d;
    return "";
}
std::string diff_nodes(GNode const* a, GNode const* b, bool names, bool meta)
{ std::set<std::pair<GNode const*, GNode const*> > seen; return diff_nodes_in(a, b, names, meta, seen); }
std::string diff_snaps(Snap const& a, Snap const& b)
{
    for (std::map<std::string, Snap::Entry>::const_iterator i = a.names.begin(); i != a.names.end(); ++i)
    {
        Snap::Entry const* e = b.find(i->first);
        if (!e) return i->first + " is gone";
        if (e->type != i->second.type) return i->first + " is another type object";
        if (e->alias != i->second.alias || e->persistent != i->second.persistent || e->source != i->second.source) return i->first + " has other flags or source";
        std::string d = diff_nodes(i->second.node, e->node, true, true);
        if (!d.empty()) return d;
    }
    if (a.names.size() != b.names.size()) return "there are new types";
    return "";
}

void Graph::fix_sizes()
{
    for (size_t pass = 0; pass < 6; ++pass)
        for (size_t i = 0; i < nodes.size(); ++i)
        {
            GNode* n = nodes[i].get();
            if (n->k == GARR) n->size = n->dim * n->elem->size;
            if (n->k == GCOMP) for (size_t f = 0; f < n->fields.size(); ++f) n->size = std::max(n->size, n->fields[f].off + n->fields[f].type->size);
        }
}
// replaces a use of a type by a separate, structurally equal copy under another name
void split_type(Rng& rng, Graph& g)
{
    std::vector<std::pair<GNode*, int> > uses;
    for (size_t i = 0; i < g.nodes.size(); ++i)
        for (size_t f = 0; f < g.nodes[i]->fields.size(); ++f)
        {
            GNode* t = g.nodes[i]->fields[f].type;
            if (t->k == GNUM || t->k == GENUM || t->k == GCOMP || (t->k == GPTR && t->elem->k == GCOMP)) uses.push_back(std::make_pair(g.nodes[i].get(), int(f)));
        }
    if (uses.empty()) return;
    std::pair<GNode*, int> u = uses[rng.below(uses.size())];
    GNode* t = u.first->fields[u.second].type;
    GNode* base = t->k == GPTR ? t->elem : t;
    std::string nm = base->name + (base->name[base->name.size() - 1] == '>' ? "/" : "_") + "copy" + ::str(++g.uid);
    GNode* c = g.add(base->k, nm);
    std::string keep = c->name; *c = *base; c->name = keep; c->type = 0;
    u.first->fields[u.second].type = t->k == GPTR ? g.ptr(c) : c;
}
bool edit_type(Rng& rng, Graph& g)
{
    GNode* n = g.nodes[rng.below(g.nodes.size())].get();
    switch (n->k)
    {
        case GENUM:
        {
            std::map<std::string, int>::iterator it = n->syms.begin(); std::advance(it, rng.below(n->syms.size()));
            int w = rng.range(0, 2);
            if (w == 0) it->second ^= 1; else if (w == 1) n->syms["ADDED"] = 7; else if (n->syms.size() > 1) n->syms.erase(it); else return false;
            return true;
        }
        case GNUM: if (n->name.find("/my/") == std::string::npos) return false; n->ncat = n->ncat == 'i' ? 'u' : 'i'; return true;
        case GOPQ: return false;
        case GCOMP:
            switch (rng.range(0, 4))
            {
                case 0: n->size += 1; return true;
                case 1: if (n->fields.empty()) return false; n->fields[rng.below(n->fields.size())].name += "x"; return true;
                case 2: if (n->fields.empty()) return false; n->fields.pop_back(); return true;
                case 3:
                {
                    if (n->fields.empty()) return false;
                    GField& f = n->fields[rng.below(n->fields.size())];
                    GNode* o = g.nodes[rng.below(g.nodes.size())].get();
                    if (o->size != f.type->size || o->k == GNULL || closure(o).count(n)) return false;
                    f.type = o; return true;
                }
                case 4: if (n->fields.empty() || n->fields.back().off == 0) return false; n->fields.back().off -= 1; return true;
            }
            return false;
        default: return false;
    }
}


void dress_registry(Rng& rng, Registry& reg, std::vector<std::string> const& alias_names, bool sources, bool metadata)
{
    std::vector<std::string> prim;
    for (RegistryIterator it = reg.begin(); it != reg.end(); ++it) if (!it.isAlias()) prim.push_back(it.getName());
    if (prim.empty()) return;
    for (size_t i = 0; i < alias_names.size(); ++i)
        if (!reg.has(alias_names[i], false))
        {
            std::string base = prim[rng.below(prim.size())];
            if (rng.chance(1, 3) && i && reg.has(alias_names[i - 1], false)) base = alias_names[i - 1];
            if (rng.chance(1, 2)) reg.alias(base, alias_names[i]); else reg.alias(base, alias_names[i], rng.chance(1, 2), rng.chance(1, 2) ? "alias.src" : "");
        }
    for (size_t i = 0; i < prim.size(); ++i)
    {
        Type const& t = *reg.get(prim[i]);
        if (sources && rng.chance(1, 3)) reg.setSourceID(t, "file" + ::str(rng.below(3)) + ".h");
        if (metadata && rng.chance(1, 6)) t.getMetaData().add("tag", "v" + ::str(rng.below(4)));
    }
}

// vectors handle their elements as the element type says, even when that was not complete at first
void check_vectors(Ctx& c, Registry const& reg)
{
    for (RegistryIterator it = reg.begin(); it != reg.end(); ++it)
    {
        Vector const* v = dynamic_cast<Vector const*>(&*it);
        if (!v || v->kind() != "/std/vector" || it.isAlias()) continue;
        bool has = false, flat = false;
        try { MemoryLayout l = layout_of(v->getIndirection()); has = !l.isEmpty(); flat = l.isMemcpy(); } catch (std::runtime_error&) {}
        CK(c, v->hasElementLayout() == has && (!has || v->isElementMemcpy() == flat), "stale-vector",
            v->getName() + " treats its elements as " + (!v->hasElementLayout() ? "having no layout" : v->isElementMemcpy() ? "flat" : "structured"));
        if (has && flat && v->getIndirection().getSize() > 0 && v->getSize() == sizeof(std::vector<uint8_t>))
        {
            size_t n = c.rng.range(0, 3), es = v->getIndirection().getSize();
            std::vector<uint8_t> x(n * es, 0x5a), y;
            std::vector<uint8_t> out = dump(Value(&x, *v));
            CK(c, out.size() >= 8 + (n ? (n - 1) * es + 1 : 0) && out.size() <= 8 + n * es, "stale-vector", v->getName() + " of " + str(n) + " elements of size " + str(es) + " marshals to " + str(out.size()) + " bytes");
            load(Value(&y, *v), out);
            CK(c, y.size() == x.size(), "stale-vector", v->getName() + " of " + str(n) + " elements is loaded with another size");
            c.count("vectors used");
        }
    }
}
