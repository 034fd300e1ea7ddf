// V07: containers handled through typelib are the C++ containers they describe
#include "model.hh"
#include <vector>
#include <string>
#include <cstddef>
using namespace Typelib;

const char* vh_rule = "one case = a random history of 20 to 60 operations on one real C++ container (std::vector of 11 element types, "
    "std::string) in which typelib operations (push, erase, delete_if, getElement, setElement, clear, copy, compare, visit, init, "
    "destroy, dump, load) alternate with native C++ operations, compared after each with an independent C++ container; "
    "non-trivial always; distinct by element type and operation sequence";
bool vh_check_leaks = true;

struct Pod { int8_t a; double b; int16_t c[3]; bool operator==(Pod const& o) const { return a == o.a && b == o.b && c[0] == o.c[0] && c[1] == o.c[1] && c[2] == o.c[2]; } };
struct Rich { int32_t id; std::string name; std::vector<double> v; Pod p[2]; int8_t last;
    bool operator==(Rich const& o) const { return id == o.id && name == o.name && v == o.v && p[0] == o.p[0] && p[1] == o.p[1] && last == o.last; } };
struct Tiny { int8_t x; bool operator==(Tiny const& o) const { return x == o.x; } };
enum Col { RED = 4, BLUE = -3, GREEN = 70000 };

static Registry* g_reg;
void vh_setup(Ctx&)
{
    vh_hold_plugins();
    World w(true);
    Registry& r = *w.reg;
    if (!r.has("/std/string")) Container::createContainer(r, "/std/string", *r.get("/int8_t"));
    Compound* pod = new Compound("/Pod");
    pod->addField("a", *r.get("/int8_t"), offsetof(Pod, a)); pod->addField("b", *r.get("/double"), offsetof(Pod, b));
    pod->addField("c", *r.build("/int16_t[3]"), offsetof(Pod, c)); pod->setSize(sizeof(Pod)); r.add(pod);
    Compound* rich = new Compound("/Rich");
    rich->addField("id", *r.get("/int32_t"), offsetof(Rich, id)); rich->addField("name", *r.get("/std/string"), offsetof(Rich, name));
    rich->addField("v", Container::createContainer(r, "/std/vector", *r.get("/double")), offsetof(Rich, v));
    rich->addField("p", *r.build("/Pod[2]"), offsetof(Rich, p)); rich->addField("last", *r.get("/int8_t"), offsetof(Rich, last));
    rich->setSize(sizeof(Rich)); r.add(rich);
    Compound* tiny = new Compound("/Tiny"); tiny->addField("x", *r.get("/int8_t"), 0); tiny->setSize(1); r.add(tiny);
    Enum* col = new Enum("/Col"); col->add("RED", RED); col->add("BLUE", BLUE); col->add("GREEN", GREEN); r.add(col);
    g_reg = w.reg.release();
}

template<typename T> T make(Rng& r);
template<> int8_t make(Rng& r) { return int8_t(r.below(4)); }
template<> uint16_t make(Rng& r) { return uint16_t(r.below(3) * 0x101); }
template<> int32_t make(Rng& r) { return int32_t(r.below(4) - 1); }
template<> double make(Rng& r) { return double(r.below(5)) / 4; }
template<> Col make(Rng& r) { return r.chance(1, 3) ? RED : r.chance(1, 2) ? BLUE : GREEN; }
template<> std::string make(Rng& r) { return std::string(r.chance(1, 3) ? 0 : r.chance(1, 2) ? r.range(1, 5) : r.range(14, 40), char('a' + r.below(3))); }
template<> Pod make(Rng& r) { Pod p; p.a = int8_t(r.below(3)); p.b = double(r.below(3)); for (int i = 0; i < 3; ++i) p.c[i] = int16_t(r.below(2)); return p; }
template<> Tiny make(Rng& r) { Tiny t; t.x = int8_t(r.below(3)); return t; }
template<typename V> V make_vec(Rng& r) { V v; int n = r.range(0, 4); for (int i = 0; i < n; ++i) v.push_back(make<typename V::value_type>(r)); return v; }
template<> std::vector<int32_t> make(Rng& r) { return make_vec<std::vector<int32_t> >(r); }
template<> std::vector<double> make(Rng& r) { return make_vec<std::vector<double> >(r); }
template<> std::vector<std::string> make(Rng& r) { return make_vec<std::vector<std::string> >(r); }
template<> Rich make(Rng& r)
{ Rich x; x.id = int32_t(r.below(3)); x.name = make<std::string>(r); x.v = make<std::vector<double> >(r); x.p[0] = make<Pod>(r); x.p[1] = make<Pod>(r); x.last = int8_t(r.below(2)); return x; }
template<> std::vector<Rich> make(Rng& r) { return make_vec<std::vector<Rich> >(r); }

struct Collect : public ValueVisitor
{
    std::vector<void*> at; bool all_right; Type const* want;
    bool visit_(Value const& v, Container const& c)
    { return c.visit(v.getData(), *this); }
    void dispatch(Value v) { at.push_back(v.getData()); all_right &= &v.getType() == want; }
    Collect(Type const* t) : all_right(true), want(t) {}
    using ValueVisitor::visit_;
};
template<typename T> struct Pred
{
    std::vector<T> const* doomed; std::vector<T>* seen;
    bool operator()(Value const& v) const
    {
        T const& x = *static_cast<T const*>(v.getData());
        seen->push_back(x);
        for (size_t i = 0; i < doomed->size(); ++i) if ((*doomed)[i] == x) return true;
        return false;
    }
};

template<typename T> void history(Ctx& c, std::string const& elem)
{
    typedef std::vector<T> V;
    Type const& et = *g_reg->get(elem);
    Container const& ct = Container::createContainer(*g_reg, "/std/vector", et);
    CK(c, ct.getSize() == sizeof(V) && ct.getNaturalSize() == long(sizeof(V)), "container-size", "a vector has not the size of std::vector");
    CK(c, ct.kind() == "/std/vector" && &ct.getIndirection() == &et, "container-description", "kind or element type of the vector");
    Mem ma(sizeof(V)), mb(sizeof(V));
    V* a = reinterpret_cast<V*>(ma.p); V* b = reinterpret_cast<V*>(mb.p);
    memset(ma.p, 0xd1, sizeof(V)); ct.init(a);
    new (b) V();
    V x, y;     // models of a and b
    std::string trace = elem;
    int n = c.rng.range(20, c.thorough ? 120 : 60);
    for (int step = 0; step < n; ++step)
    {
        int op = c.rng.range(0, 17);
        std::string t = " " + str(op);
        size_t i = x.empty() ? 0 : c.rng.below(x.size());
        if ((op == 3 || op == 4 || op == 5 || op == 14) && x.empty()) op = 0;
        c.desc("vector of " + trace + t);
        switch (op)
        {
            case 0: case 1: { T e = make<T>(c.rng); ct.push(a, Value(&e, et)); x.push_back(e); c.count("push"); break; }
            case 2: { T e = make<T>(c.rng); a->push_back(e); x.push_back(e); break; }
            case 3:
            {
                CK(c, ct.isRandomAccess(), "vector-not-random-access", "a vector is not random access");
                Value v = ct.getElement(a, int(i));
                CK(c, v.getData() == &(*a)[i] && v.getType() == et, "getElement-wrong", "getElement(" + str(i) + ") is not the element"); c.count("getElement"); break;
            }
            case 4: { T e = make<T>(c.rng); ct.setElement(a, int(i), Value(&e, et)); x[i] = e; c.count("setElement"); break; }
            case 5: { ct.push(a, ct.getElement(a, int(i))); T e = x[i]; x.push_back(e); c.count("push of an own element"); break; }
            case 6:
            {
                T e = make<T>(c.rng); bool found = ct.erase(a, Value(&e, et)), want = false;
                // removes one element equal to e: the first one
                for (size_t k = 0; k < x.size(); ++k) if (x[k] == e) { x.erase(x.begin() + k); want = true; break; }
                CK(c, found == want, "erase-result", "erase() returned " + str(found)); c.count(want ? "erase (found)" : "erase (absent)"); break;
            }
            case 7:
            {
                V doomed; doomed.push_back(make<T>(c.rng)); if (c.rng.chance(1, 2)) doomed.push_back(make<T>(c.rng));
                V seen; Pred<T> p = { &doomed, &seen };
                ct.delete_if(a, p);
                CK(c, seen == x, "delete_if-visits", "delete_if() did not submit every element once, in order");
                V left; for (size_t k = 0; k < x.size(); ++k) { bool d = false; for (size_t m = 0; m < doomed.size(); ++m) d |= doomed[m] == x[k]; if (!d) left.push_back(x[k]); }
                x = left; c.count("delete_if"); break;
            }
            case 8: if (c.rng.chance(1, 3)) { ct.clear(a); x.clear(); c.count("clear"); } break;
            case 9: ct.copy(b, a); y = x; c.count("copy"); break;
            case 10: if (c.rng.chance(1, 3)) { ct.copy(a, b); x = y; c.count("copy"); } break;
            case 11: { bool r = ct.compare(a, b); CK(c, r == (x == y), "container-compare", "compare() says " + str(r)); c.count("compare"); break; }
            case 12:
            {
                Collect col(&et); ct.visit(a, col);
                CK(c, col.at.size() == x.size() && col.all_right, "visit-count", "visit() reached " + str(col.at.size()) + " elements of " + str(x.size()));
                for (size_t k = 0; k < col.at.size(); ++k) CK(c, col.at[k] == &(*a)[k], "visit-order", "visit() reached something else than element " + str(k));
                c.count("visit"); break;
            }
            case 13: if (c.rng.chance(1, 3)) { std::vector<uint8_t> w = dump(Value(b, ct)); load(Value(a, ct), w); x = y; c.count("load"); } break;
            case 14: if (c.rng.chance(1, 2)) { a->erase(a->begin() + i); x.erase(x.begin() + i); } else { a->pop_back(); x.pop_back(); } break;
            case 15: if (c.rng.chance(1, 4)) { ct.destroy(a); memset(ma.p, 0x9e, sizeof(V)); ct.init(a); x.clear(); c.count("destroy+init"); } break;
            case 16: if (c.rng.chance(1, 2)) { a->reserve(a->size() + c.rng.below(9)); } else { a->shrink_to_fit(); } break;
            default: { y = make_vec<V>(c.rng); *b = y; break; }
        }
        trace += t;
        CK(c, *a == x, "vector-wrong-content-op" + str(op), "after operation " + str(op) + " the vector has " + str(a->size()) + " elements and differs from the expected " + str(x.size()));
        CK(c, *b == y, "vector-other-changed-op" + str(op), "operation " + str(op) + " changed another vector");
        CK(c, ct.getElementCount(a) == x.size() && ct.getElementCount(b) == y.size(), "getElementCount", "getElementCount() = " + str(ct.getElementCount(a)) + ", the vector has " + str(x.size()));
        CK(c, a->capacity() >= a->size(), "vector-corrupt", "capacity below size");
    }
    if (c.rng.chance(1, 2)) ct.destroy(a); else a->~V();
    if (c.rng.chance(1, 2)) ct.destroy(b); else b->~V();
    c.count("histories on vector of " + elem);
    c.sig(vh_hash(trace)); c.sample("vector of " + trace);
}

static void string_history(Ctx& c)
{
    typedef std::string V;
    Container const& ct = dynamic_cast<Container const&>(*g_reg->get("/std/string"));
    Type const& et = ct.getIndirection();
    CK(c, ct.getSize() == sizeof(V), "container-size", "a string has not the size of std::string");
    Mem ma(sizeof(V)), mb(sizeof(V));
    V* a = reinterpret_cast<V*>(ma.p); V* b = reinterpret_cast<V*>(mb.p);
    memset(ma.p, 0xd1, sizeof(V)); ct.init(a); new (b) V();
    V x, y; std::string trace = "string";
    int n = c.rng.range(20, 60);
    for (int step = 0; step < n; ++step)
    {
        int op = c.rng.range(0, 11);
        c.desc("ops on " + trace + " " + str(op));
        switch (op)
        {
            case 0: case 1: { char e = char(c.rng.next()); ct.push(a, Value(&e, et)); x.push_back(e); c.count("push"); break; }
            case 2: { a->push_back('z'); x.push_back('z'); break; }
            case 3: { a->append("0123456789abcdef"); x.append("0123456789abcdef"); break; }
            case 4: if (c.rng.chance(1, 3)) { ct.clear(a); x.clear(); c.count("clear"); } break;
            case 5: ct.copy(b, a); y = x; c.count("copy"); break;
            case 6: ct.copy(a, b); x = y; break;
            case 7: { bool r = ct.compare(a, b); CK(c, r == (x == y), "container-compare", "compare() of strings says " + str(r)); c.count("compare"); break; }
            case 8:
            {
                Collect col(&et); ct.visit(a, col);
                CK(c, col.at.size() == x.size() && col.all_right, "visit-count", "visit() reached " + str(col.at.size()) + " characters of " + str(x.size()));
                for (size_t k = 0; k < col.at.size(); ++k) CK(c, col.at[k] == &(*a)[k], "visit-order", "visit() reached something else than character " + str(k));
                c.count("visit"); break;
            }
            case 9: { std::vector<uint8_t> w = dump(Value(b, ct)); load(Value(a, ct), w); x = y; c.count("load"); break; }
            case 10: { ct.destroy(a); memset(ma.p, 0x9e, sizeof(V)); ct.init(a); x.clear(); break; }
            default: { y = std::string(c.rng.range(0, 33), 'q'); if (!y.empty()) y[c.rng.below(y.size())] = 0; *b = y; break; }
        }
        trace += " " + str(op);
        CK(c, *a == x && *b == y, "string-wrong-content-op" + str(op), "after operation " + str(op) + " the string has " + str(a->size()) + " characters and differs from the expected " + str(x.size()));
        CK(c, ct.getElementCount(a) == x.size(), "getElementCount", "getElementCount() of a string");
    }
    ct.destroy(a); b->~V();
    c.count("histories on string");
    c.sig(vh_hash(trace)); c.sample(trace);
}

void vh_case(Ctx& c)
{
    switch (c.rng.below(12))
    {
        case 0: return history<int8_t>(c, "/int8_t");
        case 1: return history<int32_t>(c, "/int32_t");
        case 2: return history<double>(c, "/double");
        case 3: return history<std::string>(c, "/std/string");
        case 4: return history<std::vector<double> >(c, "/std/vector</double>");
        case 5: { Container::createContainer(*g_reg, "/std/vector", *g_reg->get("/std/string")); return history<std::vector<std::string> >(c, "/std/vector</std/string>"); }
        case 6: return history<Pod>(c, "/Pod");
        case 7: return history<Rich>(c, "/Rich");
        case 8: { Container::createContainer(*g_reg, "/std/vector", *g_reg->get("/Rich")); return history<std::vector<Rich> >(c, "/std/vector</Rich>"); }
        case 9: return c.rng.chance(1, 2) ? history<Tiny>(c, "/Tiny") : history<uint16_t>(c, "/uint16_t");
        case 10: return history<Col>(c, "/Col");
        default: return string_history(c);
    }
}
