// Core of the monitoring harness: deterministic per-case randomness, the violation/counter log,
// and allocation accounting.  Every property is a translation unit that defines the four
// symbols declared at the end of this file.
#ifndef VH_CORE_HH
#define VH_CORE_HH
#include <cstdint>
#include <cstring>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <stdexcept>
#include <exception>

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + int(below(uint64_t(b - a + 1))); }
    bool chance(int num, int den) { return int(below(den)) < num; }
    template<typename T> T const& pick(std::vector<T> const& v) { return v[below(v.size())]; }
};

// Thrown by Ctx::fail to leave the current case.
struct CaseFailed {};

struct Ctx
{
    Rng rng;
    uint64_t seed, idx;
    bool thorough, verbose, quiet;
    Ctx() : seed(1), idx(0), thorough(false), verbose(false), quiet(false) {}

    // records a violation of the property; "key" names the kind of failure and must be stable
    void report(std::string const& key, std::string const& msg);
    [[noreturn]] void fail(std::string const& key, std::string const& msg) { report(key, msg); throw CaseFailed(); }

    // marks this case as non-trivial, with a signature that identifies what is distinct in it
    void sig(uint64_t h);
    void count(std::string const& name, uint64_t n = 1);
    void sample(std::string const& text);
    // description of the case in progress, survives a crash of the process
    void desc(std::string const& text);
};

// fails the case unless ok holds; key and message are only computed when it does not
#define CK(c, ok, key, ...) do { if (!(ok)) (c).fail(key, __VA_ARGS__); } while (0)

uint64_t vh_hash(void const* p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t vh_hash(std::string const& s, uint64_t h = 1469598103934665603ull) { return vh_hash(s.data(), s.size(), h); }

// number of live heap blocks (counted by the sanitizer allocator's hooks)
long vh_live_blocks();

template<typename T> std::string str(T const& v) { std::ostringstream s; s << v; return s.str(); }
std::string hex(void const* p, size_t n, size_t limit = 64);
std::string json_str(std::string const& s);

// Runs f; returns "" when it returned, else what it threw
template<typename F> std::string caught(F f)
{
    try { f(); return std::string(); }
    catch (CaseFailed const&) { throw; }
    catch (std::exception const& e) { return std::string("exception: ") + e.what(); }
    catch (...) { return "exception: (not a std::exception)"; }
}

// ---- defined by each property's translation unit
extern const char* vh_rule;             // how cases are made and what makes one non-trivial
extern bool vh_check_leaks;             // whether a case must free what it allocates
void vh_setup(Ctx& ctx);                // once per process
void vh_case(Ctx& ctx);                 // one case, entirely determined by ctx.rng
#endif
