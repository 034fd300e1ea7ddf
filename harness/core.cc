#include "core.hh"
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <unordered_set>
#include <algorithm>
#include <atomic>
#include <iostream>

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define VH_HOOKS 1
extern "C" int __sanitizer_install_malloc_and_free_hooks(
    void (*malloc_hook)(const volatile void*, size_t), void (*free_hook)(const volatile void*));
#endif

static std::atomic<long> g_live(0);
#ifdef VH_HOOKS
static void on_malloc(const volatile void* p, size_t) { if (p) g_live.fetch_add(1, std::memory_order_relaxed); }
static void on_free(const volatile void* p) { if (p) g_live.fetch_sub(1, std::memory_order_relaxed); }
#endif
long vh_live_blocks() { return g_live.load(std::memory_order_relaxed); }

uint64_t vh_hash(void const* p, size_t n, uint64_t h)
{
    unsigned char const* c = static_cast<unsigned char const*>(p);
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}

std::string hex(void const* p, size_t n, size_t limit)
{
    static char const d[] = "0123456789abcdef";
    unsigned char const* c = static_cast<unsigned char const*>(p);
    std::string r;
    for (size_t i = 0; i < n && i < limit; ++i) { r += d[c[i] >> 4]; r += d[c[i] & 15]; }
    if (n > limit) r += "...";
    return r;
}

std::string json_str(std::string const& s)
{
    std::string r = "\"";
    for (size_t i = 0; i < s.size(); ++i)
    {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r + "\"";
}

// The sanitizer's own operator new aborts when memory is refused; a program without sanitizer gets
// std::bad_alloc, and that is what the code under test is entitled to see.
#include <new>
static void* vh_new(size_t n)
{
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new(size_t n) { return vh_new(n); }
void* operator new[](size_t n) { return vh_new(n); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return malloc(n ? n : 1); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return malloc(n ? n : 1); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { free(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { free(p); }

static int g_out = 2;
struct Progress { volatile uint64_t current; volatile uint64_t done; char desc[16384]; };
static Progress g_local, *g_prog = &g_local;
static std::map<std::string, uint64_t> g_counts;
static std::unordered_set<uint64_t> g_sigs;
static std::vector<std::string> g_samples;
static std::map<std::string, int> g_reported;
static bool g_case_failed;

static void emit(std::string line)
{
    line += "\n";
    size_t off = 0;
    while (off < line.size())
    {
        ssize_t r = write(g_out, line.data() + off, line.size() - off);
        if (r <= 0) _exit(90);
        off += r;
    }
}

void Ctx::report(std::string const& key, std::string const& msg)
{
    g_case_failed = true;
    if (quiet) return;
    count("failures/" + key);
    if (g_reported[key]++ >= 5 && !verbose) return;
    emit("{\"t\":\"viol\",\"case\":" + str(idx) + ",\"key\":" + json_str(key) + ",\"msg\":"
         + json_str(msg.substr(0, 4000)) + ",\"desc\":" + json_str(std::string(g_prog->desc).substr(0, 4000)) + "}");
}
void Ctx::sig(uint64_t h) { if (!quiet) g_sigs.insert(h); }
void Ctx::count(std::string const& name, uint64_t n) { if (!quiet) g_counts[name] += n; }
void Ctx::sample(std::string const& text)
{ if (!quiet && g_samples.size() < 3) g_samples.push_back(text.substr(0, 1500)); }
void Ctx::desc(std::string const& text)
{
    size_t n = std::min(text.size(), sizeof(g_prog->desc) - 1);
    memcpy(g_prog->desc, text.data(), n);
    g_prog->desc[n] = 0;
    if (verbose) std::cerr << "case " << idx << ": " << text << std::endl;
}

static void flush_stats()
{
    std::string s = "{\"t\":\"stat\",\"counts\":{";
    bool first = true;
    for (std::map<std::string, uint64_t>::iterator it = g_counts.begin(); it != g_counts.end(); ++it)
    { s += (first ? "" : ",") + json_str(it->first) + ":" + str(it->second); first = false; }
    s += "},\"samples\":[";
    for (size_t i = 0; i < g_samples.size(); ++i) s += (i ? "," : "") + json_str(g_samples[i]);
    s += "],\"sigs\":[";
    first = true;
    for (std::unordered_set<uint64_t>::iterator it = g_sigs.begin(); it != g_sigs.end(); ++it)
    { s += (first ? "" : ",") + str(*it); first = false; }
    emit(s + "]}");
    g_counts.clear(); g_samples.clear(); g_sigs.clear();
}

static void run_one(Ctx& ctx)
{
    ctx.rng = Rng(vh_hash(&ctx.idx, sizeof ctx.idx, vh_hash(&ctx.seed, sizeof ctx.seed)));
    try { vh_case(ctx); }
    catch (CaseFailed const&) {}
    catch (std::exception const& e) { ctx.report("unexpected-exception", std::string("the case ended with an exception: ") + e.what()); }
}

int main(int argc, char** argv)
{
    uint64_t from = 0, to = 1, seed = 1;
    Ctx ctx;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        char const* v = i + 1 < argc ? argv[i + 1] : "";
        if (a == "--from") { from = strtoull(v, 0, 10); ++i; }
        else if (a == "--to") { to = strtoull(v, 0, 10); ++i; }
        else if (a == "--seed") { seed = strtoull(v, 0, 10); ++i; }
        else if (a == "--case") { from = strtoull(v, 0, 10); to = from + 1; ctx.verbose = true; ++i; }
        else if (a == "--thorough") ctx.thorough = true;
        else if (a == "--rule") { puts(vh_rule); return 0; }
        else if (a == "--out")
        {
            g_out = open(v, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644); ++i;
            if (g_out < 0) { perror("open --out"); return 91; }
        }
        else if (a == "--progress")
        {
            int fd = open(v, O_RDWR | O_CREAT | O_CLOEXEC, 0644); ++i;
            if (fd < 0 || ftruncate(fd, sizeof(Progress))) { perror("open --progress"); return 91; }
            void* p = mmap(0, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p == MAP_FAILED) { perror("mmap"); return 91; }
            g_prog = static_cast<Progress*>(p);
            close(fd);
        }
        else { fprintf(stderr, "unknown argument %s\n", argv[i]); return 91; }
    }
#ifdef VH_HOOKS
    if (!__sanitizer_install_malloc_and_free_hooks(on_malloc, on_free)) { fprintf(stderr, "no malloc hooks\n"); return 91; }
#endif
    ctx.seed = seed;
    g_prog->current = ~0ull;
    try { vh_setup(ctx); }
    catch (std::exception const& e) { fprintf(stderr, "setup failed: %s\n", e.what()); return 92; }
    for (uint64_t i = from; i < to; ++i)
    {
        ctx.idx = i;
        g_prog->current = i;
        g_prog->desc[0] = 0;
        g_case_failed = false;
        long l0 = vh_live_blocks();
        // samples, counters and signatures live in containers of this file, so the first run of
        // a case may legitimately keep blocks; a leak is growth on every quiet re-run
        run_one(ctx);
        if (vh_check_leaks && !g_case_failed && vh_live_blocks() != l0)
        {
            ctx.quiet = true;
            long l1 = vh_live_blocks(); run_one(ctx);
            long l2 = vh_live_blocks(); run_one(ctx);
            long l3 = vh_live_blocks(); run_one(ctx);
            long l4 = vh_live_blocks();
            ctx.quiet = false;
            if (l2 > l1 && l3 > l2 && l4 > l3 && !g_case_failed)
                ctx.report("leak", "every execution of this case leaves " + str(l3 - l2) + " more heap block(s) allocated");
        }
        ctx.count("cases");
        g_prog->done = i + 1;
        if ((i - from) % 2000 == 1999) flush_stats();
    }
    flush_stats();
    g_prog->current = ~0ull;
    emit("{\"t\":\"end\"}");
    fflush(stdout);
    _exit(0);
}
