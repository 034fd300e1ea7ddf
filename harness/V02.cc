// V02: every marshalling sink produces the reference stream, or reports failure
#include "model.hh"
#include <sstream>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <cstdio>
#include <sys/mman.h>
#include <sys/resource.h>
using namespace Typelib;

const char* vh_rule = "one case = a random type and value marshalled through every sink (vector, ostream, FILE*, file descriptor, "
    "stream object, byte buffer of the exact, larger and every or sampled smaller sizes, failing descriptors) and compared with a "
    "stream computed from the type description; non-trivial when the stream is not empty; distinct by type structure and value";
bool vh_check_leaks = true;
void vh_setup(Ctx&) { vh_hold_plugins(); signal(SIGPIPE, SIG_IGN); }

static std::vector<uint8_t> read_fd(int fd)
{
    std::vector<uint8_t> r(lseek(fd, 0, SEEK_END));
    lseek(fd, 0, SEEK_SET);
    if (!r.empty() && read(fd, &r[0], r.size()) != ssize_t(r.size())) throw std::runtime_error("short read of the scratch file");
    return r;
}
struct Sum : public OutputStream
{
    std::vector<uint8_t> data;
    void write(uint8_t const* d, size_t n) { data.insert(data.end(), d, d + n); }
};

void vh_case(Ctx& c)
{
    GenOpts o; o.ldouble = c.rng.chance(1, 5); o.zero_dim = c.rng.chance(1, 6); o.packed = c.rng.chance(1, 6);
    World w; w.populate(c.rng, o);
    SP s = c.rng.chance(3, 4) ? w.types[c.rng.below(w.types.size())] : w.random_spec(c.rng, o, 4);
    if (s->size == 0) return;
    Val v = gen_val(c.rng, *s);
    c.desc("type " + s->shape() + " value " + show(*s, v));
    NativeValue src(s, v, int(c.rng.below(256)));
    RefDump ref = ref_dump(*s, v);
    MemoryLayout ops = layout_of(*s->type);
    std::string why;

    std::vector<uint8_t> vec = dump(src.value());
    CK(c, dump_matches(ref, vec.data(), vec.size(), why), "stream-differs-from-reference", "vector sink: " + why);
    size_t n = getDumpSize(src.value());
    CK(c, n == vec.size(), "dump-size", "getDumpSize() = " + str(n) + " but dump() wrote " + str(vec.size()));
    CK(c, getDumpSize(src.value(), ops) == n && getDumpSize(src.mem.p, ops) == n, "dump-size", "the getDumpSize() overloads disagree");

    std::ostringstream os;
    switch (c.rng.below(3)) { case 0: dump(src.value(), os); break; case 1: dump(src.value(), os, ops); break; default: dump(src.mem.p, os, ops); }
    std::string t = os.str();
    CK(c, std::vector<uint8_t>(t.begin(), t.end()) == vec, "sinks-disagree", "ostream sink differs from the vector sink");

    Sum sum;
    switch (c.rng.below(3)) { case 0: dump(src.value(), sum); break; case 1: dump(src.value(), sum, ops); break; default: dump(src.mem.p, sum, ops); }
    CK(c, sum.data == vec, "sinks-disagree", "stream object sink differs from the vector sink");

    int fd = memfd_create("v02", MFD_CLOEXEC);
    if (fd < 0) throw std::runtime_error("memfd_create failed");
    switch (c.rng.below(3)) { case 0: dump(src.value(), fd); break; case 1: dump(src.value(), fd, ops); break; default: dump(src.mem.p, fd, ops); }
    std::vector<uint8_t> got = read_fd(fd);
    CK(c, got == vec, "sinks-disagree", "file descriptor sink differs from the vector sink");
    if (ftruncate(fd, 0) || lseek(fd, 0, SEEK_SET)) throw std::runtime_error("ftruncate");
    FILE* f = fdopen(dup(fd), "wb");
    switch (c.rng.below(3)) { case 0: dump(src.value(), f); break; case 1: dump(src.value(), f, ops); break; default: dump(src.mem.p, f, ops); }
    fclose(f);
    got = read_fd(fd);
    CK(c, got == vec, "sinks-disagree", "FILE* sink differs from the vector sink");
    close(fd);

    // byte buffers: exact, larger, and smaller ones; the heap block has exactly the announced size
    for (int k = 0; k < 2; ++k)
    {
        size_t extra = k ? c.rng.range(1, 40) : 0;
        Mem m(n + extra); memset(m.p, 0x3c, n + extra);
        int r = c.rng.chance(1, 2) ? dump(src.value(), m.p, n + extra) : dump(src.mem.p, m.p, n + extra, ops);
        CK(c, r == int(n), "buffer-sink-result", "dump() to a buffer of " + str(n + extra) + " bytes returned " + str(r) + ", the stream has " + str(n));
        CK(c, n == 0 || memcmp(m.p, vec.data(), n) == 0, "sinks-disagree", "buffer sink differs from the vector sink");
        for (size_t i = n; i < n + extra; ++i) CK(c, m.p[i] == 0x3c, "buffer-overrun", "bytes after the end of the stream were modified");
    }
    size_t tries = n <= 24 ? n : 8;
    for (size_t i = 0; i < tries; ++i)
    {
        size_t small = n <= 24 ? i : c.rng.below(n);
        Mem m(small + 4); memset(m.p, 0x3c, small + 4);
        int r = dump(src.value(), m.p, small);
        CK(c, r == 0, "small-buffer-accepted", "dump() into " + str(small) + " bytes returned " + str(r) + " although the stream has " + str(n));
        for (size_t j = small; j < small + 4; ++j) CK(c, m.p[j] == 0x3c, "buffer-overrun", "dump() wrote past a buffer of " + str(small) + " bytes");
        c.count("undersized buffers refused");
    }
    // failing descriptors must not look like success
    if (n > 0)
    {
        int p[2];
        if (pipe2(p, O_CLOEXEC | O_NONBLOCK)) throw std::runtime_error("pipe2");
        int mode = c.rng.range(0, 2);
        std::string e;
        if (mode == 0) { close(p[0]); p[0] = -1; e = caught([&] { dump(src.value(), p[1]); }); }
        else if (mode == 1) e = caught([&] { dump(src.value(), p[0]); });       // read end: EBADF
        else
        {
            // fill the pipe up, then leave room for fewer bytes than the stream needs
            std::vector<uint8_t> junk(65536);
            while (write(p[1], &junk[0], junk.size()) > 0) {}
            while (write(p[1], &junk[0], 1) > 0) {}
            e = caught([&] { dump(src.value(), p[1]); });
        }
        CK(c, !e.empty(), "failed-write-reported-as-success", "dump() to a failing descriptor (mode " + str(mode) + ") returned normally");
        if (p[0] >= 0) close(p[0]);
        close(p[1]);
        c.count("failing descriptors reported");
        // a file that may only grow up to some byte of the stream: a write is cut short, the next one fails
        {
            int limited = memfd_create("v02l", MFD_CLOEXEC);
            size_t limit = c.rng.below(n);
            struct rlimit saved, cut;
            signal(SIGXFSZ, SIG_IGN);
            if (getrlimit(RLIMIT_FSIZE, &saved)) throw std::runtime_error("getrlimit");
            cut = saved; cut.rlim_cur = limit;
            if (setrlimit(RLIMIT_FSIZE, &cut)) throw std::runtime_error("setrlimit");
            e = caught([&] { dump(src.value(), limited); });
            if (setrlimit(RLIMIT_FSIZE, &saved)) throw std::runtime_error("setrlimit");
            off_t end = lseek(limited, 0, SEEK_END);
            close(limited);
            CK(c, end <= off_t(limit), "harness", "the file size limit has no effect");
            CK(c, !e.empty(), "failed-write-reported-as-success", "dump() of " + str(n) + " bytes to a file that takes only " + str(limit) + " returned normally");
            c.count("writes cut short reported");
        }
        int full = open("/dev/full", O_WRONLY | O_CLOEXEC);
        if (full >= 0)
        {
            e = caught([&] { dump(src.value(), full); });
            CK(c, !e.empty(), "failed-write-reported-as-success", "dump() to a full device returned normally");
            close(full);
        }
    }
    c.count("sinks compared", 6);
    c.count("bytes compared", vec.size() * 6);
    if (n)
    {
        c.sig(s->hash() ^ vh_hash(vec.data(), vec.size()) * 31);
        c.sample("type " + s->shape() + ", " + str(n) + " bytes, identical through 6 sinks, " + str(tries) + " short buffers refused");
    }
}
