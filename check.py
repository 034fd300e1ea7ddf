#!/usr/bin/env python3
"""Runs the check of one property:  check.py <ID> [--replay FILE] [--cases N] [--case N]

Builds /repo's libraries (out of tree, with sanitizers) and the property's harness, drives the
harness over a fixed number of cases split over worker processes, and judges what the monitors
and the sanitizers reported.  Exit 0: held on everything explored.  Exit 1: VIOLATION line(s).
Exit 2: the check could not be carried out (build failure, harness failure, nothing observed).
"""
import fcntl, json, os, re, resource, shutil, signal, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
H = os.path.join(V, "harness")
JOBS = 8
sys.path.insert(0, V)
from props import PROPS

FLAVORS = {
    "asan": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined "
            "-fno-sanitize=null,nonnull-attribute,alignment,vptr -fno-sanitize-recover=all",
    "tsan": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread",
}
# The interpreter unwinds through the extension's frames with jumps that the sanitizer does not see, so
# its stack objects cannot be guarded: stale guards would be reported on later frames.
FLAVORS["ruby"] = FLAVORS["asan"] + " --param asan-stack=0"
RUBY = ["ruby", "-W0"]
TARGETS = ["typeLib", "typeLang_cSupport", "typeLang_tlb", "typeLang_idl"]


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise CheckError("command failed (%d): %s\n%s" % (r.returncode, cmd if isinstance(cmd, str) else " ".join(cmd),
                                                          r.stdout.decode(errors="replace")[-6000:]))
    return r.stdout.decode(errors="replace")


def build(prop, conf):
    """Builds the libraries and the harness; returns the command that runs the harness."""
    flavor = conf.get("flavor", "asan")
    flags = FLAVORS[flavor]
    lib = os.path.join(BUILD, flavor, "lib")
    hb = os.path.join(BUILD, flavor, "harness")
    os.makedirs(lib, exist_ok=True)
    os.makedirs(hb, exist_ok=True)
    with open(os.path.join(BUILD, flavor, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = os.path.join(lib, "configured")
        want = REPO + "\n" + flags
        if not os.path.exists(stamp) or open(stamp).read() != want:
            shutil.rmtree(lib)
            os.makedirs(lib)
            sh(["cmake", "-S", REPO, "-B", lib, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DBUILD_TESTING=OFF",
                "-DBUILD_CLANG_TLB_IMPORTER=OFF", "-DCMAKE_CXX_FLAGS=" + flags, "-Wno-dev"])
            with open(stamp, "w") as f:
                f.write(want)
        if conf.get("ruby"):
            sh(["ninja", "-C", lib] + TARGETS + ["typelib_ruby"])
            limit = hb + "/newlimit.so"
            if not os.path.exists(limit) or os.path.getmtime(limit) < os.path.getmtime(H + "/ruby/newlimit.cc"):
                sh(["g++", "-shared", "-fPIC", "-O1", H + "/ruby/newlimit.cc", "-o", limit + ".new", "-ldl"])
                os.replace(limit + ".new", limit)
            tool = hb + "/bin/castxml"
            if not os.path.exists(tool) or os.path.getmtime(tool) < os.path.getmtime(H + "/ruby/castxml.c"):
                os.makedirs(hb + "/bin", exist_ok=True)
                sh(["gcc", "-static", "-O1", "-w", H + "/ruby/castxml.c", "-o", tool + ".new"])   # static: sanitizers are preloaded
                for other in ("gccxml.real", "typelib-clang-tlb-importer"):
                    shutil.copy(tool + ".new", hb + "/bin/" + other)
                os.replace(tool + ".new", tool)
            return RUBY + ["-I", H + "/ruby/shim", "-I", REPO + "/bindings/ruby/lib", "-I", lib + "/bindings/ruby",
                           "%s/ruby/%s.rb" % (H, conf.get("src", prop))]
        srcs = ["core"] + conf.get("objs", ["model"]) + [conf.get("src", prop)]
        nin = os.path.join(hb, prop + ".ninja")
        rpath = " ".join("-Wl,-rpath,%s/%s" % (lib, d) for d in ("typelib", "lang/csupport"))
        with open(nin, "w") as f:
            f.write("builddir = %s\n" % os.path.join(hb, prop + ".d"))
            f.write("rule cc\n  command = g++ -MMD -MF $out.d -std=c++17 -w -fno-strict-aliasing %s $own -I%s -I%s -I%s -c $in -o $out\n"
                    "  depfile = $out.d\n  deps = gcc\n" % (flags, REPO, lib, H))
            for s in srcs:
                f.write("build %s/%s.o: cc %s/%s.cc\n  own = %s\n" % (hb, s, H, s, conf.get("cflags", "") if s == srcs[-1] else ""))
            f.write("rule so\n  command = g++ -MMD -MF $out.d -std=c++17 -w -fPIC -shared %s -I%s -I%s -I%s $in -o $out\n"
                    "  depfile = $out.d\n  deps = gcc\n" % (flags, REPO, lib, H))
            sos = ["%s/%s.so" % (hb, s) for s in conf.get("so", [])]
            for s in conf.get("so", []):
                f.write("build %s/%s.so: so %s/%s.cc\n" % (hb, s, H, s))
            f.write("default %s\n" % " ".join(["%s/%s.o" % (hb, s) for s in srcs] + sos))
        with ThreadPoolExecutor(2) as pool:
            a = pool.submit(sh, ["ninja", "-C", lib] + TARGETS)
            b = pool.submit(sh, ["ninja", "-f", nin])
            a.result()
            b.result()
        exe = os.path.join(hb, prop)
        xml = sh(["pkg-config", "--libs", "libxml-2.0"]).split() if conf.get("xml") else []
        sh(["g++"] + flags.split() + ["%s/%s.o" % (hb, s) for s in srcs] + ["-o", exe + ".new",
            "-L%s/typelib" % lib, "-L%s/lang/csupport" % lib, "-ltypeLib", "-ltypeLang_cSupport"] + rpath.split()
           + ["-lboost_system", "-lpthread", "-ldl", "-rdynamic"] + xml + conf.get("ldflags", "").split())
        os.replace(exe + ".new", exe)
    return [exe]


def env_for(conf):
    e = dict(os.environ)
    lib = os.path.join(BUILD, conf.get("flavor", "asan"), "lib")
    e["TYPELIB_PLUGIN_PATH"] = ":".join("%s/lang/%s" % (lib, d) for d in ("csupport", "tlb", "idl"))
    e["ASAN_OPTIONS"] = ("detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=%d:abort_on_error=0:"
                         "detect_stack_use_after_return=0:hard_rss_limit_mb=3000:quarantine_size_mb=32:exitcode=77" % conf.get("max_alloc_mb", 64))
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1"
    e["LC_ALL"] = "C"
    if conf.get("ruby"):
        e["LC_ALL"] = "C.UTF-8"
        e["ASAN_OPTIONS"] += ":use_sigaltstack=0:verify_asan_link_order=0:handle_segv=2:handle_abort=2:handle_sigbus=2:handle_sigill=2"
        e["LD_LIBRARY_PATH"] = "%s/typelib:%s/lang/csupport" % (lib, lib)
        e["LD_PRELOAD"] = os.path.join(BUILD, "ruby", "harness", "newlimit.so") + " " + " ".join(sh(["g++", "-print-file-name=" + n]).strip() for n in ("libasan.so", "libubsan.so"))
        e["PATH"] = os.path.join(BUILD, "ruby", "harness", "bin") + ":" + e.get("PATH", "/usr/bin:/bin")
        for k in ("RUBYOPT", "RUBYLIB", "TYPELIB_RUBY_PLUGIN_PATH", "TYPELIB_CXX_LOADER", "TYPELIB_CASTXML_DEFAULT_OPTIONS", "TYPELIB_GCCXML_DEFAULT_OPTIONS"):
            e.pop(k, None)
    e["VERIF_LIBDIR"] = lib
    e["VERIF_SODIR"] = os.path.join(BUILD, conf.get("flavor", "asan"), "harness")
    e["VERIF_REPO"] = REPO
    return e


def demangled(fn):
    fn = fn.strip()
    fn = re.sub(r"\b0x[0-9a-f]+\b", "", fn)
    fn = re.sub(r"\(anonymous namespace\)", "anon", fn)
    d, out = 0, ""
    for ch in fn:      # drop template arguments and parameters
        if ch in "<(":
            d += 1
        elif ch in ">)":
            d -= 1
        elif d <= 0:
            out += ch
    out = re.sub(r"( const| \[clone.*)$", "", out.strip())
    return out.split(" ")[-1] or fn[:60]


def crash_key(text, rc):
    """Stable name of a crash: kind of report and the first function of the code under test."""
    frames = re.findall(r"^\s*#\d+ 0x[0-9a-f]+ in (.+?) (/\S+)", text, re.M)
    frames += re.findall(r"^\s*#\d+ (\S.*?) (/\S+?:\d+) \(", text, re.M)
    fn = ""
    for f, path in frames:
        if path.startswith(REPO + "/"):
            fn = demangled(f)
            break
    if not fn:
        for f, path in frames:
            if path.startswith(H + "/"):
                fn = "harness:" + demangled(f)
                break
    m = re.search(r"ERROR: AddressSanitizer:? ([\w-]+)", text)
    if m:
        return "asan:%s:%s" % (m.group(1), fn)
    m = re.search(r"runtime error: (.*)", text)
    if m:
        msg = re.sub(r"-?\b\d[\w.+]*", "N", m.group(1))
        return "ubsan:%s:%s" % (msg[:90], fn)
    m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", text)
    if m:
        return "tsan:%s:%s" % (m.group(1).strip(), fn)
    if "hard rss limit exhausted" in text:
        return "memory-exhausted"
    m = re.search(r"terminate called after throwing an instance of '([^']+)'", text)
    if m:
        return "uncaught:%s" % m.group(1)
    if rc < 0:
        try:
            return "signal:%s" % signal.Signals(-rc).name
        except ValueError:
            return "signal:%d" % -rc
    return "exit:%d" % rc


def read_progress(path):
    with open(path, "rb") as f:
        data = f.read()
    cur, done = struct.unpack("QQ", data[:16])
    return cur, done, data[16:].split(b"\0")[0].decode(errors="replace")


def wait_or_idle(p, limit):
    """The exit status of a process, or None (it is ended) after limit seconds, or one and a half minute in which it used less than 1% of a processor."""
    t0 = since = time.time()
    used = 0.
    while True:
        try:
            p.wait(timeout=1)
            return p.returncode
        except subprocess.TimeoutExpired:
            pass
        try:
            with open("/proc/%d/stat" % p.pid) as f:
                ticks = f.read().rsplit(")", 1)[1].split()
            now = (int(ticks[11]) + int(ticks[12])) / os.sysconf("SC_CLK_TCK")
        except (OSError, IndexError, ValueError):
            continue
        if now - used > 0.9:
            used, since = now, time.time()
        if time.time() - since > 90 or time.time() - t0 > limit:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return None


class Run:
    def __init__(self, prop, conf, exe, seed, thorough):
        self.prop, self.conf, self.exe, self.seed, self.thorough = prop, conf, exe, seed, thorough
        self.viol, self.counts, self.samples, self.sigs = [], {}, [], set()
        self.errors, self.slow = [], 0
        self.stop = False       # set once a hang is established: others would only cost time
        self.dir = os.path.join(BUILD, "run", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)

    def args(self, tag, a, b):
        out, prog = os.path.join(self.dir, tag + ".out"), os.path.join(self.dir, tag + ".prog")
        for p in (out, prog):
            if os.path.exists(p):
                os.unlink(p)
        return out, prog, self.exe + ["--seed", str(self.seed), "--from", str(a), "--to", str(b), "--out", out,
                           "--progress", prog] + (["--thorough"] if self.thorough else [])

    def start(self, tag, a, b, cpu=None):
        out, prog, cmd = self.args(tag, a, b)
        cwd = os.path.join(self.dir, tag + ".cwd")
        os.makedirs(cwd, exist_ok=True)
        err = open(os.path.join(self.dir, tag + ".err"), "wb")
        pre = None
        if cpu:
            pre = lambda: resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        p = subprocess.Popen(cmd, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err,
                             env=env_for(self.conf), preexec_fn=pre, start_new_session=True)
        err.close()
        return p, out, prog

    def collect(self, out):
        ended = False
        if os.path.exists(out):
            with open(out, errors="replace") as f:
                for line in f:
                    try:
                        o = json.loads(line)
                    except ValueError:
                        continue
                    if o["t"] == "viol":
                        self.viol.append(o)
                    elif o["t"] == "stat":
                        for k, n in o["counts"].items():
                            self.counts[k] = self.counts.get(k, 0) + n
                        if len(self.samples) < 4:
                            self.samples += o["samples"][:2]
                        self.sigs.update(o["sigs"])
                    elif o["t"] == "end":
                        ended = True
        return ended

    def stderr_of(self, tag):
        """The end of what the process wrote: reports come last."""
        with open(os.path.join(self.dir, tag + ".err"), "rb") as f:
            f.seek(0, 2)
            f.seek(max(0, f.tell() - 100000))
            t = f.read().decode(errors="replace")
        at = max(t.rfind("=================================================================\n=="), t.rfind("==================\nWARNING"))
        return t[at:] if at > 0 else t

    def chunk(self, tag, a, b):
        stall = self.conf.get("stall", 30)
        crashes = 0
        while a < b:
            p, out, prog = self.start(tag, a, b)
            last, since = None, time.time()
            hung = False
            while True:
                if self.stop:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    self.collect(out)
                    return
                try:
                    p.wait(timeout=0.05 if time.time() - since < 2 else 1)
                    break
                except subprocess.TimeoutExpired:
                    pass
                try:
                    cur = read_progress(prog)[:2]
                except (OSError, struct.error):
                    cur = None
                if cur != last:
                    last, since = cur, time.time()
                elif time.time() - since > stall:
                    hung = True
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    break
            ended = self.collect(out)
            if ended and not hung and p.returncode == 0:
                return
            if p.returncode == 92:
                self.viol.append({"case": a, "key": "setup", "msg": self.stderr_of(tag)[-2000:], "desc": "process setup"})
                return
            if p.returncode in (90, 91):
                self.errors.append("worker failed: " + self.stderr_of(tag)[-2000:])
                return
            try:
                cur, done, desc = read_progress(prog)
            except (OSError, struct.error):
                self.errors.append("worker died before it began: " + self.stderr_of(tag)[-2000:])
                return
            if cur == 2**64 - 1:
                key, txt = crash_key(self.stderr_of(tag), p.returncode), self.stderr_of(tag)
                if done >= b:       # crashed while finishing
                    self.errors.append("worker ended abnormally after its last case: " + key + "\n" + txt[-1500:])
                else:               # before the first case: the library could not even be set up
                    self.viol.append({"case": a, "key": "setup:" + key, "msg": txt[:6000], "desc": "process setup"})
                return
            if hung:
                # decide on processor time, in a process of its own
                q, out2, _ = self.start(tag + "h", cur, cur + 1, cpu=60)
                rc = wait_or_idle(q, 600)
                ok = self.collect(out2)
                if rc in (-signal.SIGXCPU, -signal.SIGKILL):
                    self.stop = True
                    self.viol.append({"case": cur, "key": "hang", "msg": "a case that takes milliseconds did not end within 60 s of processor time", "desc": desc})
                elif rc is None:
                    if self.conf.get("blocking"):
                        self.stop = True
                        self.viol.append({"case": cur, "key": "blocked", "msg": "no progress, and next to no use of the processor, for more than a minute (deadlock)", "desc": desc})
                    else:
                        self.errors.append("case %d makes no progress without using the processor" % cur)
                elif not ok:
                    t = self.stderr_of(tag + "h")
                    self.viol.append({"case": cur, "key": crash_key(t, rc), "msg": t[:6000], "desc": desc})
                else:
                    self.slow += 1
            else:
                t = self.stderr_of(tag)
                self.viol.append({"case": cur, "key": crash_key(t, p.returncode), "msg": t[:6000], "desc": desc})
            self.counts["cases"] = self.counts.get("cases", 0) + max(0, cur + 1 - a)   # its statistics are lost
            crashes += 1
            a = cur + 1
            if crashes >= 12:
                self.counts["cases not run after repeated crashes"] = self.counts.get("cases not run after repeated crashes", 0) + b - a
                return

    def all(self, n):
        per = self.conf.get("workers", JOBS)
        chunks = max(per, min(per * 6, n // 200 or 1)) if n >= per else n
        step = max(1, -(-n // chunks))
        todo = [(i // step, i, min(n, i + step)) for i in range(0, n, step)]
        with ThreadPoolExecutor(per) as pool:
            for f in [pool.submit(lambda *x: None if self.stop else self.chunk(*x), "c%d" % k, a, b) for k, a, b in todo]:
                f.result()

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def known_findings():
    """finding lines: 'finding: property=<id> key=/<regex>/ match=/<regex>/ <what fails>'"""
    r = []
    path = os.path.join(V, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\w+) key=/(.*?)/ match=/(.*?)/ (.*)", line.strip())
            if m:
                r.append(m.groups())
            elif line.startswith("finding:"):
                raise CheckError("bad line in known-findings.txt: " + line)
    return r


def judge(prop, conf, viol, seed, thorough):
    """Prints the verdict lines; returns the number of violations that are not listed."""
    known = [k for k in known_findings() if k[0] == prop]
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
    by_key, suppressed = {}, 0
    for v in viol:
        hit = False
        for _, key, match, _w in known:
            if re.fullmatch(key, v["key"]) and re.search(match, v["desc"] + "\n" + v["msg"], re.S):
                hit = True
        if hit:
            suppressed += 1
        else:
            by_key.setdefault(v["key"], []).append(v)
    rd = os.path.join(BUILD, "replay")
    os.makedirs(rd, exist_ok=True)
    for n, (key, vs) in enumerate(sorted(by_key.items())):
        path = os.path.join(rd, "%s-%d.json" % (prop, n))
        v = min(vs, key=lambda x: len(x.get("desc", "")))
        with open(path, "w") as f:
            json.dump({"property": prop, "key": key, "seed": seed, "tier": "thorough" if thorough else "quick", "case": v["case"],
                       "desc": v["desc"], "message": v["msg"], "occurrences": len(vs),
                       "rerun": "cd %s && python3 check.py %s --replay %s" % (V, prop, path)}, f, indent=1)
        print("%s: %s: %s" % (prop, key, v["msg"].strip().split("\n")[0][:400]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return len(by_key), suppressed


def write_evidence(prop, conf, run, seed, thorough, nviol, suppressed, t0, rule):
    ev = {"property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": conf.get("level", "exploration"),
          "coverage": {"evaluations": run.counts.get("cases", 0), "distinct_nontrivial": len(run.sigs), "rule": rule,
                       "samples": run.samples[:4],
                       "observed": {k: v for k, v in sorted(run.counts.items()) if k != "cases"},
                       "slow_cases": run.slow, "known_finding_hits": suppressed,
                       "instrumentation": FLAVORS[conf.get("flavor", "asan")]},
          "assumptions": conf.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": nviol}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    p = os.path.join(V, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


def main():
    t0 = time.time()
    prop = sys.argv[1]
    conf = PROPS[prop]
    opt = sys.argv[2:]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = os.environ.get("VERIF_TIER", "quick") == "thorough" or "--thorough" in opt
    if "--seed" in opt:
        seed = int(opt[opt.index("--seed") + 1])
    if conf.get("script"):
        return __import__(conf["script"]).main(prop, conf, seed, thorough, opt)
    exe = build(prop, conf)
    n = conf["thorough"] if thorough else conf["quick"]
    if "--build" in opt:
        return 0
    if "--replay" in opt:
        r = json.load(open(opt[opt.index("--replay") + 1]))
        opt += ["--case", str(r["case"])]
        seed = r["seed"]
        thorough = r["tier"] == "thorough"
    if "--case" in opt:
        run = Run(prop, conf, exe, seed, thorough)
        out, prog, cmd = run.args("one", 0, 0)
        c = opt[opt.index("--case") + 1]
        r = subprocess.run(exe + ["--seed", str(seed), "--case", c] + (["--thorough"] if thorough else []), env=env_for(conf), cwd=run.dir)
        run.cleanup()
        return r.returncode
    if "--cases" in opt:
        n = int(opt[opt.index("--cases") + 1])
    run = Run(prop, conf, exe, seed, thorough)
    try:
        run.all(n)
    finally:
        if "--keep" not in opt:
            run.cleanup()
    rule = subprocess.run(exe + ["--rule"], stdout=subprocess.PIPE, env=env_for(conf)).stdout.decode().strip()
    nviol, suppressed = judge(prop, conf, run.viol, seed, thorough)
    write_evidence(prop, conf, run, seed, thorough, nviol, suppressed, t0, rule)
    print("%s: %d cases, %d distinct non-trivial, %d violation(s), %.1f s" % (prop, run.counts.get("cases", 0), len(run.sigs), nviol, time.time() - t0))
    for k, v in sorted(run.counts.items()):
        print("    %s: %d" % (k, v))
    if nviol:
        return 1
    if run.errors:
        print("ERROR: " + run.errors[0])
        return 2
    if not run.sigs or not run.counts.get("cases"):
        print("ERROR: nothing was observed")
        return 2
    for k in conf.get("must_observe", []):
        if not run.counts.get(k):
            print("ERROR: inconclusive, never observed: " + k)
            return 2
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("ERROR: %s" % e)
        sys.exit(2)
