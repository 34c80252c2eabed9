#!/usr/bin/env python3
"""Decide one property of /repo by running its code under monitors.

check.py --property ID [--tier quick|thorough] [--seed N] [--replay FILE]

exit 0: the property held on everything executed (known findings are printed)
exit 1: violated; a line "VIOLATION property=ID replay=PATH"
exit 2: the check itself could not run
"""
import argparse, array, glob, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
HARN = os.path.join(HERE, "harness")
REDEF = "malloc calloc realloc free reallocarray aligned_alloc posix_memalign time".split()
SHARDS = max(2, min(8, os.cpu_count() or 8))
STALL = 120          # seconds without progress before a case counts as stuck

# property -> (level, rule, {tier: [(variant, cases)]})
K = 1000
PLANS = {
    "T01": ("exploration", [("san", 72 * K), ("plain", 80 * K)], [("san", 600 * K), ("plain", 1500 * K)]),
    "T02": ("exploration", [("plain", 800 * K)], [("plain", 4000 * K)]),
    "T03": ("exploration", [("plain", 160 * K)], [("plain", 3000 * K), ("san", 300 * K)]),
    "T04": ("exploration", [("plain", 160 * K)], [("plain", 3000 * K), ("san", 300 * K)]),
    "T05": ("exploration", [("plain", 160 * K)], [("plain", 3000 * K), ("san", 300 * K)]),
    "T06": ("exploration", [("plain", 80 * K)], [("plain", 1000 * K)]),
    "A01": ("exploration", [("plain", 480 * K)], [("plain", 2000 * K), ("san", 300 * K)]),
    "A02": ("exploration", [("plain", 160 * K)], [("plain", 2000 * K), ("san", 300 * K)]),
    "A03": ("exploration", [("plain", 120 * K)], [("plain", 1500 * K), ("san", 200 * K)]),
    "A04": ("exploration", [("plain", 1600 * K)], [("plain", 4000 * K), ("san", 300 * K)]),
    "N01": ("exploration", [("plain", 96 * K)], [("plain", 1200 * K), ("san", 150 * K)]),
    "N02": ("exploration", [("plain", 120 * K)], [("plain", 2500 * K), ("san", 300 * K)]),
    "N03": ("exploration", [("plain", 192 * K)], [("plain", 800 * K), ("san", 150 * K)]),
    "N04": ("exploration", [("plain", 320 * K)], [("plain", 2500 * K), ("san", 300 * K)]),
    "N05": ("exploration", [("plain", 320 * K)], [("plain", 2500 * K), ("san", 300 * K)]),
    "N06": ("exploration", [("plain", 256 * K)], [("plain", 1500 * K), ("san", 200 * K)]),
    "M01": ("exploration", [("san", 320 * K)], [("san", 5000 * K)]),
    "M02": ("exploration", [("plain", 480 * K)], [("plain", 2500 * K)]),
    "M03": ("fault_enumeration", [("plain", 120 * K), ("san", 16 * K)], [("plain", 1500 * K), ("san", 400 * K)]),
    "M04": ("exploration", [("plain", 120 * K), ("shared", 48 * K)], [("plain", 1200 * K), ("shared", 500 * K)]),
    "M05": ("exploration", [("plain", 120 * K), ("msan", 240 * K)], [("plain", 1200 * K), ("msan", 3000 * K)]),
    "S01": ("exploration", [("plain", 800 * K)], [("plain", 3000 * K), ("san", 300 * K)]),
    "S02": ("exploration", [("plain", 1600 * K)], [("plain", 5000 * K), ("san", 500 * K)]),
    "S04": ("exploration", [("plain", 160 * K)], [("plain", 3000 * K), ("san", 300 * K)]),
    "S03": ("exploration", [("tsan", 20 * K), ("plain", 20 * K)], [("tsan", 300 * K), ("plain", 300 * K)]),
}
RULE = {
    "default": "Cases are drawn from a seeded generator (shapes, types, values, parameters, aliasing, history; "
               "constants of the sources are fed back as candidate values); a case is non-trivial if it reaches the "
               "monitor with a result of at least two elements or must be rejected, distinct by the hash of the "
               "complete call.",
    "T01": "A case is a history of creations, writes and destructions of up to 13 tensors living side by side, every "
           "one inspected against a model after each step; distinct by the hash of the history, non-trivial if "
           "something was destroyed while others lived.",
    "M03": "A case is a call; every memory request it makes is failed in turn, alone and with all later ones; "
           "distinct by the hash of the call, non-trivial if at least one request was made to fail.",
    "S03": "A case is a set of calls run alone and then from 2 to 8 threads on shared operands, with random delays "
           "at memory requests; distinct by calls and by the observed order of threads at memory requests, "
           "non-trivial if that order switches between threads.",
    "S04": "A case is a call whose operands are the outcome of random histories of up to five calls each, followed by up "
           "to four calls on the results; distinct by the complete calls, non-trivial if a judged result has at "
           "least two elements.",
    "T02": "A case is a tensor (extents possibly beyond 2^32 elements) and a set of indices/coordinates converted "
           "both ways; distinct by shape and coordinates.",
    "A04": "A case is a pair of shapes and an output array; distinct by the shapes and the outcome.",
}
ASSUME = [
    "The library's memory requests are observed by redirecting malloc, calloc, realloc, free, reallocarray, "
    "aligned_alloc and posix_memalign in its object files (objcopy --redefine-sym).",
    "Calls outside the stated domain (wild pointers, arrays shorter than documented) are not made.",
]
FLAGS = {
    "plain": ("gcc", "g++", ["-O1", "-g"], []),
    "san": ("gcc", "g++", ["-O1", "-g", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"],
            ["-DVF_ASAN", "-fwrapv", "-fno-sanitize=signed-integer-overflow,shift"]),
    "tsan": ("gcc", "g++", ["-O1", "-g", "-fsanitize=thread"], ["-DVF_NO_LEDGER"]),
    "msan": ("clang", "clang++", ["-O1", "-g", "-fsanitize=memory", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
             ["-DVF_MSAN", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]),
    "shared": ("gcc", "g++", ["-O1", "-g", "-fPIC"], ["-DAITISA_API_SHARED_LIBS"]),
}
HFILES = ["rt", "spec", "gen", "exec", "props", "props2", "chain", "s03", "main"]


class HarnessError(Exception):
    pass


class Violation(Exception):
    def __init__(self, key, text, variant, case, start=None):
        Exception.__init__(self, text)
        self.key, self.text, self.variant, self.case, self.start = key, text, variant, case, start


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, errors="replace")
    return p.returncode, p.stdout


def build(variant, out, pool):
    """Compile the library from REPO's working tree and the harness."""
    cc, cxx, flags, extra = FLAGS[variant]
    os.makedirs(out, exist_ok=True)
    redef = [a for f in REDEF for a in ("--redefine-sym", "%s=vf_%s" % (f, f))]
    lib_extra = []
    if variant == "shared":
        lib_extra = ["-fvisibility=hidden", "-DAITISA_API_SHARED_LIBS", "-DAITISA_API_SHARED_LIBS_EXPORTS"]
    srcs = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.c"), recursive=True))
    if not srcs:
        raise HarnessError("no sources under %s/src" % REPO)

    def lib(i_src):
        i, src = i_src
        o = os.path.join(out, "lib%d.o" % i)
        opt = ["-O2"] if variant == "plain" else []
        rc, txt = run([cc, "-std=gnu99", "-w", "-fno-builtin"] + flags + opt + lib_extra + ["-I" + REPO, "-c", src, "-o", o])
        if rc == 0:
            rc, txt = run(["objcopy"] + redef + [o])
        return rc, txt, o

    def har(f):
        o = os.path.join(out, "h_%s.o" % f)
        rc, txt = run([cxx, "-std=c++14", "-w"] + flags + extra + ["-I" + REPO, "-c", os.path.join(HARN, f + ".cpp"), "-o", o])
        return rc, txt, o

    # the long compilations first
    jobs = [pool.submit(har, f) for f in sorted(HFILES, key=lambda f: -os.path.getsize(os.path.join(HARN, f + ".cpp")))]
    ljobs = [pool.submit(lib, x) for x in enumerate(srcs)]
    lobjs, hobjs = [], []
    for lst, js in ((lobjs, ljobs), (hobjs, jobs)):
        for j in js:
            rc, txt, o = j.result()
            if rc:
                raise HarnessError("compilation failed (%s):\n%s" % (variant, txt[-3000:]))
            lst.append(o)
    exe = os.path.join(out, "vf")
    if variant == "shared":
        so = os.path.join(out, "libaitisa.so")
        rc, txt = run([cc] + flags + ["-shared", "-o", so] + lobjs + ["-lm"])
        if rc == 0:
            rc, txt = run([cxx] + flags + ["-rdynamic", "-o", exe] + hobjs + [so, "-Wl,-rpath," + out, "-lm", "-lpthread"])
            if rc and "undefined reference to `aitisa" in txt:
                raise Violation("link", "a program using the public functions does not link against the shared library: "
                                + " ".join(sorted(set(re.findall(r"undefined reference to `(\w+)'", txt)))), variant, 0)
    else:
        rc, txt = run([cxx] + flags + ["-o", exe] + lobjs + hobjs + ["-lm", "-lpthread"])
    if rc:
        raise HarnessError("linking failed (%s):\n%s" % (variant, txt[-3000:]))
    return exe


def dictionary(path):
    """Numeric literals of the sources, as candidate values for the generators."""
    ints, dbls = set(), set()
    for f in sorted(glob.glob(os.path.join(REPO, "src", "**", "*.[ch]"), recursive=True)):
        try:
            text = open(f, errors="replace").read()
        except OSError:
            continue
        text = re.sub(r"/\*.*?\*/|//[^\n]*|\"(\\.|[^\"\\])*\"", " ", text, flags=re.S)
        for m in re.finditer(r"(?<![\w.])((?:0[xX][0-9a-fA-F]+)|(?:\d+\.\d*|\.\d+|\d+)(?:[eE][+-]?\d+)?)[uUlLfF]*", text):
            t = m.group(1)
            try:
                if re.fullmatch(r"0[xX][0-9a-fA-F]+|\d+", t):
                    v = int(t, 16 if t[:2].lower() == "0x" else 10)
                    if v < 1 << 62:
                        ints.add(v)
                else:
                    dbls.add(float(t))
            except ValueError:
                pass
    extra = set()
    for a in list(ints):
        if 1 < a < 1 << 20:
            extra.add(a * a)
    with open(path, "w") as f:
        for v in sorted(ints):
            f.write("i %d\n" % v)
        for v in sorted(dbls):
            f.write("d %r\n" % v)


def env_for(variant, verbose=False):
    e = dict(os.environ)
    for k in list(e):
        if k.endswith("SAN_OPTIONS"):
            del e[k]
    e["ASAN_OPTIONS"] = "allocator_may_return_null=1:detect_leaks=0:exitcode=99:max_allocation_size_mb=4096:detect_stack_use_after_return=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:history_size=4"
    e["MSAN_OPTIONS"] = "exitcode=77"
    e.pop("LD_PRELOAD", None)
    if verbose:
        e["VF_VERBOSE"] = "1"
    return e


class Shard:
    def __init__(self, ctx, variant, exe, k, frm, to):
        self.ctx, self.variant, self.exe, self.k, self.frm, self.to = ctx, variant, exe, k, frm, to
        base = os.path.join(ctx.tmp, "%s_%d_%d" % (variant, k, frm))
        self.stats, self.prog, self.log = base + ".st", base + ".pg", base + ".log"
        self.p = None
        self.last, self.since = None, time.time()

    def start(self, verbose=False):
        c = self.ctx
        cmd = c.prefix.get(self.variant, []) + [
            self.exe, c.prop, str(c.seed), str(self.frm), str(self.to),
            "1" if c.tier == "thorough" else "0", self.stats, self.prog, c.dict]
        self.out = open(self.log, "wb")
        self.p = subprocess.Popen(cmd, stdout=self.out, stderr=subprocess.STDOUT, env=env_for(self.variant, verbose),
                                  cwd=c.tmp, start_new_session=True)
        self.since = time.time()

    def progress(self):
        try:
            with open(self.prog, "rb") as f:
                return struct.unpack("<Q", f.read(8))[0]
        except (OSError, struct.error):
            return 0

    def patience(self):
        """(a beat within a long case, how many times the usual patience it asks for)"""
        try:
            with open(self.prog, "rb") as f:
                return struct.unpack("<QQ", f.read(24)[8:])
        except (OSError, struct.error):
            return 0, 0

    def poll(self):
        """None while running, otherwise the return code ('hang' if stuck)."""
        rc = self.p.poll()
        if rc is not None:
            self.out.close()
            return rc
        beat, more = self.patience()
        v = self.progress(), beat
        if v != self.last:
            self.last, self.since = v, time.time()
        elif time.time() - self.since > max(1, more) * STALL * (6 if self.ctx.tier == "thorough" else 1):
            self.kill()
            return "hang"
        return None

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        self.out.close()

    def text(self):
        with open(self.log, errors="replace") as f:
            return f.read()[:400000]


def crash_text(rc, txt):
    """(key, description) of an abnormal end."""
    kind = None
    m = re.search(r"(ERROR|WARNING): (Address|Thread|Memory|UndefinedBehavior|Leak)Sanitizer:? ([^\n]*)", txt)
    if m:
        kind = m.group(2) + "Sanitizer: " + re.sub(r"0x[0-9a-f]+|\(pid=\d+\)", "", m.group(3)).strip()
    m2 = re.search(r"([^\n]*runtime error: [^\n]*)", txt)
    if m2:
        kind = m2.group(1).strip()
    if kind is None:
        kind = "ended by signal %d (%s)" % (-rc, signal.Signals(-rc).name) if isinstance(rc, int) and rc < 0 else "ended with status %s" % rc
    frames = re.findall(r"#\d+ (?:0x[0-9a-f]+ in )?(\w[\w:~<>]*)[^\n]*?(\S*/src/\S+?:\d+)", txt)
    at = ", ".join("%s %s" % (f, os.path.relpath(w, REPO) if w.startswith(REPO) else w) for f, w in frames[:4])
    calls = re.findall(r"^VF-CALL (.*)$", txt, flags=re.M)
    call = calls[-1] if calls else ""
    short = re.sub(r"[^A-Za-z]+", "-", re.sub(r"^\S+:\d+:\d+: ", "", kind))[:40].strip("-")
    return "crash/" + short, "%s%s%s" % (kind, " at " + at if at else "", " during " + call if call else "")


class Ctx:
    pass


def rerun(ctx, sh, case, start):
    """Execute a failing case again (alone, then with what preceded it)."""
    for frm in ([case] if start is None or start == case else [case, start]):
        r = Shard(ctx, sh.variant, sh.exe, 900, frm, case + 1)
        r.start(verbose=True)
        while True:
            rc = r.poll()
            if rc is not None:
                break
            time.sleep(0.05)
        if rc != 0:
            return rc, r.text(), frm
    return 0, "", None


def judge(ctx, sh, rc):
    """Turn the abnormal end of a shard into a Violation or HarnessError."""
    txt = sh.text()
    m = re.search(r"^VF-FAIL key=(\S+) \| (.*)$", txt, flags=re.M)
    case = re.search(r"^VF-CASE (\d+)$", txt, flags=re.M)
    if "VF-HARNESS" in txt or rc == 2:
        raise HarnessError(txt[-2000:])
    if rc == 3 and m and case:
        return Violation(m.group(1), m.group(2), sh.variant, int(case.group(1)), sh.frm)
    p = sh.progress()
    if p == 0 or p == 2 ** 64 - 1:
        if "FATAL: " in txt and "Sanitizer" in txt:
            raise HarnessError("the sanitizer cannot start: " + txt[-1500:])
        raise HarnessError("the harness ended with %s before the first case or after the last:\n%s" % (rc, txt[-2000:]))
    c = p - 1
    rc2, txt2, frm = rerun(ctx, sh, c, sh.frm if rc != "hang" else None)
    if rc == "hang" or rc2 == "hang":
        if rc2 == 0:
            return None      # slow machine, not the call
        calls = re.findall(r"^VF-CALL (.*)$", txt2, flags=re.M)
        return Violation("hang", "no end after %d s: %s" % (STALL, calls[-1] if calls else "?"), sh.variant, c, c)
    if rc == -9 and rc2 == 0:
        return None          # ended from outside (memory), fine alone
    if rc2 == 3:
        m = re.search(r"^VF-FAIL key=(\S+) \| (.*)$", txt2, flags=re.M)
        if m:
            return Violation(m.group(1), m.group(2), sh.variant, c, frm)
    use = (rc2, txt2) if rc2 != 0 else (rc, txt)
    k, t = crash_text(*use)
    return Violation(k, t, sh.variant, c, frm if frm is not None else sh.frm)


def run_stage(ctx, variant, exe, cases, known, found):
    per = (cases + SHARDS - 1) // SHARDS
    live = []
    done = []
    for k in range(SHARDS):
        frm, to = k * per, min(cases, (k + 1) * per)
        if frm < to:
            sh = Shard(ctx, variant, exe, k, frm, to)
            sh.start()
            live.append(sh)
    first = None
    while live:
        time.sleep(0.02)
        for sh in list(live):
            rc = sh.poll()
            if rc is None:
                continue
            live.remove(sh)
            done.append(sh)
            if rc == 0:
                continue
            v = judge(ctx, sh, rc)
            nxt = None
            if v is None:
                nxt = sh.progress()          # carry on after the case that was retried
            elif v.key in known:
                found[v.key] = found.get(v.key, 0) + 1
                nxt = v.case + 1
            else:
                first = v
            if first:
                for o in live:
                    o.kill()
                live = []
                break
            if nxt is not None and nxt < sh.to:
                n = Shard(ctx, variant, exe, sh.k, nxt, sh.to)
                n.start()
                live.append(n)
    return done, first


def collect(done, cov, sigs):
    for sh in done:
        try:
            st = json.load(open(sh.stats))
        except (OSError, ValueError):
            continue
        cov["evaluations"] += st["evaluations"]
        for k, v in st["counters"].items():
            cov["observed"][k] = cov["observed"].get(k, 0) + v
        for x in st["samples"][:2]:
            if len(cov["samples"]) < 12:
                cov["samples"].append("[%s] %s" % (sh.variant, x))
        try:
            a = array.array("Q")
            with open(sh.stats + ".sigs", "rb") as f:
                a.frombytes(f.read())
            sigs.update(a)
        except OSError:
            pass


def load_known(prop):
    known = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3).strip()
    return known


def emit_violation(ctx, v):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s-%s.json" % (ctx.prop, v.variant, ctx.seed, v.case))
    json.dump({"property": ctx.prop, "variant": v.variant, "seed": ctx.seed, "tier": ctx.tier, "case": v.case,
               "from": v.start if v.start is not None else v.case, "key": v.key, "what": v.text}, open(path, "w"), indent=1)
    print("violated: %s" % v.text)
    print("VIOLATION property=%s replay=%s" % (ctx.prop, path))


def self_test_sanitizer(ctx, variant, exe):
    """Thread sanitizer needs a particular address layout."""
    if variant != "tsan":
        return
    for prefix in ([], ["setarch", "-R"]):
        ctx.prefix[variant] = prefix
        sh = Shard(ctx, variant, exe, 800 + len(prefix), 0, 1)
        sh.start()
        while sh.poll() is None:
            time.sleep(0.02)
        if "FATAL: ThreadSanitizer" not in sh.text():
            return
    raise HarnessError("the thread sanitizer cannot start")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    ctx = Ctx()
    ctx.prop, ctx.tier, ctx.seed = a.property, a.tier, a.seed
    ctx.prefix = {}
    t0 = time.time()
    if ctx.prop in ("H01", "H02"):
        sys.path.insert(0, HERE)
        import conform
        return conform.main(ctx, a)
    if ctx.prop not in PLANS:
        print("unknown property %s" % ctx.prop)
        return 2
    level, quick, thorough = PLANS[ctx.prop]
    plan = thorough if ctx.tier == "thorough" else quick
    plan = [(v, max(SHARDS, int(n * a.scale))) for v, n in plan]
    rep = None
    if a.replay:
        rep = json.load(open(a.replay))
        ctx.seed, ctx.tier = rep["seed"], rep["tier"]
        plan = [(rep["variant"], 0)]
    ctx.tmp = tempfile.mkdtemp(prefix="vf_%s_" % ctx.prop)
    known = load_known(ctx.prop)
    found = {}
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": RULE.get(ctx.prop, RULE["default"]), "samples": [],
           "observed": {}, "stages": []}
    sigs = set()
    violation = None
    try:
        ctx.dict = os.path.join(ctx.tmp, "dict")
        dictionary(ctx.dict)
        with ThreadPoolExecutor(SHARDS) as pool, ThreadPoolExecutor(4) as outer:
            builds = [(v, n, outer.submit(build, v, os.path.join(ctx.tmp, v), pool)) for v, n in plan]
            try:
                exes = [(v, n, b.result()) for v, n, b in builds]
            except Violation as e:
                violation, exes = e, []
        if rep:
            for v, n, exe in exes:
                self_test_sanitizer(ctx, v, exe)
                sh = Shard(ctx, v, exe, 0, rep["case"], rep["case"] + 1)
                rc, txt, frm = rerun(ctx, sh, rep["case"], rep["from"])
                print(txt[-6000:])
                if rc != 0:
                    print("VIOLATION property=%s replay=%s" % (ctx.prop, a.replay))
                    return 1
            if violation:
                emit_violation(ctx, violation)
                return 1
            print("the recorded case does not fail")
            return 0
        for v, n, exe in exes:
            self_test_sanitizer(ctx, v, exe)
            s0 = time.time()
            e0 = cov["evaluations"]
            done, violation = run_stage(ctx, v, exe, n, known, found)
            collect(done, cov, sigs)
            cov["stages"].append({"build": v, "cases": n, "evaluations": cov["evaluations"] - e0,
                                  "seconds": round(time.time() - s0, 1)})
            if violation:
                break
        cov["distinct_nontrivial"] = len(sigs)
        for k in found:
            print("KNOWN-FINDING: property=%s %s" % (ctx.prop, known[k]))
        if not violation and (cov["evaluations"] < 1 or cov["distinct_nontrivial"] < 2):
            raise HarnessError("nothing was observed")
    except HarnessError as e:
        print("check error: %s" % e)
        return 2
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {"property": ctx.prop, "tier": ctx.tier if ctx.tier in ("quick", "thorough") else "quick", "seed": ctx.seed,
          "level": level, "coverage": cov, "assumptions": ASSUME, "wall_s": round(time.time() - t0, 2),
          "violations": 1 if violation else 0}
    tmp = os.path.join(HERE, "evidence", ctx.prop + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, tmp[:-4])
    if violation:
        emit_violation(ctx, violation)
        return 1
    print("held: %d evaluations, %d distinct non-trivial, %.1f s" %
          (cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
