"""H01, H02: the conformance suite and its sample containers (auto_test/)."""
import glob, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.path.join(HERE, "harness", "conform")
JOBS = max(2, min(8, os.cpu_count() or 8))
TECH = {
    "H01": "Monitoring of the instantiated conformance suite: user implementations that agree with the library or "
           "deviate from it in one point, the verdict of the suite being the observation.",
    "H02": "Random ownership histories of the sample containers in an AddressSanitizer/UBSan build with a ledger of all "
           "buffers and a model of owners; particular histories with listed findings as probes.",
}
NOTE = {
    "H01": "The suite is compiled against the repository's headers and the installed googletest. The large matrix "
           "product takes the library about 40 s, so it gets few deviations in the quick tier.",
    "H02": "Result has no assignment (its move constructor removes it), so its histories have none.",
}
RULE = {
    "H01": "A case is a user implementation plugged into the suite: the faithful one, or one with a single deviation "
           "(operator, kind, position, amount); distinct by these, non-trivial if it deviates.",
    "H02": "A case is a history of constructions, copies, moves, assignments and destructions of up to ten containers "
           "(or copies and destructions of samples), the ledger and the content being compared with a model after "
           "every step; distinct by the sequence of steps.",
}
NOPS = {"BINARY": 4, "MATMUL": 7, "ACT": 3}
COMPILE = {   # programs that the headers promise to support
    "H01": {
        "register-op": ("REGISTER_OP of auto_test.h compiles", '''
#include "auto_test/auto_test.h"
typedef Tensor T;
static DataType i2t(int n) { return aitisa_api::aitisa_dtypes[n]; }
static Device i2d(int n) { return aitisa_api::aitisa_devices[n]; }
static int t2i(DataType t) { return (int)t.code; }
static int d2i(Device d) { return (int)d.type; }
static void cr(DataType t, Device d, int64_t *dims, int64_t n, void *p, unsigned l, T *x) { aitisa_create(t, d, dims, n, p, l, x); }
static void re(T x, DataType *t, Device *d, int64_t **dims, int64_t *n, void **p, unsigned *l) { aitisa_resolve(x, t, d, dims, n, p, l); }
static void bin(T a, T b, T *c) { aitisa_add(a, b, c); }
static void cv(T a, T b, const int *s, const int *p, const int *d, int g, T *o) { aitisa_conv(a, b, (int *)s, p, d, g, o); }
using namespace aitisa_api;
REGISTER_BASIC(T, DataType, i2t, t2i, Device, i2d, d2i, cr, re)
REGISTER_OP(bin, bin, bin, bin, bin, cv)
int main(int argc, char **argv) { PERFORM_TEST }
'''),
        "register-conv2d": ("REGISTER_CONV2D compiles", '''
#include "auto_test/test_code/conv_test.h"
typedef Tensor T;
static DataType i2t(int n) { return aitisa_api::aitisa_dtypes[n]; }
static Device i2d(int n) { return aitisa_api::aitisa_devices[n]; }
static int t2i(DataType t) { return (int)t.code; }
static int d2i(Device d) { return (int)d.type; }
static void cr(DataType t, Device d, int64_t *dims, int64_t n, void *p, unsigned l, T *x) { aitisa_create(t, d, dims, n, p, l, x); }
static void re(T x, DataType *t, Device *d, int64_t **dims, int64_t *n, void **p, unsigned *l) { aitisa_resolve(x, t, d, dims, n, p, l); }
static void cv(T a, T b, const int *s, int sl, const int *p, int pl, const int *d, int dl, int g, T *o) { aitisa_conv2d(a, b, (int *)s, sl, p, pl, d, dl, g, o); }
namespace aitisa_api { REGISTER_BASIC(T, DataType, i2t, t2i, Device, i2d, d2i, cr, re) }
using aitisa_api::Basic;
REGISTER_CONV2D(cv)
int main(int argc, char **argv) { ::testing::InitGoogleTest(&argc, argv); return RUN_ALL_TESTS(); }
'''),
    },
    "H02": {
        "get-sample-macro": ("GET_SAMPLE_MATMUL compiles", '''
#include "auto_test/test_code/matmul_test.h"
int main() { GET_SAMPLE_MATMUL(s, 0); return (int)s.input().ndim1() == 1 ? 0 : 1; }
'''),
    },
}
PROBES = ["unary-self-assignment", "binary-self-assignment", "unary-assign-moved-from", "binary-assign-moved-from",
          "unary-assign-counter", "binary-assign-counter", "result-counter", "result-set-twice", "matmul-sample",
          "conv-input-copy", "conv-input-assignment"]


class Fault(Exception):
    pass


def run(cmd, env=None, timeout=800, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=cwd, timeout=timeout,
                           universal_newlines=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return "timeout", str(e.stdout)[-2000:]


def library(repo, tmp, pool, flags):
    srcs = sorted(glob.glob(os.path.join(repo, "src", "**", "*.c"), recursive=True))
    autos = sorted(glob.glob(os.path.join(repo, "auto_test", "*.cpp")))

    def one(k):
        f = (srcs + autos)[k]
        o = os.path.join(tmp, "l%d.o" % k)
        cc = ["gcc", "-std=gnu99"] if f.endswith(".c") else ["g++", "-std=c++14"]
        rc, txt = run(cc + ["-w"] + flags + ["-I" + repo, "-c", f, "-o", o])
        if rc:
            raise Fault("compilation of %s failed:\n%s" % (f, txt[-2000:]))
        return o
    return [pool.submit(one, k) for k in range(len(srcs) + len(autos))]


def compile_probe(repo, tmp, key, text, objs):
    f = os.path.join(tmp, key + ".cpp")
    open(f, "w").write(text)
    rc, txt = run(["g++", "-std=c++14", "-w", "-I" + repo, f] + objs + ["-o", f[:-4], "-lgtest", "-lpthread", "-lm"])
    m = re.search(r"error: ([^\n]*)", txt)
    return rc == 0, (m.group(1) if m else txt[-300:].strip())


def deviations(rng, suite, tier):
    """(description, VF_DEV, must the suite accept it)"""
    n = NOPS[suite]
    out = [("faithful", "-1 none 0 0", True), ("faithful, computing on its own", "own", True)]
    whole = lambda op: suite == "BINARY" and op in (0, 2)      # integer elements

    def at():
        return rng.choice([0.0, 0.999999999, rng.random(), rng.random()])
    many = {"BINARY": 40, "ACT": 14, "MATMUL": 0}[suite] * (8 if tier == "thorough" else 1)
    ops = [rng.randrange(n) for _ in range(many)]
    if suite == "MATMUL":      # those after the first meet the large product
        ops = [0] * (8 if tier != "thorough" else 40) + (list(range(1, 7)) * 4 if tier == "thorough" else [rng.randrange(2, 7)])
    for op in ops:
        kind = rng.choice(["element"] * 5 + ["extent", "rank", "type", "length", "device"])
        p = at()
        if kind == "element":
            if suite == "ACT":
                if rng.random() < 0.25:
                    out.append(("%s op %d" % (suite, op), "%d relative %r 5e-8" % (op, p), True))
                else:
                    out.append(("%s op %d" % (suite, op), "%d relative %r %r" % (op, p, rng.choice([1e-5, -1e-5, 0.5, -3, 1e3])), False))
            elif whole(op):
                out.append(("%s op %d" % (suite, op), "%d element %r %d" % (op, p, rng.choice([1, -1, 1000, 65536])), False))
            elif rng.random() < 0.25:
                out.append(("%s op %d" % (suite, op), "%d element %r %r" % (op, p, rng.choice([4e-4, -4e-4])), True))
            else:
                out.append(("%s op %d" % (suite, op), "%d element %r %r" % (op, p, rng.choice([0.002, -0.002, 0.5, -0.9, 1, 1e6, float("nan"), float("inf")])), False))
        elif kind == "extent":
            out.append(("%s op %d" % (suite, op), "%d extent %r %d" % (op, p, rng.choice([1, -1, 4294967296])), False))
        elif kind == "rank":
            out.append(("%s op %d" % (suite, op), "%d rank 0 %d" % (op, rng.choice([1, -1])), False))
        elif kind == "type":
            out.append(("%s op %d" % (suite, op), "%d type %r 0" % (op, p), False))
        elif kind == "length":
            out.append(("%s op %d" % (suite, op), "%d length 0 %d" % (op, rng.choice([1, -1, 4, 1024])), False))
        else:
            out.append(("%s op %d" % (suite, op), "%d device 0 0" % op, False))
    return [d for d in out if not (suite == "MATMUL" and d[1].startswith("0 rank 0 -1"))] if suite == "MATMUL" else out


def suite_run(job):
    """one user implementation, with the expected verdict"""
    exe, suite, what, dev, accept = job
    rc, txt = run([exe, "--gtest_color=no"], dict(os.environ, VF_DEV=dev))
    if rc == "timeout":
        return suite, dev, Fault("%s did not end in time" % suite)
    passed = rc == 0 and "[  PASSED  ] 1 test." in txt
    failed = rc == 1 and "[  FAILED  ] 1 test" in txt
    if not passed and not failed:
        return suite, dev, "the suite ended with %s: %s" % (rc, txt[-400:])
    if accept and not passed:
        m = re.search(r"Failure\n(.*?)\n\n", txt, flags=re.S)
        return suite, dev, "rejected although within the tolerance: " + (m.group(1) if m else txt[-300:]).replace("\n", " ")
    if not accept and not failed:
        return suite, dev, "accepted although it deviates"
    return suite, dev, None


def h01(ctx, tmp, pool, repo, cov, bad, only):
    rng = random.Random(ctx.seed)
    libs = [j.result() for j in library(repo, tmp, pool, ["-O2"])]
    exes = {}

    def suite(name):
        exe = os.path.join(tmp, name)
        rc, txt = run(["g++", "-std=c++14", "-O2", "-w", "-DVF_" + name, "-I" + repo, os.path.join(SRC, "h01.cpp")] + libs +
                      ["-o", exe, "-lgtest", "-lpthread", "-lm"])
        if rc:
            raise Fault("the suite %s does not compile:\n%s" % (name, txt[-2000:]))
        return name, exe
    for n, e in pool.map(suite, list(NOPS)):
        exes[n] = e
    jobs = []
    for n in ("MATMUL", "ACT", "BINARY"):
        for what, dev, accept in deviations(rng, n, ctx.tier):
            jobs.append((exes[n], n, what, dev, accept))
    if only:
        jobs = [j for j in jobs if [j[1], j[3]] == only[:2]] or [(exes[only[0]], only[0], "", only[1], bool(only[2]))]
    jobs.sort(key=lambda j: not (j[1] == "MATMUL" and not j[3].startswith("0 ")))
    accept = {(j[1], j[3]): j[4] for j in jobs}
    for s, dev, err in pool.map(suite_run, jobs):
        cov["evaluations"] += 1
        cov["distinct"].add((s, dev))
        k = "deviating implementations rejected" if not accept[(s, dev)] else "implementations accepted"
        if isinstance(err, Fault):
            raise err
        if err is None:
            cov["observed"][k] = cov["observed"].get(k, 0) + 1
            if len(cov["samples"]) < 10:
                cov["samples"].append("%s, deviation [%s]: %s" % (s, dev, "accepted" if accept[(s, dev)] else "rejected"))
        else:
            bad.append(("suite/%s/%s" % (s, dev.replace(" ", "_")), "%s, deviation [%s] (operator, kind, position, amount): %s" % (s, dev, err),
                        [s, dev, int(accept[(s, dev)])]))
    return libs


def h02(ctx, tmp, pool, repo, cov, bad, only):
    flags = ["-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
    libs = [j.result() for j in library(repo, tmp, pool, flags)]
    exe = os.path.join(tmp, "h02")
    rc, txt = run(["g++", "-std=c++14", "-w", "-DVF_CONV"] + flags + ["-I" + repo, os.path.join(SRC, "h02.cpp")] + libs +
                  ["-o", exe, "-lgtest", "-lpthread", "-lm"])
    if rc:
        raise Fault("the container driver does not compile:\n" + txt[-2000:])
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:alloc_dealloc_mismatch=1:exitcode=99", UBSAN_OPTIONS="halt_on_error=1")
    total = 24000 if ctx.tier != "thorough" else 1500000
    per = total // JOBS
    runs = [(k * per, (k + 1) * per) for k in range(JOBS)]
    if only:
        runs = [tuple(only[:2])] if len(only) == 2 else []

    def shard(r):
        return r, run([exe, "run", str(ctx.seed), str(r[0]), str(r[1])], env)
    for (a, b), (rc, txt) in pool.map(shard, runs):
        m = re.search(r"VF-DONE steps=(\d+) observed=(\d+) released=(\d+) distinct=(\d+)", txt)
        if rc == 0 and m:
            cov["evaluations"] += b - a
            for name, v in zip(("steps", "containers compared with the model", "buffers seen released with their last owner"), m.groups()):
                cov["observed"][name] = cov["observed"].get(name, 0) + int(v)
            cov["distinct"].update((a, i) for i in range(int(m.group(4))))
            continue
        f = re.search(r"VF-FAIL ([^\n]*)", txt) or re.search(r"(ERROR: AddressSanitizer[^\n]*|[^\n]*runtime error[^\n]*)", txt)
        c = re.search(r"VF-CASE (\d+)", txt)
        bad.append(("history", f.group(1) if f else "the driver ended with %s: %s" % (rc, txt[-300:]),
                    [int(c.group(1)), int(c.group(1)) + 1] if c else [a, b]))

    def pr(p):
        return p, run([exe, "probe", p], env)
    for p, (rc, txt) in pool.map(pr, [p for p in PROBES if not only or only[0] == p]):
        cov["evaluations"] += 1
        cov["distinct"].add(p)
        if rc == 0:
            continue
        f = re.search(r"VF-FAIL ([^\n]*)", txt) or re.search(r"(ERROR: AddressSanitizer[^\n]*|[^\n]*runtime error[^\n]*)", txt)
        bad.append((p, re.sub(r"0x[0-9a-f]+", "", f.group(1) if f else "ended with %s" % rc), [p]))
    return libs


def main(ctx, a):
    import check
    repo = check.REPO
    t0 = time.time()
    known = check.load_known(ctx.prop)
    only = None
    if a.replay:
        rep = json.load(open(a.replay))
        ctx.seed, ctx.tier, only = rep["seed"], rep["tier"], rep["only"]
    cov = {"evaluations": 0, "distinct": set(), "rule": RULE[ctx.prop], "samples": [], "observed": {}}
    bad = []
    tmp = tempfile.mkdtemp(prefix="vf_%s_" % ctx.prop)
    try:
        with ThreadPoolExecutor(JOBS) as pool:
            libs = (h01 if ctx.prop == "H01" else h02)(ctx, tmp, pool, repo, cov, bad, only)
            plain = libs if ctx.prop == "H01" else [j.result() for j in library(repo, tempfile.mkdtemp(dir=tmp), pool, ["-O1"])]
            items = [(k, v) for k, v in sorted(COMPILE[ctx.prop].items()) if not only or only[0] == k]
            for (k, (what, text)), (ok, err) in zip(items, pool.map(lambda i: compile_probe(repo, tmp, i[0], i[1][1], plain), items)):
                cov["evaluations"] += 1
                cov["distinct"].add(k)
                if not ok:
                    bad.append((k, "not the case: %s (%s)" % (what, err), [k]))
    except Fault as e:
        print("check error: %s" % e)
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    new = [b for b in bad if b[0] not in known]
    for k in sorted({b[0] for b in bad if b[0] in known}):
        print("KNOWN-FINDING: property=%s %s" % (ctx.prop, known[k]))
    cov["distinct_nontrivial"] = len(cov.pop("distinct"))
    if not cov["samples"]:
        cov["samples"] = ["probe " + p for p in PROBES[:4]] + ["histories of Unary_Input, Binary_Input, Result, Sample<Unary_Input>, Sample<Binary_Input>"]
    cov["observed"]["listed findings seen again"] = len(bad) - len(new)
    if not a.replay:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        ev = {"property": ctx.prop, "tier": ctx.tier if ctx.tier in ("quick", "thorough") else "quick", "seed": ctx.seed,
              "level": "exploration", "coverage": cov, "assumptions": [NOTE[ctx.prop]],
              "wall_s": round(time.time() - t0, 2), "violations": len(new)}
        f = os.path.join(HERE, "evidence", ctx.prop + ".json")
        json.dump(ev, open(f + ".tmp", "w"), indent=1)
        os.replace(f + ".tmp", f)
    if new:
        k, what, o = new[0]
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        path = a.replay or os.path.join(d, "%s-%s-%s.json" % (ctx.prop, ctx.seed, re.sub(r"\W+", "_", k)[:60]))
        if not a.replay:
            json.dump({"property": ctx.prop, "seed": ctx.seed, "tier": ctx.tier, "only": o, "key": k, "what": what}, open(path, "w"), indent=1)
        print("violated: %s" % what)
        print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
        return 1
    print("held: %d evaluations, %d distinct, %.1f s" % (cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    return 0
