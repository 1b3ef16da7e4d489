#!/usr/bin/env python3
"""check.py PROP: builds the harness of one property from /repo's working tree and runs it.

Exit 0: the property held on everything explored.  Exit 1 and a VIOLATION line: it is broken.
Exit 2: the check itself could not decide (build error, resource exhaustion).
"""
import array, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", VERIF)  # where build output, evidence and replay files go
sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402

CXX = "clang++-18"
BASE = ["-std=gnu++20", "-g1", "-frtti", "-fexceptions", "-fsized-deallocation", "-mavx2", "-Wno-everything",
        "-fno-omit-frame-pointer"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all"]
VARIANTS = {
    "dbg": ["-O1"] + SAN,
    "rel": ["-O1", "-DNDEBUG"] + SAN,
    "opt": ["-O2", "-DNDEBUG"],
    "xthr": ["-O1", "-DCROSS_THREAD_CHECKING"] + SAN,
    "tsan": ["-O1", "-fsanitize=thread", "-DPBT_NOFORK"],
}
NCPU = max(2, min(8, os.cpu_count() or 2))


def repo_digest():
    h = hashlib.sha256()
    for d in ("align", "arena", "string", "container", "optparse", "."):
        for f in sorted(glob.glob(os.path.join(REPO, d, "*.hpp")) + glob.glob(os.path.join(REPO, d, "*.cc")) +
                        glob.glob(os.path.join(REPO, d, "*.h"))):
            h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()


def compile_all(pid, conf, out):
    """compiles harness and library sources for every variant; returns {variant: binary}"""
    jobs = []
    for v in conf["variants"]:
        flags = BASE + VARIANTS[v] + ["-DPROP_" + pid, "-DPBT_PROP=" + pid, "-DPBT_SEED=%dULL" % (int(os.environ.get("VERIF_SEED", "1") or "1") % 1000003), "-I" + REPO, "-I" + os.path.join(VERIF, "harness")]
        srcs = [os.path.join(VERIF, "harness", conf["src"])] + [os.path.join(REPO, x) for x in conf["lib"]]
        objs = []
        parts = conf.get("parts", 1)  # large harnesses are compiled in parts, to use all cores
        units = [(s, ["-DPBT_PARTS=%d" % parts, "-DPBT_PART=%d" % k]) for s in srcs[:1] for k in range(parts)] + [(s, []) for s in srcs[1:]]
        for k, (s, defs) in enumerate(units):
            o = os.path.join(out, "%s%d_%s.o" % (os.path.basename(s).replace(".", "_"), k, v))
            jobs.append((s, o, [CXX] + flags + defs + ["-c", s, "-o", o]))
            objs.append(o)
    def run(j):
        r = subprocess.run(j[2], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return j, r
    ok = True
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for j, r in ex.map(run, jobs):
            if r.returncode != 0:
                ok = False
                sys.stderr.write("compiling %s failed:\n%s\n" % (j[0], r.stdout[-4000:]))
    if not ok:
        return None
    bins = {}
    for v in conf["variants"]:
        objs = [j[1] for j in jobs if j[1].endswith("_%s.o" % v)]
        b = os.path.join(out, "h_" + v)
        r = subprocess.run([CXX] + BASE + VARIANTS[v] + objs + ["-o", b, "-lfmt", "-lxxhash", "-ldl", "-lpthread"] + conf.get("link", []),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stderr.write("linking failed:\n%s\n" % r.stdout[-4000:])
            return None
        bins[v] = b
    return bins


def env(symbolize=False):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:symbolize=%d:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:malloc_context_size=8:quarantine_size_mb=16" % symbolize
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:symbolize=%d" % symbolize
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=98:symbolize=%d" % symbolize
    e["LC_ALL"] = "C"
    for k in list(e):
        if k.startswith("PBTENV_"):
            del e[k]
    return e


def replay(binary, pid, path, conf, symbolize=False, extra=()):
    r = subprocess.run([binary, "--prop", pid, "--replay", path, "--cpu-limit", str(conf["cpu_limit"]), *extra], env=env(symbolize),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode, r.stdout.decode("utf-8", "replace")


def mem_available():
    try:
        return int(re.search(r"MemAvailable:\s+(\d+)", open("/proc/meminfo").read()).group(1)) << 10
    except Exception:  # noqa: BLE001
        return 0


def main():
    pid = sys.argv[1]
    conf = PROPS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    build = os.path.join(OUT, "build")
    out = os.path.join(build, "%s-%d" % (pid, os.getpid()))
    os.makedirs(out, exist_ok=True)
    try:
        return work(pid, conf, tier, seed, t0, out)
    finally:
        shutil.rmtree(out, ignore_errors=True)


def work(pid, conf, tier, seed, t0, out):
    bins = compile_all(pid, conf, out)
    if bins is None:
        return 2
    t_build = time.time() - t0

    # 1. saved regressions
    failures = []
    regress = sorted(glob.glob(os.path.join(VERIF, "corpus", pid, "*.replay")))
    n_regress = 0
    for f in regress:
        for v, b in bins.items():
            rc, txt = replay(b, pid, f, conf)
            n_regress += 1
            if rc == 1:
                failures.append((v, f))

    # 2. generated cases
    nv = len(bins)
    per = max(1, NCPU // nv)
    cases = conf[tier]
    budget = 240 if tier == "quick" else 1500
    procs = []
    for vi, (v, b) in enumerate(bins.items()):
        w = conf["workers"] or per
        n = cases[v] if isinstance(cases, dict) else cases // nv
        for k in range(w):
            tag = os.path.join(out, "%s_%d" % (v, k))
            cmd = [b, "--prop", pid, "--cases", str(n), "--seed", str(seed * 1000 + vi), "--from", str(k), "--step", str(w),
                   "--stats", tag + ".json", "--hashes", tag + ".hash", "--replay-out", tag + ".replay", "--budget", str(budget),
                   "--cpu-limit", str(conf["cpu_limit"])]
            if k == 0:
                cmd += ["--samples", "3"]
            procs.append((v, tag, subprocess.Popen(cmd, env=env(), stdout=subprocess.DEVNULL, stderr=open(tag + ".err", "wb"))))
    # objects of several GB: one more worker, on the variant without sanitizers, when there is memory for it
    giants = conf.get("giants")
    if giants and "opt" in bins and mem_available() > 20 << 30:
        tag = os.path.join(out, "giant")
        cmd = [bins["opt"], "--prop", pid, "--scale", "1", "--cases", str(giants[tier]), "--seed", str(seed * 1000 + 77), "--stats", tag + ".json",
               "--hashes", tag + ".hash", "--replay-out", tag + ".replay", "--budget", str(budget // 3), "--cpu-limit", "200", "--shrink-budget", "60"]
        procs.append(("opt", tag, subprocess.Popen(cmd, env=env(), stdout=subprocess.DEVNULL, stderr=open(tag + ".err", "wb"))))
    stats = []
    error = None
    for v, tag, p in procs:
        rc = p.wait()
        try:
            st = json.load(open(tag + ".json"))
        except Exception as e:  # noqa: BLE001
            error = "worker %s ended with status %s without statistics (%s)" % (tag, rc, e)
            continue
        st["variant"] = v
        if tag.endswith("giant") and rc == 1 and "signal 9" in st["msg"]:
            continue  # ended because memory ran low, which is no verdict
        stats.append(st)
        if rc == 1:
            failures.append((v, tag + ".replay"))
            if os.path.exists(tag + ".replay.orig"):
                failures.append((v, tag + ".replay.orig"))
        elif rc != 0:
            error = "worker %s: status %s: %s" % (tag, rc, open(tag + ".err", "rb").read()[-2000:].decode("utf-8", "replace"))

    seen = set()
    for f in glob.glob(os.path.join(out, "*.hash")):
        a = array.array("Q")
        data = open(f, "rb").read()
        a.frombytes(data[:len(data) // 8 * 8])
        seen.update(a)
    labels = {}
    for st in stats:
        for k, (n, c) in st["labels"].items():
            x = labels.setdefault(k, [0, 0])
            x[0] += n; x[1] += c
    total = sum(s["cases"] for s in stats) + n_regress
    samples = [x for s in stats for x in s["samples"]][:6]
    extra = {}

    # 3. coverage-guided phase (thorough tier)
    if tier == "thorough" and conf["fuzz"] and not failures and error is None:
        import fuzzphase
        fz = fuzzphase.run(pid, conf, out, seed, BASE, REPO, VERIF, NCPU, env())
        extra["libfuzzer"] = fz["info"]
        total += fz["execs"]
        for f in fz["failures"]:
            failures.append((list(bins)[0], f))

    # 4. confirm failures: a failing case must fail again, three times, from its replay file
    confirmed = None
    best = None
    for v, f in failures:
        rcs = [replay(bins[v], pid, f, conf)[0] for _ in range(3)]
        if rcs.count(1) == 3:
            size = sum(len(l) for l in open(f) if l.startswith("g"))
            if best is None or size < best[0]:
                best = (size, v, f)
    if best is None:
        for v, f in failures:
            rcs = [replay(bins[v], pid, f, conf)[0] for _ in range(6)]
            if 1 in rcs:
                best = (0, v, f)
                break
    if best is not None:
        _, v, f = best
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        dst = os.path.join(OUT, "replays", "%s-%s-%s.replay" % (pid, v, hashlib.sha1(open(f, "rb").read()).hexdigest()[:10]))
        if os.path.abspath(f) != dst:
            shutil.copyfile(f, dst)
        rc, txt = replay(bins[v], pid, f, conf, symbolize=True)
        open(dst + ".log", "w").write(txt)
        confirmed = (v, dst, txt)

    ev = dict(property=pid, tier=tier, seed=seed, level=conf["level"],
              coverage=dict(evaluations=total, distinct_nontrivial=len(seen), rule=conf["rule"], samples=samples or ["(none)"],
                            nontrivial_cases=sum(s["nontrivial"] for s in stats), operations=sum(s["ops"] for s in stats),
                            per_variant={v: sum(s["cases"] for s in stats if s["variant"] == v) for v in bins},
                            events={k: {"events": n, "cases": c} for k, (n, c) in sorted(labels.items())},
                            saved_regressions_replayed=n_regress, build_s=round(t_build, 1), **extra),
              assumptions=conf["assumptions"], wall_s=round(time.time() - t0, 1), violations=1 if confirmed else 0)
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    tmp = os.path.join(OUT, "evidence", ".%s.%d" % (pid, os.getpid()))
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(OUT, "evidence", pid + ".json"))

    print("%s %s seed=%d: %d cases, %d distinct non-trivial, build %.1fs, total %.1fs" %
          (pid, tier, seed, total, len(seen), t_build, time.time() - t0))
    for line in known_findings(pid, bins, conf):
        print(line)
    if confirmed:
        v, dst, txt = confirmed
        print("variant %s; minimal case:" % v)
        print("\n".join(txt.splitlines()[:60]))
        print("VIOLATION property=%s replay=%s" % (pid, dst))
        return 1
    if failures:
        print("a generated case failed but did not fail again from its replay file; inconclusive", file=sys.stderr)
        return 2
    if error is not None:
        print(error, file=sys.stderr)
        return 2
    return 0


def known_findings(pid, bins, conf):
    """a listed finding is demonstrated by its own saved case; the generator leaves that input out (see pbt::g_known)"""
    path = os.path.join(VERIF, "known_findings.txt")
    res = []
    for l in open(path) if os.path.exists(path) else []:
        l = l.strip()
        head = "known: property=%s replay=" % pid
        if not l.startswith(head):
            continue
        f, what = l[len(head):].split(" ", 1)
        for v, b in bins.items():
            rc, _ = replay(b, pid, os.path.join(VERIF, f), conf, extra=["--known", "1"])
            if rc == 1:
                res.append("KNOWN-FINDING: property=%s %s" % (pid, what))
                break
    return res


if __name__ == "__main__":
    sys.exit(main())
