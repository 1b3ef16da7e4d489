#!/usr/bin/env python3
"""mkseed.py SPEC.py ...: makes seeded/<id>/ from a specification (edits, demo source, meta), and validates it.

A specification defines ID, PROPERTY, EDITS=[(file, old, new)], DEMO (C++ source), NEEDS, BREAKS, and optionally FLAGS.
Everything runs on a scratch copy of /repo that is bind-mounted over /repo in a private mount namespace.
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# run with cwd /repo after the build; exit 0: the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 9
trap 'rm -rf "$tmp"' EXIT
clang++-18 -std=gnu++20 -w -mavx2 -g1 %(flags)s -I. "$here/demo.cc" %(lib)s -o "$tmp/demo" -lfmt -lpthread || exit 8
cd "$tmp" && ASAN_OPTIONS=%(asan)s UBSAN_OPTIONS=halt_on_error=1 timeout 120 ./demo
'''


def sh(cmd, repo, **kw):
    """runs cmd with `repo` bind-mounted over /repo"""
    script = 'mount --bind "$1" /repo && cd /repo && shift && exec "$@"'
    return subprocess.run(["unshare", "-Urm", "bash", "-c", script, "-", repo] + cmd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def stable():
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def main(spec_path, run_checks=True):
    ns = {}
    exec(open(spec_path).read(), ns)
    sid = ns["ID"]
    d = os.path.join(V, "seeded", sid)
    work = tempfile.mkdtemp(prefix="seed_%s_" % sid, dir="/tmp")
    repo = os.path.join(work, "repo")
    try:
        subprocess.check_call(["cp", "-a", "/repo", repo])
        subprocess.check_call(["git", "-C", repo, "checkout", "-q", "--", "."])
        os.makedirs(d, exist_ok=True)
        flags = ns.get("FLAGS", "-O0 -fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=all")
        open(os.path.join(d, "demo.cc"), "w").write(ns["DEMO"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH % dict(flags=flags, lib=ns.get("LIB", "arena/arena.cc arena/metrics.cc"), asan=ns.get("ASAN", "detect_leaks=1:allocator_may_return_null=1")))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump(dict(property=ns["PROPERTY"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        r = sh(["bash", os.path.join(d, "demo.sh")], repo)
        if r.returncode != 0:
            print(sid, "DEMO FAILS ON THE UNCHANGED TREE", r.returncode, r.stdout[-1500:]); return False
        for f, old, new in ns["EDITS"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(sid, "EDIT matches %d times: %r" % (s.count(old), old)); return False
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", repo, "diff"], stdout=subprocess.PIPE, text=True).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        orig = set()
        for f in {e[0] for e in ns["EDITS"]}:
            orig |= set(subprocess.run(["git", "-C", repo, "show", "18aa853:" + f], stdout=subprocess.PIPE, text=True).stdout.splitlines())
        if not any(l[1:] in orig and len(l.strip()) > 6 for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")):
            print(sid, "CHANGES NO LINE OF THE ORIGINAL REPOSITORY"); return False
        r = sh(["bash", os.path.join(d, "demo.sh")], repo)
        if r.returncode in (0, 8, 9):
            print(sid, "DEMO DOES NOT FAIL WITH THE CHANGE", r.returncode, r.stdout[-1500:]); return False
        if ns.get("SKIP_TESTS") is None:
            r = sh(["bash", "/opt/vp/build.sh"], repo)
            if r.returncode != 0:
                print(sid, "BUILD FAILS", r.stdout[-1500:]); return False
            out = os.path.join(work, "o.json")
            sh(["bash", "/opt/vp/test.sh", out], repo)
            miss = stable() - set(json.load(open(out))["passed"])
            if miss:
                print(sid, "TESTS FAIL:", sorted(miss)[:5]); return False
        if run_checks:
            env = dict(os.environ, VERIF_OUT=work, VERIF_SEED="1", VERIF_TIER="quick")
            r = sh(["python3", os.path.join(V, "check.py"), ns["PROPERTY"]], repo, env=env)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(sid, ns["PROPERTY"], "CAUGHT" if r.returncode == 1 and v else "MISSED rc=%d" % r.returncode, "|",
                  " ".join(l for l in r.stdout.splitlines() if "REPLAY-FAILS" in l)[:200] if v else r.stdout[-300:])
        return True
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    bad = [p for p in sys.argv[1:] if not main(p)]
    sys.exit(1 if bad else 0)
