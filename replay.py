#!/usr/bin/env python3
"""replay.py FILE...: rebuilds the harness from /repo and runs saved cases with a readable trace."""
import os, re, shutil, sys
import check
for f in sys.argv[1:]:
    pid = re.search(r"# property (\S+)", open(f).read()).group(1)
    m = re.search(r"-(dbg|rel|opt|tsan)-", os.path.basename(f))
    conf = dict(check.PROPS[pid])
    if m:
        conf["variants"] = (m.group(1),)
    out = os.path.join(check.VERIF, "build", "replay-%d" % os.getpid())
    os.makedirs(out, exist_ok=True)
    bins = check.compile_all(pid, conf, out)
    for v, b in (bins or {}).items():
        rc, txt = check.replay(b, pid, f, conf, symbolize=True)
        print("== %s (%s)\n%s" % (f, v, txt))
    shutil.rmtree(out, ignore_errors=True)
