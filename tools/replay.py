#!/usr/bin/env python3
"""replay.py FILE [flavor]: runs one replay file against the current tree."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from suites import SUITES
f = sys.argv[1]
pid = [l.split()[1] for l in open(f, errors="replace") if l.startswith("suite ")][0]
fl = sys.argv[2] if len(sys.argv) > 2 else "san" if any(r[0] == "san" for r in SUITES[pid]["runs"]) else SUITES[pid]["runs"][0][0]
needs = SUITES[pid].get("needs", {})
p = B.build([("prop", pid, fl)] + [tuple(t) for t in needs.values()])
env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1", LC_ALL="C.UTF-8", REPO=B.REPO)
sys.exit(subprocess.run([p[("prop", pid, fl)], "--replay=" + f, "--outdir=" + os.path.join(B.BUILD, "replays")] + ["--%s=%s" % (k, p[tuple(t)]) for k, t in needs.items()], env=env).returncode)
