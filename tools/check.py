#!/usr/bin/env python3
"""check.py ID: decides one property on the repository's current working tree.

Builds what it needs, runs the property's generators in every configuration
listed in suites.py, writes evidence/<ID>.json.  Exit 0: held on everything
explored; 1 and a VIOLATION line: broken; 2: the check itself could not run.
"""
import json, os, shutil, signal, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from suites import SUITES

VERIF = B.VERIF
def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p, encoding="utf8"):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                out.append(l[len("finding: "):])
    return out

def main():
    pid = sys.argv[1]
    cfg = SUITES[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    thorough = tier == "thorough"
    limit = 6 * 3600 if thorough else 600          # wall clock for all runs together
    outdir = os.path.join(VERIF, "build", "replays")
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evfile = os.path.join(VERIF, "evidence", pid + ".json")
    if os.path.exists(evfile):
        os.unlink(evfile)
    targets = []
    for r in cfg["runs"]:
        targets.append(("prop", pid, r[0]))
    needs = cfg.get("needs", {})
    for k, tg in needs.items():
        targets.append(tuple(tg))
    fuzz_s = cfg.get("fuzz", 0) if thorough else 0
    if fuzz_s:
        targets.append(("fuzz", pid, "fuzz"))
        if ("prop", pid, "san") not in targets:
            targets.append(("prop", pid, "san"))
    targets = list(dict.fromkeys(targets))
    try:
        paths = B.build(targets)
    except B.BuildError as e:
        print("cannot build: %s" % e, file=sys.stderr)
        return 2
    tb = time.time() - t0
    print("%s: built in %.1fs" % (pid, tb), flush=True)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "configurations": {}},
          "wall_s": 0, "violations": 0, "assumptions": cfg.get("assumptions", [])}
    cov = ev["coverage"]
    rc = 0
    try:
        for ri, r in enumerate(cfg["runs"]):
            flavor, sc = r[0], r[2] if thorough else r[1]
            opts = r[3] if len(r) > 3 else {}
            part_ev = os.path.join(scratch, "ev%d.json" % ri)
            left = limit - (time.time() - t0)
            cmd = [paths[("prop", pid, flavor)], "--seed=%d" % (seed * 1000 + ri), "--tier=" + tier, "--scale=%g" % sc,
                   "--outdir=" + outdir, "--evidence=" + part_ev, "--max-wall=%d" % max(30, left),
                   "--scratch=" + scratch]
            for k, v in opts.items():
                cmd.append("--%s=%s" % (k, v))
            for k, tg in needs.items():
                cmd.append("--%s=%s" % (k, paths[tuple(tg)]))
            env = dict(os.environ)
            env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0:symbolize=1"
            env["UBSAN_OPTIONS"] = "print_stacktrace=1:abort_on_error=1"
            env["TSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1"
            env["LC_ALL"] = "C.UTF-8"
            env["REPO"] = B.REPO
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
            out = p.stdout.decode("utf8", "replace")
            err = p.stderr.decode("utf8", "replace")
            if err.strip():
                sys.stderr.write(err[-4000:] + "\n")
            try:
                d = json.load(open(part_ev, encoding="utf8", errors="replace"))
            except Exception as e:
                sys.stdout.write(out[-4000:])
                print("%s run left no result (exit %s): %s" % (flavor, p.returncode, e), file=sys.stderr)
                return 2
            cov["evaluations"] += d["evaluations"]
            cov["distinct_nontrivial"] += d["distinct_nontrivial"]
            cov["rule"] = d["rule"]
            if ri == 0 or not cov["samples"]:
                cov["samples"] += d["samples"]
            cov["configurations"]["%d %s" % (ri, flavor)] = {"wall_s": d["wall_s"], "parts": d["parts"]}
            if d["unreproduced"]:
                cov["unreproduced"] = cov.get("unreproduced", "") + d["unreproduced"]
            print("%s: %s: %d cases, %d distinct non-trivial, %.1fs" % (pid, flavor, d["evaluations"], d["distinct_nontrivial"], d["wall_s"]), flush=True)
            if p.returncode not in (0, 1):
                sys.stdout.write(out[-4000:])
                return 2
            if p.returncode == 1:
                sys.stdout.write(out[-12000:])
                if "VIOLATION property=" not in out:
                    return 2
                ev["violations"] += 1
                rc = 1
                break
        if fuzz_s and rc == 0:
            rc = fuzz(pid, paths, fuzz_s, seed, scratch, outdir, ev)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        ev["wall_s"] = round(time.time() - t0, 2)
        ev["coverage"]["build_s"] = round(tb, 2)
        tmp = evfile + ".tmp"
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, evfile)
    if rc == 0:
        for k in known_findings(pid):
            print("KNOWN-FINDING: " + k)
    return rc

def fuzz(pid, paths, secs, seed, scratch, outdir, ev):
    """libFuzzer drives the same generators; a crash is turned into a replay file."""
    corpus = os.path.join(scratch, "corpus")
    os.makedirs(corpus)
    art = os.path.join(scratch, "art")
    os.makedirs(art)
    n = B.JOBS
    procs = []
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1")
    for i in range(n):
        log = open(os.path.join(scratch, "fuzz%d.log" % i), "wb")
        procs.append((subprocess.Popen([paths[("fuzz", pid, "fuzz")], "-max_total_time=%d" % secs, "-seed=%d" % (seed * 100 + i + 1),
                      "-artifact_prefix=%s/%d-" % (art, i), "-max_len=4096", "-timeout=60", "-rss_limit_mb=3000", "-reload=30",
                      "-print_final_stats=1", corpus], stdout=log, stderr=log, env=env), log))
    for p, log in procs:
        p.wait()
        log.close()
    execs, cover = 0, 0
    for i in range(n):
        for l in open(os.path.join(scratch, "fuzz%d.log" % i), errors="replace"):
            if l.startswith("stat::number_of_executed_units:"):
                execs += int(l.split()[-1])
            elif " cov: " in l:
                try:
                    cover = max(cover, int(l.split(" cov: ")[1].split()[0]))
                except ValueError:
                    pass
    ev["coverage"]["fuzz"] = {"executions": execs, "edges_covered": cover, "seconds": secs, "processes": n, "corpus": len(os.listdir(corpus))}
    ev["coverage"]["evaluations"] += execs
    print("%s: fuzz: %d executions, %d edges" % (pid, execs, cover), flush=True)
    for a in sorted(os.listdir(art)):
        if "oom" in a or "timeout" in a or "slow" in a:
            continue                    # resource limits of the fuzzer, not verdicts
        p = subprocess.run([paths[("prop", pid, "san")], "--bytes=" + os.path.join(art, a), "--outdir=" + outdir, "--scratch=" + scratch],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1", UBSAN_OPTIONS="abort_on_error=1"))
        out = p.stdout.decode("utf8", "replace")
        if p.returncode == 1:
            print(out)
            print("VIOLATION property=%s replay=%s" % (pid, os.path.join(outdir, pid + "-fuzz.replay")))
            ev["violations"] += 1
            return 1
    return 0

if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        sys.exit(2)
