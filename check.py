#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--only prop] [--scale x] : decide one property.

Builds the harnesses from /repo's working tree, searches, replays any failure three
times, writes evidence/<property>.json. Exit 0: held. Exit 1 + VIOLATION line: broken.
"""
import argparse, importlib, json, os, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build, pbt
from checks import CHECKS

VERIF = os.path.dirname(os.path.abspath(__file__))

def known_for(pid):
    ids = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                kid, what = rest.split(" ", 1)
                ids[kid.split("=", 1)[1]] = what
    return ids

def env_asan():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096:handle_abort=0:detect_stack_use_after_return=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1"
    e["TSAN_OPTIONS"] = "halt_on_error=1:report_signal_unsafe=0"
    return e

# Harnesses whose cases start threads: their oracles do not depend on the schedule, so that a failed
# assertion counts even when the schedule that failed does not come up again.
SCHEDULED = ("h_pool", "h_conc", "h_decode")
INCONCLUSIVE = ("did not finish", "stopped making progress", "did not terminate", "Killed")

def confirm(kind, name, x, p, known, scratch):
    """Replay a failure: it counts when it fails three times."""
    fails = runs = 0
    def once(i, extra=()):
        r = subprocess.run([x, "--replay", p["replay"], "--scratch", os.path.join(scratch, "r%d" % i), "--known", ",".join(known)] + list(extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env_asan())
        return r.returncode == 1
    if kind == "cxx" and name in SCHEDULED:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            fails = sum(ex.map(lambda i: once(i, ["--repeat", "12"]), range(8)))
        print("NOTE: %d of 8 series of up to 12 replays with --repeat 12 failed again" % fails)
        return fails > 0 or not any(w in p["msg"] for w in INCONCLUSIVE)
    while runs < 3 or (0 < fails < runs and fails < 3 and runs < 12):
        runs += 1
        if kind == "cxx":
            fails += once(runs)
        else:
            fails += bool(pbt.replay(x.PROPS, p["replay"], set(known), scratch)[0])
    if fails < 3:
        print("NOTE: a failure of %s did not reproduce (%d of %d replays); inconclusive: %s" % (p["prop"], fails, runs, p["msg"][:300]))
    return fails >= 3

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--only"); ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--build-only", action="store_true")
    ap.add_argument("--verbose", "-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    spec = CHECKS[a.pid]
    known = known_for(a.pid)
    comps = []
    for kind, name, variant in spec["parts"]:
        if kind == "cxx":
            comps.append((kind, name, build.harness(name, variant)))
        else:
            mod = importlib.import_module("pychecks." + name)
            mod.prepare(build)
            comps.append((kind, name, mod))
    build_s = time.time() - t0
    if a.build_only:
        return 0
    rdir = os.path.join(VERIF, "evidence", "replay", a.pid)
    shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % a.pid)
    reports, bad, confirmed = [], None, False
    budget = 600.0 if a.tier == "quick" else 6 * 3600.0
    try:
        for part, (kind, name, x) in enumerate(comps):
            left = max(30.0, budget - (time.time() - t0))
            if kind == "cxx":
                outp = os.path.join(scratch, name + ".json"); cs = os.path.join(scratch, name + ".d")
                cmd = [x, "--seed", str(a.seed + 1000 * part), "--tier", a.tier, "--out", outp, "--replay-dir", rdir, "--scratch", cs,
                       "--known", ",".join(known), "--max-s", str(left), "--scale", "%d/1000" % int(a.scale * 1000)]
                if a.only: cmd += ["--only", a.only]
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env_asan())
                if r.returncode not in (0, 1) or not os.path.exists(outp):
                    print("harness %s ended with %d\n%s" % (name, r.returncode, r.stdout[-3000:])); return 2
                rep = json.load(open(outp))
            else:
                rep = pbt.run_props(name, x.PROPS, a.seed, a.tier == "thorough", set(known), rdir, scratch, only=a.only, max_s=left, scale=a.scale)
            reports.append(rep)
            for p in rep["props"]:
                print("%-4s %-28s %8d cases %8d nontrivial %6d discarded %6.1fs %s" % (a.pid, rep["harness"] + "." + p["prop"], p["evals"], p["nontrivial"], p["discards"], p["wall"], "FAILED: " + p["msg"][:400] if p["failed"] else ""))
                if a.verbose:
                    for l, n in sorted(p["labels"].items()): print("        %7d %s" % (n, l))
                if p["failed"] and not confirmed:
                    bad, confirmed = p, confirm(kind, name, x, p, known, scratch)
            if confirmed: break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    props = [dict(p, harness=r["harness"]) for r in reports for p in r["props"]]
    samples = []
    for p in props:
        samples += ["[%s.%s]\n%s" % (p["harness"], p["prop"], x) for x in p["samples"][:1]]
    hits = {}
    for p in props:
        for k, n in p["known"].items(): hits[k] = hits.get(k, 0) + n
    ev = dict(property=a.pid, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=a.seed, level="exploration",
              coverage=dict(evaluations=sum(p["evals"] for p in props), distinct_nontrivial=sum(p["distinct"] for p in props),
                            rule=spec["rule"], samples=samples[:12],
                            per_law={p["harness"] + "." + p["prop"]: dict(cases=p["evals"], nontrivial=p["nontrivial"], distinct=p["distinct"], discarded=p["discards"], classes=p["labels"]) for p in props},
                            known_findings_hit=hits, build_s=round(build_s, 1), truncated=any(r.get("truncated") for r in reports) or any(p.get("truncated") for p in props)),
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=1 if bad and confirmed else 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, what in known.items():
        print("KNOWN-FINDING: property=%s %s (%s; hit %d times)" % (a.pid, what, k, hits.get(k, 0)))
    if bad and confirmed:
        print(open(bad["replay"], errors="replace").read()[:3000])
        print("VIOLATION property=%s replay=%s" % (a.pid, os.path.relpath(bad["replay"], VERIF)))
        return 1
    print("%s held: %d cases, %d distinct non-trivial, build %.1fs, total %.1fs" % (a.pid, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], build_s, time.time() - t0))
    return 0

if __name__ == "__main__":
    try:
        rc = main()
    except build.BuildError as e:
        print("BUILD ERROR: %s" % e); rc = 2
    sys.stdout.flush()
    sys.exit(rc)
