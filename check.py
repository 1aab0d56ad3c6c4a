#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: builds the simulators from /repo's working tree and decides one property.

exit 0: held on every simulated run; exit 1: VIOLATION line and replay file; 3: error of the check itself.
"""
import array, json, os, re, subprocess, sys, tempfile, time, shutil
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build as B
from plan import PLAN, ASSUMPTIONS

def read_known():
    """KNOWN_FINDINGS.txt: 'known: property=<id> key=<scenario:key> | <what>' tolerates exactly that failure key."""
    out = {}
    for l in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
        m = re.match(r"known: property=(\S+) key=(.*?) \| (.*)", l.strip())
        if m:
            out.setdefault(m.group(1), []).append({"key": m.group(2), "what": m.group(3)})
    return out

def fail(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(3)

def load64(path):
    a = array.array("Q")
    n = os.path.getsize(path) // 8
    with open(path, "rb") as f:
        a.fromfile(f, n)
    return a

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    plan = PLAN[prop]
    t0 = time.time()
    targets = [t for t, _ in plan["targets"]]
    rc, out = B.build(targets)
    if rc:
        sys.stderr.write(out[-4000:])
        fail("the simulator does not build from the current tree")
    tb = time.time() - t0
    known = read_known().get(prop, [])
    scratch = tempfile.mkdtemp(prefix="sim-%s-" % prop)
    replays = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(replays, exist_ok=True)
    for f in os.listdir(replays):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(replays, f))
    try:
        code = explore(prop, tier, seed, plan, known, scratch, replays, t0, tb)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)

def explore(prop, tier, seed, plan, known, scratch, replays, t0, tb):
    kf = os.path.join(scratch, "known")
    with open(kf, "w") as f:
        for k in known:
            f.write(k["key"] + "\n")
    runs, cap = plan[tier]
    workers = 8
    jobs = []
    for ti, (t, share) in enumerate(plan["targets"]):
        n = max(1, int(runs * share))
        w = max(1, round(workers * share / sum(s for _, s in plan["targets"])))
        for i in range(w):
            jobs.append((t, seed * 16 + ti, i, w, (n + w - 1) // w))
    ps = []
    for j, (t, sd, i, w, n) in enumerate(jobs):
        ps.append(subprocess.Popen([os.path.join(B.BUILD, t), "run", "--prop", prop, "--seed", str(sd), "--first", str(i), "--stride", str(w),
            "--count", str(n), "--secs", str(cap), "--dir", scratch, "--known", kf,
            "--hashes", os.path.join(scratch, "h%d" % j), "--schedules", os.path.join(scratch, "s%d" % j)],
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace"))
    res = []
    for p in ps:
        o, e = p.communicate()
        try:
            res.append(json.loads(o))
        except Exception:
            fail("a simulator worker gave no result (exit %s): %s %s" % (p.returncode, o[-300:], e[-300:]))
    hashes, scheds = set(), set()
    for j in range(len(jobs)):
        hashes.update(load64(os.path.join(scratch, "h%d" % j)))
        scheds.update(load64(os.path.join(scratch, "s%d" % j)))
    tot = lambda k: sum(r[k] for r in res)
    def merge(k):
        d = {}
        for r in res:
            for n, v in r[k].items():
                d[n] = d.get(n, 0) + v
        return dict(sorted(d.items()))
    t_explore = time.time() - t0 - tb
    errors = [r["errors"] for r in res if r["errors"]]
    viols, seen = [], set()
    for (t, *_), r in zip(jobs, res):
        for v in r["violations"]:
            if v["key"] not in seen:
                seen.add(v["key"])
                viols.append((t, v))
    reported = []
    for n, (t, v) in enumerate(viols[:4]):
        exe = os.path.join(B.BUILD, t)
        dst = os.path.join(replays, "%s-%s-%d.replay" % (prop, t, n))
        s = subprocess.run([exe, "shrink", v["replay"], dst, "--secs", "20" if n == 0 else "8"], capture_output=True, text=True, errors="replace")
        if s.returncode != 0:                     # keep the run as found
            shutil.copy(v["replay"], dst)
        a = subprocess.run([exe, "replay", dst], capture_output=True, text=True, errors="replace")
        b = subprocess.run([exe, "replay", dst], capture_output=True, text=True, errors="replace")
        if a.returncode != 1 or b.returncode != 1 or a.stdout != b.stdout:
            shutil.copy(v["replay"], dst)
            a = subprocess.run([exe, "replay", dst], capture_output=True, text=True, errors="replace")
            if a.returncode != 1:
                errors.append("replay in a fresh process did not reproduce %s: %s" % (v["key"], a.stdout[-300:]))
                continue
        reported.append((v, dst))
    wall = time.time() - t0
    khits = merge("known")
    nruns = tot("runs")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": plan.get("level", "exploration"),
        "coverage": {
            "evaluations": nruns,
            "distinct_nontrivial": len(hashes),
            "rule": plan["rule"] + " Distinct: different hash of the recorded history (inputs, results, order of events, schedule) over all workers; trivial, discarded and failing runs are not counted.",
            "samples": [s for r in res for s in r["samples"]][:4],
            "nontrivial_runs": tot("nontrivial"),
            "discarded_runs": tot("discarded"),
            "distinct_schedules": len(scheds),
            "runs_per_hour": int(nruns / max(t_explore, 0.001) * 3600),
            "seeds_per_hour": int(nruns / max(t_explore, 0.001) * 3600),
            "simulated_time_basic_blocks": tot("steps"),
            "simulated_time_longest_run": max(r["max_steps"] for r in res),
            "context_switches": tot("switches"),
            "faults_injected": merge("faults"),
            "reached": merge("reached"),
            "runs_per_scenario": merge("scenarios"),
            "runs_per_library_build": {t: sum(r["runs"] for (tt, *_), r in zip(jobs, res) if tt == t) for t, _ in plan["targets"]},
            "same_seed_twice_checks": tot("repeat_checks"),
            "library_blocks_covered_max": max(r["cover_bits"] for r in res),
            "real_components": plan["real"], "stubbed_components": plan["stub"],
            "build_s": round(tb, 1), "explore_s": round(t_explore, 1),
            "known_findings_hit": khits,
        },
        "assumptions": ASSUMPTIONS + plan.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(reported),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        print("KNOWN-FINDING: property=%s %s [%s]" % (prop, k["what"], k["key"]))
    print("%s %s: %d runs (%d non-trivial distinct, %d discarded), %d schedules, %d faults, %.1f s" % (
        prop, tier, nruns, len(hashes), tot("discarded"), len(scheds), sum(merge("faults").values()), wall))
    if reported:
        for v, dst in reported:
            print("  %s: %s" % (v["key"], v["msg"][:600]))
        for v, dst in reported:
            print("VIOLATION property=%s replay=%s" % (prop, dst), flush=True)
        return 1
    if errors:
        fail("; ".join(errors)[:2000])
    if len(hashes) < plan.get("min_distinct", 50):
        fail("only %d distinct non-trivial runs: the exploration is broken" % len(hashes))
    return 0

if __name__ == "__main__":
    main()
