#!/usr/bin/env python3
"""One check: bin/check.py PROPERTY [quick|thorough]

Builds the simulator from /repo's working tree, runs a fixed number of
simulated executions (decided by VERIF_SEED and the tier only), and reports.
Exit 0: held on everything explored.  Exit 1: VIOLATION line, with a replay
file that was reproduced exactly in a fresh process.  Exit 2: the check could
not decide (build failure, nondeterminism, unreproducible violation).
"""
import json, os, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHUNKS = 4
# deadline in seconds after which no further chunk is started (the runs done so
# far are what the evidence reports); far above the usual duration
DEADLINE = {"quick": 420, "thorough": 6 * 3600}
THOROUGH_FACTOR = 40

REAL = ["every .c file under /repo/Src, compiled twice from the working tree: -O0 with signed char, -O2 with unsigned char"]
STUB = ["C library memory/string/allocation calls made by the library: replaced by byte-wise equivalents with access checks and preemption points",
        "threads, interrupts, CPU scheduling: coroutines under the seeded scheduler",
        "time: simulated ticks; library calls advance one step per memory access or basic block",
        "communication links, peers, memory contents at start-up and after a crash: simulator"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, encoding="utf-8", errors="replace", **kw)


def die(msg, code=2):
    print("ERROR: " + msg)
    sys.exit(code)


def known_findings(prop):
    """Entries `known: PROP | class | substring of the violation | description`."""
    res = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known:"):
                f = [x.strip() for x in line[6:].split("|")]
                if len(f) == 4 and f[0] == prop:
                    res.append(f)
    return res


def main():
    sys.stdout.reconfigure(errors="backslashreplace")
    if len(sys.argv) < 2:
        die(__doc__)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in DEADLINE:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    seed &= (1 << 63) - 1
    t0 = time.time()
    print("VERIF_SEED=%d property=%s tier=%s" % (seed, prop, tier), flush=True)
    b = sh(["bash", os.path.join(V, "bin/build.sh")])
    if b.returncode:
        die("build failed\n" + b.stdout + b.stderr[-4000:])
    sim = b.stdout.strip().splitlines()[-1]
    runs = dict((l.split()[0], int(l.split()[1])) for l in sh([sim, "list"]).stdout.splitlines())
    if prop not in runs:
        die("no workload decides " + prop)
    total = runs[prop] * (THOROUGH_FACTOR if tier == "thorough" else 1)
    scale = os.environ.get("VERIF_RUNS_SCALE")
    if scale:
        total = max(1000, int(total * float(scale)))
    workers = min(8, max(1, len(os.sched_getaffinity(0))))
    scratch = os.path.join(V, "build", "scratch.%s.%d" % (prop, os.getpid()))
    os.makedirs(scratch)
    known = known_findings(prop)
    kf = os.path.join(scratch, "known")
    with open(kf, "w") as f:
        for k in known:
            f.write("%s\t%s\t%s\n" % (k[0], k[1], k[2]))

    def run(a, z, w, selfcheck):
        c = [sim, "run", prop, str(seed), str(a), str(z), str(w), os.path.join(scratch, "h")]
        if selfcheck:
            c.append("selfcheck")
        if known:
            c += ["known", kf]
        r = sh(c)
        if r.returncode == 9:
            die("nondeterminism: " + r.stderr.strip())
        if r.returncode not in (0, 1):
            die("simulator failed (%d): %s" % (r.returncode, (r.stdout + r.stderr)[-2000:]))
        return json.loads(r.stdout)

    acc = {"runs": 0, "steps": 0, "switches": 0, "ticks": 0, "ops": 0, "nontrivial": 0, "distinct": 0, "max_steps": 0, "edges": 0, "edges_total": 0}
    stats, samples, viol, knownhits, rule, simwall, cut = {}, [], None, {}, "", 0.0, False
    try:
        # the same runs in other processes at another worker count give the same events
        n = min(total, max(1000, total // 200))
        a = run(0, n, workers, False)
        if not a["violation"]:
            c = run(0, n, 3, False)
            if a["digest"] != c["digest"] or a["steps"] != c["steps"]:
                die("nondeterminism: event digests differ between worker counts")
        # larger batches make the distinct count exact within a batch; batches draw disjoint seeds
        nchunk = CHUNKS if tier == "quick" else THOROUGH_FACTOR
        for k in range(nchunk):
            lo, hi = total * k // nchunk, total * (k + 1) // nchunk
            if time.time() - t0 > DEADLINE[tier]:
                cut = True
                break
            r = run(lo, hi, workers, True)
            for x in acc:
                acc[x] = max(acc[x], r[x]) if x in ("max_steps", "edges", "edges_total") else acc[x] + r[x]
            for x, v in r["stats"].items():
                stats[x] = stats.get(x, 0) + v
            for h in r["known"]:
                knownhits[h["entry"]] = knownhits.get(h["entry"], 0) + h["runs"]
            rule = r["rule"]
            simwall += r["wall"]
            if len(samples) < 3:
                samples += r["samples"][:1]
            if r["violation"]:
                viol = r["violation"]
                break
        rc = 0
        if viol:
            rc = report(sim, prop, seed, viol, scratch)
    finally:
        for f in os.listdir(scratch):
            os.unlink(os.path.join(scratch, f))
        os.rmdir(scratch)
    for i, k in enumerate(known):
        print("KNOWN-FINDING: property=%s %s (%d runs)" % (prop, k[3], knownhits.get(i, 0)))
    wall = time.time() - t0
    faults = dict((k[6:], v) for k, v in sorted(stats.items()) if k.startswith("fault."))
    probes = dict((k[6:], v) for k, v in sorted(stats.items()) if k.startswith("probe."))
    other = dict((k, v) for k, v in sorted(stats.items()) if not k.startswith(("fault.", "probe.")))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": acc["runs"],
            "distinct_nontrivial": acc["distinct"],
            "rule": rule + " Counted as non-trivial: at least three completed library calls and at least one fault or preemption actually fired. Distinct: different (event digest, interleaving digest) pairs, exact within each batch of the run range; batches use disjoint seeds.",
            "samples": samples or [{"violation": viol}],
            "nontrivial_runs": acc["nontrivial"],
            "simulated_runs_per_hour": int(acc["runs"] / simwall * 3600) if simwall else 0,
            "seeds_per_hour": int(acc["runs"] / simwall * 3600) if simwall else 0,
            "run_seeds": "run i uses a PRNG seeded from (VERIF_SEED, property, i), i in [0, %d)" % acc["runs"],
            "simulated_time": {"scheduler_ticks": acc["ticks"], "steps_memory_access_or_basic_block": acc["steps"], "longest_run_steps": acc["max_steps"]},
            "library_calls": acc["ops"],
            "task_switches": acc["switches"],
            "faults_injected": faults,
            "rare_condition_probes": probes,
            "other_counters": other,
            "library_edges_reached": acc["edges"], "library_edges_total_both_builds": acc["edges_total"],
            "determinism": "%d runs repeated at another worker count with equal event digests; every 251st run repeated from its seed and from its recorded choices" % n,
            "components_real": REAL, "components_stub": STUB,
            "workers": workers,
            "stopped_at_deadline": cut,
        },
        "assumptions": [
            "preemption is modelled between memory accesses and basic blocks of the compiled library under sequential consistency (one core with interrupts or a preemptive kernel), not weak memory ordering",
            "sampling: a clean batch is evidence, not proof",
            "the reference models in /verif/sim (self-tested against published constants at start-up) state what is right",
        ],
        "wall_s": round(wall, 2),
        "violations": 1 if viol else 0,
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    p = os.path.join(V, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(p + ".tmp", p)
    if rc == 0:
        print("%s held on %d simulated runs (%d distinct non-trivial), %d library calls, %.1f s" % (prop, acc["runs"], acc["distinct"], acc["ops"], wall))
        zero = [k for k, v in list(faults.items()) + list(probes.items()) if v == 0]
        if zero:
            print("note: never reached: " + ", ".join(zero))
    sys.exit(rc)


def report(sim, prop, seed, viol, scratch):
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    path = os.path.join(V, "replays", "%s-seed%d-run%d.replay" % (prop, seed, viol["run"]))
    for secs in ("45", "0"):  # minimised; if that does not reproduce, the original choices
        r = sh([sim, "shrink", prop, str(seed), str(viol["run"]), path, secs])
        if r.returncode == 1:
            p = sh([sim, "replay", path])
            if p.returncode == 1 and "REPRODUCED" in p.stdout:
                print(r.stdout.strip())
                print("first failing run: seed %d run %d (%s: %s)" % (seed, viol["run"], viol["class"], viol["msg"]))
                print("replay with: %s replay %s" % (sim, path))
                print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
                return 1
    die("violation in run %d (%s: %s) did not reproduce in a fresh process: %s" % (viol["run"], viol["class"], viol["msg"], (r.stdout + r.stderr)[-1000:]))


if __name__ == "__main__":
    main()
