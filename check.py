#!/usr/bin/env python3
"""check.py PROP          run the check of one property (VERIF_SEED, VERIF_TIER)
check.py replay FILE   replay a violation; exit 1 if it still happens"""
import json, os, re, subprocess, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from props import PROPS, REAL, STUB

VERIF = build.VERIF
WORKERS = 8


def sh(args, **kw):
    return subprocess.run(args, capture_output=True, text=True, errors="replace", **kw)


def run_plan(exe, prop, plan, tmp):
    f = os.path.join(tmp, "p%d.plan" % os.getpid())
    open(f, "w").write(plan)
    p = sh([exe, "run", prop, f])
    m = re.search(r"^VIOLATED (.*?): (.*)$", p.stdout, re.M)
    h = re.search(r"^HASH (\d+)$", p.stdout, re.M)
    if p.returncode not in (0, 1) or not h:
        raise SystemExit("harness error while replaying:\n" + p.stdout[-2000:] + p.stderr[-2000:])
    return (m.group(1), m.group(2), h.group(1)) if m else (None, None, h.group(1))


def load_known():
    r = []
    f = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("{"):
                r.append(json.loads(l))
    return r


def replay(path):
    text = open(path).read()
    prop = re.search(r"^# property (\S+)", text, re.M).group(1)
    exe = build.BUILDERS[PROPS[prop]["world"]]()
    with tempfile.TemporaryDirectory() as tmp:
        cls, detail, h = run_plan(exe, prop, text, tmp)
    print("trace hash", h)
    if cls:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print(cls + ": " + detail)
        return 1
    print("no violation")
    return 0


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[prop]
    t0 = time.time()
    exe = build.BUILDERS[P["world"]]()
    t_build = time.time() - t0
    count = P["quick"] if tier == "quick" else P.get("thorough", P["quick"] * 40)
    cap = 240 if tier == "quick" else 3600
    if os.environ.get("SIM_COUNT"):
        count = int(os.environ["SIM_COUNT"])
    per = (count + WORKERS - 1) // WORKERS
    base = (seed % 1000000) * 100000000
    known = [k for k in load_known() if k.get("property") == prop and k.get("status") == "known"]
    known_hits = []
    with tempfile.TemporaryDirectory() as tmp:
        procs = []
        for w in range(WORKERS):
            out = os.path.join(tmp, "w%d.json" % w)
            procs.append((out, subprocess.Popen([exe, "batch", prop, tier, str(base + w * per), str(per), str(cap), out],
                                                stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
        res = []
        for out, p in procs:
            err = p.communicate()[1]
            if p.returncode != 0:
                sys.stderr.write(err.decode(errors="replace")[-3000:])
                raise SystemExit(3)
            res.append(json.load(open(out)))
        t_run = time.time() - t0 - t_build
        runs = sum(r["runs"] for r in res)
        hashes, states, stats, samples, cands = set(), set(), {}, [], []
        for r in res:
            hashes.update(r["hashes"])
            states.update(r["states"])
            samples += r["samples"][:1]
            cands += r["violations"]
            for k, v in r["stats"].items():
                stats[k] = stats.get(k, 0) + v
        cands.sort(key=lambda v: (v["cls"] in ("hang",), v["seed"]))

        def matches(k, cls, detail):
            return re.fullmatch(k.get("cls", ".*"), cls) and re.search(k.get("detail", ""), detail or "")

        confirmed, unstable = None, 0
        for v in cands:
            a = run_plan(exe, prop, v["plan"], tmp)
            b = run_plan(exe, prop, v["plan"], tmp)
            if a[0] is None and b[0] is None:
                unstable += 1
                continue
            cls, detail = (a if a[0] else b)[:2]
            hit = [k for k in known if matches(k, cls, detail)]
            if hit:
                continue
            confirmed = (v, cls, detail, a[2] == b[2])
            break
        for k in known:
            if k.get("plan"):
                cls, detail, _ = run_plan(exe, prop, k["plan"], tmp)
                if cls and matches(k, cls, detail):
                    known_hits.append(k)
        rc = 0
        for k in known_hits:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        violation = None
        if confirmed:
            v, cls, detail, stable = confirmed
            src, dst = os.path.join(tmp, "v.plan"), os.path.join(tmp, "m.plan")
            open(src, "w").write(v["plan"])
            sh([exe, "min", prop, src, dst, "25" if tier == "quick" else "120"])
            mini = open(dst).read() if os.path.exists(dst) else v["plan"]
            c2 = run_plan(exe, prop, mini, tmp)
            if not c2[0]:
                mini, c2 = v["plan"], run_plan(exe, prop, v["plan"], tmp)
            c3 = run_plan(exe, prop, mini, tmp)
            rdir = os.path.join(VERIF, "replays")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-%d.plan" % (prop, v["seed"]))
            open(path, "w").write("# property %s\n# seed %d\n# violation %s: %s\n# trace hash %s\n# replay: python3 check.py replay %s\n%s"
                                  % (prop, v["seed"], c2[0] or cls, c2[1] or detail, c2[2], path, mini))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  seed %d, %s: %s" % (v["seed"], c2[0] or cls, c2[1] or detail))
            print("  minimised plan (%d lines), replayed twice, traces %s" % (len(mini.strip().split("\n")), "identical" if c2[2] == c3[2] else "DIFFER"))
            violation = {"class": c2[0] or cls, "seed": v["seed"], "replay": path}
            rc = 1
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")}
    other = {k: v for k, v in sorted(stats.items()) if not k.startswith("fault:")}
    if not samples and runs:
        samples = [{"note": "no run with a fault"}]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": P.get("level", "exploration"),
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(hashes),
            "rule": P["rule"],
            "samples": samples[:4],
            "seeds_per_hour": int(runs / max(t_run, 1e-9) * 3600),
            "seeds": [base, base + per * WORKERS - 1],
            "fault_kinds_injected": faults,
            "counters": other,
            "simulated_time": P.get("time", ("%d scheduler steps (memory accesses, synchronisations, I/O events); " % other["steps"] if "steps" in other else "") + "the clock advances only when the simulator says so; " + str(other.get("clock_seconds", 0)) + " s of simulated time"),
            "distinct_states": len(states),
            "state_measure": P["measure"],
            "real_components": REAL[P["world"]],
            "stub_components": STUB[P["world"]],
            "unstable_candidates": unstable,
            "known_findings": [k["what"] for k in known_hits],
        },
        "assumptions": P.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": rc,
    }
    if violation:
        ev["coverage"]["violation"] = violation
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    f = os.path.join(VERIF, "evidence", prop + ".json")
    json.dump(ev, open(f + ".tmp", "w"), indent=1)
    os.rename(f + ".tmp", f)
    print("%s %s: %d runs (%d distinct non-trivial), %d states, %d faults fired, build %.0f s, simulation %.0f s, %s"
          % (prop, tier, runs, len(hashes), len(states), sum(faults.values()), t_build, t_run, "VIOLATED" if rc else "held"))
    return rc


if __name__ == "__main__":
    sys.exit(main())
