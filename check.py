#!/opt/venv/bin/python
"""check.py C01 [--tier quick|thorough] [--seed N] [--cases N] | check.py --replay FILE

Exit 0: the property held on every simulated run.  Exit 1: VIOLATION line.  Exit 2: the check itself failed.
"""
import argparse
import hashlib
import importlib
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

from sim import pool as pool_mod  # noqa: E402
from sim import shrink as shrink_mod  # noqa: E402

WALL_CAP = 420.0


def load_findings(prop):
    """finding: property=<id> class=<violation class> [match=<text in the message>] what..."""
    out = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding: property=%s " % prop):
                    parts = line.split(" ", 3)
                    cls = parts[2].split("=", 1)[1]
                    out.append((cls, parts[3] if len(parts) > 3 else ""))
    except FileNotFoundError:
        pass
    return out


def is_jit(mod, i):
    every = getattr(mod, "JIT_EVERY", 0)
    return bool(every) and i % every == every - 1


def explore(prop, seed, tier, ncases, workers):
    mod = importlib.import_module("sim.props." + prop.lower())
    t0 = time.monotonic()
    deadline = t0 + (WALL_CAP if tier == "quick" else 3600.0)
    agg = {"done": 0, "nontrivial": set(), "faults": {}, "probes": {}, "states": set(), "simtime": 0.0, "nlog": 0,
           "samples": [], "case_wall": 0.0, "hashseeds": set(), "jit": 0}
    bad = []
    with pool_mod.Pool(workers, twins=getattr(mod, "TWINS", False)) as pool:
        jobs = [{"prop": prop, "seed": seed, "i": i, "tier": tier, "jit": is_jit(mod, i), "want_plan": i < 3}
                for i in range(ncases)]

        def on_result(job, r):
            agg["done"] += 1
            agg["case_wall"] += r.get("wall", 0.0)
            agg["hashseeds"].add(pool.hashseed_of(job["i"]))
            agg["jit"] += bool(job["jit"])
            if r["status"] == "ok":
                if r["nontrivial"]:
                    agg["nontrivial"].add(r["digest"])
                for k, v in r["faults"].items():
                    agg["faults"][k] = agg["faults"].get(k, 0) + v
                for k, v in r["probes"].items():
                    agg["probes"][k] = agg["probes"].get(k, 0) + v
                agg["states"].update(r["states"])
                agg["simtime"] += r["simtime"]
                agg["nlog"] += r["nlog"]
                if job["i"] < 3 and len(agg["samples"]) < 2:
                    agg["samples"].append({"case": job["i"], "plan": r["plan"], "log_tail": r["tail"][-6:]})
            else:
                bad.append((job, r))
        pool.map(jobs, on_result, deadline=deadline, stop=lambda: len(bad) >= 12)
        agg["explore_s"] = time.monotonic() - t0
        reports, harness = [], []
        if bad:
            reports, harness = judge(pool, prop, mod, bad, seed)
    return mod, agg, reports, harness, time.monotonic() - t0


def judge(pool, prop, mod, bad, seed):
    """Confirm, classify and minimise failing runs. One report per violation class."""
    reports, harness = [], []
    seen = {}
    for job, r in sorted(bad, key=lambda b: b[0]["i"]):
        if r["status"] in ("hang", "died"):
            w = [w for w in pool.workers if w.hashseed == pool.hashseed_of(job["i"])][0]
            r2 = w.ask(dict(job, want_plan=True))
            if r2["status"] == r["status"]:
                if r["status"] == "hang":
                    plan_job = dict(job)
                    r["plan"] = None
                    seen.setdefault("hang", (job, r))
                    continue
                harness.append(r)
                continue
            if r2["status"] == "ok":
                harness.append({"cls": "flaky", "msg": "case %d: %s once, fine when repeated" % (job["i"], r["msg"])})
                continue
            r = r2
        if r["status"] == "harness":
            harness.append(r)
        elif r["cls"] not in seen:
            seen[r["cls"]] = (job, r)
    t0 = time.monotonic()
    for cls, (job, r) in seen.items():
        hs = pool.hashseed_of(job["i"])
        worker = [w for w in pool.workers if w.hashseed == hs][0]
        plan = r.get("plan")
        tries = 0
        if plan is not None and len(reports) < 3:
            def still(c):
                q = worker.ask({"prop": prop, "plan": c, "i": 0, "jit": job["jit"]})
                return q["status"] == "violation" and q["cls"] == cls
            plan, tries = shrink_mod.minimise(plan, mod, still, budget_s=max(5.0, 75.0 - (time.monotonic() - t0)))
            final = worker.ask({"prop": prop, "plan": plan, "i": 0, "jit": job["jit"]})
        else:
            final = r
        reports.append({"property": prop, "class": cls, "message": final.get("msg"), "seed": seed, "case": job["i"],
                        "tier": job["tier"], "hashseed": hs, "jit": job["jit"], "plan": plan, "digest": final.get("digest"),
                        "trace": final.get("tail"), "minimisation_tries": tries, "original_plan": r.get("plan")})
    return reports, harness


def replay_one(rep):
    """Run a replay in a fresh process with the recorded hash seed"""
    mod = importlib.import_module("sim.props." + rep["property"].lower())
    with pool_mod.Pool(1, hashseeds=[rep["hashseed"]], twins=getattr(mod, "TWINS", False)) as pool:
        job = {"prop": rep["property"], "i": rep["case"], "jit": rep["jit"], "seed": rep["seed"], "tier": rep["tier"]}
        if rep["plan"] is not None:
            job["plan"] = rep["plan"]
        return pool.workers[0].ask(job)


def write_replay(rep):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(rep["plan"], sort_keys=True, default=repr).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s-%s.json" % (rep["property"], rep["class"].replace("/", "_")[:40], h))
    with open(path, "w") as f:
        json.dump(rep, f, indent=1, sort_keys=True)
    return path


def write_evidence(prop, mod, tier, seed, agg, wall, ncases, nviol, known):
    per_h = 3600.0 / max(agg["explore_s"], 1e-9)
    cov = {
        "evaluations": agg["done"],
        "distinct_nontrivial": len(agg["nontrivial"]),
        "rule": mod.RULE,
        "samples": agg["samples"],
        "cases_requested": ncases,
        "simulated_runs_per_hour": round(agg["done"] * per_h),
        "seeds_per_hour": round(agg["done"] * per_h),
        "simulated_time_s": round(agg["simtime"], 3),
        "logged_events": agg["nlog"],
        "faults_fired": dict(sorted(agg["faults"].items())),
        "probes": dict(sorted(agg["probes"].items())),
        "distinct_states": len(agg["states"]),
        "distinct_states_measure": mod.STATES,
        "hash_seeds": sorted(agg["hashseeds"]),
        "runs_with_jit": agg["jit"],
        "real_components": mod.REAL,
        "stub_components": mod.STUB,
        "processor_s": round(agg["case_wall"], 2),
        "known_findings_hit": known,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov,
          "assumptions": mod.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=repr)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        r = replay_one(rep)
        same = r["status"] in ("violation", "hang") and r["cls"] == rep["class"] and r.get("digest") == rep.get("digest")
        print(json.dumps({"status": r["status"], "class": r["cls"], "digest": r.get("digest"), "recorded": rep["digest"],
                          "reproduced_exactly": same}, indent=1))
        print(r.get("msg") or "")
        for line in (r.get("tail") or [])[-15:]:
            print("  ", line)
        if r["status"] in ("violation", "hang"):
            print("VIOLATION property=%s replay=%s" % (rep["property"], a.replay))
            return 1
        return 0 if r["status"] == "ok" else 2
    prop = a.prop.upper()
    tier = "thorough" if a.tier == "thorough" else "quick"
    mod0 = importlib.import_module("sim.props." + prop.lower())
    n = a.cases or mod0.CASES[tier]
    print("seed %d, property %s, %d simulated runs (%s)" % (a.seed, prop, n, tier), flush=True)
    try:
        mod, agg, reports, harness, wall = explore(prop, a.seed, tier, n, a.workers)
    except pool_mod.WorkerFailed as e:
        print("check error: the workers could not start: %s" % e)
        return 2
    findings = load_findings(prop)
    fresh, known = [], []
    for rep in reports:
        hit = [f for f in findings if f[0] == rep["class"]]
        (known if hit else fresh).append(rep)
    for cls, what in findings:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    code = 0
    for rep in fresh:
        # a break that makes the code nondeterministic may need several attempts, or the plan as it was found
        attempts = 0
        for plan in (rep["plan"], rep["original_plan"]):
            rep["plan"] = plan
            for _ in range(4):
                attempts += 1
                r = replay_one(rep)
                again = r["status"] in ("violation", "hang") and r["cls"] == rep["class"]
                if again or r["status"] not in ("ok", "violation"):
                    break
            if again or plan is None:
                break
        path = write_replay(rep)
        rep["replay_attempts"] = attempts
        rep["replayed"] = {"status": r["status"], "class": r["cls"], "digest": r.get("digest")}
        write_replay(rep)
        if r["status"] in ("violation", "hang") and r["cls"] == rep["class"]:
            print("%s (case %d): %s" % (rep["class"], rep["case"], (rep["message"] or "").strip()[-600:]))
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            code = 1
        else:
            harness.append({"cls": "not-replayable", "msg": "%s did not replay: %s" % (rep["class"], r["cls"])})
    write_evidence(prop, mod, tier, a.seed, agg, wall, n, len(fresh), [r["class"] for r in known])
    print("%d runs in %.1f s, %d distinct non-trivial, %d states, faults %s, probes %s" % (
        agg["done"], wall, len(agg["nontrivial"]), len(agg["states"]), sum(agg["faults"].values()), json.dumps(agg["probes"], sort_keys=True)))
    if code == 0 and harness:
        print("check error (%d): %s" % (len(harness), harness[0]["msg"]))
        return 2
    if code == 0 and agg["done"] < max(1, min(n, mod0.CASES["quick"]) // 5):
        print("check error: only %d of %d runs fitted into the time limit" % (agg["done"], n))
        return 2
    return code


if __name__ == "__main__":
    sys.exit(main())
