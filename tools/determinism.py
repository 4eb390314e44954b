#!/opt/venv/bin/python
"""tools/determinism.py [--cases N] [--seed S] [C01 ...]: the same runs twice, in fresh pools of different size and in another order.

One seed has to be one execution: the digests (of everything a run logged) of both passes are compared. Exit 1 lists the runs that differ.
"""
import argparse
import importlib
import os
import random
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
os.chdir(V)
from check import is_jit           # noqa: E402
from sim import pool as pool_mod   # noqa: E402


def one_pass(prop, seed, n, workers, order):
    mod = importlib.import_module("sim.props." + prop.lower())
    out = {}
    jobs = [{"prop": prop, "seed": seed, "i": i, "tier": "quick", "jit": is_jit(mod, i), "want_plan": False} for i in order]
    # every case has its hash seed: workers that share the processor do not share a case
    with pool_mod.Pool(workers, twins=getattr(mod, "TWINS", False)) as pool:
        pool.map(jobs, lambda job, r: out.__setitem__(job["i"], (r["status"], r.get("digest"), r.get("cls"))))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("props", nargs="*")
    ap.add_argument("--cases", type=int, default=64)
    ap.add_argument("--seed", type=int, default=1)
    a = ap.parse_args()
    props = a.props or sorted(f[:-3].upper() for f in os.listdir("sim/props") if f.startswith("c") and f.endswith(".py"))
    bad = 0
    for p in props:
        order = list(range(a.cases))
        x = one_pass(p, a.seed, a.cases, 8, order)
        random.Random(a.seed).shuffle(order)
        y = one_pass(p, a.seed, a.cases, 8, order)
        diff = [i for i in sorted(x) if x[i] != y.get(i)]
        print("%s: %d runs twice, %d differ%s" % (p, len(x), len(diff), " " + str([(i, x[i], y.get(i)) for i in diff[:5]]) if diff else ""), flush=True)
        bad += len(diff)
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
