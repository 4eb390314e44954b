"""C01 Steady-state results satisfy every declared equation, or the run raises."""
from .. import gen as G, build, backends
from ..core import close
from ..seams import SIM

LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded run histories with injected backend faults, reference-equation oracle"
NOTE = ("Seeded sampling of systems, configurations, parameter histories and one backend fault per run, not exhaustive. Trusts the "
        "reference evaluator in sim/gen.py; equations are accepted within 1e-4 of their largest term.")
CASES = {"quick": 700, "thorough": 40000}
JIT_EVERY = 0
RULE = ("seeded random algebraic systems (linear, nonlinear with a unique root, nonlinear with several or no real roots) over 1-3 "
        "connected models, run 2-4 times on the same objects with parameter changes in between; each run may have one fault of the "
        "numerical backend (no convergence, false success, nan/inf, wrong, complex, partial or no symbolic solution, exception). "
        "Non-trivial: at least one run published a result that was checked against the reference equations.")
STATES = "distinct (problem kind, solver, fault, outcome of each run) histories"
REAL = ["capybara model/problem/equation/solver/simulation code", "sympy", "pyneqsys", "scipy root/linear solve (pass-through unless a fault fires)"]
STUB = ["assimulo (not used by these runs)"]
ASSUMPTIONS = ["reference evaluator and generator of /verif/sim/gen.py", "published values may miss an equation by at most 1e-4 of its largest term"]


def gen_case(rng):
    r = rng.random()
    if r < 0.42:
        spec = G.gen_algebraic(rng, "linear", size=rng.choice([1.0] * 5 + [1e4, 1e7, 1e10]))
    elif r < 0.84:
        spec = G.gen_algebraic(rng, "nonlinear")
    else:
        spec = G.gen_hard(rng)
    return spec


def gen_plan_conf(rng, spec):
    conf = G.gen_conf(rng, spec)
    if not spec["easy"] and rng.random() < 0.6:
        conf["nonlinear_solver"] = "sympy"
        conf.pop("initial_guess_solver", None)
    return conf


def gen(rng, i, tier):
    spec = gen_case(rng)
    steps = []
    for k in range(rng.randint(2, 4)):
        st = {"conf": gen_plan_conf(rng, spec) if k == 0 or rng.random() < 0.5 else None, "set": [], "fault": None}
        ps = G.params_of(spec)
        if k and ps and rng.random() < 0.7:
            mn, n, u, v = rng.choice(ps)
            st["set"].append([mn, n, G.nudge(rng, spec, v)])
        if rng.random() < 0.5:
            conf = st["conf"] if st["conf"] is not None else [s["conf"] for s in steps if s["conf"] is not None][-1]
            st["fault"] = backends.gen_fault(rng, spec["kind"], conf)
        st["verbose"] = rng.random() < 0.5
        steps.append(st)
    steps.append({"conf": None, "set": [], "fault": None, "verbose": False})
    return {"spec": spec, "steps": steps}


def run(plan, ctx):
    spec = plan["spec"]
    if not plan["steps"] or not G.valid(spec):
        ctx.ev("invalid plan")
        return
    first = next((s["conf"] for s in plan["steps"] if s["conf"] is not None), {})
    s = build.Session(spec).setup(first)
    over = {}
    published = None
    hist = []
    for k, st in enumerate(plan["steps"]):
        if st["conf"] is not None and k:
            s.configure(st["conf"])
        for mn, n, v in st["set"]:
            s.obj(mn, n).setValue(v)
            over[G.full(mn, n)] = v
        if st["set"]:
            s.prob.resolve()
        pvals = G.values_of(spec, over)
        SIM.calls.clear()
        if st["fault"]:
            backends.arm(st["fault"], ctx)
        kind, out = build.attempt(s.run, show_output_msg=st["verbose"], show_final_residuals=st["verbose"])
        backends.disarm()
        ctx.ev("run", k, kind, type(out).__name__ if kind == "err" else None, dict(SIM.calls))
        fk = (st["fault"]["at"] + ":" + st["fault"]["kind"]) if st["fault"] else None
        hist.append([fk, kind])
        if kind == "err":
            ctx.probe("run_raised")
            if st["fault"] is None and spec["easy"] and spec["kind"] == "linear" and s.conf.get("linear_solver") in ("sympy", "scipy"):
                ctx.fail("solvable-system-refused", "%s: %r" % (type(out).__name__, str(out)[:600]))
            if published is not None:
                k2, now = build.attempt(s.results)
                ctx.check(k2 == "ok" and now == published, "failed-run-changed-results",
                          lambda: "before the failed run %s, after it %s" % (published, now))
            else:
                ctx.check(s.sim.output is None, "failed-run-published", lambda: repr(s.sim.output))
            continue
        k2, res = build.attempt(s.results)
        ctx.check(k2 == "ok", "results-not-readable", lambda: repr(res))
        ctx.ev("results", {n: round(v, 6) for n, v in res.items()})
        build.check_algebraic(ctx, spec, pvals, res)
        ctx.nontrivial = True
        ctx.probe("run_checked")
        if st["fault"]:
            ctx.probe("result_published_despite_fault")
        if spec["easy"]:
            ref = G.solution(spec, pvals)
            if ref is not None:
                for n in ref:
                    ctx.check(close(res[n], ref[n], 1e-3, 1e-3), "not-the-solution",
                              lambda: "%s = %r, the unique solution has %r" % (n, res[n], ref[n]))
                ctx.probe("compared_with_unique_solution")
        published = res
    ctx.state(spec["kind"], spec.get("style"), len(spec["models"]), sorted(map(str, first.items()))[:3], hist)

