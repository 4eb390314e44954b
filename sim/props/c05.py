"""C05 A DAE run starts consistently and integrates the declared residual."""
from .. import gen as G, build, dyn
from ..core import digits, close
from ..seams import SIM
from .c03 import columns

LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded DAE run histories with a simulated implicit integrator and integrator faults, reference trajectories"
NOTE = ("Seeded sampling. The implicit integrator is simulated (assimulo cannot be installed here): it solves exactly the residual, "
        "initial values and classification it is handed, so a wrong hand-over shows in the recorded rows, which are accepted within 2e-4 "
        "of an independent reference.")
CASES = {"quick": 400, "thorough": 20000}
RULE = ("seeded random autonomous semi-explicit index-1 DAE systems (1-2 models, 1-8 differential and 1-12 algebraic variables, residual "
        "and == forms, coefficients on derivatives, shuffled declaration/domain/model order), 1-3 runs on one domain; each run may have a "
        "fault of make_consistent or of the integration at a drawn evaluation. Non-trivial: rows of a run were compared with the reference.")
STATES = "distinct (models, differential/algebraic counts, order, forms, fault, outcome) histories"
REAL = ["capybara model/problem/equation/solver/domain/simulation code", "sympy lambdify"]
STUB = ["assimulo IDA (simulated integrator)"]
ASSUMPTIONS = ["reference evaluator and generator of /verif/sim/gen.py", "the simulated IDA follows the contract of assimulo's"]


def gen(rng, i, tier):
    spec = G.gen_dynamic(rng, "dae")
    steps = []
    for k in range(rng.choice([1, 1, 2, 3])):
        conf = G.gen_conf(rng, spec)
        if k and rng.random() < 0.5:
            conf = dict(steps[-1]["conf"])
        st = {"conf": conf, "reset": rng.random() < 0.4, "set": [], "ics": {}, "fault": None, "sched": dyn.gen_schedule(rng)}
        if k and conf.get("@rename") != steps[-1]["conf"].get("@rename"):
            st["reset"] = True
        ps = G.params_of(spec)
        if k and ps and rng.random() < 0.4:
            mn, n, u, v = rng.choice(ps)
            st["set"].append([mn, n, G.nudge(rng, spec, v)])
        if k and rng.random() < 0.4:
            diff = [d[0] for d in G.ode_parts(spec)[0]]
            st["ics"][rng.choice(diff)] = G.r3(rng.uniform(-2, 2))
        if rng.random() < 0.35:
            st["fault"] = dyn.gen_fault(rng, "dae", conf)
        steps.append(st)
    return {"spec": spec, "steps": steps}


def valid(spec):
    try:
        diff, alg = G.ode_parts(spec)
        dn = [d[0] for d in diff]
        order = [G.full(*o) for o in spec["domain"]["order"]]
        un = set(G.unknowns(spec)) - set(spec["tvars"])
        return bool(dn) and bool(alg) and len(set(dn)) == len(dn) and sorted(order) == sorted(un) and len(un) == len(dn) + len(alg) and \
            un <= set(spec["ics"]) and {n + "_d" for n in dn} <= set(spec["ics"]) and len(spec["order"]) == len(spec["models"])
    except KeyError:
        return False


def check_handover(ctx, spec, ics, seen):
    """What the integrator was handed: values matched to variables is judged by the rows; the classification here, by counts"""
    dn = [d[0] for d in G.ode_parts(spec)[0]]
    t0, y, yd, flags = seen
    ctx.check(sum(1 for f in flags if f) == len(dn), "wrong-classification",
              lambda: "%s for differential variables %s" % (flags, dn))
    want = sorted(float(v) for n, v in ics.items() if n in set(G.unknowns(spec)))
    ctx.check(sorted(y.tolist()) == want, "wrong-initial-values", lambda: "%s handed over, declared %s" % (sorted(y.tolist()), want))
    wd = sorted([float(ics[n + "_d"]) for n in dn])
    gd = sorted(v for v, f in zip(yd.tolist(), flags) if f)
    ctx.check(gd == wd, "wrong-initial-derivatives", lambda: "%s handed over, declared %s" % (gd, wd))


def run(plan, ctx):
    spec = plan["spec"]
    if not plan["steps"] or not valid(spec):
        return
    s = build.Session(spec).setup(plan["steps"][0]["conf"])
    dom = s.built.domain
    ics = dict(spec["ics"])
    over = {}
    rows, cols = [], None
    hist = []
    for k, st in enumerate(plan["steps"]):
        conf = st["conf"]
        if k:
            s.configure(conf)
        if st["reset"]:
            s.sim.reset()
            rows, cols = [], None
        for mn, n, v in st["set"]:
            s.obj(mn, n).setValue(v)
            over[G.full(mn, n)] = v
        if st["set"]:
            s.prob.resolve()
        if st["ics"]:
            ics.update(st["ics"])
            s.prob.setInitialConditions(dict(st["ics"]))
        obs = dyn.arm(ctx, st["fault"], st["sched"])
        ida = SIM.ida
        kind, out = build.attempt(s.run, show_output_msg=False, show_final_residuals=False)
        dyn.disarm()
        fk = "%s:%s" % (st["fault"]["at"], st["fault"]["kind"]) if st["fault"] else None
        ctx.ev("run", k, kind, type(out).__name__ if kind == "err" else None, fk)
        ctx.check(not obs, "residual-not-pure", lambda: repr(obs[0]))
        hist.append([fk, kind])
        if ida.seen:
            check_handover(ctx, spec, ics, ida.seen[0])
            ctx.probe("handover_checked")
        tab = build.table(dom)
        if kind == "err":
            ctx.check(st["fault"] is not None, "regular-run-refused", lambda: "%s: %s" % (type(out).__name__, out))
            ctx.check(tab["rows"] == rows, "failed-run-changed-domain", lambda: "%d rows before, %d after" % (len(rows), len(tab["rows"])))
            ctx.probe("run_failed")
            continue
        pv = G.values_of(spec, over)
        n = len(tab["rows"]) - len(rows)
        ctx.check(tab["rows"][:len(rows)] == rows, "earlier-rows-changed")
        build.check_rows(ctx, spec, pv, conf, tab, len(rows), n, ics, cols=cols or columns(spec, conf))
        new = tab["rows"][len(rows):]
        names = build.domain_columns(spec)
        for row in new:
            env = dict(pv)
            env.update(zip(names, row))
            for mn, e in G.ode_parts(spec)[1]:
                ctx.check(abs(G.residual(e, env, mn)) <= 1e-5 * G.scale(e, env, mn), "algebraic-equation-violated",
                          lambda: "%s at %s" % (e, dict(zip(names, row))))
        ctx.ev("rows", digits(new, 4))
        rows, cols = tab["rows"], tab["cols"]
        ctx.simtime += rows[-1][0] - build.requested_times(conf)[0]
        ctx.nontrivial = True
        ctx.probe("rows_checked", n)
    diff, alg = G.ode_parts(spec)
    ctx.state(len(spec["models"]), len(diff), len(alg), spec["order"], [e[2].get("r") is None for e in diff], hist)
