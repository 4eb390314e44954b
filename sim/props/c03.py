"""C03 A dynamic run records the solution of the declared initial-value problem."""
from .. import gen as G, build, dyn
from ..core import digits
from ..seams import SIM

LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded ODE run histories with integrator faults and simulated evaluation schedules, reference trajectories"
NOTE = ("Seeded sampling of systems, orders, output times and faults. The reference trajectory is an independent high-order integration "
        "of the same specification (1e-9); recorded values are accepted within 2e-4. CVODE is the simulated integrator (assimulo is not installable here).")
CASES = {"quick": 480, "thorough": 30000}
JIT_EVERY = 24
RULE = ("seeded random explicit ODE systems (1-2 models, 1-3 states each, units, time-dependent terms, shuffled declaration, domain and "
        "model order), 1-3 runs on one domain with ODEINT (real) or CVODE (simulated with trial, repeated and backward evaluations), "
        "linspace or given output times, renamed columns, compiled or not; each run may have one integrator fault. "
        "Non-trivial: at least one run's rows were compared with the reference trajectory.")
STATES = "distinct (integrator, compiled, rename, time-dependence, number of models/states, fault, outcome) histories"
REAL = ["capybara model/problem/equation/solver/domain/simulation code", "sympy", "scipy odeint", "numba (a fraction of the runs)"]
STUB = ["assimulo CVode (simulated integrator)"]
ASSUMPTIONS = ["reference evaluator and generator of /verif/sim/gen.py", "the simulated CVode follows the contract of assimulo's"]


def gen(rng, i, tier):
    spec = G.gen_dynamic(rng, "ode")
    if rng.random() < 0.08:
        G.make_unsolved(rng, spec)
    steps = []
    for k in range(rng.choice([1, 2, 2, 3])):
        conf = G.gen_conf(rng, spec)
        if k and rng.random() < 0.5:
            conf = dict(steps[-1]["conf"])
        st = {"conf": conf, "reset": rng.random() < 0.4, "set": [], "ics": {}, "fault": None, "sched": dyn.gen_schedule(rng)}
        if k and conf.get("@rename") != steps[-1]["conf"].get("@rename"):
            st["reset"] = True
        ps = G.params_of(spec)
        if k and ps and rng.random() < 0.4:
            mn, n, u, v = rng.choice(ps)
            st["set"].append([mn, n, G.nudge(rng, spec, v)])
        if k and rng.random() < 0.4:
            n = rng.choice(sorted(set(spec["ics"]) - set(spec["tvars"])))
            st["ics"][n] = G.r3(rng.uniform(-2, 2))
        if rng.random() < 0.35:
            st["fault"] = dyn.gen_fault(rng, "ode", conf)
        steps.append(st)
    return {"spec": spec, "steps": steps}


def columns(spec, conf):
    cols = build.domain_columns(spec)
    if not conf.get("@rename"):
        return cols
    ren = {"time": cols[:1], "some": cols[::2], "all": cols}[conf["@rename"]]
    return ["<%s>" % c if c in ren else c for c in cols]


def run(plan, ctx):
    spec = plan["spec"]
    if not plan["steps"] or not valid(spec):
        return
    s = build.Session(spec).setup(plan["steps"][0]["conf"])
    dom = s.built.domain
    ics = dict(spec["ics"])
    over = {}
    rows, cols = [], None
    hist = []
    for k, st in enumerate(plan["steps"]):
        conf = st["conf"]
        if k:
            s.configure(conf)
        if st["reset"]:
            s.sim.reset()
            rows, cols = [], None
        for mn, n, v in st["set"]:
            s.obj(mn, n).setValue(v)
            over[G.full(mn, n)] = v
        if st["set"]:
            s.prob.resolve()
        if st["ics"]:
            ics.update(st["ics"])
            s.prob.setInitialConditions(dict(st["ics"]))
        SIM.calls.clear()
        obs = dyn.arm(ctx, st["fault"], st["sched"])
        kind, out = build.attempt(s.run, show_output_msg=False, show_final_residuals=False)
        dyn.disarm()
        fk = "%s:%s" % (st["fault"]["at"], st["fault"]["kind"]) if st["fault"] else None
        ctx.ev("run", k, kind, type(out).__name__ if kind == "err" else None, fk)
        ctx.check(not obs, "rhs-not-pure", lambda: repr(obs[0]))
        hist.append([fk, kind, conf.get("differential_solver"), conf["compile_equations"], conf.get("@rename")])
        tab = build.table(dom)
        if kind == "err":
            ctx.check(st["fault"] is not None or bool(spec.get("unsolved")), "regular-run-refused", lambda: "%s: %s" % (type(out).__name__, out))
            ctx.check(tab["rows"] == rows, "failed-run-changed-domain", lambda: "%d rows before, %d after" % (len(rows), len(tab["rows"])))
            ctx.probe("run_failed")
            continue
        if st["fault"] is not None and st["fault"]["kind"] in ("message", "nan"):
            ctx.fail("failed-integration-recorded", "the integrator failed and the run reported success")
        pv = G.values_of(spec, over)
        n = len(tab["rows"]) - len(rows)
        ctx.check(tab["rows"][:len(rows)] == rows, "earlier-rows-changed")
        build.check_rows(ctx, spec, pv, conf, tab, len(rows), n, ics, cols=cols or columns(spec, conf))
        ctx.ev("rows", digits(tab["rows"][len(rows):]))
        rows, cols = tab["rows"], tab["cols"]
        ctx.simtime += rows[-1][0] - build.requested_times(conf)[0]
        ctx.nontrivial = True
        ctx.probe("rows_checked", n)
    ctx.state(len(spec["models"]), len(spec["domain"]["order"]), hist)


def valid(spec):
    try:
        dn = [d[0] for d in G.ode_parts(spec)[0]]
        order = [G.full(*o) for o in spec["domain"]["order"]]
        return bool(dn) and sorted(order) == sorted(dn) and len(set(dn)) == len(dn) and set(dn) <= set(spec["ics"]) and \
            {n for n in G.unknowns(spec)} - set(spec["tvars"]) == set(dn) and not G.ode_parts(spec)[1] and len(spec["order"]) == len(spec["models"])
    except KeyError:
        return False
