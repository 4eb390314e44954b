"""C10 An optimization reports a real evaluation, the best it kept, inside the bounds."""
import math

import numpy as np

from .. import build, confs, gen as G, dyn, backends
from ..core import SimInterrupt, SimNoMemory, SimulatedFault, rng_for, digits
from ..seams import SIM
from ..stdout import captured

LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded optimizer runs with failing evaluations, solver faults and clock jumps against the recorded evaluations"
NOTE = ("Seeded sampling of studies (objectives, bounds, optimizers, pygmo seeds) in histories of up to 4 studies over 1-2 optimizations; every "
        "evaluation is recorded by the objective itself and the report is compared with the record.")
CASES = {"quick": 480, "thorough": 30000}
RULE = ("seeded histories of studies; an evaluation may raise, be interrupted or fail inside the simulation (integrator or root finder), the "
        "report may fail on standard output, and the clock may jump at every reading. Non-trivial: a study succeeded with at least two "
        "generations, or failed at an injected point.")
STATES = "distinct (objective kind, dimension, optimizer, fault kind, outcome) histories"
REAL = ["capybara optimization/simulation/solver code", "pygmo optimizers", "scipy odeint", "sympy"]
STUB = ["clock", "standard output", "writing of figure files"]
ASSUMPTIONS = ["pygmo is driven by its global seed"]

EVALS = []
HOOK = {}


class EvaluationFailed(SimulatedFault, RuntimeError):
    pass


OBJ = ["sphere", "rosen", "cosines", "plateau", "neg", "steps", "linear", "big"]


def objective(name, x, p):
    x = np.asarray(x, dtype=float)
    if name == "sphere":
        return float(np.sum((x - p) ** 2))
    if name == "rosen":
        y = np.append(x, p)
        return float(np.sum(100 * (y[1:] - y[:-1] ** 2) ** 2 + (1 - y[:-1]) ** 2))
    if name == "cosines":
        return float(np.sum(x ** 2 / 10 + 1 - np.cos(3 * (x - p))))
    if name == "plateau":
        return float(np.sum(np.minimum(1.0, np.abs(x - p))))
    if name == "neg":
        return float(-np.sum(x * p) - 3.0)
    if name == "steps":
        return float(np.sum(np.floor(np.abs(x - p))))
    if name == "linear":
        return float(np.sum(x) + p)
    return float(1e12 * np.sum((x - p) ** 2) + 1e15)


def gen(rng, i, tier):
    nopt = rng.choice([1, 1, 2])
    opts = []
    for _ in range(nopt):
        sim = rng.random() < 0.16
        dim = 1 if sim else rng.choice([1, 1, 2, 3, 5])
        lo = [G.r3(rng.uniform(-5, 2)) for _ in range(dim)]
        hi = [G.r3(l + rng.choice([0.01, 0.5, 4.0, 100.0])) for l in lo]
        o = {"obj": rng.choice(OBJ), "p": G.r3(rng.uniform(-2, 2)), "dim": dim, "lo": lo, "hi": hi, "flat": dim == 1 and rng.random() < 0.5,
             "optimizer": rng.choice(["de", "sade", "pso", "ga"]), "n": rng.choice([7, 8, 10]), "gens": rng.randint(1, 6), "late_bounds": rng.random() < 0.2}
        if sim:
            kind = rng.choice(["linear", "ode", "nonlinear"])
            for _t in range(40):
                spec = G.gen_dynamic(rng, "ode", nmodels=1, maxn=2, units=False) if kind == "ode" else G.gen_algebraic(rng, kind, nmodels=1, maxn=2, units=False)
                ps = G.params_of(spec)
                if ps:
                    break
            if ps:
                mn, n, u, v = rng.choice(ps)
                d = abs(v) * (0.15 if kind == "linear" else 0.03) + 0.001
                conf = G.gen_conf(rng, spec)
                for k in ("print_output", "@rename", "@guess", "guess_values"):
                    conf.pop(k, None)
                if kind == "linear":
                    conf["linear_solver"] = rng.choice(["sympy", "scipy"])
                o.update(obj="sim", spec=spec, conf=conf, par=[mn, n], lo=[G.r3(v - d)], hi=[G.r3(v + d) if G.r3(v + d) > G.r3(v - d) else G.r3(v - d) + 0.01],
                         n=7, gens=rng.randint(1, 2), target=G.r3(rng.uniform(-1, 1)))
        opts.append(o)
    studies = []
    for k in range(rng.choice([1, 2, 2, 3, 4])):
        j = rng.randint(0, nopt - 1)
        st = {"opt": j, "seed": rng.randint(0, 10 ** 6), "fault": None, "log": rng.random() < 0.7, "freq": rng.choice([0, 1, 1, 2]), "print": rng.random() < 0.5,
              "graph": False, "clock": rng.choice([None, None, "jumps", "backwards", "frozen"])}
        st["graph"] = st["log"] and rng.random() < 0.4
        if k and rng.random() < 0.25 and opts[j]["obj"] != "sim":
            st["bounds"] = [opts[j]["lo"], [G.r3(l + 0.3 * (h - l) + 0.001) for l, h in zip(opts[j]["lo"], opts[j]["hi"])]]
        if rng.random() < 0.4:
            kinds = ["raise", "interrupt", "memory", "stdout"] + (["solver", "solver", "solver"] if opts[j]["obj"] == "sim" else [])
            st["fault"] = {"kind": rng.choice(kinds), "at": rng.choice([0, 1, rng.randint(0, 9), rng.randint(0, 30)]), "r": rng.randint(0, 10 ** 6)}
        studies.append(st)
    return {"opts": opts, "studies": studies}


class Clock:
    def __init__(self, kind, rng):
        self.kind, self.rng = kind, rng
        self.t = 1.6e9

    def __call__(self):
        if self.kind == "frozen":
            return self.t
        if self.kind == "backwards":
            self.t -= self.rng.uniform(0, 1e5)
        else:
            self.t += self.rng.choice([0.001, 0.5, -3600.0, 86400.0 * 400, -86400.0 * 30])
        return self.t


def make(o, ctx):
    a = build.api()
    kind = o["obj"]
    if kind == "sim":
        s = build.Session(o["spec"], "study").setup(o["conf"])
        q = s.obj(*o["par"])
        sim, conf = s.sim, dict(s.sim.configurations)
    else:
        mod, prob, sim = confs.tiny_session("study")
        q, conf, s = mod.p, {}, None

    class Op(a["OptimizationProblem"]):
        def DeclareObjectiveFunction(self, x):
            k = len(EVALS)
            rec = [tuple(float(v) for v in np.atleast_1d(x)), None]
            EVALS.append(rec)
            HOOK.get("before", lambda k: None)(k)
            if kind == "sim":
                si = self.simulation_instance
                si[q].setValue(float(np.atleast_1d(x)[0]))
                si.problem.resolve()
                si.setConfigurations(definition_dict=self.simulation_configuration)
                HOOK.get("arm", lambda k: None)(k)
                try:
                    si.runSimulation(show_output_msg=False, show_final_residuals=False)
                finally:
                    HOOK.get("disarm", lambda: None)()
                r = si.getResults("dict")
                if o["spec"]["tvars"]:
                    d = list(r.values())[0]
                    v = sum(float(l[-1]) for c, l in sorted(d.items()) if c not in o["spec"]["tvars"])
                    si.reset()
                else:
                    v = sum(float(r[n]) for n in sorted(r))
                f = (v - o["target"]) ** 2
            else:
                f = objective(kind, x, o["p"])
            rec[1] = f
            return [f]
    op = Op(o["dim"], "problem")
    op()
    bounds = [o["lo"][0], o["hi"][0]] if o["flat"] else [list(o["lo"]), list(o["hi"])]
    opt = a["Optimization"](simulation=sim, optimization_problem=op, simulation_configuration=conf, optimization_parameters=[q],
                            constraints=None if o["late_bounds"] else bounds, optimizer=o["optimizer"],
                            optimization_configuration={"number_of_individuals": o["n"], "number_of_generations": o["gens"]})
    if o["late_bounds"]:
        opt.setConstraints(bounds)
    return opt, s


def valid(o):
    if len(o["lo"]) != o["dim"] or len(o["hi"]) != o["dim"] or o["obj"] not in OBJ + ["sim"]:
        return False
    if o["obj"] == "sim":
        sp = o["spec"]
        if sp["kind"] == "ode":
            from .c03 import valid as v3
            return v3(sp) and any(p[:2] == tuple(o["par"]) for p in G.params_of(sp))
        return G.valid(sp) and any(p[:2] == tuple(o["par"]) for p in G.params_of(sp))
    return True


def run(plan, ctx):
    import pygmo as pg
    if not plan["opts"] or not all(valid(o) for o in plan["opts"]):
        return
    made = {}
    result = {}                 # opt -> (params, fitness) last reported by a successful study
    bounds = {}
    hist = []
    for k, st in enumerate(plan["studies"]):
        if st["opt"] >= len(plan["opts"]):
            continue
        o = plan["opts"][st["opt"]]
        pg.set_global_rng_seed(st["seed"])
        if st["opt"] not in made:
            made[st["opt"]] = make(o, ctx)
            bounds[st["opt"]] = (list(o["lo"]), list(o["hi"]))
            kd, got = build.attempt(made[st["opt"]][0].getResults)
            ctx.check(kd == "err", "result-before-any-study", lambda: repr(got))
        opt, s = made[st["opt"]]
        if st.get("bounds"):
            b = st["bounds"]
            if len(b) != 2 or len(b[0]) != o["dim"] or len(b[1]) != o["dim"]:
                return
            opt.setConstraints([list(b[0]), list(b[1])])
            bounds[st["opt"]] = (b[0], b[1])
        lo, hi = bounds[st["opt"]]
        del EVALS[:]
        HOOK.clear()
        f = st["fault"]
        state = {"hit": False}
        if f and f["kind"] in ("raise", "interrupt", "memory"):
            def before(n):
                if n == f["at"]:
                    state["hit"] = True
                    ctx.fault("objective_" + f["kind"])
                    raise {"raise": EvaluationFailed("objective failed (simulated)"), "interrupt": SimInterrupt("interrupted"),
                           "memory": SimNoMemory("no memory")}[f["kind"]]
            HOOK["before"] = before
        elif f and f["kind"] == "solver":
            r = rng_for("f", f["r"])
            dynamic = bool(o["spec"]["tvars"])
            ff = dyn.gen_fault(r, "ode", o["conf"]) if dynamic else backends.gen_fault(r, o["spec"]["kind"], o["conf"])

            def arm(n):
                if n != f["at"]:
                    return
                state["hit"] = True
                if dynamic:
                    dyn.arm(ctx, ff, None)
                else:
                    backends.arm(ff, ctx)

            def disarm():
                dyn.disarm()
                backends.disarm()
            HOOK.update(arm=arm, disarm=disarm)
        fail_at = f["at"] if f and f["kind"] == "stdout" else None
        if st["clock"]:
            SIM.clock = Clock(st["clock"], rng_for("clock", st["seed"]))
        outcome, err = "ok", None
        curves = []
        SIM.savefig = lambda real, fig, fname, kw: curves.append([(tuple(map(float, l.get_xdata())), tuple(map(float, l.get_ydata())))
                                                                  for ax in fig.axes for l in ax.get_lines()])
        with captured(fail_at, ctx) as cap:
            try:
                opt.runOptimization(print_output=st["print"], report_frequency=st["freq"], optimization_log=st["log"], save_optimization_graph=st["graph"])
            except BaseException as e:
                outcome, err = type(e).__name__, e
        SIM.clock = None
        HOOK.clear()
        dyn.disarm()
        backends.disarm()
        evals = [tuple(e) for e in EVALS]
        done = [e for e in evals if e[1] is not None]
        fk = f["kind"] if f else None
        ctx.ev("study", k, st["opt"], outcome, fk, len(evals))
        hist.append([o["obj"], o["dim"], o["optimizer"], fk if state["hit"] or cap.failed else None, outcome])
        kd, got = build.attempt(opt.getResults)
        prev = result.get(st["opt"])
        if outcome != "ok":
            if not (state["hit"] or cap.failed):
                ctx.fail("regular-study-refused", "%s: %s" % (outcome, err))
            ctx.probe("study_failed")
            ctx.nontrivial = True
            if kd == "ok":
                x, v = report(got)
                if cap.failed and done and (x, v) in done and prev is None or cap.failed and (x, v) in done:
                    # only the report failed
                    check_report(ctx, o, lo, hi, done, x, v)
                    result[st["opt"]] = (x, v)
                    ctx.probe("only_the_report_failed")
                else:
                    ctx.check(prev is not None and (x, v) == prev, "failed-study-reports-result",
                              lambda: "after a study that failed (%s), getResults gives %s" % (outcome, (x, v)))
            continue
        if f and state["hit"] and f["kind"] in ("raise", "interrupt", "memory"):
            ctx.fail("failed-evaluation-swallowed", "the objective raised at evaluation %d and the study succeeded" % f["at"])
        ctx.check(all(e[1] is not None for e in evals), "failed-evaluation-swallowed", "an evaluation failed and the study succeeded")
        ctx.check(kd == "ok", "no-result-after-study", lambda: repr(got))
        x, v = report(got)
        check_report(ctx, o, lo, hi, done, x, v)
        ctx.ev("best", digits(list(x)), digits(v))
        for j, r in result.items():
            if j != st["opt"]:
                ctx.check(report(made[j][0].getResults()) == r, "another-study-changed", "results of another optimization changed")
        result[st["opt"]] = (x, v)
        if st["log"]:
            check_log(ctx, o, done, v, opt.getOptimizationLog(), curves if st["graph"] else None)
        if o["gens"] >= 2 or o["obj"] == "sim":
            ctx.nontrivial = True
        ctx.probe("study_checked")
        if o["obj"] == "sim":
            same_fitness(ctx, o, x, v)
    SIM.savefig = None
    ctx.state(hist)


def report(got):
    x, v = got
    return tuple(float(q) for q in np.atleast_1d(x)), float(np.atleast_1d(v)[0])


def check_report(ctx, o, lo, hi, done, x, v):
    ctx.check(len(x) == o["dim"] and all(l <= q <= h for l, q, h in zip(lo, x, hi)), "outside-bounds", lambda: "%s, bounds %s %s" % (x, lo, hi))
    ctx.check(any(e[0] == x for e in done), "result-never-evaluated", lambda: "%s was not evaluated in this study" % (x,))
    ctx.check((x, v) in done, "fitness-not-of-parameters", lambda: "reported %r, evaluations there gave %s" % (v, [e[1] for e in done if e[0] == x]))
    init = [e[1] for e in done[:o["n"]]]
    ctx.check(v <= min(init), "worse-than-initial-population", lambda: "reported %r, the initial population has %r" % (v, min(init)))


def check_log(ctx, o, done, v, log, curves):
    """The log and the graph of a study describe that study"""
    col = "gbest" if o["optimizer"] == "pso" else "Best"
    gens, fev, best = ([float(q) for q in log[c].tolist()] for c in ("Gen", "Fevals", col))
    vals = {e[1] for e in done}
    ctx.check(all(b in vals and b >= v for b in best), "log-of-another-study", lambda: "logged %s, reported %r" % (best, v))
    ctx.check(all(1 <= g <= o["gens"] for g in gens) and gens == sorted(gens) and all(0 < f <= len(done) for f in fev), "log-of-another-study",
              lambda: "generations %s, evaluations %s of %d" % (gens, fev, len(done)))
    if "dx" in log.columns and best:
        ctx.check(all(float(d) >= 0 for d in log["dx"].tolist() + log["df"].tolist()), "log-columns-mixed-up", lambda: str(log))
    ctx.probe("log_checked")
    if curves is not None:
        ctx.check(curves == [[(tuple(fev), tuple(best))]], "graph-of-other-data", lambda: "figures saved: %s; log: %s %s" % (curves, fev, best))
        ctx.probe("graph_checked")


def same_fitness(ctx, o, x, v):
    """The simulation-based objective really is that of the reported parameters"""
    spec = o["spec"]
    pv = G.values_of(spec, {G.full(*o["par"]): x[0]})
    if spec["tvars"]:
        t = build.requested_times(o["conf"])
        tr = G.trajectory(spec, pv, spec["ics"], t)
        w = sum(float(tr[n][-1]) for n in sorted(tr))
    else:
        ref = G.solution(spec, pv)
        if ref is None:
            return
        w = sum(ref[n] for n in sorted(ref))
    f = (w - o["target"]) ** 2
    ctx.check(abs(f - v) <= 1e-3 * max(1.0, abs(f), abs(w)), "fitness-not-of-the-simulation", lambda: "reported %r, the system gives %r at %s" % (v, f, x))
    ctx.probe("simulated_objective_recomputed")
