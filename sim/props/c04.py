"""C04 The right-hand side given to integrators is a pure function of (t, y)."""
import copy
import math

import numpy as np

from .. import gen as G, build, dyn
from ..core import rng_for, digits
from ..seams import SIM
from .c03 import valid as valid_ode

LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded integrator evaluation histories against a reference right-hand side"
NOTE = ("Seeded sampling of systems and of evaluation histories (order, repetition, buffers, failing points). The order of the state "
        "vector is read off the distinct initial values the integrator is given. JIT-compiled evaluation in a fraction of the runs.")
CASES = {"quick": 480, "thorough": 30000}
JIT_EVERY = 9
RULE = ("seeded random ODE and DAE systems; the function handed to the integrator (odeint func, CVode rhs, IDA residual) is evaluated over "
        "a drawn history of 10-40 points (new, repeated, backward in time, shared and overwritten buffers, points where it is undefined) "
        "interleaved with the integration itself. Non-trivial: at least 5 evaluations were compared with the reference.")
STATES = "distinct (integrator, compiled, jit, system shape, evaluation history) tuples"
REAL = ["capybara equation/equation_block/solver code", "sympy lambdify", "scipy odeint", "numba (a fraction of the runs)"]
STUB = ["assimulo CVode and IDA (simulated integrators)"]
ASSUMPTIONS = ["reference evaluator of /verif/sim/gen.py", "values are compared to 1e-9 relative to the terms of the equation"]

EVS = ["new", "new", "new", "repeat", "backward", "bad", "initial", "shared", "float32like", "far", "near", "near", "sametime", "samestate", "component"]


def gen(rng, i, tier):
    kind = "dae" if rng.random() < 0.3 else "ode"
    spec = G.gen_dynamic(rng, kind)
    partial(rng, spec)
    # distinct initial values identify the positions of the state vector
    seen = set()
    for n in sorted(spec["ics"]):
        if n not in spec["tvars"]:
            while spec["ics"][n] in seen or spec["ics"][n] == 0.0:
                spec["ics"][n] = round(rng.uniform(-2, 2), 5)
            seen.add(spec["ics"][n])
    conf = G.gen_conf(rng, spec)
    conf.pop("@rename", None)
    runs = []
    for k in range(rng.choice([1, 1, 2])):
        runs.append({"history": [[rng.choice(EVS), rng.randint(0, 10 ** 6)] for _ in range(rng.randint(10, 40))],
                     "sched": dyn.gen_schedule(rng), "late": rng.random() < 0.3})
    return {"spec": spec, "conf": conf, "runs": runs}


def partial(rng, spec):
    """Give one equation a term that is undefined for some states"""
    cands = []
    for m in spec["models"]:
        for e in m["eqs"]:
            if "ode" in e and e.get("r") is not None:
                v = [x for x in m["vars"] if x["n"] == e["ode"]][0]
                if not v["u"]:
                    cands.append((m, e))
    if not cands or any(v["u"] for m in spec["models"] for v in m["vars"]) or rng.random() < 0.4:
        return
    m, e = rng.choice(cands)
    v = ["v", e["ode"]]
    k = rng.choice(["sqrt", "log", "/", "/"])
    t = ["/", ["n", 1.0], ["+", v, ["n", 20.0]]] if k == "/" else ["f", k, ["+", v, ["n", 20.0]]]
    e["r"] = ["+", e["r"], ["*", ["n", 0.3], t]]
    spec["partial"] = [k, G.full(m["name"], e["ode"])]


class Watch:
    """Evaluates the function handed to an integrator over a drawn history and judges every value"""

    def __init__(self, ctx, spec, pvals, f, order, t0, y0, yd0=None):
        self.ctx, self.spec, self.pvals, self.f, self.order = ctx, spec, pvals, f, order
        self.t0, self.y0, self.yd0 = t0, np.array(y0, dtype=float), None if yd0 is None else np.array(yd0, dtype=float)
        self.kept = []
        self.points = []
        self.rows = None
        self.n = 0
        self.shared = np.empty(len(y0))
        self.sharedd = np.empty(len(y0))

    def reference(self, t, y, yd):
        """[(value, scale)] or None where the declared equations are undefined"""
        env = dict(self.pvals)
        for tv in self.spec["tvars"]:
            env[tv] = t
        env.update(zip(self.order, y))
        out = []
        try:
            if yd is None:
                by = {d[0]: d for d in G.ode_parts(self.spec)[0]}
                for n in self.order:
                    _, mn, e = by[n]
                    out.append((G.ev(e["r"], env, mn), max([1.0] + G.terms(e["r"], env, mn))))
            else:
                for n, v in zip(self.order, yd):
                    env["d:" + n] = v
                for mn, e in G.all_equations(self.spec):
                    out.append((G.residual(e, env, mn), G.scale(e, env, mn)))
        except (ValueError, ZeroDivisionError, OverflowError):
            return None
        if any(isinstance(v, complex) or not math.isfinite(v) for v, _ in out):
            return None
        return out

    def undefined(self, y):
        """Position of the state at which the partial term has no value there, None where it has one"""
        if not self.spec.get("partial") or not np.all(np.abs(y) < 1e6):
            return None
        k, n = self.spec["partial"]
        if n not in self.order:
            return None
        x = y[self.order.index(n)] + 20.0
        return self.order.index(n) if {"/": x == 0, "log": x < 0, "sqrt": x < 0}[k] else None

    def evaluate(self, t, y, yd=None, buf=None):
        ctx = self.ctx
        y = np.array(y, dtype=float)
        b = y.copy() if buf is None else buf[0]
        b[:] = y
        if yd is not None:
            yd = np.array(yd, dtype=float)
            bd = yd.copy() if buf is None else buf[1]
            bd[:] = yd
        ref = self.reference(t, y, yd)
        try:
            with np.errstate(all="ignore"):
                out = self.f(t, b) if yd is None else self.f(t, b, bd)
        except Exception as e:
            ctx.probe("evaluation_raised")
            ctx.check(ref is None, "evaluation-failed", lambda: "f(%r, %s) raised %s: %s" % (t, y.tolist(), type(e).__name__, e))
            ctx.fault("failing_evaluation")
            return
        ctx.check(np.array_equal(b, y, equal_nan=True) and (yd is None or np.array_equal(bd, yd, equal_nan=True)), "argument-changed",
                  lambda: "f(%r, %s) left %s in its argument" % (t, y.tolist(), b.tolist()))
        raw = out
        try:
            vals = [complex(v) for v in np.asarray(out).reshape(-1).tolist()]
        except (TypeError, ValueError):
            try:
                vals = [complex(v) for v in out]
            except (TypeError, ValueError):
                ctx.check(ref is None, "value-not-real", lambda: repr(out))
                return
        self.kept.append((raw, vals))
        if ref is None:
            ctx.fault("undefined_evaluation")
            u = self.undefined(y)
            if u is not None:
                ctx.probe("undefined_judged")
                bad = [not math.isfinite(v.real) or v.imag != 0 or abs(v.real) > 1e10 for v in vals]
                ctx.check(bad[u] if yd is None else any(bad), "value-where-undefined", lambda: "f(%r, %s) is %s" % (t, y.tolist(), vals))
            return
        ctx.check(len(vals) == len(ref), "wrong-length", lambda: "%d values for %d equations" % (len(vals), len(ref)))
        ctx.check(all(v.imag == 0 and math.isfinite(v.real) for v in vals), "value-not-real", lambda: repr(vals))
        vals = [v.real for v in vals]
        if yd is None:
            pairs = [(i, i, 1.0) for i in range(len(ref))]
        else:
            pairs = self.match(vals, ref)
        for i, j, sg in pairs:
            w, sc = ref[j]
            ctx.check(abs(vals[i] * sg - w) <= 1e-9 * sc, "wrong-value",
                      lambda: "entry %d of f(%r, %s%s) is %r; declared: %r" % (i, t, y.tolist(), "" if yd is None else ", %s" % yd.tolist(), vals[i], w))
        self.n += 1

    def match(self, vals, ref):
        """Which equation each residual entry belongs to is fixed at the first evaluation (either sign is a residual)"""
        if self.rows is None:
            rows, used = [], set()
            for i, v in enumerate(vals):
                best = None
                for j, (w, sc) in enumerate(ref):
                    for sg in (1.0, -1.0):
                        if j not in used and abs(v * sg - w) <= 1e-9 * sc and (best is None or abs(v * sg - w) < best[0]):
                            best = (abs(v * sg - w), j, sg)
                self.ctx.check(best is not None, "wrong-value", lambda: "residual %s, declared %s" % (vals, [w for w, _ in ref]))
                used.add(best[1])
                rows.append((i, best[1], best[2]))
            self.rows = rows
        return self.rows

    def play(self, history):
        for what, seed in history:
            r = rng_for("ev", seed)
            n = len(self.y0)
            t = self.t0 + r.uniform(0, 3)
            y = self.y0 + np.array([r.uniform(-2, 2) for _ in range(n)])
            yd = None if self.yd0 is None else np.array([r.uniform(-2, 2) for _ in range(n)])
            buf = None
            if what in ("repeat", "backward") and self.points:
                t, y, yd = self.points[seed % len(self.points)]
                if what == "backward":
                    t = self.t0 - r.uniform(0, 2)
                self.ctx.fault("repeated_evaluation" if what == "repeat" else "backward_evaluation")
            elif what in ("near", "sametime", "samestate", "component") and self.points:
                pt, py, pyd = self.points[-1 - (seed % min(3, len(self.points)))]
                if what == "near":
                    e = r.choice([1e-5, 1e-6, 1e-7])
                    t, y = pt + r.choice([0.0, e]), py + e * np.array([r.choice([-1.0, 0.0, 1.0]) for _ in range(n)])
                    yd = pyd
                elif what == "sametime":
                    t = pt
                elif what == "samestate":
                    y, yd = py, pyd if r.random() < 0.5 else yd
                else:
                    t, yd = pt, pyd
                    y = py.copy()
                    y[seed % n] += r.choice([-1.0, 1e-3, 0.5])
                self.ctx.fault("evaluation_close_to_an_earlier_one")
            elif what == "bad":
                y = y.copy()
                p = self.spec.get("partial")
                if p and p[1] in self.order and r.random() < 0.6:
                    y[self.order.index(p[1])] = -20.0 if p[0] == "/" else r.choice([-20.0, -25.0])
                else:
                    y[seed % n] = r.choice([-20.0, -25.0, 1e308, float("nan"), float("inf")])
                self.ctx.fault("bad_point")
            elif what == "initial":
                t, y = self.t0, self.y0
            elif what == "shared":
                buf = (self.shared, self.sharedd)
                self.ctx.fault("shared_buffer")
            elif what == "far":
                y = self.y0 * r.uniform(-30, 30)
                if np.any(np.abs(y) < 1e-12):
                    y = self.y0
            if what not in ("bad",):
                self.points.append((t, y, yd))
            self.evaluate(t, y, yd, buf)
        for raw, vals in self.kept:
            try:
                now = [complex(v) for v in np.asarray(raw).reshape(-1).tolist()]
            except (TypeError, ValueError):
                now = [complex(v) for v in raw]
            same = len(now) == len(vals) and all(a == b or (a != a and b != b) for a, b in zip(now, vals))
            self.ctx.check(same, "returned-value-changed-later", lambda: "%s became %s" % (vals, now))
        self.kept = []


def order_of(ctx, spec, ics, y0):
    by = {v: n for n, v in ics.items() if n not in spec["tvars"] and not n.endswith("_d") or n in spec_names(spec)}
    out = []
    for v in y0:
        ctx.check(float(v) in by, "initial-value-not-declared", lambda: "%r handed to the integrator, declared %s" % (v, ics))
        out.append(by[float(v)])
    return out


def spec_names(spec):
    return {G.full(m["name"], v["n"]) for m in spec["models"] for v in m["vars"] if not v.get("time")}


def snapshot(s):
    conf = {k: v for k, v in s.sim.configurations.items() if k != "domain"}
    return {"conf": repr(sorted((k, repr(v)) for k, v in conf.items())), "ics": dict(s.prob.initial_conditions),
            "table": build.table(s.built.domain), "output": repr(s.sim.output),
            "values": {"%s.%s" % (m["name"], o["n"]): repr(s.obj(m["name"], o["n"]).value) for m in s.spec["models"] for o in m["params"] + m["consts"] + m["vars"]},
            "err": repr(np.geterr())}


def run(plan, ctx):
    spec, conf = plan["spec"], plan["conf"]
    if spec["kind"] == "ode" and not valid_ode(spec) or not plan["runs"]:
        return
    s = build.Session(spec).setup(conf)
    ics = dict(spec["ics"])
    pv = G.values_of(spec)
    watches = []
    for k, r in enumerate(plan["runs"]):
        state = {}

        def watch(f, t0, y0, yd0=None):
            order = order_of(ctx, spec, {n: v for n, v in ics.items() if n in spec_names(spec)}, list(y0))
            w = Watch(ctx, spec, pv, f, order, float(t0), y0, yd0)
            before = snapshot(s)
            w.play(r["history"])
            after = snapshot(s)
            for key in before:
                ctx.check(before[key] == after[key], "evaluation-changed-" + key, lambda: "%s -> %s" % (before[key], after[key]))
            state["w"] = w
            watches.append(w)
            return w
        obs = dyn.arm(ctx, None, r["sched"])
        inner_c, inner_i = SIM.cvode, SIM.ida

        def odeint(real, func, y0, t, a, kw):
            args = kw.get("args", ())
            watch(lambda tt, y: func(y, tt, *args), t[0], y0)
            out = real(func, y0, t, *a, **kw)
            state["w"].play(r["history"][:10])
            return out

        class CV:
            def simulate(self, problem, tfinal, ncp, ncp_list):
                watch(problem.rhs, problem.t0, problem.y0)
                out = inner_c.simulate(problem, tfinal, ncp, ncp_list)
                state["w"].play(r["history"][:10])
                return out

        class ID:
            def make_consistent(self, problem, method):
                watch(problem.res, problem.t0, problem.y0, problem.yd0)
                return inner_i.make_consistent(problem, method)

            def simulate(self, problem, tfinal, ncp, ncp_list):
                if "w" not in state:
                    watch(problem.res, problem.t0, problem.y0, problem.yd0)
                return inner_i.simulate(problem, tfinal, ncp, ncp_list)
        SIM.odeint, SIM.cvode, SIM.ida = odeint, CV(), ID()
        kind, out = build.attempt(s.run, show_output_msg=False, show_final_residuals=False)
        dyn.disarm()
        if kind == "err":
            raise out
        ctx.check(not obs, "evaluation-not-repeatable", lambda: repr(obs[0]))
        ctx.check("w" in state, "integrator-not-called")
        ctx.ev("run", k, state["w"].n, state["w"].order)
        ctx.probe("evaluations_compared", state["w"].n)
        if state["w"].n >= 5:
            ctx.nontrivial = True
        if r["late"] and len(watches) > 1:
            # a function handed out for an earlier run is still a function of its arguments
            watches[0].play(r["history"][:6])
            ctx.probe("function_of_earlier_run")
    ctx.state(spec["kind"], conf.get("differential_solver"), conf.get("compile_equations"), len(spec["models"]),
              [[h[0] for h in r["history"]] for r in plan["runs"]])
