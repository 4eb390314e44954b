"""C16 An interrupted or failed operation can be retried."""
import numpy as np
import pygmo as pg

from .. import gen as G, build, hist, dyn, backends, sched
from ..core import SimInterrupt, SimNoMemory, SimulatedFault, digits, rng_for
from ..stdout import captured
from ..seams import SIM
from . import c10
from .c14 import value, points

LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: operations struck at simulator-chosen points by interrupts, failed allocations and solver, user-code and output errors, repeated, and compared with a twin session that was never struck"
NOTE = ("Seeded sampling of strike points. A forked dry run records the code sites an operation passes; the simulator draws a site first, then an occurrence, so rare "
        "sites are struck as often as frequent ones. Every operation of a session, from the first declaration to the last run, can be struck up to three times. "
        "Points are the starts of lines of capybara code; calls into libraries are struck as a whole at their beginning, or where a seam fails them.")
CASES = {"quick": 200, "thorough": 25000}
RULE = ("a session of one to three rounds (build, resolve, run; then change values, equations, initial conditions or configuration, resolve and run again), every step struck "
        "with some probability once or up to three times in a row and repeated, sometimes after looking at the results or redoing earlier steps; also optimizations. "
        "Non-trivial: at least one strike hit and the results after it were compared.")
STATES = "distinct (kind, operation, code site or fault, outcome) strikes"
REAL = ["all capybara modules except plots, property packages and unit operations", "sympy", "scipy", "pyneqsys", "pandas", "pygmo"]
STUB = ["assimulo CVode and IDA (simulated integrators)", "standard output", "delivery of interrupts and allocation failures"]
ASSUMPTIONS = ["interrupts arrive between lines of capybara code", "reference evaluator and generator of /verif/sim/gen.py"]


class UserError(SimulatedFault, RuntimeError):
    pass


def strikes(rng, step, p):
    if rng.random() > p:
        return []
    out = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        kinds = ["interrupt", "memory"] * 2
        if step in ("declare", "resolve"):
            kinds += ["user", "user"]
        if step == "run":
            kinds += ["solver", "solver", "stdout"]
        out.append({"kind": rng.choice(kinds), "r": rng.randint(0, 10 ** 9), "look": rng.choice([None, None, None] + hist.READS), "back": rng.random() < 0.15})
    return out


def gen(rng, i, tier):
    if rng.random() < 0.1:
        for _ in range(50):
            p = c10.gen(rng, i, tier)
            o = rng.choice(p["opts"])
            if o["obj"] == "sim" or rng.random() < 0.3:
                break
        return {"kind": "opt", "opt": o, "seed": rng.randint(0, 10 ** 6), "log": rng.random() < 0.7, "print": rng.random() < 0.5,
                "strikes": [{"kind": rng.choice(["interrupt", "memory", "stdout", "objective"]), "r": rng.randint(0, 10 ** 9)} for _ in range(rng.randint(1, 3))]}
    r = rng.random()
    if r < 0.3:
        spec = G.gen_algebraic(rng, "linear")
    elif r < 0.45:
        spec = G.gen_algebraic(rng, "nonlinear")
    elif r < 0.85:
        spec = G.gen_dynamic(rng, "ode")
    else:
        spec = G.gen_dynamic(rng, "dae")
    flags = hist.add_alternatives(rng, spec) if rng.random() < 0.6 else []
    p = rng.choice([0.15, 0.3, 0.5])
    rounds = []
    conf = hist.gen_conf(rng, spec)
    for k in range(rng.choice([1, 2, 2, 3])):
        steps = []

        def step(name, **kw):
            steps.append(dict(kw, step=name, strikes=strikes(rng, name, p)))
        if k == 0:
            for m in spec["models"]:
                step("declare", model=m["name"])
            step("add")
            for c in range(len(spec.get("conns", []))):
                step("connect", conn=c)
            step("resolve")
            if spec["tvars"]:
                step("ics")
            step("sim")
            step("conf", conf=conf)
        else:
            for op in hist.gen_ops(rng, spec, flags, rng.randint(1, 4), faults=False):
                if op["op"] in ("set", "flag"):
                    step("change", change=dict(op, resolve=False))
                elif op["op"] == "ics":
                    step("ics", ics=op["ics"])
                elif op["op"] == "declare":
                    step("declare", model=op["model"])
                elif op["op"] == "conf":
                    step("conf", conf=op["conf"])
            step("resolve")
        st = strikes(rng, "run", max(p, 0.4))
        steps.append({"step": "run", "strikes": st, "verbose": rng.random() < 0.5, "reset": rng.random() < 0.6, "sched": dyn.gen_schedule(rng)})
        rounds.append(steps)
    return {"kind": "session", "spec": spec, "rounds": rounds}


def residuals(m, envs):
    """Residuals of the equations of a model at fixed points, sorted"""
    return sorted([value(e.equation_expression.symbolic_object, env) for env in envs] + [e.type] for e in m.equations.values())


def same(a, b):
    return len(a) == len(b) and all(x[-1] == y[-1] and all(abs(p - q) <= 1e-7 * (1 + abs(p)) for p, q in zip(x[:-1], y[:-1])) for x, y in zip(a, b))


class Twin:
    """The same session, never struck"""

    def __init__(self, spec, ctx, name):
        self.spec, self.ctx = spec, ctx
        self.s = build.Session(spec, name).build_models().make_problem()
        self.over, self.ics = {}, dict(spec.get("ics", {}))
        self.conf = None
        self.hook = None
        for m in self.s.built.models.values():
            m._hook = self._hook

    def _hook(self, model, k):
        if self.hook is not None:
            self.hook(model, k)

    def do(self, st):
        s = self.s
        w = st["step"]
        if w == "declare":
            s.built.models[st["model"]]()
        elif w == "add":
            s.add_models()
        elif w == "connect":
            s.connect_one(self.spec["conns"][st["conn"]])
        elif w == "resolve":
            s.set_time()
            s.prob.resolve()
        elif w == "ics":
            if st.get("ics"):
                s.prob.setInitialConditions(dict(st["ics"]))
            else:
                s.set_ics()
        elif w == "sim":
            s.make_simulation()
        elif w == "conf":
            s.configure(st["conf"])
        elif w == "change":
            c = st["change"]
            if c["op"] == "set":
                s.obj(c["model"], c["name"]).setValue(c["value"])
            else:
                s.built.flags[c["f"]] = st["to"]
        elif w == "run":
            s.run(show_output_msg=st["verbose"], show_final_residuals=st["verbose"])

    def note(self, st):
        if st["step"] == "ics":
            self.ics.update(st.get("ics") or {})
        elif st["step"] == "conf":
            self.conf = st["conf"]
        elif st["step"] == "change" and st["change"]["op"] == "set":
            self.over[G.full(st["change"]["model"], st["change"]["name"])] = st["change"]["value"]

    def view(self):
        """What the session has published"""
        out = {}
        if self.spec["tvars"]:
            out["table"] = build.table(self.s.built.domain)
        if self.s.sim is not None:
            o = self.s.sim.output
            if isinstance(o, dict):
                out["output"] = {str(k): digits(float(v), 12) for k, v in o.items()}
            elif o is not None:
                out["output"] = [digits([float(x) for x in np.array(a).reshape(-1)], 12) for a in o]
        return out


def strike(ctx, T, st, f):
    """One struck attempt. Returns (struck, finished, error)"""
    kind = f["kind"]
    what = st["step"]
    err = None
    site = kind
    fired = False
    if kind in ("interrupt", "memory"):
        def body():
            T.do(st)
        at = sched.pick_point(body, f)
        if at is None:
            return False, False, None
        with captured(None, ctx):
            I = sched.interrupt_at(at, kind, ctx)
            try:
                with I:
                    T.do(st)
            except BaseException as e:
                err = e
        fired, site = bool(I.fired), "%s:%s" % (I.fired, getattr(I, "line", 0))
    elif kind == "user":
        n = {"k": 0}
        at = f["r"] % 7

        def hook(model, k):
            n["k"] += 1
            if n["k"] - 1 == at:
                n["fired"] = True
                ctx.fault("user_code")
                raise UserError("user code failed (simulated)")
        T.hook = hook
        try:
            T.do(st)
        except BaseException as e:
            err = e
        finally:
            T.hook = None
        fired = "fired" in n
    elif kind == "solver":
        r = rng_for("solver", f["r"])
        if T.spec["tvars"]:
            ff = dyn.gen_fault(r, T.spec["kind"], T.conf)
            dyn.arm(ctx, ff, st["sched"])
        else:
            ff = backends.gen_fault(r, T.spec["kind"], T.conf)
            backends.arm(ff, ctx)
        before = sum(ctx.faults.values())
        try:
            T.do(st)
        except BaseException as e:
            err = e
        finally:
            backends.disarm()
            dyn.arm(ctx, None, st["sched"])
        fired, site = err is not None or sum(ctx.faults.values()) > before, "%s:%s" % (ff["at"], ff["kind"])
    elif kind == "stdout":
        with captured(f["r"] % 12, ctx) as cap:
            try:
                T.do(dict(st, verbose=True))
            except BaseException as e:
                err = e
        fired = cap.failed
    if not fired and err is not None:
        raise err
    ctx.ev("strike", what, site, type(err).__name__)
    ctx.state(T.spec["kind"] if T.spec else "opt", what, site, type(err).__name__)
    ctx.probe("struck_" + what if fired else "strike_missed")
    if fired and err is None:
        ctx.probe("strike_survived_" + kind)
    return fired, err is None, err


def check_published(ctx, T, before, complete, st, f, err):
    """After a failed run: what there was before, or this run's complete results"""
    now = T.view()
    if now == before:
        return False
    t0, t1 = before.get("table"), now.get("table")
    full = False
    if t1 is not None and t1 != t0:
        n = len(t0["rows"])
        new = t1["rows"][n:]
        ctx.check(t1["rows"][:n] == t0["rows"], "failed-run-changed-earlier-rows", lambda: "%s -> %s after %r at %s" % (t0, t1, err, f))
        ok = len(new) == len(complete["rows"]) and build.same_table({"cols": 0, "rows": new}, {"cols": 0, "rows": complete["rows"]}, 1e-4, 1e-5)
        ctx.check(ok, "unfinished-rows-published", lambda: "rows %s of a run that failed (%r); complete: %s" % (new, err, complete["rows"]))
        ctx.check(t1["cols"] in (complete["cols"], t0["cols"]), "labels-of-failed-run", lambda: repr(t1["cols"]))
        full = True
    o = now.get("output")
    if o != before.get("output"):
        if isinstance(complete, dict) and "rows" not in complete:
            same = set(o) == set(complete) and all(abs(float(o[k]) - complete[k]) <= 1e-5 + 1e-4 * abs(complete[k]) for k in o)
            ctx.check(same, "unfinished-output-published", lambda: "%s of a run that failed (%r); complete: %s" % (o, err, complete))
        else:
            ctx.check(full or t1 is None, "output-without-rows", lambda: repr(now))
    ctx.probe("failed_after_publication")
    return full


def session(plan, ctx):
    spec = plan["spec"]
    from .c02 import usable
    from src.sloth.core.error_definitions import NumericalError
    if not usable(spec):
        return
    A, B = Twin(spec, ctx, "struck"), Twin(spec, ctx, "spared")
    dynamic = bool(spec["tvars"])
    compared = False
    struck_any = False
    done_steps = []
    for rd in plan["rounds"]:
        for st in rd:
            w = st["step"]
            if w == "connect" and st["conn"] >= len(spec.get("conns", [])) or w == "declare" and st["model"] not in A.s.built.models:
                return
            if w == "change" and st["change"]["op"] == "flag":
                st = dict(st, to=not A.s.built.flags.get(st["change"]["f"], False))
            if w == "run":
                dyn.arm(ctx, None, st["sched"])
                if dynamic:
                    B.s.sim.reset()
                kb, eb = build.attempt(B.do, st)
                rb = B.s.results() if kb == "ok" else None
                if dynamic and st["reset"]:
                    A.s.sim.reset()
                    left = build.table(A.s.built.domain)
                    ctx.check(left["rows"] == [] and left["cols"] == build.domain_columns(spec), "reset-left-something", lambda: repr(left))
            else:
                kb, eb = build.attempt(B.do, st)
                if kb == "err":
                    ctx.fail("regular-operation-refused", "%s: %r" % (w, eb))
                B.note(st)
            finished = False
            hit = False
            before = A.view()
            for f in st["strikes"]:
                if w == "run":
                    before = A.view()
                try:
                    fired, finished, err = strike(ctx, A, st, f)
                except NumericalError:
                    if dynamic or w != "run":
                        raise
                    ctx.probe("iterative_solver_gave_up_once")
                    return
                hit = hit or fired and not finished
                struck_any = struck_any or fired
                if finished:
                    break
                if not fired:
                    continue
                if w == "run" and rb is not None:
                    check_published(ctx, A, before, rb, st, f, err)
                elif w != "run" and A.s.sim is not None:
                    ctx.check(A.view() == before, "results-changed-by-" + w, lambda: "%s -> %s" % (before, A.view()))
                if f["look"] and A.s.sim is not None and A.conf is not None:
                    p = hist.Player(A.s, ctx, A.conf)
                    kind, x = build.attempt(p.read, f["look"])
                    ctx.probe("looked")
                if f["back"]:
                    for b in done_steps[-2:]:
                        if b["step"] in ("declare", "resolve", "conf", "ics"):
                            A.do(b)
                            ctx.probe("redid_earlier_step")
                if w == "run" and dynamic:
                    A.s.sim.reset()
                    left = build.table(A.s.built.domain)
                    ctx.check(left["rows"] == [] and left["cols"] == build.domain_columns(spec), "reset-left-something",
                              lambda: "after a run struck by %s: %s" % (f, left))
            if w != "run":
                if not finished:
                    A.do(st)
                A.note(st)
                done_steps.append(st)
                if w in ("declare", "resolve"):
                    for mn in (A.s.built.models if w == "resolve" else [st["model"]]):
                        ra, rb2 = (residuals(x.s.built.models[mn], points(spec, 2)) for x in (A, B))
                        ctx.check(same(ra, rb2), "equations-differ-after-" + w, lambda: "model %s: %s instead of %s" % (
                            mn, sorted(map(str, A.s.built.models[mn].equations)), sorted(map(str, B.s.built.models[mn].equations))))
                if w == "resolve":
                    a, b = ([len(x.s.prob.equation_block.equations), sorted(x.s.prob.equation_block.variable_dict), sorted(x.s.prob.equation_block.parameter_dict)] for x in (A, B))
                    ctx.check(a == b, "system-differs", lambda: "%s instead of %s" % (a, b))
                continue
            # the run
            was = build.table(A.s.built.domain)["rows"] if dynamic and not finished else before["table"]["rows"] if dynamic else []
            if finished:
                ka, ea = "ok", None
            else:
                ka, ea = build.attempt(A.do, st)
            dyn.disarm()
            if ka != kb:
                e = ea if ka == "err" else eb
                if not dynamic and isinstance(e, NumericalError) and (spec["kind"] == "nonlinear" or A.conf.get("linear_solver", "symbolicsys") == "symbolicsys"):
                    ctx.probe("iterative_solver_gave_up_once")
                    return
                ctx.fail("outcome-differs", "struck and repeated: %s %r; spared: %s %r" % (ka, ea, kb, eb))
            if ka == "err":
                ctx.check(type(ea) is type(eb), "error-differs", lambda: "%r / %r" % (ea, eb))
                ctx.probe("both_refused")
                return
            ra = A.s.results()
            if dynamic:
                ctx.check((was or ra["cols"] == rb["cols"]) and ra["rows"][:len(was)] == was, "earlier-rows-changed", lambda: "%s -> %s" % (was, ra))
                ra = {"cols": rb["cols"], "rows": ra["rows"][len(was):]}
            ctx.check(build.same_results(ra, rb, 1e-4, 1e-5), "result-differs", lambda: "struck and repeated: %s; spared: %s" % (ra, rb))
            ctx.ev("result", digits(ra, 3))
            ctx.probe("runs_compared")
            compared = True
            reference(ctx, A, ra)
            ctx.nontrivial = ctx.nontrivial or struck_any


def reference(ctx, A, res):
    """Also against the reference semantics"""
    pv = G.values_of(A.spec, A.over)
    flags = A.s.built.flags
    if A.spec["tvars"]:
        from .c03 import columns
        build.check_rows(ctx, A.spec, pv, A.conf, res, 0, len(res["rows"]), A.ics, cols=columns(A.spec, A.conf), flags=flags)
        ctx.simtime += res["rows"][-1][0] - res["rows"][0][0]
    else:
        build.check_algebraic(ctx, A.spec, pv, res, flags=flags)


def optimization(plan, ctx):
    o = plan["opt"]
    if not c10.valid(o):
        return
    SIM.savefig = lambda real, fig, fname, kw: None

    def study(opt):
        pg.set_global_rng_seed(plan["seed"])
        del c10.EVALS[:]
        opt.runOptimization(print_output=plan["print"], report_frequency=1, optimization_log=plan["log"], save_optimization_graph=False)
    pg.set_global_rng_seed(plan["seed"])
    c10.HOOK.clear()
    clean, _ = c10.make(o, ctx)
    with captured(None, ctx):
        study(clean)
    want, evals = c10.report(clean.getResults()), [tuple(e) for e in c10.EVALS]
    opt, s = c10.make(o, ctx)
    hit, prev = False, None
    for f in plan["strikes"]:
        err, fired = None, False
        c10.HOOK.clear()
        if f["kind"] in ("interrupt", "memory"):
            at = sched.pick_point(lambda: study(opt), f)
            if at is None:
                continue
            I = sched.interrupt_at(at, f["kind"], ctx)
            with captured(None, ctx):
                try:
                    with I:
                        study(opt)
                except BaseException as e:
                    err = e
            fired, site = bool(I.fired), I.fired
        else:
            at = f["r"] % (len(evals) if f["kind"] == "objective" else 15)
            site = f["kind"]

            def before(k):
                if k == at:
                    ctx.fault("objective")
                    raise UserError("objective failed (simulated)")
            if f["kind"] == "objective":
                c10.HOOK["before"] = before
            with captured(at if f["kind"] == "stdout" else None, ctx) as cap:
                try:
                    study(opt)
                except BaseException as e:
                    err = e
            c10.HOOK.clear()
            fired = f["kind"] == "objective" or cap.failed
        if err is not None and not fired:
            raise err
        hit = hit or fired and err is not None
        ctx.ev("strike", site, type(err).__name__)
        ctx.state("opt", site, type(err).__name__)
        if fired:
            ctx.probe("struck_optimization")
        kd, got = build.attempt(opt.getResults)
        done = [tuple(e) for e in c10.EVALS if e[1] is not None]
        if kd == "ok" and err is not None:
            # what is reported after a failed study is the report of a finished one: this one, or an earlier one
            if prev is None or c10.report(got) != prev:
                ctx.check(len(c10.EVALS) == len(done) and len(done) >= o["n"], "unfinished-study-reported", lambda: "%s after %r" % (got, err))
                c10.check_report(ctx, o, o["lo"], o["hi"], done, *c10.report(got))
        prev = c10.report(got) if kd == "ok" else None
        if s is not None and o.get("spec", {}).get("tvars"):
            s.sim.reset()
    with captured(None, ctx):
        kind, x = build.attempt(study, opt)
    ctx.check(kind == "ok", "study-cannot-be-repeated", lambda: repr(x))
    got = c10.report(opt.getResults())
    e2 = [tuple(e) for e in c10.EVALS]
    c10.check_report(ctx, o, o["lo"], o["hi"], e2, *got)
    # the optimizer goes on with its own random numbers, so only the initial population is the same
    same = len(e2) >= o["n"] and all(abs(x - y) <= 1e-6 * (1 + abs(x)) for a, b in zip(evals[:o["n"]], e2) for x, y in zip(a[0] + (a[1],), b[0] + (b[1],)))
    ctx.check(same, "repeated-study-differs", lambda: "%s instead of %s" % (e2[:o["n"]], evals[:o["n"]]))
    ctx.ev("study", digits(list(got[0])), len(e2))
    ctx.probe("studies_compared")
    ctx.nontrivial = hit


def run(plan, ctx):
    (optimization if plan["kind"] == "opt" else session)(plan, ctx)


def shrink(plan):
    """Smaller plans first: fewer rounds, strikes and steps"""
    import copy
    if plan["kind"] == "opt":
        for k in range(len(plan["strikes"])):
            p = copy.deepcopy(plan)
            del p["strikes"][k]
            yield p
        return
    for k in range(len(plan["rounds"])):
        if len(plan["rounds"]) > 1:
            p = copy.deepcopy(plan)
            del p["rounds"][len(plan["rounds"]) - 1 - k]
            if k < len(plan["rounds"]) - 1 or len(plan["rounds"]) == 1:
                yield p
    for a, rd in enumerate(plan["rounds"]):
        for b, st in enumerate(rd):
            for k in range(len(st["strikes"])):
                p = copy.deepcopy(plan)
                del p["rounds"][a][b]["strikes"][k]
                yield p
