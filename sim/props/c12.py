"""C12 Independent sessions in different threads do not affect each other."""
import json
import os

from .. import gen as G, build, hist, dyn, backends, sched
from ..core import digits, rng_for
from ..integrators import Schedule, ExplicitIntegrator, IntegratorFailure
from ..seams import SIM, Explicit_Problem

LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded thread scheduler over line and bytecode events of the real code, results compared with isolated runs"
NOTE = ("Seeded sampling of interleavings of 2-3 sessions (declarations, resolves, runs with solver faults, re-declarations, reads), one thread each, "
        "under four families of schedules; each session's outcomes are compared with those of the same history alone in its own process.")
CASES = {"quick": 400, "thorough": 30000}
RULE = ("2-3 sessions with equal model, variable and problem names but different systems and values, each a seeded history; a seeded scheduler picks the running "
        "thread at line or bytecode events of capybara's code; a thread may lose its memory at a chosen event, backends may fail in one thread. "
        "Non-trivial: at least 3 preemptions happened while two sessions were alive and a session succeeded.")
STATES = "distinct (function preempted, next thread) sets"
REAL = ["all capybara modules used by a session", "sympy", "scipy root finders and linear algebra", "threads of the interpreter (one runs at a time)"]
STUB = ["thread scheduling", "locks of capybara", "scipy odeint (simulated: it holds a lock of its own)", "assimulo CVode and IDA"]
ASSUMPTIONS = ["thread switches happen between the observed events only; libraries below capybara are atomic",
               "reference evaluator and generator of /verif/sim/gen.py"]


def gen_session(rng, k, base=None):
    r = rng.random()
    like = None
    if base is not None and rng.random() < 0.5:
        like = json.loads(json.dumps(base["conf"]))
        spec = json.loads(json.dumps(base["spec"]))
        for m in spec["models"]:
            for p in m["params"]:
                if p["v"] is not None:
                    p["v"] = G.nudge(rng, spec, G.Free(p["v"]) if p.get("free") else p["v"])
    elif r < 0.45:
        spec = G.gen_algebraic(rng, "linear", nmodels=rng.choice([1, 1, 2]), maxn=3)
    elif r < 0.6:
        spec = G.gen_algebraic(rng, "nonlinear", nmodels=1, maxn=2)
    elif r < 0.9:
        spec = G.gen_dynamic(rng, "ode", nmodels=rng.choice([1, 1, 2]), maxn=2)
    else:
        spec = G.gen_dynamic(rng, "dae", nmodels=1, maxn=2)
    flags = sorted({e["if"].lstrip("!") for m in spec["models"] for e in m["eqs"] if e.get("if")})
    if not flags and rng.random() < 0.3:
        flags = hist.add_alternatives(rng, spec)
    ops = [o for o in hist.gen_ops(rng, spec, flags, rng.randint(0, 4), faults=rng.random() < 0.3)
           if not (o["op"] == "read" and o["what"] in ("plot", "graph")) and o.get("stdout") is None]
    conf = conf_of(rng, spec) if like is None or rng.random() < 0.3 else like
    for o in ops:
        if o["op"] == "conf":
            o["conf"] = conf_of(rng, spec)
    return {"spec": spec, "conf": conf, "ops": ops}


def conf_of(rng, spec):
    c = hist.gen_conf(rng, spec)
    if spec["kind"] == "linear" and c["linear_solver"] == "symbolicsys" and rng.random() < 0.6:
        c["linear_solver"] = rng.choice(["sympy", "scipy"])
    if spec["kind"] == "ode":
        c["compile_equations"] = rng.random() < 0.5
    return c


def gen(rng, i, tier):
    n = rng.choice([2, 2, 2, 3])
    ss = [gen_session(rng, 0)]
    while len(ss) < n:
        ss.append(gen_session(rng, len(ss), ss[0]))
    plan = {"sessions": ss, "strategy": sched.gen_strategy(rng), "kill": None}
    if rng.random() < 0.15:
        plan["kill"] = [rng.randrange(n), rng.choice([rng.randint(1, 300), rng.randint(1, 6000)])]
    return plan


class ThreadPlayer(hist.Player):
    """A player whose faults and integrators concern its own thread only"""

    def __init__(self, s, ctx, conf, table, key):
        super().__init__(s, ctx, conf)
        self.table, self.key = table, key
        self.outcomes = []

    def run(self, op=None):
        op = op or {"verbose": False, "fault": None, "sched": None}
        spec = self.s.spec
        fault = None
        if op.get("fault"):
            r = rng_for("fault", op["fault"]["r"])
            fault = dyn.gen_fault(r, spec["kind"], self.conf) if spec["tvars"] else backends.gen_fault(r, spec["kind"], self.conf)
        self.table[self.key] = handlers(self.ctx, spec, fault, op.get("sched"))
        kind, out = build.attempt(self.s.run, show_output_msg=op["verbose"], show_final_residuals=op["verbose"])
        self.table.pop(self.key, None)
        if kind == "ok":
            self.ran = True
        self.note("run", kind, out)
        return kind, out, fault

    def note(self, what, kind, out):
        res = None
        if kind == "ok":
            k2, res = build.attempt(self.s.results)
            if k2 == "err":
                res = "unreadable: " + type(res).__name__
        self.outcomes.append([what, kind, type(out).__name__ if kind == "err" else None, res])

    def apply(self, op):
        try:
            super().apply(op)
        except Exception as e:
            self.outcomes.append([op["op"], "err", type(e).__name__, None])
            raise


def handlers(ctx, spec, fault, sc):
    """The backends of one run as a dictionary of handlers"""
    saved = (SIM.odeint, SIM.root, SIM.linsolve, SIM.symsolve, SIM.cvode, SIM.ida)
    SIM.root = SIM.linsolve = SIM.symsolve = None
    if spec["tvars"]:
        dyn.arm(ctx, fault, sc)
    elif fault:
        backends.arm(fault, ctx)
    h = {"root": SIM.root, "linsolve": SIM.linsolve, "symsolve": SIM.symsolve, "cvode": SIM.cvode if spec["tvars"] else None, "ida": SIM.ida if spec["tvars"] else None,
         "odeint": fault if fault and fault["at"] == "odeint" else None}
    SIM.odeint, SIM.root, SIM.linsolve, SIM.symsolve, SIM.cvode, SIM.ida = saved
    return h


class PerThread:
    def __init__(self, table, key, name):
        self.table, self.key, self.name = table, key, name

    def _h(self):
        return self.table[self.key()][self.name]

    def simulate(self, *a):
        return self._h().simulate(*a)

    def make_consistent(self, *a):
        return self._h().make_consistent(*a)


def install(table, key):
    def back(name):
        def f(real, *args):
            h = (table.get(key()) or {}).get(name)
            a, kw = args[-2:]
            if h is None:
                return real(*args[:-2], *a, **kw)
            return h(real, *args)
        return f

    def odeint(real, func, y0, t, a, kw):
        fault = (table.get(key()) or {}).get("odeint")
        k = fault["kind"] if fault else None
        if k == "raise":
            raise IntegratorFailure("odeint failed (simulated)")
        ig = ExplicitIntegrator(Schedule(method="DOP853", fail_after=fault["n"] if k == "late_raise" else None))
        ts, Y = ig.simulate(Explicit_Problem(lambda tt, yy: func(yy, tt), y0, t0=float(t[0])), float(t[-1]), 0, t)
        msg = "Integration successful."
        if k == "message":
            Y[fault["row"] % len(Y):] = 0.0
            msg = "Excess work done on this call (perhaps wrong Dfun type)."
        elif k == "nan":
            Y[fault["row"] % len(Y):] = float("nan")
        return (Y, {"message": msg}) if kw.get("full_output") else Y
    SIM.odeint = odeint
    SIM.root, SIM.linsolve, SIM.symsolve = back("root"), back("linsolve"), back("symsolve")
    SIM.cvode, SIM.ida = PerThread(table, key, "cvode"), PerThread(table, key, "ida")


def body(ctx, se, table, key, box):
    def go():
        spec = se["spec"]
        s = build.Session(spec, "session %s" % key)
        s.setup(se["conf"])
        p = ThreadPlayer(s, ctx, se["conf"], table, key)
        box[key] = p
        for op in se["ops"]:
            p.apply(op)
        p.resolve()
        if spec["tvars"]:
            s.sim.reset()
            if build.table(s.built.domain)["rows"]:
                p.run()
                s.sim.reset()
        p.run()
        p.outcomes.append(["equations", sorted(map(str, [e.equation_expression.symbolic_object for e in s.prob.equation_block.equations])), None, None])
        return p.outcomes
    return go


class Silent:
    """Event log of a thread: what the threads do is recorded by their outcomes"""

    def __init__(self, ctx):
        self.faults = ctx.faults
        self.fault = ctx.fault

    def ev(self, *a):
        pass

    def probe(self, *a):
        pass


def alone(ctx, se, key, kill):
    """Outcome of a session that runs alone in its own process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            table, box = {}, {}
            install(table, lambda: key)
            try:
                out = ["ok", body(Silent(ctx), se, table, key, box)()]
            except BaseException as e:
                out = ["err", type(e).__name__ + ": " + str(e)[:300], box[key].outcomes if key in box else []]
            data = json.dumps(out).encode()
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf += b
    os.close(r)
    os.waitpid(pid, 0)
    return json.loads(buf)


def same(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x[:3] != y[:3]:
            return False
        if isinstance(x[3], dict) and isinstance(y[3], dict):
            if not build.same_results(x[3], y[3], 1e-9, 1e-12):
                return False
        elif x[3] != y[3]:
            return False
    return True


def run(plan, ctx):
    from .c02 import usable
    ss = plan["sessions"]
    if len(ss) < 2 or not all(usable(se["spec"]) for se in ss):
        return
    ref = [alone(ctx, se, k, None) for k, se in enumerate(ss)]
    table, box = {}, {}
    kill = {plan["kill"][0]: plan["kill"][1]} if plan["kill"] else {}
    S = sched.Scheduler(ctx, [body(Silent(ctx), se, table, k, box) for k, se in enumerate(ss)], plan["strategy"], plan.get("switches"), kill)
    install(table, S.thread_index)
    out = S.run()
    SIM.reset()
    plan["switches"] = S.taken if not S.explicit else plan["switches"]
    ctx.fault("preemption", len(S.taken))
    ctx.ev("points", S.k, len(S.taken))
    ctx.state(sorted(S.pairs))
    good = 0
    for k, (se, o, a) in enumerate(zip(ss, out, ref)):
        if o is None or o[0] == "deadlock":
            ctx.fail("threads-blocked", "session %d does not end" % k)
        done = [x for x in (box[k].outcomes if k in box else [])]
        done = json.loads(json.dumps(done))
        got = ["ok", json.loads(json.dumps(o[1]))] if o[0] == "ok" else ["err", "%s: %s" % (type(o[1]).__name__, str(o[1])[:300]), done]
        ctx.ev("session", k, got[0], digits(got[1], 5) if got[0] == "ok" else got[1])
        if k in kill and S.own[k] >= kill[k]:
            ctx.probe("thread_killed")
            continue
        ctx.check(got[0] == a[0], "outcome-depends-on-threads", lambda: "session %d: %s in threads, %s alone" % (k, brief(got), brief(a)))
        if got[0] == "ok":
            ctx.check(same(got[1], a[1]), "result-depends-on-threads", lambda: "session %d: %s in threads, %s alone" % (k, brief(got), brief(a)))
            last = got[1][-2]
            if last[1] == "ok":
                reference(ctx, se, box[k], last[3])
                good += 1
        else:
            ctx.check(got[1].split(":")[0] == a[1].split(":")[0] and same(got[2], a[2]), "error-depends-on-threads", lambda: "session %d: %s in threads, %s alone" % (k, got, a))
            ctx.probe("session_failed_alike")
    ctx.probe("sessions_compared", len(ss))
    ctx.nontrivial = len(S.taken) >= 3 and good > 0


def brief(x):
    return json.dumps(x)[:700]


def reference(ctx, se, p, res):
    fs = p.fresh_spec()
    flags = dict(p.s.built.flags)
    pv = G.values_of(fs)
    if fs["tvars"]:
        from .c03 import columns
        build.check_rows(ctx, fs, pv, p.conf, res, 0, len(res["rows"]), fs["ics"], cols=columns(fs, p.conf), flags=flags)
        ctx.simtime += res["rows"][-1][0] - res["rows"][0][0]
    else:
        build.check_algebraic(ctx, fs, pv, res, flags=flags)
    ctx.probe("reference_checked")
