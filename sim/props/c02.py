"""C02 A result depends only on what is currently declared and set."""
import re
from .. import gen as G, build, hist, dyn
from ..core import close, digits
from ..seams import SIM

LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded operation histories with faults, final run compared with a freshly built session (refinement)"
NOTE = ("Seeded sampling of histories of up to 14 operations (runs with injected failures, parameter changes, conditional re-declarations, resolves, "
        "resets, reconfigurations, reports, reads, plots). The last resolve and run are compared with those of a session built from scratch, "
        "and with the reference solution. Iterative root finders may give up on one of the two sessions at round-off level.")
CASES = {"quick": 480, "thorough": 30000}
RULE = ("seeded systems of every kind, seeded histories on them, ended by resolve, reset (dynamic) and run; the same declarations, values, "
        "initial conditions and configuration are then built afresh and run. Non-trivial: both runs succeeded after at least 4 operations.")
STATES = "distinct (kind, sequence of operations with outcomes) histories"
REAL = ["all capybara modules except the libraries of property packages and unit operations", "sympy", "scipy", "pyneqsys", "pandas", "prettytable"]
STUB = ["assimulo CVode and IDA (simulated integrators)", "writing of figure files"]
ASSUMPTIONS = ["reference evaluator and generator of /verif/sim/gen.py"]


def gen(rng, i, tier):
    r = rng.random()
    if r < 0.3:
        spec = G.gen_algebraic(rng, "linear")
    elif r < 0.42:
        spec = G.gen_algebraic(rng, "nonlinear")
    elif r < 0.55:
        spec = G.gen_branches(rng)
    elif r < 0.85:
        spec = G.gen_dynamic(rng, "ode")
    else:
        spec = G.gen_dynamic(rng, "dae")
    flags = hist.add_alternatives(rng, spec) if rng.random() < 0.6 else []
    ops = hist.gen_ops(rng, spec, flags, rng.randint(4, 14))
    return {"spec": spec, "conf": hist.gen_conf(rng, spec), "ops": ops, "conf2": hist.gen_conf(rng, spec) if rng.random() < 0.4 else None,
            "newsim": rng.random() < 0.15, "verbose": rng.random() < 0.3}


def usable(spec, flags=None):
    from .c03 import valid as vo
    from .c05 import valid as vd
    if spec["kind"] in ("linear", "nonlinear"):
        return G.valid(spec, flags)
    return vo(spec) if spec["kind"] == "ode" else vd(spec)


def run(plan, ctx):
    spec = plan["spec"]
    if not usable(spec):
        return
    s = build.Session(spec).setup(plan["conf"])
    p = hist.Player(s, ctx, plan["conf"])
    for op in plan["ops"]:
        p.apply(op)
    if plan["newsim"]:
        p.apply({"op": "sim"})
    if plan["conf2"] is not None:
        p.apply({"op": "conf", "conf": plan["conf2"]})
    dynamic = bool(spec["tvars"])
    if dynamic:
        s.built.domain  # rows may remain from runs of an earlier simulation: a reset through this one needs a run first
    p.resolve()
    if dynamic:
        s.sim.reset()
        left = build.table(s.built.domain)["rows"]
        if left:
            # this simulation has recorded nothing yet, so its reset does nothing: record once, then reset
            p.run()
            s.sim.reset()
            left = build.table(s.built.domain)["rows"]
        relabeled = build.table(s.built.domain)["cols"] != build.domain_columns(spec)
        ctx.check(not left and not relabeled, "reset-left-something", lambda: repr(build.table(s.built.domain)))
    flags = dict(s.built.flags)
    kind, out, _ = p.run({"verbose": plan["verbose"], "fault": None, "sched": None})
    res = s.results() if kind == "ok" else None
    fs = p.fresh_spec()
    f = hist.fresh(fs, flags, p.conf)
    fp = hist.Player(f, ctx, p.conf)
    kind2, out2, _ = fp.run({"verbose": plan["verbose"], "fault": None, "sched": None})
    res2 = f.results() if kind2 == "ok" else None
    ctx.state(spec["kind"], p.hist)
    reps = [sorted(" ".join(re.sub(r"\bunnamed_\d+|\bconn_\d+|Connection from \d+", "auto", x).split()) for x in text.splitlines() if "|" in x) for text in (build.printed(t.sim.report, t.prob) for t in (s, f))]
    ctx.check(reps[0] == reps[1], "report-depends-on-history", lambda: "after the history: %s; in a fresh session: %s" % tuple(
        [x for x in a if x not in b] for a, b in ((reps[0], reps[1]), (reps[1], reps[0]))))
    if kind != kind2:
        from src.sloth.core.error_definitions import NumericalError
        e = out if kind == "err" else out2
        iterative = spec["kind"] == "nonlinear" or spec["kind"] == "linear" and p.conf.get("linear_solver", "symbolicsys") == "symbolicsys"
        if iterative and isinstance(e, NumericalError):
            ctx.probe("iterative_solver_gave_up_once")
            return
        ctx.fail("outcome-depends-on-history", "after the history: %s %r; in a fresh session: %s %r" % (kind, out if kind == "err" else "", kind2, out2 if kind2 == "err" else ""))
    if kind == "err":
        ctx.check(type(out) is type(out2), "error-depends-on-history", lambda: "%r / %r" % (out, out2))
        ctx.probe("both_refused")
        if dynamic:
            ctx.fail("regular-run-refused", repr(out))
        return
    ctx.ev("results", digits(res, 4))
    ctx.check(build.same_results(res, res2, 1e-4, 1e-5), "result-depends-on-history", lambda: "after the history: %s; in a fresh session: %s" % (res, res2))
    if not dynamic:
        lists = [build.attempt(t.sim.getResults, "list") for t in (s, f)]
        ctx.check(lists[0][0] == lists[1][0] == "ok" and len(lists[0][1]) == len(lists[1][1])
                  and all(close(a, b, 1e-4, 1e-5) for a, b in zip(lists[0][1], lists[1][1])), "list-depends-on-history",
                  lambda: "after the history: %s; in a fresh session: %s" % (lists[0][1], lists[1][1]))
    pv = G.values_of(fs)
    if dynamic:
        from .c03 import columns
        build.check_rows(ctx, fs, pv, p.conf, res, 0, len(res["rows"]), fs["ics"], cols=columns(fs, p.conf), flags=flags)
        ctx.simtime += res["rows"][-1][0] - res["rows"][0][0]
    else:
        build.check_algebraic(ctx, fs, pv, res, flags=flags)
    ctx.nontrivial = len(plan["ops"]) >= 4
    ctx.probe("compared_with_fresh_session")
