"""C06 A domain holds exactly the rows of the successful runs since its last reset."""
from .. import gen as G, build, dyn
from ..core import digits
from ..stdout import captured
from ..seams import SIM
from .c03 import valid as valid_ode, columns
from .c05 import valid as valid_dae

LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded run/reset/fault histories on one domain against a list-of-rows model"
NOTE = ("Seeded sampling of histories of up to 9 operations with one or two simulations sharing the domain. A failure while the closing "
        "messages are printed may leave the complete rows of that run; every other failed run must leave the table as it was.")
CASES = {"quick": 480, "thorough": 30000}
RULE = ("seeded histories of runs, resets, parameter changes and readings on one domain (ODE with ODEINT/CVODE, or DAE), one or two "
        "simulations on it; runs fail in the integrator, in the result table (bad headers), on standard output at a drawn write, or on "
        "unusable output times. Non-trivial: at least two successful runs or one failure with rows present.")
STATES = "distinct (kind, sequence of operations with their outcomes) histories"
REAL = ["capybara domain/solver/simulation code", "pandas", "prettytable", "scipy odeint"]
STUB = ["assimulo CVode and IDA (simulated integrators)"]
ASSUMPTIONS = ["reference evaluator and generator of /verif/sim/gen.py"]


def gen(rng, i, tier):
    kind = "dae" if rng.random() < 0.3 else "ode"
    spec = G.gen_dynamic(rng, kind)
    rename = rng.choice([None, None, "all", "some", "time"])
    nsim = rng.choice([1, 1, 2])
    steps = []
    for k in range(rng.randint(3, 9)):
        r = rng.random()
        sim = rng.randint(0, nsim - 1)
        if r < 0.66 or k == 0:
            conf = G.gen_conf(rng, spec)
            conf.pop("@rename", None)
            if rename:
                conf["@rename"] = rename
            st = {"op": "run", "sim": sim, "conf": conf, "fault": None, "sched": dyn.gen_schedule(rng), "verbose": rng.random() < 0.5,
                  "goon": k > 0 and rng.random() < 0.4}
            q = rng.random()
            if q < 0.22:
                st["fault"] = dyn.gen_fault(rng, kind, conf)
            elif q < 0.32:
                conf["print_output"] = True
                st["fault"] = {"at": "headers", "kind": rng.choice(["none", "short", "long"])}
            elif q < 0.42:
                conf["print_output"] = True
                st["fault"] = {"at": "stdout", "kind": rng.choice(["n", "table"]), "n": rng.randint(0, 12)}
            elif q < 0.47:
                st["fault"] = {"at": "times", "kind": rng.choice(["empty", "text"])}
        elif r < 0.8:
            st = {"op": "reset", "sim": sim}
        elif r < 0.9:
            st = {"op": "read", "what": rng.choice(["list", "dict", "index", "show", "twice"]), "sim": sim}
        else:
            ps = G.params_of(spec)
            if not ps:
                continue
            mn, n, u, v = rng.choice(ps)
            st = {"op": "set", "model": mn, "name": n, "value": G.nudge(rng, spec, v)}
        steps.append(st)
    return {"spec": spec, "nsim": nsim, "steps": steps}


def run(plan, ctx):
    spec = plan["spec"]
    if not (valid_ode if spec["kind"] == "ode" else valid_dae)(spec):
        return
    first = next((st["conf"] for st in plan["steps"] if st["op"] == "run"), None)
    if first is None:
        return
    s = build.Session(spec).setup(first)
    sims = [s.sim]
    for _ in range(plan["nsim"] - 1):
        sims.append(s.make_simulation().sim)
    good = [False] * len(sims)
    dom = s.built.domain
    over, rows, cols = {}, [], None
    hist = []
    base = build.domain_columns(spec)

    def table():
        t = build.table(dom)
        ctx.check(t["cols"] is not None, "no-table")
        ctx.check(t["cols"] == (cols or base), "column-labels", lambda: "%s instead of %s" % (t["cols"], cols or base))
        return t["rows"]
    ctx.check(table() == [], "rows-before-any-run")
    nrun = 0
    ics = dict(spec["ics"])
    order = base[1:]
    for k, st in enumerate(plan["steps"]):
        op = st["op"]
        if "sim" in st:
            j = st["sim"] % len(sims)
            s.sim = sims[j]
        if op == "run":
            conf = st["conf"]
            if st.get("goon") and rows:
                # go on from the last row, at the time where it ended
                dt = rows[-1][0] - build.requested_times(conf)[0]
                conf = dict(conf, initial_time=rows[-1][0], end_time=build.requested_times(conf)[-1] + dt)
                if conf.get("times_for_solution"):
                    conf["times_for_solution"] = [rows[-1][0]] + [t + dt for t in conf["times_for_solution"][1:]]
                ics.update(zip(order, rows[-1][1:]))
                s.prob.setInitialConditions(dict(ics))
                ctx.probe("continuation_run")
            kw = s.kwargs(conf)
            f = st["fault"]
            fail_at = match = None
            if f and f["at"] == "headers":
                kw["output_headers"] = None if f["kind"] == "none" else kw["output_headers"][:-1] if f["kind"] == "short" else kw["output_headers"] + ["h"]
            elif f and f["at"] == "times":
                kw["times_for_solution"] = [] if f["kind"] == "empty" else ["soon", "later"]
            elif f and f["at"] == "stdout":
                if f["kind"] == "n":
                    fail_at = f["n"]
                else:
                    match = "+-"
            s.sim.setConfigurations(**kw)
            dyn.arm(ctx, f if f and f["at"] in ("odeint", "cvode", "ida") else None, st["sched"])
            with captured(fail_at, ctx, match) as cap:
                kind, out = build.attempt(s.run, show_output_msg=st["verbose"], show_final_residuals=st["verbose"])
            dyn.disarm()
            fk = "%s:%s" % (f["at"], f["kind"]) if f else None
            ctx.ev("run", k, kind, type(out).__name__ if kind == "err" else None, fk)
            hist.append(["run", st["sim"], fk, kind])
            pv = G.values_of(spec, over)
            if kind == "err":
                ctx.check(f is not None, "regular-run-refused", lambda: "%s: %s" % (type(out).__name__, out))
                ctx.probe("run_failed")
                if rows:
                    ctx.nontrivial = True
                    ctx.probe("run_failed_with_rows_present")
                now = build.table(dom)
                if f["at"] == "stdout" and len(now["rows"]) > len(rows):
                    # failed while reporting: the rows are those of the finished run
                    n = len(now["rows"]) - len(rows)
                    ctx.check(now["rows"][:len(rows)] == rows, "earlier-rows-changed")
                    build.check_rows(ctx, spec, pv, conf, now, len(rows), n, ics, cols=cols or columns(spec, conf))
                    rows, cols = now["rows"], now["cols"]
                    good[j] = True
                    ctx.probe("failed_while_reporting")
                    continue
                ctx.check(now["rows"] == rows, "failed-run-changed-rows", lambda: "%d rows before the failed run, %d after it" % (len(rows), len(now["rows"])))
                ctx.check(now["cols"] == (cols or base), "failed-run-changed-labels", lambda: repr(now["cols"]))
                continue
            if f and (f["at"] in ("headers", "times") or f["kind"] in ("message", "nan")):
                ctx.fail("failed-run-reported-success", "fault %s" % fk)
            now = build.table(dom)
            n = len(now["rows"]) - len(rows)
            ctx.check(now["rows"][:len(rows)] == rows, "earlier-rows-changed", lambda: "run %d changed rows recorded before" % k)
            build.check_rows(ctx, spec, pv, conf, now, len(rows), n, ics, cols=cols or columns(spec, conf))
            ctx.ev("rows", n, digits(now["rows"][len(rows):], 4))
            ctx.simtime += now["rows"][-1][0] - now["rows"][len(rows)][0]
            rows, cols = now["rows"], now["cols"]
            good[j] = True
            nrun += 1
            ctx.probe("run_recorded")
        elif op == "reset":
            if not good[j] and rows:
                continue        # this simulation has not recorded anything on the domain yet
            s.sim.reset()
            rows, cols = [], None
            hist.append("reset")
            ctx.check(table() == [], "reset-left-rows", lambda: repr(table()[:2]))
            ctx.probe("reset")
        elif op == "read":
            if not good[j] or not rows:
                continue
            hist.append(["read", st["what"]])
            tn = list(dom.independent_vars.keys())[-1]
            for _ in range(2 if st["what"] == "twice" else 1):
                if st["what"] in ("list", "twice"):
                    s.sim.getResults("list")
                if st["what"] in ("dict", "twice"):
                    s.sim.getResults("dict")
                if st["what"] == "index":
                    dom[(tn, list(cols))]
                if st["what"] == "show":
                    build.attempt(s.sim.showResults)      # fails when the headers configured last do not fit
        elif op == "set":
            s.obj(st["model"], st["name"]).setValue(st["value"])
            over[G.full(st["model"], st["name"])] = st["value"]
            s.prob.resolve()
            hist.append("set")
        ctx.check(table() == rows, "table-changed-by-" + op)
    if nrun >= 2:
        ctx.nontrivial = True
    ctx.state(spec["kind"], hist)
