"""C19 All views of a run's results agree with one another."""
import math

import numpy as np

from .. import gen as G, build, dyn, backends, hist
from ..core import digits, rng_for
from ..seams import SIM
from ..stdout import captured
from .c03 import valid as valid_ode
from .c05 import valid as valid_dae

LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: after every operation of seeded run/rename/reset/fault histories every view of the results is read and compared"
NOTE = ("Seeded sampling of histories of up to 9 operations, one or two simulations and domains. Printed numbers are compared to 6 digits. Solvers "
        "may return slightly inexact solutions (injected, far inside the accepted tolerance) so that residuals of different equations differ.")
CASES = {"quick": 480, "thorough": 30000}
RULE = ("seeded systems of every kind; runs (with tables, messages and residuals printed or not, with drawn headers), renamings of some, all, or "
        "exchanged names, resets, value changes, re-declarations, reconfigurations, failing runs. After each operation list, dictionary, table, "
        "indexed access, returned output and printed table are read in a drawn order. Non-trivial: at least three operations and one run whose views were compared.")
STATES = "distinct (kind, operations with outcomes, renamings, view orders) histories"
REAL = ["all capybara modules except the libraries of property packages and unit operations", "sympy", "scipy", "pyneqsys", "pandas", "prettytable"]
STUB = ["assimulo CVode and IDA (simulated integrators)", "standard output (captured)"]
ASSUMPTIONS = ["reference evaluator and generator of /verif/sim/gen.py"]

VIEWS = ["list", "dict", "table", "index", "output", "show"]


# ---------------------------------------------------------------- plans

def gen(rng, i, tier):
    r = rng.random()
    if r < 0.45:
        return gen_algebraic(rng)
    return gen_dynamic(rng)


def views(rng):
    return [rng.choice(VIEWS) for _ in range(rng.randint(1, 2))] + rng.sample(VIEWS, len(VIEWS))


def gen_algebraic(rng):
    spec = G.gen_algebraic(rng, rng.choice(["linear", "nonlinear"]))
    flags = hist.add_alternatives(rng, spec) if rng.random() < 0.4 else []
    ps = G.params_of(spec)
    steps = []
    for k in range(rng.randint(2, 7)):
        q = rng.random()
        if q < 0.5 or k == 0:
            st = {"op": "run", "verbose": rng.random() < 0.5, "residuals": rng.random() < 0.7, "fault": None,
                  "inexact": rng.randint(0, 10 ** 6) if rng.random() < 0.7 else None}
            if rng.random() < 0.2:
                st["fault"] = rng.randint(0, 10 ** 6)
        elif q < 0.65 and ps:
            mn, nm, u, v = rng.choice(ps)
            st = {"op": "set", "model": mn, "name": nm, "value": G.nudge(rng, spec, v), "resolve": rng.random() < 0.7}
        elif q < 0.75 and flags:
            st = {"op": "flag", "f": rng.choice(flags)}
        elif q < 0.85:
            st = {"op": "resolve"}
        else:
            st = {"op": "conf", "conf": hist.gen_conf(rng, spec)}
        st["views"] = views(rng)
        st["mine"] = rng.random() < 0.4
        steps.append(st)
    return {"what": "algebraic", "spec": spec, "conf": hist.gen_conf(rng, spec), "steps": steps}


def gen_map(rng, cols):
    """A renaming, in terms of the original column names"""
    r = rng.random()
    if r < 0.35:
        return {}
    if r < 0.6:
        return {c: "<%s>" % c for c in cols}
    if r < 0.75:
        return {c: "(%s)" % c for c in cols if rng.random() < 0.5}
    if r < 0.85:
        return {cols[0]: rng.choice(["time [s]", "t"])}
    if r < 0.95:
        a = rng.sample(cols, len(cols))
        return dict(zip(cols, a))
    return {"nobody": "x", cols[-1]: "last"}


def gen_dynamic(rng):
    kind = "dae" if rng.random() < 0.25 else "ode"
    spec = G.gen_dynamic(rng, kind)
    cols = build.domain_columns(spec)
    nsim, ndom = rng.choice([1, 1, 2]), rng.choice([1, 1, 1, 2])
    ps = G.params_of(spec)
    steps = []
    for k in range(rng.randint(2, 8)):
        q = rng.random()
        st = {"sim": rng.randrange(nsim), "dom": rng.randrange(ndom)}
        if q < 0.6 or k == 0:
            st.update(op="run", conf=gen_dconf(rng, spec, cols), verbose=rng.random() < 0.5, residuals=rng.random() < 0.5, sched=dyn.gen_schedule(rng), fault=None)
            if rng.random() < 0.15:
                st["fault"] = dyn.gen_fault(rng, kind, st["conf"])
            elif rng.random() < 0.06:
                st["conf"]["print_output"] = True
                st["fault"] = {"at": "stdout", "n": rng.randint(1, 6)}
        elif q < 0.75:
            st.update(op="reset")
        elif q < 0.85 and ps:
            mn, nm, u, v = rng.choice(ps)
            st.update(op="set", model=mn, name=nm, value=G.nudge(rng, spec, v))
        elif q < 0.93:
            st.update(op="conf", conf=gen_dconf(rng, spec, cols))
        else:
            st.update(op="resolve")
        st["views"] = views(rng)
        st["mine"] = rng.random() < 0.4
        st["pick"] = rng.randint(0, 10 ** 6)
        steps.append(st)
    return {"what": "dynamic", "spec": spec, "nsim": nsim, "ndom": ndom, "steps": steps}


def gen_dconf(rng, spec, cols):
    c = G.gen_conf(rng, spec)
    for k in ("@rename", "@headers", "print_output"):
        c.pop(k, None)
    m = gen_map(rng, cols)
    if m:
        c["variable_name_map"] = m
    r = rng.random()
    if r < 0.85:
        c["output_headers"] = ["h%d.%d" % (rng.randint(0, 99), k) for k in range(len(cols))] if rng.random() < 0.5 else list(cols)
        if rng.random() < 0.4:
            c["print_output"] = True
    return c


# ---------------------------------------------------------------- helpers

def tables(text):
    """The tables printed in a text: (header, rows)"""
    out, cur, bars = [], None, 0
    for line in text.splitlines():
        line = line.strip()
        if line.startswith("+-") and line.endswith("+"):
            if cur is None:
                cur, bars = [], 0
            bars += 1
            if bars == 3:
                out.append((cur[0] if cur else [], cur[1:]))
                cur = None
        elif cur is not None and line.startswith("|"):
            cur.append([c.strip() for c in line.strip("|").split("|")])
        elif cur is not None:
            out.append((cur[0] if cur else [], cur[1:]))
            cur = None
    if cur:
        out.append((cur[0], cur[1:]))
    return out


def same(a, b, rel=1e-6, abs_=1e-12):
    a, b = float(a), float(b)
    return a == b or abs(a - b) <= abs_ + rel * max(abs(a), abs(b)) or math.isnan(a) and math.isnan(b)


class Inexact:
    """Backends that return their solution a little beside the exact one"""

    def __init__(self, seed, ctx):
        self.r = rng_for("inexact", seed)
        self.ctx = ctx

    def move(self, x):
        self.ctx.fault("inexact_solution")
        return x + self.r.choice([-1, 1]) * self.r.uniform(0.3, 1.0) * 2e-8 * (1 + abs(x))

    def arm(self):
        import sympy as sp

        def linsolve(real, A, b, a, kw):
            x = real(A, b, *a, **kw)
            return np.array([self.move(float(v)) for v in np.ravel(x)]).reshape(np.shape(x))

        def root(real, fun, x0, a, kw):
            res = real(fun, x0, *a, **kw)
            res.x = np.array([self.move(float(v)) for v in res.x])
            return res

        def symsolve(real, f, a, kw):
            res = real(f, *a, **kw)
            return [{k: sp.Float(self.move(float(v))) if sp.sympify(v).is_number and sp.sympify(v).is_real else v for k, v in d.items()} for d in res]
        SIM.linsolve, SIM.root, SIM.symsolve = linsolve, root, symsolve


# ---------------------------------------------------------------- algebraic

def run_algebraic(plan, ctx):
    spec = plan["spec"]
    if not G.valid(spec):
        return
    s = build.Session(spec).setup(plan["conf"])
    over = {}
    cur = None                  # name -> value published by the last successful run
    order = None
    ops = []
    for k, st in enumerate(plan["steps"]):
        op = st["op"]
        if op == "run":
            if st["fault"] is not None:
                backends.arm(backends.gen_fault(rng_for("fault", st["fault"]), spec["kind"], s.conf), ctx)
            elif st.get("inexact") is not None:
                Inexact(st["inexact"], ctx).arm()
            with captured() as cap:
                kind, e = build.attempt(s.run, show_output_msg=st["verbose"], show_final_residuals=st["residuals"])
            backends.disarm()
            SIM.linsolve = SIM.root = SIM.symsolve = None
            ops.append([op, kind, st["fault"] is not None, st["residuals"], s.conf.get("linear_solver")])
            ctx.ev("run", k, kind, type(e).__name__ if kind == "err" else None)
            if kind == "ok":
                out = s.sim.output
                new = {str(n): out[n] for n in out}
                cur, order = {n: as_float(ctx, v) for n, v in new.items()}, list(new)
                names = G.unknowns(spec, s.built.flags)
                ctx.check(sorted(cur) == sorted(names), "wrong-names", lambda: "%s / %s" % (sorted(cur), sorted(names)))
                tab = [t for t in tables(cap.text) if t[0] == ["Equation", "Residual"]]
                ctx.check(len(tab) == (1 if st["residuals"] else 0), "residual-table-missing", lambda: cap.text[-500:])
                if tab:
                    check_residuals(ctx, s, over, cur, tab[0][1])
        elif op == "set":
            s.obj(st["model"], st["name"]).setValue(st["value"])
            over["new " + G.full(st["model"], st["name"])] = st["value"]
            if st["resolve"]:
                s.prob.resolve()
        elif op == "flag":
            s.built.flags[st["f"]] = not s.built.flags.get(st["f"], False)
            s.prob.resolve()
        elif op == "resolve":
            s.prob.resolve()
        elif op == "conf":
            s.configure(st["conf"])
        if op != "run":
            ops.append([op])
        if op in ("resolve", "flag") or op == "set" and st["resolve"]:
            for n in [n for n in over if n.startswith("new ")]:
                over[n[4:]] = over.pop(n)
        if cur is None:
            continue
        for v in st["views"]:
            see_algebraic(ctx, s, v, cur, order, st["mine"])
        ctx.ev("views", digits([cur[n] for n in sorted(cur)], 4))
        ctx.probe("views_compared_algebraic")
        if k >= 2:
            ctx.nontrivial = True
    ctx.state(spec["kind"], ops)


def as_float(ctx, v):
    try:
        return float(v)
    except (TypeError, ValueError):
        ctx.fail("result-not-a-number", repr(v))


def see_algebraic(ctx, s, view, cur, order, mine):
    if view == "list":
        l = s.sim.getResults("list") if mine else s.sim.getResults()
        ctx.check([float(v) for v in l] == [cur[n] for n in order], "list-differs", lambda: "list %s, output %s" % (l, [cur[n] for n in order]))
        if mine:
            del l[:]
    elif view == "dict":
        d = s.sim.getResults("dict")
        ctx.check(list(d) == sorted(cur), "dictionary-order", lambda: "%s" % list(d))
        ctx.check({str(k): as_float(ctx, v) for k, v in d.items()} == cur, "dictionary-differs", lambda: "dictionary %s, output %s" % (d, cur))
        if mine:
            d.clear()
    elif view in ("output", "table", "index"):
        o = s.sim.output
        ctx.check([str(n) for n in o] == order and all(float(o[n]) == cur[str(n)] for n in o), "output-changed", lambda: "%s / %s" % (o, cur))
    elif view == "show":
        with captured() as cap:
            s.sim.showResults()
        t = tables(cap.text)
        ctx.check(len(t) == 1 and t[0][0] == ["Variable", "Unit", "Value"], "printed-table-missing", lambda: cap.text)
        rows = t[0][1]
        ctx.check([r[0] for r in rows] == order, "printed-names-differ", lambda: "%s / %s" % ([r[0] for r in rows], order))
        for r in rows:
            ctx.check(same(r[2], cur[r[0]]), "printed-value-differs", lambda: "%s printed as %s, is %r" % (r[0], r[2], cur[r[0]]))
            u = str(s.fullobj(r[0]).units).strip()
            ctx.check(r[1] == u, "printed-unit-differs", lambda: "%s printed with unit %r, has %r" % (r[0], r[1], u))


def check_residuals(ctx, s, over, cur, rows):
    """The printed residuals are those of the declared equations at the published values"""
    spec = s.spec
    env = G.values_of(spec, {k: v for k, v in over.items() if not k.startswith("new ")})
    env.update(cur)
    named, other = {}, []
    for mn, e in G.all_equations(spec, s.built.flags):
        try:
            r, sc = G.residual(e, env, mn), G.scale(e, env, mn)
        except (ValueError, OverflowError, ZeroDivisionError):
            return
        if e.get("n"):
            named[G.full(mn, e["n"])] = (r, sc)
        else:
            other.append((r, sc))
    n = len(named) + len(other)
    ctx.check(len(rows) == n, "residual-rows", lambda: "%d residuals printed for %d equations: %s" % (len(rows), n, rows))
    rest = []
    seen = set()
    for name, val in rows:
        if name in named:
            ctx.check(name not in seen, "residual-rows", lambda: "%s printed twice" % name)
            seen.add(name)
            r, sc = named[name]
            ctx.check(same(abs(float(val)), abs(r), 1e-5, 1e-12 * sc), "printed-residual-differs", lambda: "%s printed with residual %s, it is %r" % (name, val, r))
        else:
            rest.append(abs(float(val)))
    ctx.check(seen == set(named), "residual-rows", lambda: "no residual for %s" % sorted(set(named) - seen))
    sc = max([1.0] + [x[1] for x in other])
    ctx.check(all(same(a, b, 1e-5, 1e-12 * sc) for a, b in zip(sorted(rest), sorted(abs(x[0]) for x in other))), "printed-residual-differs",
              lambda: "unnamed equations: %s printed, %s expected" % (rest, other))
    ctx.probe("residuals_checked")


# ---------------------------------------------------------------- dynamic

def run_dynamic(plan, ctx):
    spec = plan["spec"]
    if not (valid_ode if spec["kind"] == "ode" else valid_dae)(spec):
        return
    first = next((st["conf"] for st in plan["steps"] if st["op"] == "run"), None)
    if first is None:
        return
    base = build.domain_columns(spec)
    s = build.Session(spec).setup(first)
    doms = [s.built.domain]
    for k in range(plan["ndom"] - 1):
        doms.append(s.make_domain(spec["domain"], "another"))
    sims = [s.sim]
    for _ in range(plan["nsim"] - 1):
        sims.append(s.make_simulation().sim)
        s.configure(first)
    cols = [list(base) for _ in doms]
    rows = [[] for _ in doms]
    conf_dom = [0] * len(sims)              # the configured domain
    ran_dom = [None] * len(sims)            # that of the last run
    confs = [first] * len(sims)
    outs = [None] * len(sims)
    ops = []
    for k, st in enumerate(plan["steps"]):
        j, d = st["sim"] % len(sims), st["dom"] % len(doms)
        s.sim = sims[j]
        op = st["op"]
        if op in ("run", "conf"):
            s.built.domain = doms[d]
            s.configure(st["conf"])
            conf_dom[j], confs[j] = d, st["conf"]
        if op == "run":
            f = st["fault"]
            conf = st["conf"]
            ran_dom[j] = d
            dyn.arm(ctx, f if f and f["at"] != "stdout" else None, st["sched"])
            with captured(f["n"] if f and f["at"] == "stdout" else None, ctx) as cap:
                kind, e = build.attempt(s.run, show_output_msg=st["verbose"], show_final_residuals=st["residuals"])
            dyn.disarm()
            ctx.ev("run", k, kind, type(e).__name__ if kind == "err" else None)
            ops.append([op, j, d, kind, bool(f), len(conf.get("variable_name_map", {})), bool(conf.get("print_output"))])
            now = build.table(doms[d])
            if kind == "err":
                ctx.check(f is not None, "regular-run-refused", lambda: "%s: %s" % (type(e).__name__, e))
                if f["at"] == "stdout" and len(now["rows"]) != len(rows[d]):
                    # failed while reporting: complete rows (C06); what the names are is not settled then
                    return
            else:
                n = len(build.requested_times(conf))
                T, Y = s.sim.output
                T, Y = [float(t) for t in T], [[float(v) for v in r] for r in np.array(Y)]
                ctx.check(len(T) == len(Y) == n, "output-shape", lambda: "%d times, %d rows, %d requested" % (len(T), len(Y), n))
                outs[j] = [[t] + y for t, y in zip(T, Y)]
                rows[d] = rows[d] + outs[j]
                m = conf.get("variable_name_map", {})
                cols[d] = [m.get(c, c) for c in cols[d]]
                ctx.simtime += T[-1] - T[0]
                tab = tables(cap.text)
                ctx.check(len(tab) == (1 if conf.get("print_output") else 0), "printed-table-missing", lambda: cap.text[-400:])
                if tab:
                    check_printed(ctx, tab[0], conf["output_headers"], outs[j])
        elif op == "reset":
            s.sim.reset()
            if ran_dom[j] is not None:
                d = ran_dom[j]
                rows[d], cols[d] = [], list(base)
        elif op == "set":
            s.obj(st["model"], st["name"]).setValue(st["value"])
            s.prob.resolve()
        elif op == "resolve":
            s.prob.resolve()
        if op != "run":
            ops.append([op, j])
        r = rng_for("pick", st["pick"])
        for jj in range(len(sims)):
            for v in (st["views"] if jj == j else st["views"][:3]):
                see_dynamic(ctx, sims[jj], doms[conf_dom[jj]], v, cols[conf_dom[jj]], rows[conf_dom[jj]], outs[jj], confs[jj], st["mine"], r, len(base))
        for dd in range(len(doms)):
            see_dynamic(ctx, None, doms[dd], "table", cols[dd], rows[dd], None, None, False, r, len(base))
        if any(outs):
            ctx.probe("views_compared_dynamic")
            if k >= 2:
                ctx.nontrivial = True
        ctx.ev("views", [len(x) for x in rows], cols)
    ctx.state(spec["kind"], ops)


def check_printed(ctx, tab, headers, out):
    ctx.check(tab[0] == list(headers), "printed-names-differ", lambda: "%s / %s" % (tab[0], headers))
    ctx.check(len(tab[1]) == len(out), "printed-rows", lambda: "%d rows printed, %d recorded" % (len(tab[1]), len(out)))
    for a, b in zip(tab[1], out):
        ctx.check(len(a) == len(b) and all(same(x, y) for x, y in zip(a, b)), "printed-value-differs", lambda: "%s printed, %s recorded" % (a, b))
    ctx.probe("printed_tables_checked")


def see_dynamic(ctx, sim, dom, view, cols, rows, out, conf, mine, r, width):
    tn = list(dom.independent_vars.keys())[-1]

    def diff(name, got):
        ctx.fail(name, "%s; the successful runs since the last reset gave %s" % (str(got)[:700], str([cols, rows])[:700]))
    if view == "table":
        t = build.table(dom)
        if t["cols"] != cols:
            diff("table-names", t["cols"])
        if t["rows"] != rows:
            diff("table-differs", t["rows"])
    elif view == "list":
        l = sim.getResults("list") if mine else sim.getResults()
        got = [[float(v) for v in row] for row in l[-1]]
        if len(l) != 1 or got != rows:
            diff("list-differs", got)
        if mine:
            del l[:]
    elif view in ("dict", "index") and len(set(cols)) < len(cols):
        ctx.probe("headers_made_equal")      # chained renamings gave two columns one name: nothing to look them up by
    elif view == "dict":
        d = sim.getResults("dict")
        if list(d) != [tn] or list(d[tn]) != cols:
            diff("dictionary-names", {k: list(v) for k, v in d.items()})
        got = [[float(v) for v in d[tn][c]] for c in cols]
        if got != [[row[i] for row in rows] for i in range(len(cols))]:
            diff("dictionary-differs", d)
        if mine:
            for c in cols:
                del d[tn][c][:]
            d.clear()
    elif view == "index":
        pick = r.sample(cols, r.randint(1, len(cols)))
        form = r.choice(["list", "list", "one", "both"])
        if form == "one":
            pick = pick[:1]
        with captured():
            a = dom[(tn, pick[0])] if form == "one" else dom[([tn] if form == "both" else tn, list(pick))]
        got = [[float(v) for v in row] for row in a]
        if got != [[row[cols.index(c)] for row in rows] for c in pick]:
            diff("indexed-access-differs", [pick, got])
    elif view == "output":
        if out is None:
            ctx.check(sim.output is None, "output-without-run", lambda: repr(sim.output))
            return
        T, Y = sim.output
        got = [[float(t)] + [float(v) for v in y] for t, y in zip(T, np.array(Y))]
        ctx.check(got == out, "output-changed", lambda: "%s / %s" % (got, out))
    elif view == "show":
        with captured() as cap:
            kind, e = build.attempt(sim.showResults)
        h = conf.get("output_headers")
        if out is None:
            ctx.check(kind == "err", "shows-results-before-run", lambda: cap.text)
            return
        if kind == "err":
            ctx.check(h is None, "results-not-shown", lambda: "%s: %s" % (type(e).__name__, e))
            return
        if h is None:
            return
        t = tables(cap.text)
        ctx.check(len(t) == 1, "printed-table-missing", lambda: cap.text)
        check_printed(ctx, t[0], h, out)


def run(plan, ctx):
    try:
        if plan["what"] == "algebraic":
            run_algebraic(plan, ctx)
        else:
            run_dynamic(plan, ctx)
    finally:
        SIM.linsolve = SIM.root = SIM.symsolve = None
