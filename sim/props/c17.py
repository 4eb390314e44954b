"""C17 A saved plot shows exactly the requested data."""
import io

import numpy as np
import pygmo as pg

from .. import gen as G, build, dyn, sched
from ..core import SimInterrupt, SimNoMemory, SimulatedFault, rng_for
from ..seams import SIM
from ..stdout import captured
from . import c10

LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded plotting histories over several sessions with failing lookups, drawings, saves and shows; every figure is read back at the moment it is written"
NOTE = ("Seeded sampling of histories of 4-12 operations. The figure that the code hands to the file writer (or shows) is read back: axes, lines, abscissae, ordinates, labels, "
        "markers, widths, axis labels, limits, grid and legend are compared with the request and with the rows of the domain. matplotlib is real; writing files and "
        "showing windows are behind seams. pyplot is one global canvas, so plots from several threads are outside.")
CASES = {"quick": 260, "thorough": 20000}
RULE = ("1-3 dynamic simulations and up to one optimization; runs, resets, plots by column names, by indexing and by arrays, of one or several series, of another session's "
        "domain, with and without markers, legends and files, drawings left behind by the user; faults at lookup, drawing, saving, showing, or an interrupt or failed "
        "allocation at a drawn point. Non-trivial: at least two figures were checked, one of them after a failed or another session's plot.")
STATES = "distinct (sequence of operations with their request shape and outcome) histories"
REAL = ["capybara plotter, simulation, domain and optimization code", "matplotlib (Agg)", "pygmo", "scipy odeint", "pandas"]
STUB = ["writing of figure files", "showing of windows", "clock (file names of optimization graphs)"]
ASSUMPTIONS = ["plots come from one thread", "one abscissa per plot"]

MARKERS = ["o", "s", "^", "x", "+", ".", "D"]
TEXT = ["u", "v", "Prey (u)", "T [K]", "$x_1$", "a b", "t", "output", "ß", "x", "y", "1", "level"]


class SaveFailed(SimulatedFault, OSError):
    pass


def gen(rng, i, tier):
    nsim = rng.choice([1, 2, 2, 3])
    sims = []
    for _ in range(nsim):
        spec = G.gen_dynamic(rng, "ode", nmodels=1)
        conf = G.gen_conf(rng, spec)
        sims.append({"spec": spec, "conf": conf})
    opt = None
    if rng.random() < 0.45:
        for _ in range(100):
            p = c10.gen(rng, i, tier)
            if p["opts"][0]["obj"] != "sim":
                opt = p["opts"][0]
                break
    ops = [{"op": "run", "sim": k} for k in range(nsim)]
    for _ in range(rng.randint(4, 12)):
        r = rng.random()
        k = rng.randrange(nsim)
        if r < 0.1:
            ops.append({"op": "run", "sim": k})
        elif r < 0.14:
            ops.append({"op": "reset", "sim": k})
            ops.append({"op": "run", "sim": k})
        elif r < 0.2:
            ops.append({"op": "user", "what": rng.choice(["lines", "subplots", "figure", "log", "limits", "legend", "close"])})
        elif r < 0.32 and opt:
            ops.append({"op": "study", "seed": rng.randint(0, 10 ** 6), "freq": rng.choice([1, 1, 2]), "clock": rng.choice([None, "frozen", "backwards"]),
                        "fault": rng.choice([None, None, None, "save", "interrupt", "objective"]), "r": rng.randint(0, 10 ** 9)})
        else:
            ops.append(gen_plot(rng, sims, k, nsim))
    return {"sims": sims, "opt": opt, "ops": ops}


def gen_plot(rng, sims, k, nsim):
    d = k if rng.random() < 0.8 else rng.randrange(nsim)
    n = len(sims[d]["spec"]["domain"]["order"]) + 1
    ys = [rng.randrange(n) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))] if rng.random() < 0.4 else rng.sample(range(1, n), rng.randint(1, n - 1))
    labels = [rng.choice(TEXT) for _ in ys] if rng.random() < 0.3 else ["%s %d" % (rng.choice(TEXT), j) for j in range(len(ys))]
    op = {"op": "plot", "sim": k, "dom": d, "x": 0 if rng.random() < 0.7 else rng.randrange(n), "ys": ys, "labels": labels,
          "via": rng.choice(["names", "names", "index", "arrays", "mixed"]), "markers": [rng.choice(MARKERS) for _ in ys] if rng.random() < 0.4 else None,
          "legend": rng.random() < 0.5, "grid": rng.random() < 0.5, "show": rng.random() < 0.4, "save": rng.random() < 0.85,
          "xl": rng.choice(TEXT), "yl": rng.choice(TEXT), "lw": rng.choice([2.5, 1.0, 0.5]), "defaults": rng.random() < 0.2, "render": rng.random() < 0.1, "fault": None}
    if rng.random() < 0.35:
        op["fault"] = {"kind": rng.choice(["lookup", "labels", "markers", "length", "save", "save_late", "show", "interrupt", "memory"]), "r": rng.randint(0, 10 ** 9)}
    return op


def figure(fig):
    """What a figure shows, as plain data"""
    out = {"axes": len(fig.axes), "lines": [], "other": 0, "legend": None, "texts": len(fig.texts) + len(fig.images) + len(fig.legends)}
    for ax in fig.axes:
        for l in ax.get_lines():
            out["lines"].append({"x": [float(v) for v in np.asarray(l.get_xdata(), dtype=float).reshape(-1)], "y": [float(v) for v in np.asarray(l.get_ydata(), dtype=float).reshape(-1)],
                                 "label": l.get_label(), "marker": l.get_marker(), "lw": float(l.get_linewidth()), "seen": bool(l.get_visible())})
        out["other"] += len(ax.collections) + len(ax.patches) + len(ax.images) + len(ax.texts)
        out.update(xl=ax.get_xlabel(), yl=ax.get_ylabel(), xlim=[float(v) for v in ax.get_xlim()], ylim=[float(v) for v in ax.get_ylim()],
                   grid=any(g.get_visible() for g in ax.get_xgridlines()), scale=[ax.get_xscale(), ax.get_yscale()], title=ax.get_title())
        if ax.get_legend() is not None:
            out["legend"] = [t.get_text() for t in ax.get_legend().get_texts()]
    return out


class Screen:
    """The seams of figures: what was saved and shown, and failures of both"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.saved, self.shown = [], []
        self.fail = None
        self.render = False
        SIM.savefig, SIM.show = self.savefig, self.show

    def savefig(self, real, fig, fname, kw):
        if self.fail == "save":
            self.ctx.fault("savefig_error")
            raise SaveFailed(28, "No space left on device (simulated)")
        self.saved.append((str(fname), figure(fig)))
        if self.render:
            real(fig, io.BytesIO(), format="png")
        if self.fail == "save_late":
            self.ctx.fault("savefig_error")
            raise SaveFailed(5, "Input/output error (simulated)")

    def show(self, plt):
        self.shown.append(figure(plt.gcf()))
        if self.fail == "show":
            self.ctx.fault("show_error")
            raise SaveFailed(71, "cannot open display (simulated)")

    def take(self):
        s, h = self.saved, self.shown
        self.saved, self.shown = [], []
        return s, h


def request(plan, op, sims):
    """Keyword arguments of the call and the series it asks for"""
    s = sims[op["dom"]]
    dom = s.built.domain
    t = build.table(dom)
    cols = t["cols"]
    tn = list(dom.independent_vars.keys())[-1]
    data = {c: [row[k] for row in t["rows"]] for k, c in enumerate(cols)}
    x, ys = cols[op["x"] % len(cols)], [cols[y % len(cols)] for y in op["ys"]]
    want = {"x": data[x], "ys": [data[y] for y in ys]}
    via = op["via"]
    f = op["fault"]["kind"] if op["fault"] else None
    if via == "names":
        kw = {"x_data": x, "y_data": list(ys), "data": dom}
        if f == "lookup":
            if op["fault"]["r"] % 2:
                kw["x_data"] = "no such column"
            else:
                kw["y_data"].append("no such column")
    elif via == "index":
        kw = {"x_data": dom[(tn, [x])], "y_data": dom[(tn, list(ys))]}
    elif via == "arrays":
        kw = {"x_data": [np.array(data[x])], "y_data": [np.array(data[y]) for y in ys]}
    else:
        kw = {"x_data": x, "y_data": [np.array(data[y]).reshape(-1, 1) for y in ys], "data": dom}
    if f == "length" and via in ("arrays", "mixed"):
        kw["y_data"][-1] = kw["y_data"][-1][:-1]
    kw["labels"] = list(op["labels"])
    if f == "labels":
        kw["labels"] = kw["labels"][:-1]
    if op["markers"] is not None:
        kw["markers"] = list(op["markers"])
        if f == "markers":
            kw["markers"][-1] = "not a marker"
    if not op["defaults"]:
        kw.update(x_label=op["xl"], y_label=op["yl"], linewidth=op["lw"], grid=op["grid"], legend=op["legend"])
    kw["show_plot"] = op["show"]
    if op["save"]:
        kw["save_file"] = "figure %d.png" % (op["x"] * 10 + len(ys))
    bad = f == "lookup" and via == "names" or f == "length" and via in ("arrays", "mixed") or f == "labels" or f == "markers" and op["markers"] is not None
    return kw, want, bad


def check_figure(ctx, op, want, got, what):
    d = op["defaults"]
    ctx.check(got["axes"] == 1, "another-axes", lambda: "%s: %d axes" % (what, got["axes"]))
    lines = got["lines"]
    ctx.check(len(lines) == len(want["ys"]), "wrong-number-of-series", lambda: "%s: %d series, %d were asked for: labels %s, asked %s" % (
        what, len(lines), len(want["ys"]), [l["label"] for l in lines], op["labels"]))
    left = list(range(len(lines)))
    for j, y in enumerate(want["ys"]):
        hit = [k for k in left if lines[k]["label"] == op["labels"][j] and lines[k]["x"] == want["x"] and lines[k]["y"] == y
               and (op["markers"] is None and lines[k]["marker"] in ("None", None, "", " ") or op["markers"] is not None and lines[k]["marker"] == op["markers"][j])]
        ctx.check(hit, "series-missing", lambda: "%s: series %r (x %s, y %s, marker %s) is not among %s" % (
            what, op["labels"][j], want["x"][:3], y[:3], op["markers"], [(l["label"], l["x"][:3], l["y"][:3], l["marker"]) for l in lines]))
        left.remove(hit[0])
    ctx.check(all(l["seen"] and (d or l["lw"] == op["lw"]) for l in lines), "line-style", lambda: repr([l["lw"] for l in lines]))
    ctx.check(got["other"] == 0 and got["texts"] == 0, "something-else-drawn", lambda: what)
    ctx.check(got["scale"] == ["linear", "linear"], "axes-of-another-plot", lambda: repr(got["scale"]))
    ctx.check([got["xl"], got["yl"]] == (["time", "output"] if d else [op["xl"], op["yl"]]), "axis-labels", lambda: "%s %s" % (got["xl"], got["yl"]))
    ctx.check(got["title"] == "", "title-of-another-plot", lambda: got["title"])
    ctx.check(got["grid"] == (False if d else op["grid"]), "grid", lambda: repr(got["grid"]))
    if d or not op["legend"]:
        ctx.check(got["legend"] is None, "legend-of-another-plot", lambda: repr(got["legend"]))
    else:
        ctx.check(got["legend"] is not None and sorted(got["legend"]) == sorted(op["labels"]), "legend", lambda: "%s instead of %s" % (got["legend"], op["labels"]))
    e = 1e-9
    lo, hi = min(got["xlim"]), max(got["xlim"])
    w = hi - lo
    ctx.check(lo <= min(want["x"]) + e * (1 + w) and hi >= max(want["x"]) - e * (1 + w), "data-out-of-sight", lambda: "x %s..%s, limits %s" % (min(want["x"]), max(want["x"]), got["xlim"]))
    allx = max(want["x"]) - min(want["x"])
    ctx.check(allx < 1e-6 or w <= 1.5 * allx, "limits-of-another-plot", lambda: "x %s..%s, limits %s" % (min(want["x"]), max(want["x"]), got["xlim"]))
    ys = [v for y in want["ys"] for v in y]
    lo, hi = min(got["ylim"]), max(got["ylim"])
    ctx.check(lo <= min(ys) + e * (1 + abs(lo)) and hi >= max(ys) - e * (1 + abs(hi)), "data-out-of-sight", lambda: "y %s..%s, limits %s" % (min(ys), max(ys), got["ylim"]))
    ally = max(ys) - min(ys)
    ctx.check(ally < 1e-6 * (1 + abs(hi)) or hi - lo <= 1.5 * ally, "limits-of-another-plot", lambda: "y %s..%s, limits %s" % (min(ys), max(ys), got["ylim"]))
    ctx.probe("figure_checked")


def user_draws(what):
    import matplotlib.pyplot as plt
    if what == "lines":
        plt.plot([0, 1, 2], [5, -5, 5], label="mine")
        plt.title("mine")
    elif what == "subplots":
        plt.subplots(2, 2)
    elif what == "figure":
        plt.figure()
        plt.plot([1, 2], [3, 4])
    elif what == "log":
        plt.plot([1, 2], [3, 4])
        plt.yscale("log")
        plt.xscale("log")
    elif what == "limits":
        plt.xlim(-1e6, 1e6)
        plt.ylim(-1e6, 1e6)
        plt.grid(True)
    elif what == "legend":
        plt.plot([1, 2], [3, 4], "o", label="mine")
        plt.legend()
        plt.xlabel("mine")
    elif what == "close":
        plt.close("all")


def run(plan, ctx):
    from .c03 import valid
    if not all(valid(s["spec"]) for s in plan["sims"]) or not plan["sims"]:
        return
    n = len(plan["sims"])
    sims = []
    for s in plan["sims"]:
        sims.append(build.Session(s["spec"], "s%d" % len(sims)).setup(s["conf"]))
    screen = Screen(ctx)
    opt = None
    history, figures, disturbed, last = [], 0, False, None
    try:
        for k, op in enumerate(plan["ops"]):
            o = op["op"]
            if "sim" in op and (op["sim"] >= n or op.get("dom", 0) >= n):
                return
            if o == "run":
                dyn.arm(ctx, None, None)
                sims[op["sim"]].run(show_output_msg=False, show_final_residuals=False)
                dyn.disarm()
                history.append("run")
            elif o == "reset":
                sims[op["sim"]].sim.reset()
                history.append("reset")
            elif o == "user":
                user_draws(op["what"])
                history.append(op["what"])
                disturbed = True
            elif o == "study":
                if plan["opt"] is None:
                    continue
                if opt is None:
                    if not c10.valid(plan["opt"]):
                        return
                    pg.set_global_rng_seed(op["seed"])
                    opt, _ = c10.make(plan["opt"], ctx)
                ok = study(ctx, plan, op, opt, screen)
                history.append(["study", op["fault"], ok])
                figures += ok
                disturbed = True
            elif o == "plot":
                if not build.table(sims[op["dom"]].built.domain)["rows"]:
                    continue
                ok = plot(ctx, plan, op, sims, screen)
                f = op["fault"]["kind"] if op["fault"] else None
                history.append(["plot", len(op["ys"]), op["via"], f, op["sim"] == op["dom"], ok])
                figures += ok
                if ok and figures >= 2 and (disturbed or last not in (None, op["sim"])):
                    ctx.nontrivial = True
                disturbed = disturbed or not ok
                last = op["sim"]
            ctx.ev(o, k, history[-1] if history else None)
    finally:
        SIM.savefig = SIM.show = SIM.clock = None
    ctx.state(history)


def plot(ctx, plan, op, sims, screen):
    kw, want, bad = request(plan, op, sims)
    s = sims[op["sim"]]
    f = op["fault"]["kind"] if op["fault"] else None
    screen.fail = f if f in ("save", "save_late", "show") else None
    screen.render = op["render"]
    err, fired = None, bad

    def call():
        s.sim.plotTimeSeries(**kw)
    before = [build.table(x.built.domain) for x in sims]
    try:
        if f in ("interrupt", "memory"):
            at = sched.pick_point(call, op["fault"])
            screen.take()
            I = sched.interrupt_at(at, f, ctx) if at is not None else None
            try:
                if I is None:
                    call()
                else:
                    with I:
                        call()
            finally:
                fired = I is not None and bool(I.fired)
        else:
            call()
    except BaseException as e:
        err = e
    fired = fired or f in ("save", "save_late") and op["save"] or f == "show" and op["show"]
    saved, shown = screen.take()
    screen.fail = None
    if err is not None and not fired:
        raise err
    if bad:
        ctx.fault("plot_" + f)
        ctx.check(err is not None, "impossible-plot-accepted", lambda: "%s: %s" % (f, kw))
        ctx.check(not saved and not shown, "incomplete-plot-saved", lambda: "a plot that failed (%r) was saved: %s" % (err, saved[:1]))
        ctx.probe("plot_failed_" + f)
        return False
    for name, got in saved:
        ctx.check(name == kw.get("save_file"), "wrong-file", lambda: "%r instead of %r" % (name, kw.get("save_file")))
        check_figure(ctx, op, want, got, "saved figure")
    for got in shown:
        check_figure(ctx, op, want, got, "shown figure")
    ctx.check([build.table(x.built.domain) for x in sims] == before, "plot-changed-data", "a domain changed")
    if err is None and not (fired and f in ("interrupt", "memory")):
        ctx.check(len(saved) == bool(op["save"]) and len(shown) == bool(op["show"]), "not-saved", lambda: "%d files, %d windows" % (len(saved), len(shown)))
        return bool(saved)
    ctx.probe("plot_failed_" + f)
    return False


def study(ctx, plan, op, opt, screen):
    o = plan["opt"]
    pg.set_global_rng_seed(op["seed"])
    del c10.EVALS[:]
    c10.HOOK.clear()
    f = op["fault"]
    hit = {"n": 0}
    if f in ("objective", "interrupt"):
        def before(k):
            if k == op["r"] % 20:
                hit["n"] = 1
                ctx.fault("objective_" + f)
                raise SimInterrupt("interrupted") if f == "interrupt" else c10.EvaluationFailed("objective failed (simulated)")
        c10.HOOK["before"] = before
    screen.fail = "save" if f == "save" else None
    if op["clock"]:
        SIM.clock = c10.Clock(op["clock"], rng_for("clock", op["seed"]))
    err = None
    try:
        opt.runOptimization(print_output=False, report_frequency=op["freq"], optimization_log=True, save_optimization_graph=True)
    except BaseException as e:
        err = e
    SIM.clock = None
    c10.HOOK.clear()
    screen.fail = None
    saved, shown = screen.take()
    ctx.check(not shown, "window-of-a-study", "")
    if err is not None:
        if not hit["n"] and f != "save":
            raise err
        ctx.check(not saved, "graph-of-failed-study", lambda: repr(saved))
        ctx.probe("study_failed")
        return False
    done = [tuple(e) for e in c10.EVALS]
    ctx.check(len(saved) == 1 and saved[0][1]["axes"] == 1, "graph-not-saved", lambda: repr(saved))
    got = saved[0][1]
    x, v = c10.report(opt.getResults())
    c10.check_log(ctx, o, done, v, opt.getOptimizationLog(), [[(tuple(l["x"]), tuple(l["y"])) for l in got["lines"]]])
    ctx.check(got["scale"] == ["linear", "linear"] and got["other"] == 0 and got["texts"] == 0 and got["legend"] is None, "graph-with-something-else", lambda: repr(got))
    # the curve never rises above the best of what had been evaluated by then
    for fe, b in zip(got["lines"][0]["x"], got["lines"][0]["y"]):
        seen = [e[1] for e in done[:int(fe) + o["n"]]]
        ctx.check(b in seen or b in [e[1] for e in done], "graph-value-never-evaluated", lambda: repr(b))
    if got["lines"][0]["x"]:
        lo, hi = min(got["ylim"]), max(got["ylim"])
        ys = got["lines"][0]["y"]
        ctx.check(min(got["xlim"]) <= 0 and max(got["xlim"]) >= max(got["lines"][0]["x"]) and lo <= min(ys) and hi >= max(ys), "graph-out-of-sight", lambda: repr((got["xlim"], got["ylim"])))
    ctx.probe("graph_checked")
    return True
