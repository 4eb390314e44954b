"""C18 Results do not depend on clock, hash seed, addresses or irrelevant order."""
import copy
import json
import random

import numpy as np

from .. import gen as G, build, dyn, backends, hist, twin
from ..core import Ctx, rng_for, digits
from ..seams import SIM
from ..stdout import captured
from . import c10

LEVEL = "exploration"
TECHNIQUE = ("deterministic simulation: each seeded history is executed again under another clock, hash seed, process, address layout, random state, "
             "output options or declaration order, and the recorded results are compared")
NOTE = ("Seeded sampling. Every history is run four times: the base run, once in a process with another hash seed, once in the same process with other "
        "clock, addresses and output options, once with another order of declarations. The optimizers' own random numbers are pygmo's global seed.")
CASES = {"quick": 320, "thorough": 15000}
TWINS = True
RULE = ("seeded systems of every kind (among them nonlinear ones with several or no solutions, and non-square ones) and studies, with histories of runs, "
        "value changes, resets and injected solver faults. Sides: another hash seed and process; clock jumping, running backwards, frozen, "
        "far in the future or before 1970; other addresses, random states and counters; tables, messages, residuals, renaming, reports on or off; other order of "
        "models, equations, objects, connections, domain entries, initial conditions. Non-trivial: at least one result compared on every side.")
STATES = "distinct (kind, operations, outcomes, sides) combinations"
REAL = ["all capybara modules except the libraries of property packages and unit operations", "sympy", "scipy", "pyneqsys", "pygmo", "pandas", "prettytable"]
STUB = ["clock", "assimulo CVode and IDA (simulated integrators)", "writing of figure files"]
ASSUMPTIONS = ["reference generator of /verif/sim/gen.py: the generated regular systems have one solution"]

CLOCKS = ["steady", "jumps", "backwards", "frozen", "future", "past", "reading"]


class Clock(c10.Clock):
    def __init__(self, kind, rng):
        super().__init__(kind, rng)
        self.t = {"future": 2.5e11, "past": -1.5e9}.get(kind, rng.uniform(1e9, 2e9))

    def __call__(self):
        if self.kind in ("steady", "future", "past"):
            self.t += 0.01
            return self.t
        if self.kind == "reading":
            return self.rng.uniform(0, 4e9)
        return super().__call__()


# ---------------------------------------------------------------- plans

def gen(rng, i, tier):
    r = rng.random()
    if r < 0.12:
        return gen_study(rng)
    hard = False
    if r < 0.32:
        spec = G.gen_algebraic(rng, "linear")
    elif r < 0.5:
        spec = G.gen_algebraic(rng, "nonlinear")
    elif r < 0.58:
        spec = G.gen_hard(rng)
        hard = True
    elif r < 0.85:
        spec = G.gen_dynamic(rng, "ode")
    else:
        spec = G.gen_dynamic(rng, "dae")
    plan = {"what": "system", "spec": spec, "conf": hist.gen_conf(rng, spec), "hard": hard}
    if hard and rng.random() < 0.6:
        plan["conf"]["nonlinear_solver"] = "sympy"       # the choice among several solutions
    if rng.random() < 0.05 and not hard:
        m = rng.choice(spec["models"])
        if len(m["eqs"]) > 1:
            del m["eqs"][rng.randrange(len(m["eqs"]))]
            plan["hard"] = True
    steps = []
    ps = G.params_of(spec)
    for k in range(rng.randint(1, 4)):
        q = rng.random()
        if q < 0.6 or k == 0:
            st = {"op": "run", "sched": dyn.gen_schedule(rng), "fault": None}
            if rng.random() < 0.12:
                st["fault"] = rng.randint(0, 10 ** 6)
        elif q < 0.75 and ps:
            mn, nm, u, v = rng.choice(ps)
            st = {"op": "set", "model": mn, "name": nm, "value": G.nudge(rng, spec, v)}
        elif q < 0.85:
            st = {"op": "resolve"}
        elif q < 0.93 and spec["tvars"]:
            st = {"op": "reset"}
        else:
            st = {"op": "conf", "conf": hist.gen_conf(rng, spec)}
        steps.append(st)
    if steps[-1]["op"] != "run":
        steps.append({"op": "run", "sched": dyn.gen_schedule(rng), "fault": None})
    plan["steps"] = steps
    a = gen_side(rng, plan)
    b = gen_side(rng, plan)
    plan["sides"] = [dict(a, twin=True), dict(b, twin=False)]
    if not plan["hard"]:
        plan["sides"].append({"order": rng.randint(0, 10 ** 6), "twin": rng.random() < 0.5, "one_by_one": rng.random() < 0.4})
    return plan


def gen_side(rng, plan):
    s = {"clock": rng.choice(CLOCKS), "clock_seed": rng.randint(0, 10 ** 6), "junk": rng.randint(0, 10 ** 6), "random": rng.randint(0, 10 ** 6)}
    if rng.random() < 0.7:
        s["output"] = {"verbose": rng.random() < 0.5, "residuals": rng.random() < 0.5, "print": rng.random() < 0.5, "verbosity": rng.choice([0, 1, 2]),
                       "rename": rng.choice([None, "all", "some", "time"]), "tname": rng.choice([None, "str", "list"]),
                       "reads": [rng.choice(["list", "dict", "show", "status", "report_model", "report_problem", "repr", "dof", "dump", "graph"])
                                 for _ in range(rng.randint(0, 3))]}
    return s


def gen_study(rng):
    for _ in range(200):
        p = c10.gen(rng, 0, "quick")
        o = p["opts"][0]
        if o["obj"] == "sim" or rng.random() < 0.6:
            break
    plan = {"what": "study", "o": o, "n": rng.choice([1, 1, 2]), "seed": rng.randint(0, 10 ** 6), "sides": []}
    for k in range(2):
        s = gen_side(rng, plan)
        s.pop("output", None)
        s.update(twin=k == 0, study={"print": rng.random() < 0.5, "freq": rng.choice([1, 1, 2]), "log": rng.random() < 0.7, "graph": rng.random() < 0.3})
        plan["sides"].append(s)
    return plan


# ---------------------------------------------------------------- one side

def disturb(side):
    """Other addresses, random states, counters"""
    r = rng_for("junk", side.get("junk", 0))
    keep = []
    if "junk" in side:
        keep = [bytearray(r.randint(1, 4000)) for _ in range(r.randint(0, 3000))]
        keep = keep[::r.choice([1, 2, 3, 7])]
        for k in range(r.randint(0, 50)):
            keep.append(("v%d" % r.randint(0, 10 ** 6), object(), {k: []}))
    if "random" in side:
        random.seed(side["random"])
        np.random.seed(side["random"])
    if side.get("clock"):
        SIM.clock = Clock(side["clock"], rng_for("clock", side.get("clock_seed", 0)))
    return keep


def plain(x):
    """JSON data that tells apart every two numbers"""
    if isinstance(x, dict):
        return [[str(k), plain(v)] for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    try:
        return float(x).hex()
    except (TypeError, ValueError):
        return str(x)


def reorder(spec, seed, one_by_one=False):
    """The same system declared in another order"""
    r = rng_for("order", seed)
    sp = copy.deepcopy(spec)
    sp["models"] = r.sample(sp["models"], len(sp["models"]))
    for m in sp["models"]:
        for k in ("vars", "params", "consts", "eqs"):
            m[k] = r.sample(m[k], len(m[k]))
    if sp.get("conns"):
        sp["conns"] = r.sample(sp["conns"], len(sp["conns"]))
    sp["order"] = r.sample(sp["order"], len(sp["order"]))
    if sp.get("domain"):
        sp["domain"]["order"] = r.sample(sp["domain"]["order"], len(sp["domain"]["order"]))
    if sp.get("ics"):
        items = list(sp["ics"].items())
        sp["ics"] = dict(r.sample(items, len(items)))
    if one_by_one:
        sp["add_one_by_one"] = not sp.get("add_one_by_one")
    return sp


def side(plan, sd):
    keep = disturb(sd)
    try:
        return side_study(plan, sd) if plan["what"] == "study" else side_system(plan, sd)
    finally:
        SIM.clock = None
        dyn.disarm()
        backends.disarm()
        del keep


def with_output(conf, out):
    c = dict(conf)
    if not out:
        return c
    if out.get("print"):
        c["print_output"] = True
    else:
        c.pop("print_output", None)
    c["verbosity_solver"] = out.get("verbosity", 0)
    if "is_dynamic" in c:
        c.pop("@rename", None)
        if out.get("rename"):
            c["@rename"] = out["rename"]
        if out.get("tname"):
            c["@tname"] = out["tname"]
    return c


def side_system(plan, sd):
    spec = plan["spec"]
    if sd.get("order") is not None:
        base_names = G.unknowns(spec)
        spec = reorder(spec, sd["order"], sd.get("one_by_one"))
    out = sd.get("output") or {}
    ctx = Ctx("C18", {})
    s = build.Session(spec)
    dynamic = bool(spec["tvars"])

    def configured(conf):
        c = with_output(conf, out)
        if sd.get("order") is not None and c.get("@rename"):
            cols = build.domain_columns(plan["spec"])
            mode = c.pop("@rename")
            c["variable_name_map"] = {n: "<%s>" % n for n in (cols[:1] if mode == "time" else cols[::2] if mode == "some" else cols)}
        if sd.get("order") is not None and c.pop("@guess", None):
            gv = c.pop("guess_values")
            named = {n: gv[k % len(gv)] for k, n in enumerate(base_names)}
            c["initial_guess"] = {n: named[n] for n in reversed(base_names)}
        return c
    conf = configured(plan["conf"])
    kind, e = build.attempt(s.setup, conf)
    if kind == "err":
        return {"outcomes": [["setup", "err", type(e).__name__, None]], "faults": ctx.faults}
    p = hist.Player(s, ctx, conf)
    res = []
    for st in plan["steps"]:
        op = st["op"]
        if op == "set":
            s.obj(st["model"], st["name"]).setValue(st["value"])
            s.prob.resolve()
        elif op == "resolve":
            s.prob.resolve()
        elif op == "reset":
            s.sim.reset()
        elif op == "conf":
            conf = configured(st["conf"])
            s.configure(conf)
        elif op == "run":
            fault = None
            if st.get("fault") is not None:
                r = rng_for("fault", st["fault"])
                base = {k: v for k, v in conf.items() if k != "print_output"}
                fault = dyn.gen_fault(r, spec["kind"], base) if dynamic else backends.gen_fault(r, spec["kind"], base)
            if dynamic:
                dyn.arm(ctx, fault, st["sched"])
            elif fault:
                backends.arm(fault, ctx)
            with captured() as cap:
                kind, e = build.attempt(s.run, show_output_msg=out.get("verbose", False), show_final_residuals=out.get("residuals", False))
            dyn.disarm()
            backends.disarm()
            if kind == "err":
                res.append(["run", "err", type(e).__name__, None])
                continue
            for what in out.get("reads", []):
                with captured():
                    build.attempt(p.read, what)
            res.append(["run", "ok", None, observe(s, spec, conf)])
    return {"outcomes": res, "faults": ctx.faults}


def observe(s, spec, conf):
    if not spec["tvars"]:
        d = s.sim.getResults("dict")
        l = s.sim.getResults("list")
        return {"dict": plain(d), "list": plain(l)}
    dom = s.built.domain
    vals = dom.values
    df = vals[list(dom.independent_vars.keys())[-1]]
    cols = [str(c) for c in df.columns]
    T, Y = s.sim.output
    return {"cols": cols, "rows": plain(df.values.tolist()), "times": plain([float(t) for t in T]), "last": plain(np.array(Y).tolist())}


def side_study(plan, sd):
    import pygmo as pg
    o = plan["o"]
    ctx = Ctx("C18", {})
    pg.set_global_rng_seed(plan["seed"])
    st = sd.get("study") or {"print": False, "freq": 1, "log": True, "graph": False}
    opt, s = c10.make(o, ctx)
    res = []
    SIM.savefig = lambda real, fig, fname, kw: None
    for k in range(plan["n"]):
        del c10.EVALS[:]
        # reading the log draws from pygmo's global generator, and so would change the initial population of the next study
        pg.set_global_rng_seed(plan["seed"] + k)
        with captured():
            kind, e = build.attempt(opt.runOptimization, print_output=st["print"], report_frequency=st["freq"], optimization_log=st["log"] or st["graph"],
                                    save_optimization_graph=st["graph"])
        ev = plain([list(x) for x in c10.EVALS])
        if kind == "err":
            res.append(["study", "err", type(e).__name__, {"evaluations": ev}])
            continue
        x, v = c10.report(opt.getResults())
        res.append(["study", "ok", None, {"evaluations": ev, "best": plain(list(x)), "fitness": plain(v)}])
    SIM.savefig = None
    return {"outcomes": res, "faults": ctx.faults}


# ---------------------------------------------------------------- comparison

def usable(plan):
    if plan["what"] == "study":
        return c10.valid(plan["o"])
    spec = plan["spec"]
    if plan["hard"]:
        return bool(spec["models"]) and all(m["eqs"] for m in spec["models"])
    if spec["tvars"]:
        from .c03 import valid as v3
        from .c05 import valid as v5
        return (v3 if spec["kind"] == "ode" else v5)(spec)
    return G.valid(spec)


def exactly(ctx, plan, base, other, sd):
    where = "another hash seed and process" if sd["twin"] else "the same process"
    what = {k: sd[k] for k in sd if k in ("clock", "output", "study")}
    ctx.check(len(base) == len(other), "outcome-depends-on-circumstances", lambda: "%d outcomes, %d in %s (%s)" % (len(base), len(other), where, what))
    compared = 0
    for k, (a, b) in enumerate(zip(base, other)):
        if a[:3] != b[:3]:
            ctx.fail("outcome-depends-on-circumstances", "run %d: %s; in %s with %s: %s" % (k, a[:3], where, what, b[:3]))
        if a[1] == "err" and a[3] is None:
            continue
        x, y = a[3], b[3]
        for key in sorted(x):
            if key == "cols":
                ctx.check(len(x[key]) == len(y[key]), "table-depends-on-circumstances", lambda: "%s / %s" % (x[key], y[key]))
                if not (sd.get("output") or {}).get("rename") and not plan["conf"].get("@rename") and not any(
                        s.get("conf", {}).get("@rename") for s in plan["steps"]):
                    ctx.check(x[key] == y[key], "table-depends-on-circumstances", lambda: "%s / %s" % (x[key], y[key]))
                continue
            ctx.check(x[key] == y[key], "result-depends-on-circumstances",
                      lambda: "run %d, %s: %s; in %s with %s: %s" % (k, key, shown(x[key]), where, what, shown(y[key])))
        compared += 1
    return compared


def shown(x):
    return str(back(x))[:300]


def back(x):
    if isinstance(x, list):
        return [back(v) for v in x]
    try:
        return float.fromhex(x)
    except (TypeError, ValueError):
        return x


def roughly(ctx, plan, base, other, sd):
    """The same declarations in another order"""
    spec = plan["spec"]
    ctx.check(len(base) == len(other), "outcome-depends-on-order", lambda: "%s / %s" % ([a[:3] for a in base], [b[:3] for b in other]))
    compared = 0
    conf = plan["conf"]
    confs = [conf] + [s["conf"] for s in plan["steps"] if s["op"] == "conf"]
    iterative = spec["kind"] == "nonlinear" or spec["kind"] == "linear" and any(c.get("linear_solver", "symbolicsys") == "symbolicsys" for c in confs)
    runs = [s for s in plan["steps"] if s["op"] == "run"]
    for k, (a, b) in enumerate(zip(base, other)):
        if k < len(runs) and runs[k].get("fault") is not None:
            if not (spec["tvars"] and a[1] == b[1] == "err"):
                return compared         # a faulted call may hit another equation: what follows may differ as well
            continue
        if a[1] != b[1]:
            if iterative and "NumericalError" in (a[2], b[2]):
                ctx.probe("iterative_solver_gave_up_once")
                continue
            ctx.fail("outcome-depends-on-order", "run %d: %s; declared in another order: %s" % (k, a[:3], b[:3]))
        if a[1] == "err":
            ctx.check(a[2] == b[2], "outcome-depends-on-order", lambda: "%s / %s" % (a[2], b[2]))
            continue
        x, y = a[3], b[3]
        if "dict" in x:
            d1, d2 = dict(back(x["dict"])), dict(back(y["dict"]))
            ctx.check(set(d1) == set(d2), "result-depends-on-order", lambda: "%s / %s" % (sorted(d1), sorted(d2)))
            ctx.check(build.same_results(d1, d2, 1e-4, 1e-5), "result-depends-on-order", lambda: "%s; declared in another order: %s" % (d1, d2))
        else:
            ctx.check(sorted(x["cols"]) == sorted(y["cols"]) and len(x["rows"]) == len(y["rows"]), "result-depends-on-order",
                      lambda: "%s, %d rows / %s, %d rows" % (x["cols"], len(x["rows"]), y["cols"], len(y["rows"])))
            perm = [y["cols"].index(c) for c in x["cols"]]
            t1 = {"cols": x["cols"], "rows": back(x["rows"])}
            t2 = {"cols": x["cols"], "rows": [[r[j] for j in perm] for r in back(y["rows"])]}
            ctx.check(build.same_table(t1, t2, 2e-4, 2e-5), "result-depends-on-order", lambda: "%s; declared in another order: %s" % (t1, t2))
        compared += 1
    return compared


def run(plan, ctx):
    if not usable(plan):
        return
    random.seed(7)
    np.random.seed(7)
    base = side(plan, {"clock": "steady"})
    for k, v in base["faults"].items():
        ctx.fault(k, v)
    b = base["outcomes"]
    ctx.ev("base", [[o[0], o[1], o[2]] for o in b], digits(back([o[3].get("rows", o[3].get("dict", o[3].get("best"))) for o in b if o[3]]), 4))
    worst = None
    for sd in plan["sides"]:
        if sd["twin"]:
            r = twin.ask({"prop": "C18", "plan": plan, "side": sd, "i": 0})
            if r["status"] != "ok":
                raise RuntimeError("the other process failed: %s" % r.get("msg"))
            other = r["out"]
        else:
            other = json.loads(json.dumps(side(plan, sd)))
        o = other["outcomes"]
        n = exactly(ctx, plan, b, o, sd) if sd.get("order") is None else roughly(ctx, plan, b, o, sd)
        ctx.ev("side", "order" if sd.get("order") is not None else "exact", sd["twin"], n)
        worst = n if worst is None else min(worst, n)
        ctx.probe(("order" if sd.get("order") is not None else "exact") + ("_twin" if sd["twin"] else "_here"), n)
        if sd.get("clock"):
            ctx.fault("clock_" + sd["clock"])
    ctx.nontrivial = bool(worst)
    ctx.state(plan["what"], plan.get("spec", {}).get("kind"), [s["op"] for s in plan.get("steps", [])], [x[:3] for x in b],
              [[sd.get("clock"), sd["twin"], bool(sd.get("output"))] for sd in plan["sides"]])
    if plan.get("spec", {}).get("tvars"):
        for o in b:
            if o[1] == "ok":
                t = back(o[3]["times"])
                ctx.simtime += t[-1] - t[0]
