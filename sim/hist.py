"""Histories of public operations on one session, as plain data, and the state a fresh session needs to stand for it."""
import copy
import json
import os

from . import gen as G, build, dyn, backends
from .seams import SIM
from .stdout import captured

READS = ["list", "dict", "index", "show", "status", "report_model", "report_problem", "repr", "dof", "dump", "plot", "io", "getitem", "graph", "eval"]


def add_alternatives(rng, spec, prob=0.4):
    """Give some equations an alternative declared instead of it under a flag. Returns the flags."""
    flags = []
    for m in spec["models"]:
        if rng.random() > prob or not m["eqs"]:
            continue
        e = rng.choice([q for q in m["eqs"]])
        f = "alt_" + m["name"]
        c = G.r3(rng.uniform(0.2, 1.0))
        a = copy.deepcopy(e)
        if a.get("r") is not None:
            a["r"] = ["n", G.r3(a["r"][1] + c)] if a["r"][0] == "n" else ["+", a["r"], ["n", c]]
        else:
            a["l"] = ["+", a["l"], ["n", c]]
        e["if"] = "!" + f
        a["if"] = f
        a["n"] = rng.choice([e["n"], e["n"], "", (e["n"] or "e") + "_alt"])
        m["eqs"].insert(rng.randint(0, len(m["eqs"])), a)
        flags.append(f)
    return flags


def gen_ops(rng, spec, flags, n, faults=True, nsim=1, confs=None):
    k = spec["kind"]
    dyn_ = k in ("ode", "dae")
    ps = G.params_of(spec)
    ops = []
    for _ in range(n):
        r = rng.random()
        if r < 0.26:
            op = {"op": "run", "verbose": rng.random() < 0.5, "fault": None, "sched": dyn.gen_schedule(rng), "reset": rng.random() < 0.3}
            if faults and rng.random() < 0.3:
                op["fault"] = {"at": "any", "r": rng.randint(0, 10 ** 6)}
            elif faults and rng.random() < 0.12:
                op["stdout"] = rng.randint(0, 14)
        elif r < 0.40 and ps:
            mn, nm, u, v = rng.choice(ps)
            op = {"op": "set", "model": mn, "name": nm, "value": G.nudge(rng, spec, v), "resolve": rng.random() < 0.6}
        elif r < 0.50:
            op = {"op": "resolve"}
        elif r < 0.58 and flags:
            op = {"op": "flag", "f": rng.choice(flags), "resolve": rng.random() < 0.6}
        elif r < 0.63:
            op = {"op": "declare", "model": rng.choice(spec["models"])["name"]}
        elif r < 0.72:
            op = {"op": "conf", "conf": gen_conf(rng, spec)}
        elif r < 0.76 and dyn_:
            cands = sorted(set(spec["ics"]) - set(spec["tvars"]))
            op = {"op": "ics", "ics": {rng.choice(cands): G.r3(rng.uniform(-2, 2))}}
        elif r < 0.80 and dyn_:
            op = {"op": "reset"}
        elif r < 0.83:
            op = {"op": "sim"}
        else:
            op = {"op": "read", "what": rng.choice(READS)}
        ops.append(op)
    return ops


def gen_conf(rng, spec):
    c = G.gen_conf(rng, spec)
    if spec["kind"] == "linear":
        c["linear_solver"] = rng.choice(["sympy", "scipy", "symbolicsys"])
    if rng.random() < 0.2:
        c["@dict"] = True
    return c


class Player:
    """Applies a history to a session"""

    def __init__(self, s, ctx, conf):
        self.s = s
        self.ctx = ctx
        self.conf = conf
        self.over = {}
        self.over_resolved = {}
        self.flags_resolved = {}
        self.ics = dict(s.spec.get("ics", {}))
        self.hist = []
        self.ran = False
        self.extra_domain_rows = False

    def resolve(self):
        self.s.prob.resolve()
        self.over_resolved = dict(self.over)
        self.flags_resolved = dict(self.s.built.flags)

    def run(self, op=None):
        """kind, outcome"""
        op = op or {"verbose": False, "fault": None, "sched": None}
        spec = self.s.spec
        fault = None
        if op.get("fault"):
            from .core import rng_for
            r = rng_for("fault", op["fault"]["r"])
            fault = dyn.gen_fault(r, spec["kind"], self.conf) if spec["tvars"] else backends.gen_fault(r, spec["kind"], self.conf)
        if spec["tvars"]:
            dyn.arm(self.ctx, fault, op.get("sched"))
        elif fault:
            backends.arm(fault, self.ctx)
        with captured(op.get("stdout"), self.ctx):
            kind, out = build.attempt(self.s.run, show_output_msg=op["verbose"], show_final_residuals=op["verbose"])
        dyn.disarm()
        backends.disarm()
        self.ctx.ev("run", kind, type(out).__name__ if kind == "err" else None, "%s:%s" % (fault["at"], fault["kind"]) if fault else None)
        self.hist.append(["run", fault["kind"] if fault else None, kind])
        if kind == "ok":
            self.ran = True
        return kind, out, fault

    def apply(self, op):
        s, ctx = self.s, self.ctx
        o = op["op"]
        if o == "run":
            if op.get("reset") and s.spec["tvars"]:
                s.sim.reset()
            self.run(op)
        elif o == "set":
            s.obj(op["model"], op["name"]).setValue(op["value"])
            self.over[G.full(op["model"], op["name"])] = op["value"]
            if op.get("resolve"):
                self.resolve()
        elif o == "resolve":
            self.resolve()
        elif o == "flag":
            s.built.flags[op["f"]] = not s.built.flags.get(op["f"], False)
            if op.get("resolve"):
                self.resolve()
        elif o == "declare":
            s.built.models[op["model"]]()
        elif o == "conf":
            self.conf = op["conf"]
            s.configure(self.conf)
        elif o == "ics":
            s.prob.setInitialConditions(dict(op["ics"]))
            self.ics.update(op["ics"])
        elif o == "reset":
            s.sim.reset()
        elif o == "sim":
            s.make_simulation()
            s.configure(self.conf)
            self.ran = False
        elif o == "read":
            kind, out = build.attempt(self.read, op["what"])
            ctx.probe("read_" + op["what"] + ("" if kind == "ok" else "_refused"))
        if o != "run":
            self.hist.append([o, op.get("what")])
            ctx.ev(o, op.get("what"))

    def read(self, what):
        s = self.s
        m = s.built.models[s.spec["models"][0]["name"]]
        dom = s.built.domain
        if what in ("list", "dict"):
            r = s.sim.getResults(what)
            # a user may do what he likes with the lists and dictionaries he was given
            if isinstance(r, dict) and not s.spec["tvars"]:
                for k in list(r):
                    r[k] = "mine"
                r.clear()
            elif isinstance(r, dict):
                for d in r.values():
                    for l in d.values():
                        del l[:]
                r.clear()
            elif isinstance(r, list):
                del r[:]
        elif what == "index":
            tn = list(dom.independent_vars.keys())[-1]
            dom[(tn, list(dom.values[tn].columns))]
        elif what == "show":
            s.sim.showResults()
        elif what == "status":
            s.sim.getStatus()
        elif what == "report_model":
            s.sim.report(m)
        elif what == "report_problem":
            s.sim.report(s.prob)
        elif what == "repr":
            for e in m.equations.values():
                repr(e()), str(e())
        elif what == "dof":
            build.soft(m, "_infoDegreesOfFreedom_")
        elif what == "io":
            build.soft(m, "_infoInputOutputVariables")
            m._infoModelReport_()
        elif what == "eval":
            for e in m.equations.values():
                build.attempt(e.getResidual)
        elif what == "dump":
            fn = os.path.join(os.getcwd(), "dump-%d.json" % os.getpid())
            try:
                s.sim.dumpConfigurations(fn)
            finally:
                if os.path.exists(fn):
                    os.remove(fn)
        elif what == "plot":
            SIM.savefig = lambda real, fig, fname, kw: None
            try:
                tn = list(dom.independent_vars.keys())[-1]
                cols = list(dom.values[tn].columns)
                s.sim.plotTimeSeries(x_data=cols[0], y_data=cols[1:], data=dom, labels=cols[1:], save_file="p.png", show_plot=False)
            finally:
                SIM.savefig = None
        elif what == "getitem":
            for m2 in s.spec["models"]:
                for p in m2["params"]:
                    build.attempt(lambda: s.sim[G.full(m2["name"], p["n"])])
        elif what == "graph":
            build.soft(m, "_getModelOverviewForGraph")

    def fresh_spec(self):
        """The specification a fresh session needs to be in the same state"""
        spec = copy.deepcopy(self.s.spec)
        for m in spec["models"]:
            for k in ("params", "consts"):
                for p in m[k]:
                    f = G.full(m["name"], p["n"])
                    if f in self.over:
                        p["v"] = self.over[f]
        if "ics" in spec:
            spec["ics"] = dict(self.ics)
        return spec


def fresh(spec, flags, conf):
    s = build.Session(spec, "fresh")
    s.built.flags.update(flags)
    s.setup(conf)
    return s
