"""C13 Separately created objects never share mutable state."""
import copy
import json

from .. import gen as G, build, hist, dyn, backends, sched, confs
from ..core import digits, rng_for, SimulatedFault
from ..seams import SIM
from . import c12

LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded interleaving of two clusters of separately created objects, with failing and interrupted operations and edits in place; the bystander is observed after every step"
NOTE = ("Seeded sampling of interleaved construction and histories of two sessions with their simulations, problems, domains, property packages, streams, unit operations and "
        "optimizations; after every operation on one side the observable state of the other side and the arguments the user passed must be what they were, and both final runs must give the reference solution.")
CASES = {"quick": 480, "thorough": 30000}
RULE = ("two sessions (often with equal names and systems) and pairs of library objects, built step by step in a seeded order with and without optional arguments; "
        "operations include runs with injected faults, interrupted operations and edits in place of public attributes. Non-trivial: at least 10 operations "
        "followed by a comparison of the other side, and a successful run.")
STATES = "distinct sequences of (side, operation, outcome)"
REAL = ["all capybara modules", "sympy", "scipy", "pandas", "pygmo"]
STUB = ["thermo.chemical.Chemical (a record of its last calculation)", "assimulo CVode and IDA", "writing of figure files", "points of interruption"]
ASSUMPTIONS = ["observable state: public attributes of the objects named in the property", "reference evaluator and generator of /verif/sim/gen.py"]

EXTRAS = ["pp", "pp", "stream", "unitop", "opt", "opt", "domain", "sim2", "prob2", "model"]
STEPS = ["build_models", "declare", "make_problem", "add_models", "connect", "set_time", "resolve", "set_ics", "make_simulation", "configure"]


def gen(rng, i, tier):
    a = c12.gen_session(rng, 0)
    shared = rng.random() < 0.3
    if shared:
        b = json.loads(json.dumps(a))
        for m in b["spec"]["models"]:
            for p in m["params"]:
                if p["v"] is not None:
                    p["v"] = G.nudge(rng, b["spec"], G.Free(p["v"]) if p.get("free") else p["v"])
    else:
        b = c12.gen_session(rng, 1, a)
    extras = [[rng.choice(EXTRAS) for _ in range(rng.randint(1, 4))] for _ in range(2)]
    if rng.random() < 0.7:
        extras[1] = list(extras[0])
    ops = []
    for _ in range(rng.randint(6, 22)):
        r = rng.random()
        side = rng.randint(0, 1)
        se = (a, b)[side]
        if r < 0.45:
            op = {"do": "hist", "op": hist.gen_ops(rng, se["spec"], [], 1)[0]}
            if op["op"]["op"] == "read" and op["op"]["what"] in ("plot", "graph"):
                op["op"]["what"] = "list"
            if op["op"]["op"] == "conf":
                op["op"]["conf"] = c12.conf_of(rng, se["spec"])
            if rng.random() < 0.15 and op["op"]["op"] in ("declare", "resolve", "run", "conf"):
                op["cut"] = [rng.choice(["interrupt", "memory"]), rng.choice([rng.randint(0, 30), rng.randint(0, 600)])]
        elif r < 0.8 and extras[side]:
            op = {"do": "extra", "k": rng.randrange(len(extras[side])), "r": rng.randint(0, 10 ** 6)}
        else:
            op = {"do": "poke", "r": rng.randint(0, 10 ** 6)}
        op["side"] = side
        ops.append(op)
    order = [0] * (len(STEPS) + len(extras[0])) + [1] * (len(STEPS) + len(extras[1]))
    rng.shuffle(order)
    return {"a": a, "b": b, "shared": shared, "extras": extras, "order": order, "ops": ops, "defdict": rng.random() < 0.4, "args": rng.random() < 0.5,
            "seed": rng.randint(0, 10 ** 6)}


# ---------------------------------------------------------------- what a user can see of an object

def plain(x, depth=0):
    import numpy as np
    import pandas as pd
    if x is None or isinstance(x, (bool, int, str)):
        return x
    if isinstance(x, float):
        return repr(x)
    if isinstance(x, pd.DataFrame):
        return {"cols": [str(c) for c in x.columns], "rows": [[repr(v) for v in row] for row in x.values.tolist()]}
    if isinstance(x, np.ndarray):
        return [repr(v) for v in x.ravel().tolist()]
    if isinstance(x, dict):
        return {str(k): plain(v, depth + 1) for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))} if depth < 8 else "..."
    if isinstance(x, (list, tuple)):
        return [plain(v, depth + 1) for v in x] if depth < 8 else "..."
    if isinstance(x, (set, frozenset)):
        return sorted(map(str, x))
    n = getattr(x, "name", None)
    if isinstance(n, str):
        return "<%s %s>" % (type(x).__name__, n)
    try:
        import sympy
        if isinstance(x, sympy.Basic):
            return str(x)
    except ImportError:
        pass
    if isinstance(x, FakeChemical):
        return "chemical %s %r" % (x.ID, x.last)
    return "<%s>" % type(x).__name__


def see_quantity(q):
    return [q.name, plain(q.value), bool(q.is_specified), plain(dict(q.units.dimension)), q.description, q.owner_model_name,
            plain(getattr(q, "lower_bound", None)), plain(getattr(q, "upper_bound", None)), getattr(q, "is_exposed", None), getattr(q, "type", None),
            getattr(getattr(q, "domain", None), "name", None)]


def see_model(m):
    return {"name": m.name, "vars": [see_quantity(v) for v in m.variables.values()], "params": [see_quantity(v) for v in m.parameters.values()],
            "consts": [see_quantity(v) for v in m.constants.values()], "keys": [list(m.variables), list(m.parameters), list(m.constants), list(m.parameter_arrays)],
            "eqs": {k: str(e.equation_expression.symbolic_object) for k, e in m.equations.items()}, "exposed": plain(m.exposed_vars),
            "conns": list(m.connections), "ports": plain(m.ports), "inlets": plain(getattr(m, "_inlets", None)), "info": plain(m.objects_info), "pp": plain(m.property_package)}


def see_problem(p):
    b = p.equation_block
    return {"models": list(p.models), "conns": list(p.connections), "ics": plain(p.initial_conditions), "vd": list(p.variable_dict), "pd": list(p.parameter_dict),
            "time": plain(p.time_variable_name), "block": None if b is None else [str(e.equation_expression.symbolic_object) for e in b.equations],
            "bv": None if b is None else [list(b.variable_dict), list(b.parameter_dict)]}


def see_sim(s):
    return {"conf": plain(s.configurations), "out": plain(s.output), "status": s.status, "dom": plain(s.domain), "plots": plain(getattr(s.plotter, "plots", None)),
            "mine": getattr(s.plotter, "simulation", None) is s}


def see_domain(d):
    return {"ind": list(d.independent_vars), "dep": list(d.dependent_objs), "lo": plain(d.lower_bound), "up": plain(d.upper_bound), "vals": plain(d.values), "set": d.is_set}


def see_pp(p):
    return {k: plain(getattr(p, k)) for k in ("number_of_phases", "phase_names", "T", "P", "phases", "ws", "zs", "mixture", "eos")}


def see_unitop(u):
    return {"n": [u.n_inputs, u.n_outputs], "ports": plain(u.ports), "model": see_model(u.model)}


def see_opt(o):
    return {k: plain(getattr(o, k, None)) for k in ("simulation_configuration", "optimization_parameters", "constraints", "constraints_additional_args", "additional_args",
                                                   "optimization_configuration", "optimizer", "best_parameters", "best_fitness", "run_sucessful", "optimization_log")}


def see_optproblem(o):
    return {k: plain(getattr(o, k, None)) for k in ("name", "dim", "bounds", "simulation_configuration")}


SEE = {"model": see_model, "problem": see_problem, "sim": see_sim, "domain": see_domain, "pp": see_pp, "unitop": see_unitop, "opt": see_opt, "optproblem": see_optproblem}
CONTAINERS = {"model": ["variables", "parameters", "constants", "parameter_arrays", "equations", "connections", "exposed_vars", "ports", "objects_info"],
              "problem": ["models", "connections", "initial_conditions", "variable_dict", "parameter_dict"], "sim": ["configurations"],
              "domain": ["independent_vars", "dependent_objs", "lower_bound", "upper_bound", "values"], "pp": ["phase_names", "phases", "ws", "zs", "eos"],
              "unitop": ["ports"], "opt": ["optimization_configuration", "constraints_additional_args", "additional_args", "optimization_parameters"], "optproblem": []}


class FakeChemical:
    MW, Cp, rho = 18.0, 4180.0, 997.0

    def __init__(self, ID, T=298.15, P=101325):
        self.ID, self.last = ID, (T, P)

    def calculate(self, T=298.15, P=101325):
        self.last = (T, P)


# ---------------------------------------------------------------- one side

class Side:
    def __init__(self, ctx, plan, k, shared):
        self.ctx, self.plan, self.k = ctx, plan, k
        self.se = plan["ab"[k]]
        self.s = build.Session(self.se["spec"], "same" if plan["shared"] else "s%d" % k)
        self.objs = []           # (kind, object)
        self.todo = list(STEPS)
        self.extras = []
        self.shared = shared
        self.given = None        # a dictionary of models given to the problem
        self.player = None
        self.cut = False
        self.steps = []

    def add(self, kind, o):
        self.objs.append((kind, o))
        return o

    def see(self):
        return [[k, SEE[k](o)] for k, o in self.objs]

    # -- construction
    def step(self):
        s = self.s
        n = self.todo.pop(0)
        if n == "set_ics" and not s.spec["tvars"]:
            return n
        if n == "resolve":
            s.prob.resolve()
        elif n == "configure":
            self.configure(self.se["conf"])
        elif n == "set_ics":
            ics = self.shared.setdefault("ics", dict(s.spec["ics"])) if self.plan["shared"] else dict(s.spec["ics"])
            s.prob.setInitialConditions(ics)
        elif n == "make_problem" and self.plan["args"]:
            sh = self.shared
            models = sh["models"]
            if (self.plan["seed"] + self.k) % 2:
                m = s.built.models[sorted(s.built.models)[self.plan["seed"] % len(s.built.models)]]
                models = self.given = {m.name: m}
            s.prob = build.api()["Problem"]("problem " + s.name, "generated", models=models, connections=sh["connections"], variable_dict=sh["vd"], parameter_dict=sh["pd"])
        else:
            getattr(s, n)()
        if n == "build_models":
            for m in s.built.models.values():
                self.add("model", m)
            if s.built.domain is not None:
                self.add("domain", s.built.domain)
        elif n == "make_problem":
            self.add("problem", s.prob)
        elif n == "make_simulation":
            self.add("sim", s.sim)
        elif n == "configure":
            self.player = hist.Player(s, self.ctx, self.se["conf"])
            self.player.resolve = self.resolve
        return n

    def resolve(self):
        self.s.prob.resolve()

    def configure(self, conf):
        """Both sides may be given the very same dictionaries and lists"""
        s = self.s
        s.conf = conf
        key = "conf " + json.dumps(conf, sort_keys=True) if self.plan["shared"] else None
        if key and key in self.shared:
            kw = dict(self.shared[key])
        else:
            kw = s.kwargs(conf)
            kw.pop("domain", None)
            if key:
                self.shared[key] = dict(kw)
        dom = s.built.domain if conf.get("@domain") else None
        if self.plan["defdict"]:
            if key:
                kw = self.shared.setdefault("def " + key, kw)
            before = plain(kw)
            if kw.get("is_dynamic") and "time_variable_name" not in kw:
                kw = dict(kw)           # the time variable is looked up only when arguments are given
                s.sim.setConfigurations(domain=dom, time_variable_name=s.prob.time_variable_name, definition_dict=kw)
            else:
                s.sim.setConfigurations(domain=dom, definition_dict=kw)
            self.ctx.check(plain(kw) == before, "argument-changed", lambda: "%s became %s" % (before, plain(kw)))
        else:
            before = plain(kw)
            s.sim.setConfigurations(domain=dom, **kw)
            self.ctx.check(plain(kw) == before, "argument-changed", lambda: "%s became %s" % (before, plain(kw)))

    def make_extra(self, kind):
        a = build.api()
        from src.sloth.core.property_package import PropertyPackage
        from src.sloth.unit_op import UnitOp
        from src.sloth import unit_op_library as lib
        if kind == "pp":
            x = {"kind": kind, "o": PropertyPackage()} if not self.plan["args"] else {"kind": kind, "o": PropertyPackage(2, self.shared["phases"], self.shared["ws"])}
            self.add("pp", x["o"])
        elif kind == "model":
            x = {"kind": kind, "o": a["Model"]("extra")}
            self.add("model", x["o"])
        elif kind == "stream":
            pp = {"property_package": self.shared["ppk"]} if self.plan["args"] else {}
            x = {"kind": kind, "o": lib.MaterialStream("stream"), "m": a["Model"]("user of the stream", **pp)}
            self.add("model", x["o"])
            self.add("model", x["m"])
        elif kind == "unitop":
            m = lib.HomogeneousMaterialStream("hom")
            x = {"kind": kind, "o": UnitOp(model=m), "m": m}
            self.add("unitop", x["o"])
        elif kind == "opt":
            m, p, s = confs.tiny_session("tiny")
            s.setConfigurations(linear_solver="sympy")

            class Op(a["OptimizationProblem"]):
                def DeclareObjectiveFunction(self, x):
                    si = self.simulation_instance
                    si[m.p].setValue(float(x[0]))
                    si.problem.resolve()
                    si.setConfigurations(definition_dict=self.simulation_configuration)
                    si.runSimulation(show_output_msg=False, show_final_residuals=False)
                    return [(float(si.getResults("dict")["x_T"]) - 1.0) ** 2]
            op = Op(1, "op")
            op()
            kw = {"optimization_configuration": self.shared["oc"]} if self.plan["args"] else {"optimization_configuration": {"number_of_individuals": 7, "number_of_generations": 1}}
            if self.plan["args"]:
                kw.update(constraints=self.shared["bounds"], optimization_parameters=self.shared["names"])
            else:
                kw.update(constraints=([0.0], [3.0]), optimization_parameters=[m.p])
            o = a["Optimization"](simulation=s, optimization_problem=op, **kw)
            x = {"kind": kind, "o": o, "op": op, "m": m, "p": p, "s": s}
            self.add("model", m), self.add("problem", p), self.add("sim", s), self.add("opt", o), self.add("optproblem", op)
        elif kind == "domain":
            m = a["Model"]("owner")
            t = m.createVariable("t", a["tu"].s, "")
            x = {"kind": kind, "o": a["Domain"]("extra", a["tu"].s, t), "m": m}
            if self.plan["args"]:
                x["o"] = a["Domain"]("extra", a["tu"].s, self.shared.setdefault("ind", [t]), "", self.shared["lo"], self.shared["up"])
            self.add("domain", x["o"])
            self.add("model", m)
        elif kind == "sim2":
            x = {"kind": kind, "o": a["Simulation"]("sim " + self.s.name, "")}
            self.add("sim", x["o"])
        elif kind == "prob2":
            x = {"kind": kind, "o": a["Problem"]("problem " + self.s.name, "")}
            self.add("problem", x["o"])
        self.extras.append(x)
        return kind

    # -- operations
    def extra_op(self, x, rng):
        a = build.api()
        k, o = x["kind"], x["o"]
        r = rng.random()
        own = [v for v in self.objs if v[0] == "model"]
        if k == "pp":
            if r < 0.3:
                o.set_T(300.0 + rng.random())
            elif r < 0.5:
                o.set_P(1e5 + rng.random())
            elif r < 0.75:
                from src.sloth.core.property_package import PropertyPackage
                o + PropertyPackage(1, [rng.choice(["ethanol", "methane"])])
            elif r < 0.85:
                o.T = "warm"
            elif r < 0.93:
                o.calculate(T=310.0)
            else:
                o.set_T("hot")
        elif k == "model" or k == "domain" and r < 0.3:
            m = o if k == "model" else x["m"]
            n = "n%d" % rng.randint(0, 5)
            if r < 0.1:
                m.createParameter(n, a["tu"].dimless, "")
            elif r < 0.4:
                kw = dict(is_exposed=True, type=rng.choice(["input", "output"])) if rng.random() < 0.6 else {}
                v = m.createVariable(n, a["tu"].dimless, "", **kw)
                m.createEquation(rng.choice(["", n]), "", v() - 1.0)
            elif r < 0.6:
                m._setInlets([a["Model"]("inlet")], "in%d" % rng.randint(0, 2))
            elif r < 0.8:
                m.createConstant(n, a["tu"].dimless, "").setValue(rng.random())
            else:
                m.ports["outlets"][n] = 1
        elif k == "domain":
            if r < 0.6:
                v = x["m"].createVariable("w%d" % rng.randint(0, 9), a["tu"].dimless, "")
                v.distributeOnDomain(o)
            elif r < 0.8:
                build.soft(o, "_setDomain")
                o.lower_bound["all"] = rng.random() if not self.plan["args"] else o.lower_bound["all"]
            else:
                o.upper_bound["z"] = rng.random()
                o()
        elif k == "stream":
            if r < 0.6:
                rng.choice(list(o.parameters.values())).setValue(rng.uniform(1, 9))
            elif r < 0.8:
                o()
            else:
                x["m"]._setInlets(o)
        elif k == "unitop":
            m = a["Model"]("other stream")
            arg = rng.choice([m, [m], [m, m]])
            (o._setInlets if r < 0.5 else o._setOutlets)(arg)
        elif k == "opt":
            if r < 0.25:
                import pygmo
                pygmo.set_global_rng_seed(rng.randint(0, 10 ** 6))
                before = [see_model(x["m"]), see_problem(x["p"]), see_sim(x["s"])]
                if o.constraints is None:
                    o.setConstraints(([0.0], [3.0]))
                o.runOptimization(print_output=rng.random() < 0.5, optimization_log=rng.random() < 0.5)
                after = [see_model(x["m"]), see_problem(x["p"]), see_sim(x["s"])]
                self.ctx.check(before == after, "study-changed-the-simulation-it-was-given", lambda: diff(before, after))
                self.ctx.probe("study")
            elif r < 0.4:
                o.setConstraints(([0.1], [2.0 + rng.random()]))
            elif r < 0.6:
                o.optimization_configuration["ftol_de"] = rng.random()
            elif r < 0.7:
                x["s"].setConfigurations(linear_solver=rng.choice(["scipy", "sympy"]), initial_guess={"x_T": rng.random()})
            elif r < 0.85:
                x["m"].p.setValue(rng.random())
                x["p"].resolve()
                x["s"].runSimulation(show_output_msg=False)
            else:
                o.constraints_additional_args.append(rng.random())
        elif k == "sim2":
            s = self.s
            if s.prob is None:
                return
            o.setProblem(s.prob)
            main = see_sim(s.sim) if s.sim is not None else None
            conf = c12.conf_of(rng, s.spec) if not s.spec["tvars"] else {}
            o.setConfigurations(**s.kwargs(conf))
            if s.prob.equation_block is not None and not s.spec["tvars"]:
                build.attempt(o.runSimulation, show_output_msg=rng.random() < 0.5)
            if r < 0.3:
                o.reset()
            if s.sim is not None:
                now = see_sim(s.sim)
                self.ctx.check(now == main, "simulations-of-one-problem-share-state", lambda: diff(main, now))
                self.ctx.probe("second_simulation")
        elif k == "prob2":
            s = self.s
            if not s.built.models:
                return
            main = see_problem(s.prob) if s.prob is not None else None
            if r < 0.4:
                o.setInitialConditions({"x%d" % rng.randint(0, 9): 1.0})
            elif r < 0.6:
                o.setTimeVariableName("tt%d" % rng.randint(0, 9))
            elif r < 0.8:
                l = list(s.built.models.values())
                o.addModels(l)
                self.ctx.check(l == list(s.built.models.values()), "argument-changed", "list of models")
            else:
                build.attempt(o.resolve)
                main and main.pop("block"), main and main.pop("bv")
            if main is not None:
                now = {n: v for n, v in see_problem(s.prob).items() if n in main}
                self.ctx.check(now == main, "problems-on-the-same-models-share-state", lambda: diff(main, now))
                self.ctx.probe("second_problem")

    def poke(self, rng):
        """The user puts something of his own into a public container of one of his objects. Undone afterwards."""
        cands = [(kind, o, n) for kind, o in self.objs for n in CONTAINERS[kind]]
        if not cands:
            return None
        kind, o, n = cands[rng.randrange(len(cands))]
        if kind == "opt" and self.plan["args"] and n in ("optimization_parameters",):
            return None
        c = getattr(o, n)
        inner = [v for v in c.values() if isinstance(v, (dict, list))] if isinstance(c, dict) and (n in ("exposed_vars", "ports") or n == "configurations" and not self.plan["shared"]) else []
        if inner and rng.random() < 0.6:
            c = inner[rng.randrange(len(inner))]
        if isinstance(c, dict):
            c["<poke>"] = "poked"
            return n, lambda: c.pop("<poke>", None)
        if isinstance(c, list):
            c.append("<poke>")
            return n, lambda: c.remove("<poke>") if "<poke>" in c else None
        return None


def diff(a, b, path=""):
    if type(a) is not type(b):
        return "%s: %r became %r" % (path, a, b)
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return "%s.%s %s" % (path, k, "appeared: %r" % b[k] if k in b else "disappeared")
            if a[k] != b[k]:
                return diff(a[k], b[k], "%s.%s" % (path, k))
    if isinstance(a, list):
        if len(a) != len(b):
            return ("%s: %r became %r" % (path, a, b))[:600]
        for k, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, "%s[%s]" % (path, x[0] if isinstance(x, list) and x and isinstance(x[0], str) else k))
    return "%s: %r became %r" % (path, a, b)


def run(plan, ctx):
    from .c02 import usable
    if not all(usable(plan[k]["spec"]) for k in "ab"):
        return
    import thermo
    thermo.chemical.Chemical = FakeChemical
    import src.sloth.core.property_package as ppm
    shared = {"models": {}, "connections": {}, "vd": {}, "pd": {}, "phases": ["water", "ethanol"], "ws": [0.4, 0.6], "oc": {"number_of_individuals": 7, "number_of_generations": 1},
              "bounds": ([0.0], [3.0]), "lo": {"all": 0.0}, "up": {"all": 9.0}, "names": ["p_T"], "ppk": ppm.PropertyPackage()}
    fixed = json.dumps({k: plain(v) for k, v in shared.items()}, sort_keys=True)
    keys = sorted(shared)
    sides = [Side(ctx, plan, k, shared) for k in (0, 1)]
    log = []
    watched = 0

    def guarded(k, what, f):
        other = sides[1 - k]
        before = other.see()
        try:
            out = f()
        finally:
            after = other.see()
        ctx.check(before == after, "bystander-changed", lambda: "after %s on side %d: %s" % (what, k, diff(before, after)))
        for sd in sides:
            ctx.check(sd.given is None or len(sd.given) == 1, "argument-changed", lambda: "the dictionary of models given to a problem became %s" % sorted(sd.given))
        now = json.dumps({n: plain(shared[n]) for n in keys}, sort_keys=True)
        ctx.check(now == fixed, "argument-changed", lambda: "after %s on side %d: %s" % (what, k, diff(json.loads(fixed), json.loads(now))))
        return out
    # built step by step; extras come at their place in the order
    left = [list(plan["extras"][0]), list(plan["extras"][1])]
    for k in list(plan["order"]) + [0, 1] * 20:
        sd = sides[k]
        if sd.todo and (not left[k] or (len(sd.todo) + 3 * len(left[k])) % 2):
            what = guarded(k, "construction", sd.step)
        elif left[k]:
            e = left[k].pop(0)
            what = guarded(k, "construction of " + e, lambda: sd.make_extra(e))
        elif sd.todo:
            what = guarded(k, "construction", sd.step)
        else:
            continue
        ctx.ev("build", k, what)
    good = 0
    for op in plan["ops"]:
        k = op["side"]
        sd = sides[k]
        rng = rng_for("op", op.get("r", 0))
        what = op["do"]
        outcome = "ok"
        if op["do"] == "hist":
            h = op["op"]
            what = h["op"]
            if h["op"] == "sim":
                continue

            def go():
                if h["op"] == "conf":
                    sd.player.conf = h["conf"]
                    sd.configure(h["conf"])
                    return
                if op.get("cut"):
                    sd.cut = True
                    with sched.interrupt_at(op["cut"][1], op["cut"][0], ctx):
                        sd.player.apply(h)
                else:
                    sd.player.apply(h)
            try:
                guarded(k, what, go)
            except (KeyboardInterrupt, MemoryError):
                outcome = "cut"
                dyn.disarm()
                backends.disarm()
            except AssertionError:
                raise
            except Exception as e:
                if not sd.cut:
                    raise
                outcome = "err"
        elif op["do"] == "extra":
            x = sd.extras[op["k"] % len(sd.extras)] if sd.extras else None
            if x is None:
                continue
            what = x["kind"]
            kind, out = build.attempt(guarded, k, "an operation on " + what, lambda: sd.extra_op(x, rng))
            outcome = kind
        else:
            u = guarded(k, "an edit in place", lambda: sd.poke(rng))
            if u is None:
                continue
            guarded(k, "undoing an edit in place", u[1])
            what = "poke " + u[0]
        watched += 1
        log.append([k, what, outcome])
        ctx.ev("op", k, what, outcome)
    for k, sd in enumerate(sides):
        if sd.cut:
            continue

        def finish():
            p = sd.player
            sd.resolve()
            if sd.s.spec["tvars"]:
                sd.s.sim.reset()
                if build.table(sd.s.built.domain)["rows"]:
                    p.run()
                    sd.s.sim.reset()
            return p.run()
        kind, out, _ = guarded(k, "the final run", finish)
        log.append([k, "final", kind])
        if kind == "ok":
            res = sd.s.results()
            ctx.ev("results", k, digits(res, 4))
            p = sd.player
            fs = p.fresh_spec()
            pv = G.values_of(fs)
            if fs["tvars"]:
                from .c03 import columns
                build.check_rows(ctx, fs, pv, p.conf, res, 0, len(res["rows"]), fs["ics"], cols=columns(fs, p.conf), flags=dict(sd.s.built.flags))
                ctx.simtime += res["rows"][-1][0] - res["rows"][0][0]
            else:
                build.check_algebraic(ctx, fs, pv, res, flags=dict(sd.s.built.flags))
            good += 1
            ctx.probe("reference_checked")
        else:
            from src.sloth.core.error_definitions import NumericalError
            it = sd.s.spec["kind"] == "nonlinear" or sd.s.spec["kind"] == "linear" and sd.player.conf.get("linear_solver", "symbolicsys") == "symbolicsys"
            ctx.check(it and isinstance(out, NumericalError), "regular-run-refused", lambda: "side %d: %r" % (k, out))
            ctx.probe("final_run_refused")
    from src.sloth.core.expression_evaluation import EquationNode
    q = EquationNode("new")
    ctx.check(not q.symbolic_map and not q.variable_map, "new-object-holds-state-of-others", lambda: "symbolic_map %s" % q.symbolic_map)
    ctx.probe("bystander_compared", watched)
    ctx.state(log)
    ctx.nontrivial = watched >= 10 and good > 0
