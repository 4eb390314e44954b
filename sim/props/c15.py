"""C15 Incorporating a model is equivalent to declaring its contents, and copies."""
import copy
import json

from .. import gen as G, build, sched, dyn
from ..core import digits, SimInterrupt, SimNoMemory
from .c13 import see_quantity, diff
from .c14 import value, points

LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded incorporation trees and operation histories with interrupts and scheduled threads, every model compared with a twin that declares everything itself"
NOTE = ("Seeded sampling. Each model of a history (sources, intermediate and incorporating models) is compared, after operations on all of them, with a flat twin "
        "that had only its own operations: objects, values, units, exposure, residuals at random points, and the outcome of a run.")
CASES = {"quick": 240, "thorough": 30000}
RULE = ("a random system of one model is cut into a tree of 2-4 models that incorporate one another (in one or two calls, with or without equations), "
        "equations declared in constructors or in DeclareEquations; then values are set, equations switched, models declared, run, extended and incorporated again "
        "(also interrupted, also from two threads). Non-trivial: a run of an incorporating model succeeded and at least two operations on other models came before it.")
STATES = "distinct (kind, tree, sequence of operations by role) histories"
REAL = ["all capybara modules except plots, optimization and the libraries of property packages and unit operations", "sympy", "scipy", "pyneqsys", "pandas"]
STUB = ["assimulo CVode and IDA (simulated integrators)", "thread scheduling (thread operations)"]
ASSUMPTIONS = ["reference evaluator and generator of /verif/sim/gen.py", "object names of models incorporated together are distinct",
               "values set after an equation was created do not reach it before it is created again (as without incorporation)"]

ROOTS = ["B", "AB", "BA", "B_A", "A_B", "main", "X", "D0", "R10", "unit"]
SOURCES = ["A", "B", "AB", "A_B", "M0", "R1", "D", "x", "tank"]


def objects(e):
    out = []
    for side in (e["l"], e.get("r")):
        if side is not None:
            for a in G.walk(side):
                if a[0] in ("v", "p", "c", "d") and a[1] not in out:
                    out.append(a[1])
    return out


def gen(rng, i, tier):
    r = rng.random()
    if r < 0.4:
        spec = G.gen_algebraic(rng, "linear", nmodels=1, maxn=5)
    elif r < 0.6:
        spec = G.gen_algebraic(rng, "nonlinear", nmodels=1, maxn=4)
    elif r < 0.88:
        spec = G.gen_dynamic(rng, "ode", nmodels=1)
    else:
        spec = G.gen_dynamic(rng, "dae", nmodels=1)
    m = spec["models"][0]
    root = rng.choice(ROOTS)
    if rng.random() < 0.15:
        # new names of some objects are the old names of others
        pre = rng.choice(["A", "B", "X"])
        root = pre + "_" + rng.choice([x for x in ("A", "B", "tank") if x != pre])
        o = rng.sample([x["n"] for k in ("vars", "params", "consts") for x in m[k]], 2) if sum(len(m[k]) for k in ("vars", "params", "consts")) > 1 else None
        if o:
            rename_object(spec, o[1], o[0] + "_" + pre)
    rename(spec, m["name"], root)
    n = rng.choice([2, 2, 2, 3, 3, 4])
    names = rng.sample([x for x in SOURCES if x != root], n - 1)
    if "_" in root and root not in ROOTS or rng.random() < 0.1:
        last = root.split("_")[-1]
        if last != root and last not in names:
            names[0] = last
    nodes = [{"name": root, "parent": None}] + [{"name": nm, "parent": rng.choice([0, 0, rng.randrange(k + 1)])} for k, nm in enumerate(names)]
    for k, nd in enumerate(nodes):
        nd.update(vars=[], params=[], consts=[], eqs=[], when=rng.choice(["ctor", "decl"]), noeq=False, two=rng.random() < 0.25)
    nodes[0]["when"] = "decl" if spec["tvars"] or rng.random() < 0.7 else "ctor"
    where = {}
    if spec["tvars"]:
        t = m["tref"][1]
        where[t] = rng.randrange(n)
    for e in rng.sample(m["eqs"], len(m["eqs"])):
        k = rng.randrange(n)
        for o in objects(e):
            where.setdefault(o, k)
    kinds = [("vars", o["n"]) for o in m["vars"]] + [("params", o["n"]) for o in m["params"]] + [("consts", o["n"]) for o in m["consts"]]
    for kind, o in kinds:
        nodes[where.setdefault(o, rng.randrange(n))][kind].append(o)
    for q, e in enumerate(m["eqs"]):
        need = {where[o] for o in objects(e)}
        if any(a[0] == "d" for s in (e["l"], e.get("r")) if s is not None for a in G.walk(s)):
            need.add(where[t])
        fits = [k for k in range(n) if need <= subtree(nodes, k)]
        deepest = max(fits, key=lambda k: depth(nodes, k))
        nodes[deepest if rng.random() < 0.85 else rng.choice(fits)]["eqs"].append(q)
    # a source whose equations stay behind: its parent declares them
    for k in range(1, n):
        if rng.random() < 0.15 and not any(x["parent"] == k for x in nodes):
            nodes[nodes[k]["parent"]]["eqs"] += nodes[k]["eqs"]
            nodes[k]["eqs"] = []
            nodes[k]["noeq"] = True
    spec["flags"] = hist_alternatives(rng, m)
    for v in m["vars"]:
        if rng.random() < 0.3 and not v.get("time"):
            v["exposed"] = rng.choice(["input", "output"])
        if rng.random() < 0.2:
            v["lb"] = G.r3(rng.uniform(-9, -5))
    plan = {"spec": spec, "nodes": nodes, "conf": G.gen_conf(rng, spec), "second": None, "tap": None}
    plan["conf"].pop("@tname", None)
    if rng.random() < 0.4:
        plan["second"] = rng.choice([x for x in ROOTS if x not in [y["name"] for y in nodes]])
    outs = [v["n"] for v in m["vars"] if v.get("exposed") == "output"]
    if outs and not spec["tvars"] and rng.random() < 0.6:
        plan["tap"] = rng.choice(outs)
    pre, post = [], []
    for k in range(1, n):
        leaf = not any(x["parent"] == k for x in nodes)
        if leaf and nodes[k]["when"] == "decl" and rng.random() < 0.4:
            pre += gen_ops(rng, spec, nodes, k, 2, ["set", "flag"])
    models = list(range(n)) + (["second"] if plan["second"] else [])
    for _ in range(rng.randint(2, 9)):
        post += gen_ops(rng, spec, nodes, rng.choice(models), 1, ["set", "set", "flag", "declare", "run", "extra", "again", "cut", "poke", "borrow"])
    plan.update(pre=pre, post=post, threads=sched.gen_strategy(rng, 3000) if plan["second"] and rng.random() < 0.5 else None)
    return plan


def rename(spec, old, new):
    """The only model of a specification gets another name"""
    def walk(x):
        if isinstance(x, dict):
            return {k if not isinstance(k, str) or not k.endswith("_" + old) and not k.endswith("_" + old + "_d") else k.replace("_" + old, "_" + new): walk(v) for k, v in x.items()}
        if isinstance(x, list):
            return [walk(v) for v in x]
        return x
    m = spec["models"][0]
    m["name"] = new
    m["desc"] = "model " + new
    spec["order"] = [new]
    if spec["tvars"]:
        m["tref"][0] = new
        spec["tvars"] = [G.full(new, m["tref"][1])]
        spec["domain"]["t"][0] = new
        for o in spec["domain"]["order"]:
            o[0] = new
        ics = {}
        for k, v in spec["ics"].items():
            d = k.endswith("_d") and k[:-2].endswith("_" + old)
            base = k[:-2] if d else k
            ics[base[:-len(old)] + new + ("_d" if d else "")] = v
        spec["ics"] = ics


def rename_object(spec, old, new):
    m = spec["models"][0]

    def walk(a):
        return [a[0], new] if a[0] in ("v", "p", "c", "d") and a[1] == old else [walk(x) if isinstance(x, list) else x for x in a]
    for k in ("vars", "params", "consts"):
        for x in m[k]:
            if x["n"] == old:
                x["n"] = new
    for e in m["eqs"]:
        for k in ("l", "r"):
            if e.get(k) is not None:
                e[k] = walk(e[k])
        if e.get("ode") == old:
            e["ode"] = new
    if spec["tvars"]:
        f, g = G.full(m["name"], old), G.full(m["name"], new)
        for t in (m["tref"], spec["domain"]["t"], *spec["domain"]["order"]):
            if t[1] == old:
                t[1] = new
        spec["tvars"] = [g if t == f else t for t in spec["tvars"]]
        spec["ics"] = {g if k == f else g + "_d" if k == f + "_d" else k: v for k, v in spec["ics"].items()}


def hist_alternatives(rng, m):
    flags = []
    for q, e in enumerate(m["eqs"]):
        if rng.random() < 0.25:
            e["alt"] = G.r3(rng.uniform(0.2, 1.0))
            flags.append(q)
    return flags


def subtree(nodes, k):
    return {j for j in range(len(nodes)) if j == k or nodes[j]["parent"] is not None and k in ancestors(nodes, j)}


def ancestors(nodes, j):
    out = []
    while nodes[j]["parent"] is not None:
        j = nodes[j]["parent"]
        out.append(j)
    return out


def depth(nodes, k):
    return len(ancestors(nodes, k))


def gen_ops(rng, spec, nodes, k, n, what):
    m = spec["models"][0]
    node = nodes[0 if k == "second" else k]
    inside = subtree(nodes, 0 if k == "second" else k)
    ps = [p for p in m["params"] if p["v"] is not None and any(p["n"] in nodes[j]["params"] for j in inside)]
    out = []
    for _ in range(rng.randint(1, n)):
        w = rng.choice(what)
        if w == "set" and ps:
            p = rng.choice(ps)
            out.append({"op": "set", "on": k, "name": p["n"], "value": G.nudge(rng, spec, G.Free(p["v"]) if p.get("free") else p["v"])})
        elif w == "flag" and node["eqs"]:
            out.append({"op": "flag", "on": k, "eq": rng.choice(node["eqs"])})
        elif w in ("declare", "run", "poke", "borrow"):
            out.append({"op": w, "on": k})
        elif w == "extra":
            vs = [v for v in m["vars"] if not v.get("time") and any(v["n"] in nodes[j]["vars"] for j in inside)]
            if vs and k not in (0, "second"):
                out.append({"op": "extra", "on": k, "v": rng.choice(vs)["n"], "c": G.r3(rng.uniform(1, 2))})
        elif w in ("again", "cut"):
            out.append({"op": w, "on": k, "r": rng.randint(0, 10 ** 9), "kind": rng.choice(["interrupt", "memory"])})
    return out


def model_class():
    Model = build.api()["Model"]

    class PartModel(Model):
        """Declares its own objects and equations, and incorporates its children"""

        def __init__(self, spec, node, children):
            super().__init__(node["name"], "part")
            self._spec = spec
            self._node = node
            self._flags = dict(node.get("flags", {}))
            self._domain = None
            m = spec["models"][0]
            for what in ("vars", "params", "consts"):
                for o in m[what]:
                    if o["n"] not in node[what]:
                        continue
                    u = build.unit(o["u"])
                    if what == "vars":
                        kw = {}
                        if o.get("exposed"):
                            kw.update(is_exposed=True, type=o["exposed"])
                        if o.get("lb") is not None:
                            kw.update(lower_bound=o["lb"])
                        q = self.createVariable(o["n"], u, "variable " + o["n"], **kw)
                    else:
                        q = (self.createParameter if what == "params" else self.createConstant)(o["n"], u, what + " " + o["n"])
                        v = node.get("values", {}).get(o["n"], o["v"])
                        if v is not None:
                            q.setValue(v)
                    setattr(self, o["n"], q)
            for c in children:
                if c._node["noeq"]:
                    self.incorporateFromExternalModel(c, incorporate_equations=False)
                elif c._node["two"]:
                    self.incorporateFromExternalModel(c, incorporate_equations=False)
                    self.incorporateFromExternalModel(c, incorporate_variables=False, incorporate_parameters=False, incorporate_constants=False)
                else:
                    self.incorporateFromExternalModel(c)
            if spec["tvars"]:
                t = m["tref"][1]
                if hasattr(self, t):
                    mine = [v["n"] for v in m["vars"] if not v.get("time") and hasattr(self, v["n"])]
                    self._domain = build.api()["Domain"]("domain of " + node["name"], build.unit(spec["domain"]["u"]), getattr(self, t), "")
                    for v in mine:
                        getattr(self, v).distributeOnDomain(self._domain)
            for e in node.get("inner", []):
                self._make(e)
            if node["when"] == "ctor":
                self._own()
            if node["noeq"] and node["vars"]:
                self.createEquation("left behind", "", self._at_("", node["vars"][0]) - self._at_("", node["vars"][0]) * 2.)

        def _at_(self, kind, n):
            return getattr(self, n)()

        def _at(self, n):
            return n

        def _get(self, model, kind, name):
            if kind == "d":
                t = self._spec["models"][0]["tref"][1]
                return getattr(self, name).Diff(getattr(self, t))
            return getattr(self, name)

        def _make(self, e):
            build.make_equation(self, e, self._get)

        def _own(self):
            for q in self._node["eqs"]:
                self._make(variant(self._spec, q, self._flags))

        def DeclareEquations(self):
            if self._node["when"] == "decl":
                self._own()
    return PartModel


def variant(spec, q, flags):
    e = dict(spec["models"][0]["eqs"][q])
    if flags.get(str(q)):
        c = e["alt"] if "alt" in e else 0.5
        if e.get("r") is not None:
            e["r"] = ["n", G.r3(e["r"][1] + c)] if e["r"][0] == "n" else unit_sum(e["r"], c)
        else:
            e["l"] = unit_sum(e["l"], c)
    return e


def unit_sum(ast, c):
    """ast * (1 + c/10): keeps units and regularity"""
    return ["*", ["n", round(1 + c / 10, 5)], ast]


class World:
    """The models of a plan, built and used"""

    def __init__(self, plan, ctx, cls):
        self.plan, self.ctx, self.cls = plan, ctx, cls
        self.spec, self.nodes = plan["spec"], plan["nodes"]
        self.m = {}

    def build_sources(self):
        for k in reversed(range(1, len(self.nodes))):
            self.m[k] = self.cls(self.spec, self.nodes[k], self.children(k))
            for op in self.plan["pre"]:
                if op["on"] == k:
                    apply(self.m[k], op)
            if self.nodes[k]["when"] == "decl":
                self.m[k]()

    def children(self, k):
        return [self.m[j] for j in range(len(self.nodes)) if self.nodes[j]["parent"] == k and j in self.m]

    def build_root(self, which):
        node = self.nodes[0] if which == 0 else dict(self.nodes[0], name=self.plan["second"])
        self.m[which] = self.cls(self.spec, node, self.children(0))


def apply(m, op):
    o = op["op"]
    if o == "set":
        getattr(m, op["name"]).setValue(op["value"])
    elif o == "flag":
        m._flags[str(op["eq"])] = not m._flags.get(str(op["eq"]), False)
    elif o == "declare":
        m()
    elif o == "extra":
        m.createEquation("extra", "", getattr(m, op["v"])() * op["c"] - getattr(m, op["v"])())


def twin(plan, cls, which):
    """The same model without any incorporation, with only its own operations"""
    spec, nodes = plan["spec"], plan["nodes"]
    k = 0 if which == "second" else which
    node = dict(nodes[k], name=plan["second"] if which == "second" else nodes[k]["name"], noeq=False)
    values, inner = {}, []
    for j in sorted(subtree(nodes, k) - {k}):
        for what in ("vars", "params", "consts"):
            node[what] = node[what] + nodes[j][what]
        flags = {}
        for op in plan["pre"]:
            if op["on"] == j:
                if op["op"] == "set":
                    values[op["name"]] = op["value"]
                else:
                    flags[str(op["eq"])] = not flags.get(str(op["eq"]), False)
        inner += [variant(spec, q, flags) for q in nodes[j]["eqs"]]
    node["values"], node["inner"] = values, inner
    t = cls(spec, node, [])
    if nodes[k]["noeq"] and nodes[k]["vars"]:
        v = nodes[k]["vars"][0]
        t.createEquation("left behind", "", getattr(t, v)() - getattr(t, v)() * 2.)
    if k:
        for op in plan["pre"]:
            if op["on"] == k:
                apply(t, op)
        if node["when"] == "decl":
            t()
    return t


def see(m, spec):
    out = {"vars": {v.name: quantity(v) for v in m.variables.values()}, "params": {v.name: quantity(v) for v in m.parameters.values()},
           "consts": {v.name: quantity(v) for v in m.constants.values()},
           "keys": [sorted(m.variables), sorted(m.parameters), sorted(m.constants)],
           "exposed": {k: sorted(v.name for v in l) for k, l in m.exposed_vars.items()},
           "attributes": sorted(n for n, q in m.__dict__.items() if not n.startswith("_") and any(q is x for d in (m.variables, m.parameters, m.constants) for x in d.values()))}
    return out


def quantity(q):
    s = see_quantity(q)
    return s[:-1]


def residuals(m, spec, root):
    """Residuals of the equations of a model at fixed points, sorted"""
    sp2 = {"models": [dict(spec["models"][0], name=m.name)]}
    rows = []
    for env in points(sp2, 2):
        rows.append(env)
    out = []
    for e in m.equations.values():
        out.append([digits(value(e.equation_expression.symbolic_object, env), 7) for env in rows] + [e.type])
    return sorted(out)


def session(plan, m):
    spec = copy.deepcopy(plan["spec"])
    if m.name != spec["models"][0]["name"]:
        rename(spec, spec["models"][0]["name"], m.name)
    s = build.Session(spec, "of " + m.name)
    s.built.models[m.name] = m
    if plan["tap"] and m._node["parent"] is None:
        s.tap = tap(plan, m)
    return s


def tap(plan, m):
    Model = build.api()["Model"]
    o = [v for v in plan["spec"]["models"][0]["vars"] if v["n"] == plan["tap"]][0]

    class Tap(Model):
        def __init__(self):
            super().__init__("tapped", "reads an exposed variable")
            self.u = self.createVariable("u", build.unit(o["u"]), "u", is_exposed=True, type="input")
    t = Tap()
    t.ignore_equation_warning = True
    return t


def solve(plan, m, ctx, conf, ops=None):
    """kind, outcome, results of a run of the problem made of a model"""
    s = session(plan, m)
    spec = s.spec
    if spec["tvars"]:
        s.built.domain = s.make_domain(spec["domain"])
    s.declare().make_problem()
    if ops is not None:
        ops.append({"op": "declare"})
    t = getattr(s, "tap", None)
    if t is not None:
        t()
        s.prob.addModels([t, m])
        s.prob.createConnection(m, t, getattr(m, plan["tap"]), t.u)
    else:
        s.add_models()
    s.set_time()
    s.prob.resolve()
    if spec["tvars"]:
        s.set_ics()
        dyn.arm(ctx, None, None)
    c = dict(conf)
    if c.get("@guess") and t is not None:
        c.pop("@guess")
    try:
        s.make_simulation().configure(c)
        kind, out = build.attempt(s.run, show_output_msg=False, show_final_residuals=False)
    finally:
        dyn.disarm()
    return kind, out, s.results() if kind == "ok" else None


def run(plan, ctx):
    spec, nodes = plan["spec"], plan["nodes"]
    from .c02 import usable
    if not usable(spec) or not nodes or len({q for nd in nodes for q in nd["eqs"]}) != len(spec["models"][0]["eqs"]):
        return
    cls = model_class()
    w = World(plan, ctx, cls)
    w.build_sources()
    roots = [0] + (["second"] if plan["second"] else [])
    if plan["threads"] and len(roots) == 2:
        S = sched.Scheduler(ctx, [lambda: w.build_root(0), lambda: w.build_root("second")], plan["threads"], plan.get("switches"))
        out = S.run()
        if not S.explicit:
            plan["switches"] = S.taken
        ctx.fault("preemption", len(S.taken))
        for x in out:
            ctx.check(x is not None and x[0] == "ok", "incorporation-fails-in-thread", lambda: repr(x))
    else:
        for r in roots:
            w.build_root(r)
    own = {k: [] for k in w.m}
    others = 0
    extra_made = []
    for op in plan["post"]:
        k = op["on"]
        if k not in w.m:
            continue
        o = op["op"]
        if o in ("set", "flag", "declare", "extra"):
            if o == "set" and not hasattr(w.m[k], op["name"]):
                continue
            apply(w.m[k], op)
            own[k].append(op)
        elif o == "run":
            if k in (0, "second"):
                solve(plan, w.m[k], ctx, plan["conf"], own[k])
            else:
                kind, out = build.attempt(solve, plan, w.m[k], ctx, plan["conf"], own[k])
                ctx.probe("source_run_" + kind)
        elif o == "again":
            kind, x = build.attempt(cls, spec, {"name": "other", "parent": None, "vars": [], "params": [], "consts": [], "eqs": [], "when": "decl", "noeq": False, "two": False}, [w.m[k]])
            ctx.check(kind == "ok", "incorporating-again-fails", lambda: "%s: %r" % (w.m[k].name, x))
            extra_made.append((k, x))
            for p in list(x.parameters.values())[:2]:
                p.setValue(77.0)
            for v in list(x.variables.values())[:2]:
                v.lower_bound = 5.0
            x.exposed_vars["input"].append("mine")
        elif o == "borrow":
            src = w.m[k]
            x = build.api()["Model"]("borrower", "takes the objects under their own names")
            kind, got = build.attempt(x.incorporateFromExternalModel, src, incorporate_equations=False, rewrite_name=False)
            ctx.check(kind == "ok", "incorporating-again-fails", lambda: "%s under its own names: %r" % (src.name, got))
            for n in ("variables", "parameters", "constants"):
                a, b = getattr(src, n), getattr(x, n)
                ctx.check({q: [quantity(o)[1], quantity(o)[2], quantity(o)[3]] for q, o in a.items()} == {q: [quantity(o)[1], quantity(o)[2], quantity(o)[3]] for q, o in b.items()},
                          "objects-differ", lambda: "%s %s, borrowed as %s" % (n, sorted(a), sorted(b)))
                for o in list(b.values())[:3]:
                    if n == "variables":
                        o.upper_bound = 5.0
                    else:
                        o.setValue(77.0)
            extra_made.append((k, x))
        elif o == "cut":
            def f():
                cls(spec, {"name": "cut", "parent": None, "vars": [], "params": [], "consts": [], "eqs": [], "when": "decl", "noeq": False, "two": False}, [w.m[k]])
            at = sched.pick_point(f, op)
            if at is not None:
                I = sched.interrupt_at(at, op["kind"], ctx)
                try:
                    with I:
                        f()
                except Exception:
                    if not I.fired:
                        raise
                except (SimInterrupt, SimNoMemory):
                    pass
                ctx.ev("cut", k, I.fired)
        elif o == "poke":
            m = w.m[k]
            for e in m.equations.values():
                repr(e()), str(e())
                build.attempt(e.getResidual)
            build.soft(m, "_getModelOverviewForGraph")
            m._infoModelReport_()
            build.soft(m, "_infoDegreesOfFreedom_")
        if k != 0:
            others += 1
        ctx.ev(o, k)
    for k, m in w.m.items():
        t = twin(plan, cls, k)
        for op in own[k]:
            apply(t, op)
        if k in (0, "second"):
            t()
            m()
        a, b = see(m, spec), see(t, spec)
        ctx.check(a == b, "objects-differ", lambda: "model %s (%s) and its twin: %s" % (m.name, k, diff(b, a)))
        ra, rb = residuals(m, spec, k), residuals(t, spec, k)
        ctx.check(ra == rb, "equations-differ", lambda: "model %s: %s; its twin: %s" % (m.name, {n: str(e.equation_expression.symbolic_object) for n, e in m.equations.items()},
                                                                                      {n: str(e.equation_expression.symbolic_object) for n, e in t.equations.items()}))
        ctx.ev("compared", k, len(ra))
        ctx.probe("models_compared")
        if k in (0, "second"):
            k1, o1, r1 = solve(plan, m, ctx, plan["conf"])
            k2, o2, r2 = solve(plan, t, ctx, plan["conf"])
            if k1 != k2:
                from src.sloth.core.error_definitions import NumericalError
                e = o1 if k1 == "err" else o2
                if isinstance(e, NumericalError) and spec["kind"] in ("linear", "nonlinear"):
                    ctx.probe("iterative_solver_gave_up_once")
                    continue
                ctx.fail("run-differs", "incorporating: %s %r; declaring: %s %r" % (k1, o1, k2, o2))
            if k1 == "err":
                ctx.probe("both_refused")
                ctx.check(type(o1) is type(o2), "error-differs", lambda: "%r / %r" % (o1, o2))
                continue
            ctx.check(build.same_results(r1, r2, 1e-4, 1e-5), "results-differ", lambda: "incorporating: %s; declaring: %s" % (r1, r2))
            absolute(plan, ctx, m, r1, own[k])
            ctx.ev("result", digits(r1, 3))
            ctx.probe("runs_compared")
            ctx.nontrivial = ctx.nontrivial or others >= 2
    ctx.state(spec["kind"], [[nd["parent"], len(nd["eqs"]), nd["when"], nd["noeq"], nd["two"]] for nd in nodes], [[op["op"], op["on"]] for op in plan["post"]])


def absolute(plan, ctx, m, res, ops):
    """Against the reference, when no operation made the equations of different times differ"""
    if ops and any(o["op"] != "declare" for o in ops) or plan["pre"]:
        return
    spec = copy.deepcopy(plan["spec"])
    if m.name != spec["models"][0]["name"]:
        rename(spec, spec["models"][0]["name"], m.name)
    pv = G.values_of(spec)
    if spec["tvars"]:
        from .c03 import columns
        build.check_rows(ctx, spec, pv, plan["conf"], res, 0, len(res["rows"]), spec["ics"], cols=columns(spec, plan["conf"]))
        ctx.simtime += res["rows"][-1][0] - res["rows"][0][0]
    else:
        if plan["tap"]:
            res = dict(res)
            u = res.pop("u_tapped", None)
            x = res.get(G.full(m.name, plan["tap"]))
            ctx.check(u is not None and abs(u - x) <= 1e-4 * (1 + abs(x)), "exposed-variable-not-connected", lambda: repr(res))
        build.check_algebraic(ctx, spec, pv, res)
    ctx.probe("reference_checked")
