"""Turns specifications into public API calls on capybara and its outcomes into plain data."""
import io
import contextlib

import numpy as np

from .core import Violation
from . import gen
from .seams import SIM

_api = {}


def api():
    if not _api:
        from src.sloth.model import Model
        from src.sloth.problem import Problem
        from src.sloth.simulation import Simulation
        from src.sloth.optimization import Optimization, OptimizationProblem
        from src.sloth.core.domain import Domain
        from src.sloth.core.unit import Unit
        import src.sloth.core.template_units as tu
        import src.sloth.core.equation_operators as ops
        from src.sloth.core.error_definitions import NumericalError
        import src.sloth.core.error_definitions as errs
        _api.update(Model=Model, Problem=Problem, Simulation=Simulation, Optimization=Optimization,
                    OptimizationProblem=OptimizationProblem, Domain=Domain, Unit=Unit, tu=tu, ops=ops,
                    NumericalError=NumericalError, errs=errs)
    return _api


def unit(u):
    a = api()
    if not u:
        return a["tu"].dimless
    out = None
    for b, e in u.items():
        x = getattr(a["tu"], b)
        if e != 1:
            x = x ** e
        out = x if out is None else out * x
    return out


def expr(ast, get):
    """AST -> EquationNode (or float) through the public operators"""
    ops = api()["ops"]
    k = ast[0]
    if k == "n":
        return ast[1]
    if k in ("v", "p", "c"):
        return get(None, k, ast[1])()
    if k == "x":
        return get(ast[1], ast[2], ast[3])()
    if k == "d":
        return get(None, "d", ast[1])
    if k == "neg":
        return expr(ast[1], get) * -1
    if k == "f":
        f = {"sin": ops.Sin, "cos": ops.Cos, "exp": ops.Exp, "tan": ops.Tan, "log": ops.Log, "sqrt": ops.Sqrt,
             "abs": ops.Abs, "log10": ops.Log10}[ast[1]]
        return f(expr(ast[2], get))
    if k == "min":
        return ops.Min(*[expr(a, get) for a in ast[1:]])
    if k == "max":
        return ops.Max(*[expr(a, get) for a in ast[1:]])
    a = expr(ast[1], get)
    if k == "^":
        return a ** ast[2]
    b = expr(ast[2], get)
    if k == "+":
        return a + b
    if k == "-":
        return a - b
    if k == "*":
        return a * b
    if k == "/":
        return a / b
    raise AssertionError(k)


def has_nodes(ast):
    return any(a[0] in ("v", "p", "c", "x", "d") for a in gen.walk(ast))


class Built:
    """The user's side of a session: its models by name and the flags its conditional declarations read"""

    def __init__(self):
        self.models = {}
        self.flags = {}
        self.domain = None

    def get(self, own):
        def g(model, kind, name):
            m = own if model is None else self.models[model]
            if kind == "d":
                tm, tn = m._spec["tref"]
                return getattr(m, m._at(name)).Diff(getattr(self.models[tm], self.models[tm]._at(tn)))
            return getattr(m, m._at(name))
        return g


def model_class():
    Model = api()["Model"]

    class SpecModel(Model):
        """A user's model: objects in the constructor (or in the Declare methods), equations in DeclareEquations"""

        def __init__(self, spec, built):
            super().__init__(spec["name"], spec.get("desc", ""))
            self._spec = spec
            self._built = built
            self._hook = None
            if spec["where"] == "init":
                self._mk("vars")
                self._mk("consts")
                self._mk("params")

        def _at(self, n):
            return "o_" + n if self._spec["where"] != "inc" else n

        def _mk(self, what):
            for o in self._spec[what]:
                u = unit(o["u"])
                if what == "vars":
                    kw = {}
                    if o.get("exposed"):
                        kw = dict(is_exposed=True, type=o["exposed"])
                    q = self.createVariable(o["n"], u, "variable " + o["n"], **kw)
                elif what == "params":
                    q = self.createParameter(o["n"], u, "parameter " + o["n"])
                else:
                    q = self.createConstant(o["n"], u, "constant " + o["n"])
                if what != "vars" and o["v"] is not None:
                    q.setValue(o["v"])
                setattr(self, self._at(o["n"]), q)

        def DeclareVariables(self):
            if self._spec["where"] == "declare":
                self._mk("vars")

        def DeclareParameters(self):
            if self._spec["where"] == "declare":
                self._mk("params")

        def DeclareConstants(self):
            if self._spec["where"] == "declare":
                self._mk("consts")

        def DeclareEquations(self):
            get = self._built.get(self)
            for k, e in enumerate(self._spec["eqs"]):
                if not gen.active(e, self._built.flags):
                    continue
                if self._hook is not None:
                    self._hook(self, k)
                make_equation(self, e, get)
    return SpecModel


def make_equation(model, e, get):
    l, r = e["l"], e.get("r")
    left = expr(l, get)
    if r is None:
        x = left
    else:
        x = left == expr(r, get)
    kw = {}
    if e.get("nocheck"):
        kw["check_equation"] = False
    return model.createEquation(e["n"] or "", e.get("desc", ""), x, **kw)


class Quiet(io.StringIO):
    def write(self, s):
        return len(s)


class Session:
    """Models, problem and simulation of one user, built from a specification"""

    def __init__(self, spec, name="s", capture=False):
        self.spec = spec
        self.name = name
        self.built = Built()
        self.prob = None
        self.sim = None
        self.conf = None
        self.guess_obj = None

    # ---- construction steps, each one a public operation
    def build_models(self):
        cls = model_class()
        for m in self.spec["models"]:
            self.built.models[m["name"]] = cls(m, self.built)
        d = self.spec.get("domain")
        if d:
            tm, tn = d["t"]
            self.built.domain = self.make_domain(d)
        return self

    def make_domain(self, d, name=None):
        tm, tn = d["t"]
        dom = api()["Domain"](name or d["n"], unit(d["u"]), self.obj(tm, tn), "domain of the session")
        for mn, vn in d["order"]:
            self.obj(mn, vn).distributeOnDomain(dom)
        return dom

    def obj(self, model, name):
        m = self.built.models[model]
        return getattr(m, m._at(name))

    def fullobj(self, fullname):
        for m in self.spec["models"]:
            for k in ("vars", "params", "consts"):
                for o in m[k]:
                    if gen.full(m["name"], o["n"]) == fullname:
                        return self.obj(m["name"], o["n"])
        raise KeyError(fullname)

    def declare(self):
        for m in self.spec["models"]:
            self.built.models[m["name"]]()
        return self

    def make_problem(self):
        a = api()
        self.prob = a["Problem"]("problem " + self.name, "generated")
        return self

    def add_models(self):
        order = [self.built.models[n] for n in self.spec["order"]]
        if self.spec.get("add_one_by_one"):
            for m in order:
                self.prob.addModels(m)
        else:
            self.prob.addModels(order)
        return self

    def connect(self):
        for c in self.spec.get("conns", []):
            self.connect_one(c)
        return self

    def connect_one(self, c, prob=None):
        prob = prob or self.prob
        get = self.built.get(None)
        m1, m2 = self.built.models[c["m1"]], self.built.models[c["m2"]]
        if c["mode"] == "vars":
            outs = [self.obj(c["m1"], v) for v in c["outs"]]
            ins = [self.obj(c["m2"], v) for v in c["ins"]]
            if len(outs) == 1 and not c.get("lists"):
                outs = outs[0]
            if len(ins) == 1 and not c.get("lists"):
                ins = ins[0]
            kw = {}
            if c.get("expr") is not None:
                kw["expr"] = expr(c["expr"], get)
            prob.createConnection(m1, m2, outs, ins, **kw)
        elif c["mode"] == "expr_model":
            prob.createConnection(m1, m2, expr(c["out"], get), expr(c["in"], get))
        else:
            prob.createConnection(c["label"], m2, expr(c["out"], get), expr(c["in"], get))

    def set_ics(self, ics=None):
        ics = dict(self.spec["ics"] if ics is None else ics)
        self.prob.setInitialConditions(ics)
        return self

    def make_simulation(self, cls=None):
        self.sim = (cls or api()["Simulation"])("sim " + self.name, "generated")
        self.sim.setProblem(self.prob)
        return self

    def kwargs(self, conf):
        """setConfigurations arguments of a plain configuration"""
        kw = {k: (list(v) if isinstance(v, list) else v) for k, v in conf.items()
              if not k.startswith("@") and k != "guess_values"}
        spec = self.spec
        if conf.get("@domain"):
            kw["domain"] = self.built.domain
        if conf.get("@guess"):
            names = sorted(gen.unknowns(spec, self.built.flags))
            kw["initial_guess"] = {n: conf["guess_values"][i % len(conf["guess_values"])] for i, n in enumerate(names)}
        if conf.get("@headers"):
            kw["output_headers"] = ["time"] + ["h%d" % i for i in range(len(spec["domain"]["order"]))]
        if conf.get("@tname"):
            kw["time_variable_name"] = spec["tvars"][0] if conf["@tname"] == "str" and len(spec["tvars"]) == 1 else list(spec["tvars"])
        if conf.get("@rename"):
            kw["variable_name_map"] = self.rename_map(conf["@rename"])
        return kw

    def rename_map(self, mode):
        cols = domain_columns(self.spec)
        if mode == "time":
            cols = cols[:1]
        elif mode == "some":
            cols = cols[::2]
        return {c: "<%s>" % c for c in cols}

    def configure(self, conf):
        self.conf = conf
        kw = self.kwargs(conf)
        if conf.get("@dict"):
            if self.spec["tvars"]:
                kw.setdefault("time_variable_name", list(self.spec["tvars"]))
            kw = {"definition_dict": kw}
        self.sim.setConfigurations(**kw)
        return self

    def set_time(self):
        if self.spec["tvars"]:
            t = self.spec["tvars"]
            self.prob.setTimeVariableName(t[0] if self.spec.get("time_str") else list(t))
        return self

    def setup(self, conf):
        """The whole upstream idiom up to (excluding) the run"""
        self.build_models().declare().make_problem().add_models().connect().set_time()
        self.prob.resolve()
        if self.spec["tvars"]:
            self.set_ics()
        self.make_simulation().configure(conf)
        return self

    def run(self, **kw):
        self.sim.runSimulation(**kw)

    # ---- outcomes
    def results(self):
        """Algebraic: {name: float}. Dynamic: {"cols": [...], "rows": [[...]]} of the domain."""
        if self.spec["kind"] in ("linear", "nonlinear"):
            d = self.sim.getResults("dict")
            out = {}
            for k, v in d.items():
                try:
                    out[str(k)] = float(v)
                except (TypeError, ValueError):
                    raise Violation("result-not-real", "%s = %r" % (k, v))
            return out
        return table(self.built.domain)


def domain_columns(spec):
    d = spec["domain"]
    return [gen.full(*d["t"])] + [gen.full(m, v) for m, v in d["order"]]


def table(dom):
    """Columns and rows of a domain as plain data"""
    vals = dom.values
    if vals is None:
        return {"cols": None, "rows": []}
    key = list(dom.independent_vars.keys())[-1]
    df = vals[key]
    return {"cols": [str(c) for c in df.columns], "rows": [[float(x) for x in row] for row in df.values.tolist()]}


def requested_times(conf):
    if conf.get("times_for_solution") is not None:
        return [float(t) for t in conf["times_for_solution"]]
    n = conf.get("number_of_time_steps", 100)
    return [float(t) for t in np.linspace(conf.get("initial_time", 0.0), conf["end_time"], n + 1)]


@contextlib.contextmanager
def quiet():
    q = Quiet()
    with contextlib.redirect_stdout(q):
        yield


def printed(f, *a):
    import contextlib
    o = io.StringIO()
    with contextlib.redirect_stdout(o):
        f(*a)
    return o.getvalue()


def soft(o, name, *a):
    """Call a reporting helper that is not part of the public interface, where it exists"""
    f = getattr(o, name, None)
    return f(*a) if f is not None else None


def attempt(f, *a, **kw):
    """(\"ok\", value) or (\"err\", exception)"""
    try:
        return ("ok", f(*a, **kw))
    except Violation:
        raise
    except Exception as e:
        return ("err", e)


def same_table(t1, t2, rel=1e-6, abs_=1e-8):
    if t1["cols"] != t2["cols"] or len(t1["rows"]) != len(t2["rows"]):
        return False
    a, b = np.array(t1["rows"], dtype=float), np.array(t2["rows"], dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.abs(a - b) <= abs_ + rel * np.maximum(np.abs(a), np.abs(b)))) if a.size else True


def same_results(r1, r2, rel=1e-6, abs_=1e-8):
    if "cols" in r1 and "rows" in r1:
        return same_table(r1, r2, rel, abs_)
    if set(r1) != set(r2):
        return False
    from .core import close
    return all(close(r1[k], r2[k], rel, abs_) for k in r1)


# ---------------------------------------------------------------- generic oracles

def check_algebraic(ctx, spec, pvals, results, flags=None, tol=1e-4, prefix=""):
    """Every equation of the system holds at the published values"""
    names = gen.unknowns(spec, flags)
    ctx.check(set(results) == set(names), prefix + "wrong-variables",
              lambda: "published %s, unknowns are %s" % (sorted(results), sorted(names)))
    import math
    for n in names:
        ctx.check(math.isfinite(results[n]), prefix + "result-not-finite", "%s = %r" % (n, results[n]))
    env = dict(pvals)
    env.update(results)
    for mn, e in gen.all_equations(spec, flags):
        try:
            r = gen.residual(e, env, mn)
            s = gen.scale(e, env, mn)
        except (ValueError, ZeroDivisionError, OverflowError) as x:
            ctx.fail(prefix + "equation-undefined", "%s of %s at %s: %s" % (e.get("n"), mn, results, x))
        ctx.check(abs(r) <= tol * s, prefix + "equation-violated",
                  lambda: "%s of %s has residual %g at %s" % (e.get("n") or "equation", mn, r, results))


def check_rows(ctx, spec, pvals, conf, tab, start, n, ics, cols=None, flags=None, tol=2e-4, prefix=""):
    """rows start..start+n of a table are the solution at the requested times"""
    times = requested_times(conf)
    want_cols = cols or domain_columns(spec)
    ctx.check(tab["cols"] == want_cols, prefix + "wrong-columns", lambda: "%s instead of %s" % (tab["cols"], want_cols))
    ctx.check(n == len(times), prefix + "wrong-number-of-rows", lambda: "%d rows for %d requested times" % (n, len(times)))
    ref = gen.trajectory(spec, pvals, ics, times, flags)
    order = domain_columns(spec)[1:]
    for k, t in enumerate(times):
        row = tab["rows"][start + k]
        ctx.check(len(row) == len(order) + 1, prefix + "wrong-row-length", repr(row))
        ctx.check(abs(row[0] - t) <= 1e-9 * max(1, abs(t)), prefix + "wrong-time", lambda: "row %d is at %r, not %r" % (k, row[0], t))
        for j, name in enumerate(order):
            w = ref[name][k]
            ctx.check(abs(row[j + 1] - w) <= tol * max(1.0, abs(w)), prefix + "wrong-value",
                      lambda: "%s at t=%g is %r, the declared system gives %r" % (name, t, row[j + 1], w))
