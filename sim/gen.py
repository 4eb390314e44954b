"""Generator of model specifications (plain JSON), the reference semantics of them, and reference solutions.

A specification is written down twice: once as public API calls on capybara (build.py), once as the plain
functions of this module.  Expressions are nested lists:
  ["n", x] number, ["v"|"p"|"c", name] own variable/parameter/constant, ["x", model, kind, name] one of another model,
  ["+","-","*","/", a, b], ["^", a, number], ["f", fname, a], ["d", name] time derivative, ["neg", a]
"""
import math

import numpy as np

FUNCS = {"sin": math.sin, "cos": math.cos, "exp": math.exp, "tan": math.tan, "log": math.log, "sqrt": math.sqrt,
         "abs": abs, "log10": math.log10}


def r3(x):
    return round(float(x), 3)


class Free(float):
    """The value of a parameter that may take any value, zero included, without making its system ill-posed"""


def free_value(rng):
    return rng.choice([0, 0.0, 0.0, 1, -2, 3, -1.0, 2.0, r3(rng.uniform(-2, 2)), r3(rng.uniform(-2, 2)), 1e-7])


def full(model, name):
    return name + "_" + model


# ------------------------------------------------------------------ evaluation

def ev(ast, env, model):
    k = ast[0]
    if k == "n":
        return float(ast[1])
    if k in ("v", "p", "c"):
        return env[full(model, ast[1])]
    if k == "x":
        return env[full(ast[1], ast[3])]
    if k == "d":
        return env["d:" + full(model, ast[1])]
    if k == "neg":
        return -ev(ast[1], env, model)
    if k == "f":
        return FUNCS[ast[1]](ev(ast[2], env, model))
    if k == "min":
        return min(ev(a, env, model) for a in ast[1:])
    if k == "max":
        return max(ev(a, env, model) for a in ast[1:])
    if k == "^":
        return ev(ast[1], env, model) ** ast[2]
    a = ev(ast[1], env, model)
    b = ev(ast[2], env, model)
    if k == "+":
        return a + b
    if k == "-":
        return a - b
    if k == "*":
        return a * b
    if k == "/":
        return a / b
    raise AssertionError(k)


def terms(ast, env, model):
    """Magnitudes of the top-level additive terms"""
    if ast[0] in ("+", "-"):
        return terms(ast[1], env, model) + terms(ast[2], env, model)
    if ast[0] == "neg":
        return terms(ast[1], env, model)
    return [abs(ev(ast, env, model))]


def eq_ast(eq):
    """(lhs, rhs or None)"""
    return eq["l"], eq.get("r")


def residual(eq, env, model):
    l, r = eq_ast(eq)
    return ev(l, env, model) - (ev(r, env, model) if r is not None else 0.0)


def scale(eq, env, model):
    l, r = eq_ast(eq)
    return max([1.0] + terms(l, env, model) + (terms(r, env, model) if r is not None else []))


def bounded(rng, a, smooth=False):
    """A function of the dimensionless a with a slope of at most one"""
    r = rng.random()
    if r < 0.5:
        return ["f", rng.choice(["sin", "cos"]), a]
    sq = ["^", a, 2]
    fs = [["f", "log", ["+", sq, ["n", 1.5]]], ["f", "log10", ["+", sq, ["n", 2.0]]], ["f", "sqrt", ["+", sq, ["n", 1.0]]],
          ["f", "exp", ["*", ["n", -1.0], sq]], ["^", ["+", sq, ["n", 1.0]], -0.5], ["/", ["n", 1.0], ["+", ["n", 1.0], sq]],
          ["f", "tan", ["*", ["n", 0.6], ["f", "sin", a]]], ["^", ["+", ["f", "cos", a], ["n", 2.0]], 0.5]]
    if not smooth:
        s = ["+", ["f", "sin", a], ["n", 1.5]]
        fs += [["f", "abs", s], ["max", s, ["n", 0.25]], ["min", ["n", 3.0], s], ["max", ["neg", s], s], ["f", "abs", ["neg", s]]]
    return rng.choice(fs)


def walk(ast):
    yield ast
    for a in ast[1:]:
        if isinstance(a, list):
            yield from walk(a)


def mentions(ast, model, kinds=("v",)):
    out = []
    for a in walk(ast):
        if a[0] in kinds:
            n = full(model, a[1])
        elif a[0] == "x" and a[2] in kinds:
            n = full(a[1], a[3])
        elif a[0] == "d" and "v" in kinds:
            n = full(model, a[1])
        else:
            continue
        if n not in out:
            out.append(n)
    return out


# ------------------------------------------------------------------ system views

def active(eq, flags):
    c = eq.get("if")
    return c is None or bool(flags.get(c.lstrip("!"), False)) != c.startswith("!")


def all_equations(spec, flags=None):
    """[(model name, equation)] of the whole system: declared ones and connections"""
    flags = flags or {}
    out = []
    for m in spec["models"]:
        for e in m["eqs"]:
            if active(e, flags):
                out.append((m["name"], e))
    for c in spec.get("conns", []):
        out.append((c["m2"], conn_equation(c)))
    return out


def conn_equation(c):
    if c["mode"] == "vars" and c.get("expr") is None:
        ins = [["x", c["m2"], "v", v] for v in c["ins"]]
        outs = [["x", c["m1"], "v", v] for v in c["outs"]]
        l = ins[0]
        for a in ins[1:]:
            l = ["+", l, a]
        for a in outs:
            l = ["-", l, a]
        return {"n": None, "l": l}
    if c["mode"] == "vars":
        return {"n": None, "l": c["expr"]}
    return {"n": None, "l": ["-", c["in"], c["out"]]}


def values_of(spec, overrides=None):
    """name -> value of every specified parameter and constant"""
    env = {}
    for m in spec["models"]:
        for k in ("params", "consts"):
            for p in m[k]:
                if p["v"] is not None:
                    env[full(m["name"], p["n"])] = float(p["v"])
    env.update(overrides or {})
    return env


def unknowns(spec, flags=None):
    out = []
    for mn, e in all_equations(spec, flags):
        for side in (e["l"], e.get("r")):
            if side is not None:
                for n in mentions(side, mn):
                    if n not in out:
                        out.append(n)
    return out


def free_symbols_outside_d(spec, flags=None):
    out = set()
    for mn, e in all_equations(spec, flags):
        for side in (e["l"], e.get("r")):
            if side is None:
                continue
            for a in walk(side):
                if a[0] == "v":
                    out.add(full(mn, a[1]))
                elif a[0] == "x" and a[2] == "v":
                    out.add(full(a[1], a[3]))
    return out


# ------------------------------------------------------------------ reference solutions

def residuals(spec, pvals, x, names, flags=None):
    env = dict(pvals)
    env.update(zip(names, x))
    return np.array([residual(e, env, mn) for mn, e in all_equations(spec, flags)])


def solve_linear(spec, pvals, flags=None):
    names = unknowns(spec, flags)
    n = len(names)
    r0 = residuals(spec, pvals, [0.0] * n, names, flags)
    A = np.empty((len(r0), n))
    for j in range(n):
        e = [0.0] * n
        e[j] = 1.0
        A[:, j] = residuals(spec, pvals, e, names, flags) - r0
    x = np.linalg.solve(A, -r0)
    return dict(zip(names, map(float, x)))


def solve_nonlinear(spec, pvals, guess=1.0, flags=None):
    """Newton on the reference residuals; None when it does not converge"""
    names = unknowns(spec, flags)
    x = np.array([float(guess)] * len(names))
    try:
        f = residuals(spec, pvals, x, names, flags)
        for _ in range(200):
            nf = np.max(np.abs(f))
            if nf < 1e-12:
                break
            J = np.empty((len(f), len(x)))
            for j in range(len(x)):
                h = 1e-7 * max(1.0, abs(x[j]))
                xp = x.copy()
                xp[j] += h
                J[:, j] = (residuals(spec, pvals, xp, names, flags) - f) / h
            dx = np.linalg.solve(J, -f)
            lam = 1.0
            for _k in range(30):
                fn = residuals(spec, pvals, x + lam * dx, names, flags)
                if np.max(np.abs(fn)) < nf:
                    break
                lam *= 0.5
            else:
                break
            x = x + lam * dx
            f = fn
        if np.max(np.abs(f)) > 1e-8:
            return None
    except (ValueError, OverflowError, ZeroDivisionError, np.linalg.LinAlgError):
        return None
    return dict(zip(names, map(float, x)))


def solution(spec, pvals, flags=None):
    if spec["kind"] == "linear":
        return solve_linear(spec, pvals, flags)
    return solve_nonlinear(spec, pvals, flags=flags)


def ode_parts(spec, flags=None):
    """differential variables in equation order with their right-hand sides; algebraic equations"""
    diff, alg = [], []
    for mn, e in all_equations(spec, flags):
        if "ode" in e:
            diff.append((full(mn, e["ode"]), mn, e))
        else:
            alg.append((mn, e))
    return diff, alg


def ode_rhs(spec, pvals, flags=None):
    """names, f(t, y) of an explicit system (dependent variables in equation order)"""
    diff, alg = ode_parts(spec, flags)
    assert not alg
    names = [d[0] for d in diff]
    tn = spec["tvars"]

    def f(t, y):
        env = dict(pvals)
        for tv in tn:
            env[tv] = t
        env.update(zip(names, y))
        if spec.get("unsolved"):
            return derivatives(diff, names, env)
        return np.array([ev(e["r"], env, mn) for _, mn, e in diff])
    return names, f


def derivatives(diff, dn, env):
    """The derivatives that satisfy differential equations with several derivatives each, or nonlinear in them"""
    def F(ud):
        env2 = dict(env)
        env2.update(("d:" + n, v) for n, v in zip(dn, ud))
        return np.array([residual(e, env2, mn) for _, mn, e in diff])
    x = np.zeros(len(dn))
    fx = F(x)
    for _ in range(50):
        J = np.empty((len(dn), len(dn)))
        for j in range(len(dn)):
            h = 1e-6 * max(1.0, abs(x[j]))
            xp = x.copy()
            xp[j] += h
            J[:, j] = (F(xp) - fx) / h
        step = np.linalg.solve(J, -fx)
        x = x + step
        fx = F(x)
        if np.max(np.abs(step)) <= 1e-10 * max(1.0, np.max(np.abs(x))):
            break
    return x


def dae_functions(spec, pvals, flags=None):
    """names of differential and algebraic variables, f(t,u)->(du, z)"""
    diff, alg = ode_parts(spec, flags)
    dn = [d[0] for d in diff]
    an = [n for n in unknowns(spec, flags) if n not in dn and n not in spec["tvars"]]
    implicit = any(e.get("implicit") for _, _, e in diff)

    def z_of(t, u, z0):
        env = dict(pvals)
        for tv in spec["tvars"]:
            env[tv] = t
        env.update(zip(dn, u))

        def g(z):
            env.update(zip(an, z))
            return np.array([residual(e, env, mn) for mn, e in alg])
        z = np.array(z0, dtype=float)
        gz = g(z)
        for _ in range(100):
            if np.max(np.abs(gz)) < 1e-13:
                break
            J = np.empty((len(an), len(an)))
            for j in range(len(an)):
                h = 1e-7 * max(1.0, abs(z[j]))
                zp = z.copy()
                zp[j] += h
                J[:, j] = (g(zp) - gz) / h
            z = z + np.linalg.solve(J, -gz)
            gz = g(z)
        return z

    def f(t, u, z0):
        z = z_of(t, u, z0)
        env = dict(pvals)
        for tv in spec["tvars"]:
            env[tv] = t
        env.update(zip(dn, u))
        env.update(zip(an, z))
        if implicit:
            return derivatives(diff, dn, env), z
        du = []
        for name, mn, e in diff:
            env2 = dict(env)
            # F is affine in the derivative: F = a*ud + b
            env2["d:" + name] = 0.0
            b = residual(e, env2, mn)
            env2["d:" + name] = 1.0
            a = residual(e, env2, mn) - b
            du.append(-b / a)
        return np.array(du), z
    return dn, an, f


_traj_cache = {}


def trajectory(spec, pvals, ics, times, flags=None):
    """{variable: array over times} of the declared initial value problem"""
    from scipy.integrate import solve_ivp
    times = np.array(times, dtype=float)
    if spec["kind"] == "ode":
        names, f = ode_rhs(spec, pvals, flags)
        y0 = np.array([float(ics[n]) for n in names])
        Y = _ivp(f, times, y0)
        return dict(zip(names, Y))
    dn, an, f = dae_functions(spec, pvals, flags)
    last = [np.array([float(ics.get(n, 0.0)) for n in an])]

    def g(t, u):
        du, z = f(t, u, last[0])
        last[0] = z
        return du
    y0 = np.array([float(ics[n]) for n in dn])
    Y = _ivp(g, times, y0)
    Z = []
    z = np.array([float(ics.get(n, 0.0)) for n in an])
    for k, t in enumerate(times):
        _, z = f(t, Y[:, k], z)
        Z.append(z)
    out = dict(zip(dn, Y))
    out.update(zip(an, np.array(Z).T))
    return out


def _ivp(f, times, y0):
    from scipy.integrate import solve_ivp
    Y = np.empty((len(y0), len(times)))
    Y[:, 0] = y0
    if len(times) > 1:
        later, at = np.unique(times[1:], return_inverse=True)
        s = solve_ivp(f, (times[0], times[-1]), y0, method="DOP853", t_eval=later, rtol=1e-9, atol=1e-11)
        assert s.status == 0
        Y[:, 1:] = s.y[:, at]
    return Y


# ------------------------------------------------------------------ generation

BASES = ["m", "kg", "s", "A", "K", "mol", "cd"]


def rand_unit(rng):
    if rng.random() < 0.3:
        return {}
    u = {}
    for b in rng.sample(BASES, rng.randint(1, 2)):
        u[b] = rng.choice([1, 1, 2, -1])
    return u


def udiv(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) - v
    return {k: v for k, v in out.items() if v}


def umul(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + v
    return {k: v for k, v in out.items() if v}


class Namer:
    """Local object names; some are prefixes or suffixes of others, or look like names of sympy objects"""

    POOL = ["x", "y", "z", "w", "x1", "x10", "x11", "a", "ab", "b", "c", "T", "P", "rho", "mdot", "v", "u", "q", "k", "h",
            "Vol", "tau", "yd", "y1", "s1", "p", "n", "g", "r", "ta", "at", "t1", "eps", "Q1", "Cp", "F", "L", "dx"]

    def __init__(self, rng):
        self.rng = rng
        self.used = set()

    def __call__(self, prefer=None):
        for _ in range(50):
            n = prefer or self.rng.choice(self.POOL)
            prefer = None
            if n not in self.used:
                self.used.add(n)
                return n
        i = 0
        while "v%d" % i in self.used:
            i += 1
        self.used.add("v%d" % i)
        return "v%d" % i


MODEL_NAMES = ["M0", "M1", "A", "B", "AB", "D0", "D", "R1", "R10", "tank", "mix", "X"]


class MGen:
    """One model under construction"""

    def __init__(self, rng, name, units):
        self.rng = rng
        self.name = name
        self.units = units          # bool
        self.namer = Namer(rng)
        self.vars, self.params, self.consts, self.eqs = [], [], [], []

    def var(self, unit=None, **kw):
        u = unit if unit is not None else (rand_unit(self.rng) if self.units else {})
        n = self.namer()
        self.vars.append(dict({"n": n, "u": u}, **kw))
        return n, u

    def coef(self, value, unit, allow_number):
        """An expression of the given value and unit: number (only when dimensionless is fine), parameter or constant"""
        r = self.rng.random()
        if allow_number and r < 0.45:
            return ["n", value]
        if r < 0.75:
            n = self.namer()
            self.params.append({"n": n, "u": unit, "v": value})
            return ["p", n]
        n = self.namer()
        self.consts.append({"n": n, "u": unit, "v": value})
        return ["c", n]

    def free(self, unit):
        """A parameter or constant that is only added somewhere"""
        n = self.namer()
        where = self.params if self.rng.random() < 0.8 else self.consts
        where.append({"n": n, "u": unit, "v": free_value(self.rng), "free": True})
        return ["p" if where is self.params else "c", n]

    def spec(self):
        return {"name": self.name, "vars": self.vars, "params": self.params, "consts": self.consts, "eqs": self.eqs,
                "where": "init", "desc": "model " + self.name}


def term(rng, mg, coef, var_ast, uvar, ueq):
    """coef * var with unit ueq"""
    cu = udiv(ueq, uvar)
    free = not cu
    style = rng.random()
    if free and abs(coef) == 1.0 and style < 0.5:
        return var_ast if coef > 0 else ["neg1", var_ast]
    c = mg.coef(coef, cu, free)
    if style < 0.2 and abs(coef) > 0.05:
        inv = mg.coef(r3(1.0 / coef), udiv({}, cu), free)
        return ["/", var_ast, inv]
    if style < 0.6:
        return ["*", c, var_ast]
    return ["*", var_ast, c]


def fixneg(a):
    if not isinstance(a, list):
        return a
    if a[0] == "neg1":
        return ["*", ["n", -1.0], fixneg(a[1])]
    return [fixneg(b) for b in a]


def sum_ast(rng, parts):
    out = parts[0]
    for p in parts[1:]:
        out = ["+", out, p]
    return out


def finish_eq(rng, mg, name, parts, bval, ueq, lin=True):
    """parts sum to b: written as residual, as tuple, as tuple with a number, or split over both sides"""
    b = mg.coef(r3(bval), ueq, rng.random() < 0.7)
    if rng.random() < 0.3:
        parts = parts + [mg.free(ueq)]
        if rng.random() < 0.5:
            rng.shuffle(parts)
    style = rng.random()
    parts = [fixneg(p) for p in parts]
    if style < 0.35:
        return {"n": name, "l": ["-", sum_ast(rng, parts), b]}
    if style < 0.55:
        return {"n": name, "l": sum_ast(rng, parts), "r": b if b[0] == "n" else b}
    if style < 0.75 and len(parts) > 1:
        k = rng.randint(1, len(parts) - 1)
        rhs = sum_ast(rng, parts[k:])
        if b[0] == "n":
            r = ["-", ["*", ["n", -1.0], rhs], ["n", -float(b[1])]]
        else:
            r = ["-", b, rhs]
        return {"n": name, "l": sum_ast(rng, parts[:k]), "r": r}
    if b[0] == "n":
        return {"n": name, "l": ["+", ["n", -float(b[1])], sum_ast(rng, parts)]}
    return {"n": name, "l": ["-", b, sum_ast(rng, parts)]}


def eq_name(rng, used, i):
    if rng.random() < 0.2:
        return ""
    base = rng.choice(["eq%d" % i, "balance%d" % i, "e%d" % i, "E.%d" % i])
    while base in used:
        base += "b"
    used.add(base)
    return base


def gen_algebraic(rng, kind, nmodels=None, units=None, maxn=3, conns=True, easy=True, size=1.0):
    """size: order of magnitude of the right-hand sides, hence of the solution of a linear system"""
    nm = nmodels or rng.choice([1, 1, 1, 2, 2, 3])
    units = rng.random() < 0.4 if units is None else units
    names = rng.sample(MODEL_NAMES, nm)
    spec = {"kind": kind, "models": [], "conns": [], "tvars": [], "easy": easy}
    mgs = []
    for name in names:
        mg = MGen(rng, name, units)
        n = rng.randint(1, maxn)
        for _ in range(n):
            mg.var()
        mgs.append(mg)
    links = []
    for k in range(1, nm):
        if conns and rng.random() < 0.8:
            src = mgs[rng.randint(0, k - 1)]
            free = [w for w in src.vars if w.get("exposed") != "input"]
            v = rng.choice(free)
            v["exposed"] = "output"
            inn, iu = mgs[k].var(unit=v["u"], exposed="input")
            links.append((src, [v["n"]], mgs[k], [inn]))
    linked = {(l[2].name, x) for l in links for x in l[3]}
    for mg in mgs:
        own = [v for v in mg.vars if (mg.name, v["n"]) not in linked]
        used = set()
        for i, v in enumerate(own):
            ueq = v["u"]
            parts = []
            others = [w for w in mg.vars if w is not v]
            offs = rng.sample(others, rng.randint(0, len(others)))
            tot = 0.0
            offterms = []
            for w in offs:
                c = r3(rng.uniform(0.1, 1.0) * rng.choice([-1, 1]))
                tot += abs(c)
                offterms.append((c, w))
            d = r3((tot + rng.uniform(0.5, 2.0)) * rng.choice([-1, 1]))
            if not offs and rng.random() < 0.3:
                d = rng.choice([1.0, -1.0])
            parts.append(term(rng, mg, d, ["v", v["n"]], v["u"], ueq))
            for c, w in offterms:
                if kind == "nonlinear" and rng.random() < 0.5:
                    # bounded nonlinear coupling c*sin(w/unit)
                    arg = ["v", w["n"]]
                    if w["u"]:
                        arg = ["/", arg, mg.coef(1.0, w["u"], False)]
                    cc = mg.coef(c, ueq, not ueq)
                    parts.append(["*", cc, bounded(rng, arg, True)])
                else:
                    parts.append(term(rng, mg, c, ["v", w["n"]], w["u"], ueq))
            if kind == "nonlinear" and (i == 0 or rng.random() < 0.5):
                s = 1.0 if d > 0 else -1.0
                style = rng.random()
                if not v["u"] and style < 0.35:
                    cc = mg.coef(r3(s * rng.uniform(0.1, 0.8)), {}, True)
                    parts.append(["*", cc, ["^", ["v", v["n"]], 3]])
                elif not v["u"] and style < 0.5:
                    cc = mg.coef(r3(s * rng.uniform(0.1, 0.8)), {}, True)
                    parts.append(["*", cc, ["f", "exp", ["*", ["n", 0.3], ["v", v["n"]]]]])
                else:
                    arg = ["v", v["n"]]
                    if v["u"]:
                        arg = ["/", arg, mg.coef(1.0, v["u"], False)]
                    cc = mg.coef(r3(0.4 * (abs(d) - tot) * s), ueq, not ueq)
                    parts.append(["*", cc, ["f", "sin", arg]])
            rng.shuffle(parts)
            mg.eqs.append(finish_eq(rng, mg, eq_name(rng, used, i), parts, rng.uniform(-4, 4) * size, ueq))
        rng.shuffle(mg.eqs)
    for src, outs, dst, ins in links:
        mode = rng.choice(["vars", "vars", "expr_model", "expr_str", "expr_anon"])
        c = {"mode": mode, "m1": src.name, "m2": dst.name, "outs": outs, "ins": ins}
        if mode != "vars":
            f = r3(rng.uniform(0.5, 1.5)) if rng.random() < 0.5 else 1.0
            c["in"] = ["x", dst.name, "v", ins[0]]
            c["out"] = ["x", src.name, "v", outs[0]] if f == 1.0 else ["*", ["n", f], ["x", src.name, "v", outs[0]]]
            if mode == "expr_str":
                c["label"] = "link" + str(rng.randint(0, 99))
            if mode == "expr_anon":
                c["label"] = ""
        spec["conns"].append(c)
    spec["models"] = [mg.spec() for mg in mgs]
    for m in spec["models"]:
        if rng.random() < 0.25:
            m["where"] = "declare"
        rng.shuffle(m["vars"])
    spec["order"] = [m["name"] for m in spec["models"]]
    rng.shuffle(spec["order"])
    return spec


HARD = ["square", "noroot", "product", "exp_noroot", "circle", "rational"]


def gen_hard(rng):
    """Small nonlinear systems with several, few or no real solutions"""
    style = rng.choice(HARD)
    a, b = r3(rng.uniform(0.3, 3)), r3(rng.uniform(0.3, 3))
    x, y = ["v", "x"], ["v", "y"]
    if style == "square":
        eqs = [["-", ["^", x, 2], ["n", a]]]
    elif style == "noroot":
        eqs = [["+", ["^", x, 2], ["n", a]]]
    elif style == "product":
        eqs = [["-", ["*", x, y], ["n", a]], ["-", ["+", x, y], ["n", b]]]
    elif style == "exp_noroot":
        eqs = [["+", ["f", "exp", x], ["n", a]]]
    elif style == "circle":
        eqs = [["-", ["+", ["^", x, 2], ["^", y, 2]], ["n", a]], ["-", x, ["*", ["n", b], y]]]
    else:
        eqs = [["-", ["/", ["n", a], x], ["n", b]]]
    nv = 2 if any(s[0] == "v" and s[1] == "y" for e in eqs for s in walk(e)) else 1
    m = {"name": rng.choice(MODEL_NAMES), "vars": [{"n": n, "u": {}} for n in ["x", "y"][:nv]], "params": [], "consts": [],
         "eqs": [{"n": "eq%d" % i, "l": e} for i, e in enumerate(eqs)], "where": "init", "desc": style}
    return {"kind": "nonlinear", "models": [m], "conns": [], "tvars": [], "easy": False, "order": [m["name"]], "style": style}


BRANCHES = ["cubic", "wave", "wave2"]


def gen_branches(rng):
    """One model with parameters whose nonlinear system has several real roots: which one is found depends on where the search starts"""
    P = [{"n": n, "u": {}, "v": v} for n, v in (("c", r3(rng.uniform(1.5, 4))), ("d", r3(rng.uniform(-1.0, 1.0))), ("k", r3(rng.uniform(1.0, 3.0))))]
    x, y = ["v", "x"], ["v", "y"]
    style = rng.choice(BRANCHES)
    if style == "cubic":
        eqs = [["-", ["-", ["^", x, 3], ["*", ["p", "c"], x]], ["p", "d"]], ["-", y, ["*", ["p", "k"], x]]]
    elif style == "wave":
        eqs = [["-", ["+", ["f", "sin", ["*", ["p", "k"], x]], ["/", x, ["n", 10.0]]], ["*", ["p", "d"], ["p", "c"]]], ["-", ["*", ["p", "c"], y], x]]
    else:
        eqs = [["-", ["+", ["*", ["p", "c"], ["f", "sin", x]], ["/", y, ["n", 5.0]]], ["p", "d"]], ["-", ["+", ["f", "cos", ["*", ["p", "k"], y]], ["/", x, ["n", 5.0]]], ["p", "d"]]]
    m = {"name": rng.choice(MODEL_NAMES), "vars": [{"n": n, "u": {}} for n in rng.sample(["x", "y"], 2)], "params": P, "consts": [],
         "eqs": [{"n": "eq%d" % i, "l": e} for i, e in enumerate(eqs)], "where": "init", "desc": style}
    return {"kind": "nonlinear", "models": [m], "conns": [], "tvars": [], "easy": False, "order": [m["name"]], "style": style}


def ic_value(rng, ics):
    """An initial value, distinct from the others; zero and whole numbers are among them"""
    if rng.random() < 0.25:
        v = rng.choice([0, 0.0, 1, -1, 2, 2.0])
        if v not in ics.values():
            return v
    return r3(rng.uniform(-2, 2))


def make_implicit(rng, mg, e, v, ueq, tunit, others):
    """Adds the derivative of another variable, a function of the derivative or a state-dependent factor to a differential equation"""
    more = []
    if others and rng.random() < 0.7:
        w = rng.choice(others)
        more.append(term(rng, mg, r3(rng.uniform(0.05, 0.15) * rng.choice([-1, 1])), ["d", w["n"]], udiv(w["u"], tunit), ueq))
    if rng.random() < 0.4:
        a = ["d", v["n"]] if not ueq else ["/", ["d", v["n"]], mg.coef(1.0, ueq, False)]
        more.append(["*", mg.coef(r3(rng.uniform(0.05, 0.2) * rng.choice([-1, 1])), ueq, not ueq), ["f", rng.choice(["sin", "cos"]), a]])
    if not more or rng.random() < 0.3:
        x = rng.choice(others + [v])
        a = ["v", x["n"]] if not x["u"] else ["/", ["v", x["n"]], mg.coef(1.0, x["u"], False)]
        more.append(["*", ["*", ["n", r3(rng.uniform(0.05, 0.15))], ["f", rng.choice(["sin", "cos"]), a]], ["d", v["n"]]])
    side = "r" if e.get("r") is not None and rng.random() < 0.3 else "l"
    for m in more:
        e[side] = ["+", e[side], m]
    e["implicit"] = True


def make_unsolved(rng, spec):
    """One differential equation of an ODE system is not solved for its derivative (its run may be refused)"""
    m = rng.choice(spec["models"])
    es = [e for e in m["eqs"] if "ode" in e]
    if not es:
        return
    e = rng.choice(es)
    d, style = e["l"], rng.random()
    units = any(v["u"] for v in m["vars"])
    others = [v["n"] for v in m["vars"] if not v.get("time") and v["n"] != e["ode"]]
    if style < 0.5 and not units:
        x = ["v", rng.choice([e["ode"]] * 3 + others)]
        e["l"], e["r"] = rng.choice([["+", d, x], ["+", x, d]]), ["+", e["r"], x]
    elif style < 0.7:
        f = r3(rng.uniform(0.4, 3))
        e["l"], e["r"] = ["*", ["n", f], d], ["*", ["n", f], e["r"]]
    elif style < 0.8:
        e["l"], e["r"] = e["r"], e["l"]
    elif others and not units:
        w = ["d", rng.choice(others)]
        e["l"], e["r"] = ["+", d, ["*", ["n", 0.1], w]], ["+", e["r"], ["*", ["n", 0.1], w]] if style < 0.9 else e["r"]
    else:
        e["l"], e["r"] = ["neg", d], ["neg", e["r"]]
    spec["unsolved"] = e["implicit"] = True


def gen_dynamic(rng, kind="ode", nmodels=None, units=None, maxn=3, time_dep=None, sizes=None):
    """kind: ode or dae. All models share the domain and the time variable of the first model."""
    nm = nmodels or rng.choice([1, 1, 1, 2])
    units = rng.random() < 0.3 if units is None else units
    names = rng.sample(MODEL_NAMES, nm)
    big = maxn == 3 and rng.random() < 0.08
    if big:
        maxn = 8
    tunit = {"s": 1} if units else {}
    mgs = []
    for k, name in enumerate(names):
        mg = MGen(rng, name, units)
        if k == 0:
            tname = mg.namer(rng.choice(["t", "t", "time", "tt"]))
            clocks = {name: tname}
        elif kind == "ode" and rng.random() < 0.3:
            clocks[name] = mg.namer(rng.choice(["t", "t", "time", "tt"]))       # a time variable of its own
        nv = rng.randint(1, maxn)
        for _ in range(nv):
            mg.var()
        mgs.append(mg)
    if kind == "ode" and sum(len(m.vars) for m in mgs) == 1 and rng.random() < 0.7:
        mgs[0].var()
    tfull = full(names[0], tname)
    if time_dep is None:
        time_dep = kind == "ode" and rng.random() < 0.4
    allv = [(mg, v) for mg in mgs for v in list(mg.vars)]
    algs = []
    if kind == "dae":
        for mg in rng.sample(mgs, rng.randint(1, len(mgs))):
            for _ in range(rng.randint(3, 6) if big else rng.randint(1, 2)):
                n, u = mg.var()
                algs.append((mg, mg.vars[-1]))
    ics = {tfull: 0.0}

    def ref(mg, owner, v):
        return ["v", v["n"]] if owner is mg else ["x", owner.name, "v", v["n"]]
    for mg in mgs:
        mg.eqs = []
    everything = allv + algs
    for mg, v in allv:
        ueq = udiv(v["u"], tunit)
        parts = [term(rng, mg, r3(-rng.uniform(0.3, 1.5)), ["v", v["n"]], v["u"], ueq)]
        cands = [(o, w) for o, w in everything if w is not v and (o is mg or rng.random() < 0.5)]
        for o, w in rng.sample(cands, rng.randint(0, min(2, len(cands)))):
            c = r3(rng.uniform(0.1, 0.6) * rng.choice([-1, 1]))
            style = rng.random()
            a = ref(mg, o, w)
            if style < 0.5:
                parts.append(term(rng, mg, c, a, w["u"], ueq))
            else:
                if w["u"]:
                    a = ["/", a, mg.coef(1.0, w["u"], False)]
                parts.append(["*", mg.coef(c, ueq, not ueq), bounded(rng, a)])
        if rng.random() < 0.4:
            parts.append(mg.coef(r3(rng.uniform(-1, 1)), ueq, False))
        if rng.random() < 0.3:
            parts.append(mg.free(ueq))
        if time_dep and (len(mg.eqs) == 0 and mg is mgs[0] or rng.random() < 0.4):
            a = ["v", clocks[mg.name]] if mg.name in clocks and rng.random() < 0.8 else ["x", names[0], "v", tname]
            if mg is mgs[0]:
                a = ["v", tname]
            if tunit:
                a = ["/", a, mg.coef(1.0, tunit, False)]
            if rng.random() < 0.6:
                a = ["f", "sin", ["*", ["n", r3(rng.uniform(0.5, 3))], a]]
            parts.append(["*", mg.coef(r3(rng.uniform(0.2, 1)), ueq, not ueq), a])
        rng.shuffle(parts)
        rhs = fixneg(sum_ast(rng, parts))
        e = {"n": eq_name(rng, {q["n"] for q in mg.eqs}, len(mg.eqs)), "ode": v["n"]}
        if kind == "dae" and rng.random() < 0.4:
            lhs = ["d", v["n"]]
            e["l"] = ["-", lhs, rhs]
        elif kind == "dae" and rng.random() < 0.25:
            e["l"] = ["*", ["n", r3(rng.uniform(0.5, 3))], ["d", v["n"]]]
            e["r"] = rhs
        else:
            e["l"] = ["d", v["n"]]
            e["r"] = rhs
        if kind == "dae" and rng.random() < 0.3:
            make_implicit(rng, mg, e, v, ueq, tunit, [w for o, w in allv if o is mg and w is not v])
        if any(a[0] == "x" for s in (e["l"], e.get("r")) if s is not None for a in walk(s)):
            e["nocheck"] = True
        mg.eqs.append(e)
        ics[full(mg.name, v["n"])] = ic_value(rng, ics)
        if kind == "dae":
            ics[full(mg.name, v["n"]) + "_d"] = r3(rng.uniform(-1, 1))
    for mg, v in algs:
        ueq = v["u"]
        parts = [term(rng, mg, r3(rng.uniform(1.5, 3) * rng.choice([-1, 1])), ["v", v["n"]], v["u"], ueq)]
        cands = [(o, w) for o, w in everything if w is not v]
        for o, w in rng.sample(cands, rng.randint(1, min(2, len(cands)))):
            c = r3(rng.uniform(0.1, 0.5) * rng.choice([-1, 1]))
            a = ref(mg, o, w)
            if rng.random() < 0.5:
                parts.append(term(rng, mg, c, a, w["u"], ueq))
            else:
                if w["u"]:
                    a = ["/", a, mg.coef(1.0, w["u"], False)]
                parts.append(["*", mg.coef(c, ueq, not ueq), bounded(rng, a, True)])
        rng.shuffle(parts)
        e = finish_eq(rng, mg, eq_name(rng, {q["n"] for q in mg.eqs}, len(mg.eqs)), parts, rng.uniform(-2, 2), ueq)
        if any(a[0] == "x" for s in (e["l"], e.get("r")) if s is not None for a in walk(s)):
            e["nocheck"] = True
        mg.eqs.append(e)
        ics[full(mg.name, v["n"])] = r3(rng.uniform(-2, 2))
    for mg in mgs:
        rng.shuffle(mg.eqs)
    spec = {"kind": kind, "conns": [], "tvars": [full(n, t) for n, t in clocks.items()], "models": [], "easy": True}
    for mg in mgs:
        if mg.name in clocks:
            mg.vars.insert(rng.randint(0, len(mg.vars)), {"n": clocks[mg.name], "u": tunit, "time": True})
            ics[full(mg.name, clocks[mg.name])] = 0.0
    if len(clocks) > 1:
        rng.shuffle(spec["tvars"])
    for mg in mgs:
        m = mg.spec()
        m["tref"] = [mg.name, clocks[mg.name]] if mg.name in clocks else [names[0], tname]
        spec["models"].append(m)
    order = [[mg.name, v["n"]] for mg, v in everything]
    rng.shuffle(order)
    spec["domain"] = {"n": rng.choice(["dom", "domain", "D"]), "u": tunit, "t": [names[0], tname], "order": order}
    # models after the first need its objects: they are built in this order but may be added in another
    spec["order"] = [m["name"] for m in spec["models"]]
    rng.shuffle(spec["order"])
    spec["ics"] = ics
    return spec


def gen_conf(rng, spec, small=True):
    """A configuration as plain data; '@' keys are turned into objects by the builder"""
    k = spec["kind"]
    c = {}
    if k in ("linear", "nonlinear"):
        if rng.random() < 0.7:
            c["linear_solver"] = rng.choice(["symbolicsys", "sympy", "scipy"])
        if k == "nonlinear" and rng.random() < 0.3:
            c["nonlinear_solver"] = rng.choice(["*", "symbolicsys"])
        if rng.random() < 0.4:
            c["@guess"] = True
            c["guess_values"] = [r3(rng.uniform(-2, 3)) for _ in range(12)]
        if k == "nonlinear" and rng.random() < 0.3:
            c["initial_guess_solver"] = rng.choice(["hybr", "", "anderson"])
        return c
    t0 = 0.0 if rng.random() < 0.7 else r3(rng.uniform(-1, 2))
    span = r3(rng.uniform(0.3, 2.5))
    c["is_dynamic"] = True
    c["initial_time"] = t0
    c["end_time"] = r3(t0 + span)
    c["number_of_time_steps"] = rng.choice([1, 2, 3, 5, 8, 13])
    if rng.random() < 0.3:
        pts = sorted({r3(t0 + span * rng.random()) for _ in range(rng.randint(1, 5))} - {t0})
        if pts:
            c["times_for_solution"] = [t0] + pts
            c["end_time"] = pts[-1]
            if rng.random() < 0.4:
                # given output times start the run, whatever the (then unused) limits say
                del c["initial_time"]
                if rng.random() < 0.5:
                    c["initial_time"] = r3(t0 + rng.uniform(-0.5, 0.5))
    if k == "ode":
        c["differential_solver"] = rng.choice(["ODEINT", "ODEINT", "CVODE"])
        c["compile_equations"] = rng.random() < 0.8
        if c.get("times_for_solution") and c["differential_solver"] == "ODEINT" and rng.random() < 0.3:
            pts = c["times_for_solution"]
            c["times_for_solution"] = sorted(pts + [rng.choice(pts[1:])])
        elif c["differential_solver"] == "ODEINT" and rng.random() < 0.06:
            # the initial condition alone
            if rng.random() < 0.5:
                c["times_for_solution"] = [t0]
                c.pop("end_time", None)
                c.pop("initial_time", None)
            else:
                c.pop("times_for_solution", None)
                c["number_of_time_steps"], c["initial_time"], c["end_time"] = 0, t0, r3(t0 + span)
        if c["differential_solver"] == "ODEINT" and rng.random() < 0.15:
            c["configuration_args"] = rng.choice([{"rtol": 1e-9, "atol": 1e-11}, {"mxstep": 2000}, {"hmax": 0.5, "mxstep": 5000}, {"rtol": 1e-8}])
    if rng.random() < 0.15:
        c["compilation_mechanism"] = "math"
    c["@domain"] = True
    c["@headers"] = True
    if rng.random() < 0.25:
        c["print_output"] = True
    if rng.random() < 0.4:
        c["@rename"] = rng.choice(["all", "some", "time"])
    if rng.random() < 0.3:
        c["@tname"] = rng.choice(["str", "list"])
    return c


def params_of(spec, used_only=True):
    """Settable parameters: [(model, name, unit, value)] of models that create their objects once"""
    used = set()
    for mn, e in all_equations(spec):
        for side in (e["l"], e.get("r")):
            if side is not None:
                used.update(mentions(side, mn, kinds=("p",)))
    out = []
    for m in spec["models"]:
        if m["where"] != "init":
            continue
        for p in m["params"]:
            if full(m["name"], p["n"]) in used and p["v"] is not None:
                out.append((m["name"], p["n"], p["u"], Free(p["v"]) if p.get("free") else p["v"]))
    return out


def nudge(rng, spec, value):
    """A new value for a parameter that keeps the system well-posed"""
    if isinstance(value, Free):
        return free_value(rng)
    if spec.get("style") in BRANCHES:
        return r3(value * rng.choice([-1.0, 1.0]) * rng.uniform(0.5, 1.6))
    f = 0.03 if spec["kind"] != "linear" else 0.2
    return round(value * rng.uniform(1 - f, 1 + f), 6)


def condition(spec, pvals, flags=None):
    names = unknowns(spec, flags)
    r0 = residuals(spec, pvals, [0.0] * len(names), names, flags)
    A = np.array([residuals(spec, pvals, [1.0 if k == j else 0.0 for k in range(len(names))], names, flags) - r0
                  for j in range(len(names))]).T
    return float(np.linalg.cond(A))


def valid(spec, flags=None):
    """Square, regular and (for easy systems) solvable: what the generator promises and a minimised plan must keep"""
    try:
        names = unknowns(spec, flags)
        eqs = all_equations(spec, flags)
        for mn, e in eqs:
            if not mentions(e["l"], mn) and not (e.get("r") is not None and mentions(e["r"], mn)):
                return False
        if not names or spec["kind"] in ("linear", "nonlinear") and len(names) != len(eqs):
            return False
        if spec["kind"] == "linear":
            return condition(spec, values_of(spec), flags) < 1e6
        if spec["kind"] == "nonlinear" and spec.get("easy"):
            return solve_nonlinear(spec, values_of(spec), flags=flags) is not None
        return True
    except (KeyError, IndexError, TypeError, ValueError, ZeroDivisionError, OverflowError, np.linalg.LinAlgError):
        return False
