"""C11 Dimensional checks are right and never disturb units or operands."""
import math

import sympy as sp

from .. import build, sched, gen as G
from ..core import rng_for

LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded operation sequences over shared units and expressions, interrupted at chosen events and interleaved by a seeded thread scheduler, against a dimension algebra"
NOTE = ("Seeded sampling of sequences of up to 40 operations over shared units, quantities and expressions in 1-3 threads with interrupts and failing allocations; "
        "acceptance, dimension and value of every result, and every existing object after every operation, are compared with a reference algebra.")
CASES = {"quick": 1600, "thorough": 120000}
RULE = ("seeded operations (unit and expression algebra, functions, Min/Max, derivatives, equations, setting values) with a bias to clashing dimensions; some are "
        "interrupted or run out of memory at a chosen event of capybara's code; two or three threads work on the shared objects under a seeded scheduler. "
        "Non-trivial: at least 8 operations, one of them refused, or an operation was interrupted or preempted.")
STATES = "distinct sequences of (operation, outcome)"
REAL = ["capybara quantity, unit, expression, operator, equation and model code", "sympy", "threads of the interpreter (one runs at a time)"]
STUB = ["thread scheduling", "points of interruption and of failing allocations"]
ASSUMPTIONS = ["bare numbers take the dimension their use needs", "reference dimension algebra of this file"]

BASE = ["m", "kg", "s", "A", "K", "mol", "cd"]
TEMPLATE = {"dimless": {}, "m": {"m": 1}, "kg": {"kg": 1}, "s": {"s": 1}, "A": {"A": 1}, "K": {"K": 1}, "mol": {"mol": 1}, "cd": {"cd": 1}, "_s": {"s": -1},
            "_m2": {"m": -2}, "_m3": {"m": -3}, "m_s": {"m": 1, "s": -1}, "m_s2": {"m": 1, "s": -2}, "kg_s": {"kg": 1, "s": -1},
            "mol_s": {"mol": 1, "s": -1}, "Force": {"kg": 1, "m": 1, "s": -2}, "Pa": {"kg": 1, "m": -1, "s": -2},
            "J": {"kg": 1, "m": 2, "s": -2}}
EXPS = [2, 3, -1, -2, 0.5, -0.5, 1.5, 1 / 3, 0, 1, 2.0]
FUNCS = ["sin", "cos", "exp", "tan", "log", "sqrt", "abs", "log10"]


def dim(d):
    return tuple(float(d.get(b, 0)) for b in BASE)


def agree(a, b):
    return all(abs(x - y) < 1e-9 for x, y in zip(a, b))


ZERO = dim({})


def gen_op(rng, nu, nq, thread=False):
    """An operation on the pools, by seeded indices (taken modulo the size of the pool at that time)"""
    r = rng.random()
    i, j, k = rng.randint(0, 999), rng.randint(0, 999), rng.randint(0, 999)
    like = rng.random() < 0.55       # bias: look for an operand of the same dimension
    num = G.r3(rng.choice([-1, 1]) * rng.uniform(0.3, 3))
    if r < 0.06:
        return ["u", rng.choice("*/+-"), i, j, like]
    if r < 0.10:
        return ["upow", i, rng.choice(EXPS)]
    if r < 0.12:
        return ["unum", rng.choice("*/"), i, num]
    if r < 0.18:
        return ["call", i]
    if r < 0.44:
        return ["n", rng.choice("++--*/=="), i, j, like]
    if r < 0.52:
        return ["num", rng.choice(["+", "-", "*", "/", "r+", "r-", "r*", "r/", "="]), i, num if rng.random() < 0.7 else int(math.copysign(max(1, abs(num)), num))]
    if r < 0.58:
        return ["pow", i, rng.choice(EXPS)]
    if r < 0.62:
        return ["npow", i, j, rng.random() < 0.7, rng.random() < 0.6]
    if r < 0.72:
        return ["f", rng.choice(FUNCS), i, rng.random() < 0.5]
    if r < 0.80:
        return ["mm", rng.choice(["min", "max"]), [i, j, k][:rng.randint(1, 3)], like, num if rng.random() < 0.4 else None, rng.randint(0, 3)]
    if r < 0.85:
        return ["diff", i, j]
    if r < 0.92 and not thread:
        return ["set", i, rng.choice(["num", "unit", "unit", "quantity", "quantity", "bad"]), j, num, like]
    return ["eq", rng.choice(["==", "-", "=n"]), i, j, like]


def gen(rng, i, tier):
    nu = rng.randint(1, 4)
    qs = []
    names = sorted(TEMPLATE)
    common = rng.sample(names, 3)
    for k in range(rng.randint(3, 7)):
        u = rng.choice(common) if rng.random() < 0.7 else rng.choice(names)
        if rng.random() < 0.25:
            u = "dimless"
        qs.append({"k": rng.choice(["v", "v", "v", "p", "c"]), "u": u, "e": rng.choice([1, 1, 1, 2, -1, 0.5]), "spec": rng.random() < 0.8,
                   "v": G.r3(rng.choice([-1, 1]) * rng.uniform(0.3, 3)), "dom": rng.random() < 0.5})
    n = rng.choice([6, 12, 25, 40])
    ops = []
    for _ in range(n):
        op = {"op": gen_op(rng, nu, len(qs))}
        if rng.random() < 0.18:
            op["cut"] = [rng.choice(["interrupt", "memory"]), rng.choice([0, rng.randint(0, 12), rng.randint(0, 40)]), rng.random() < 0.3]
        ops.append(op)
    plan = {"qs": qs, "ops": ops, "threads": [], "strategy": None}
    if rng.random() < 0.4:
        plan["threads"] = [[{"op": gen_op(rng, nu, len(qs), True)} for _ in range(rng.randint(3, 10))] for _ in range(rng.choice([2, 2, 3]))]
        st = sched.gen_strategy(rng, span=1500)
        plan["strategy"] = st
    return plan


class Model:
    """Objects made so far, with what they should be"""

    def __init__(self, ctx, plan):
        a = build.api()
        self.ctx, self.a = ctx, a
        tu = a["tu"]
        self.units = [(getattr(tu, n), dim(TEMPLATE[n]), None) for n in sorted(TEMPLATE)]
        self.nodes = []               # (node, dim, ast, names)
        self.qs = []
        self.snap = []
        self.env = {}
        mod = a["Model"]("M", "")
        self.mod = mod
        mk = {"v": mod.createVariable, "p": mod.createParameter, "c": mod.createConstant}
        self.t = mod.createVariable("t", tu.s, "time")
        dom = a["Domain"]("dom", tu.s, self.t, "domain")
        for i, q in enumerate(plan["qs"]):
            u = getattr(tu, q["u"])
            d = dim(TEMPLATE[q["u"]])
            if q["e"] != 1:
                u = u ** q["e"]
                d = tuple(x * q["e"] for x in d)
            o = mk[q["k"]]("q%d" % i, u, "")
            if q["k"] != "v" and q["spec"]:
                o.setValue(q["v"])
            if q["k"] == "v" and q["dom"]:
                o.distributeOnDomain(dom)
            self.qs.append([o, d, q["k"], q["v"] if q["k"] != "v" and q["spec"] else None, q["k"] == "v" and q["dom"]])
        self.qs.append([self.t, dim({"s": 1}), "v", None, False])
        r = rng_for("env", len(plan["qs"]))
        for o in self.qs:
            self.env[o[0].name] = G.r3(r.uniform(0.4, 1.9))
        self.hist = []
        self.eqs = 0
        for k in range(len(self.qs)):
            self.do(["call", k])

    # -- what must not change
    def snapshot(self):
        for u, d, _ in self.units:
            if not agree(tuple(float(u.dimension[b]) for b in BASE), d) or set(u.dimension) != set(BASE):
                self.ctx.fail("unit-changed", "%s is %s instead of %s" % (u.name or "derived unit", dict(u.dimension), d))
        for o, d, k, v, dm in self.qs:
            if not agree(tuple(float(o.units.dimension[b]) for b in BASE), d):
                self.ctx.fail("quantity-changed-dimension", "%s is %s instead of %s" % (o.name, dict(o.units.dimension), d))
            if v is not None and (o.value != v or not o.is_specified):
                self.ctx.fail("quantity-changed-value", "%s is %r instead of %r" % (o.name, o.value, v))
            if v is None and o.is_specified:
                self.ctx.fail("quantity-became-specified", o.name)
        for n, d, ast, s in self.nodes:
            if state_of(n) != s:
                self.ctx.fail("expression-changed", "%s became %s" % (s, state_of(n)))

    def unit(self, i):
        return self.units[i % len(self.units)]

    def q(self, i):
        return self.qs[i % len(self.qs)]

    def node(self, i, like=None):
        if like is not None:
            c = [n for n in self.nodes if agree(n[1], like)]
            if c:
                return c[i % len(c)]
        return self.nodes[i % len(self.nodes)]

    # -- one operation: what is done, and what should come out of it
    def prepare(self, op):
        """(callable, accepted?, kind of result, dimension, ast)"""
        ops = self.a["ops"]
        k = op[0]
        if k == "u":
            a = self.unit(op[2])
            b = next((x for x in self.units[op[3] % len(self.units):] if agree(x[1], a[1])), a) if op[4] and op[1] in "+-" else self.unit(op[3])
            o = op[1]
            f = {"*": lambda: a[0] * b[0], "/": lambda: a[0] / b[0], "+": lambda: a[0] + b[0], "-": lambda: a[0] - b[0]}[o]
            d = tuple(x + y for x, y in zip(a[1], b[1])) if o == "*" else tuple(x - y for x, y in zip(a[1], b[1])) if o == "/" else a[1]
            return f, o in "*/" or agree(a[1], b[1]), "unit", d, None
        if k == "upow":
            a = self.unit(op[1])
            return (lambda: a[0] ** op[2]), True, "unit", tuple(x * op[2] for x in a[1]), None
        if k == "unum":
            a = self.unit(op[2])
            if op[1] == "*":
                return (lambda: a[0] * op[3]), True, "quantity", a[1], op[3]
            return (lambda: a[0] / op[3]), True, "quantity", a[1], 1 / op[3]
        if k == "call":
            o = self.q(op[1])
            return (lambda: o[0]()), True, "node", o[1], ["n", o[3]] if o[3] is not None else ["s", o[0].name]
        if k == "n":
            a = self.node(op[2])
            b = self.node(op[3], a[1] if op[4] else None)
            o = op[1]
            if size(a[2]) + size(b[2]) > 24:
                return None
            if o == "=":
                return (lambda: a[0] == b[0]), True, "tuple", (a, b), None
            f = {"+": lambda: a[0] + b[0], "-": lambda: a[0] - b[0], "*": lambda: a[0] * b[0], "/": lambda: a[0] / b[0]}[o]
            if o == "/" and (val(b[2], self.env) or 0.0) == 0.0:
                return None
            d = tuple(x + y for x, y in zip(a[1], b[1])) if o == "*" else tuple(x - y for x, y in zip(a[1], b[1])) if o == "/" else a[1]
            return f, o in "*/" or agree(a[1], b[1]), "node", d, [o, a[2], b[2]]
        if k == "num":
            a = self.node(op[2])
            c, o = op[3], op[1]
            if o == "=":
                return (lambda: a[0] == c), True, "tuple", (a, c), None
            if o == "r/" and (val(a[2], self.env) or 0.0) == 0.0:
                return None
            f = {"+": lambda: a[0] + c, "-": lambda: a[0] - c, "*": lambda: a[0] * c, "/": lambda: a[0] / c,
                 "r+": lambda: c + a[0], "r-": lambda: c - a[0], "r*": lambda: c * a[0], "r/": lambda: c / a[0]}[o]
            d = tuple(-x for x in a[1]) if o == "r/" else a[1]
            ast = [o[-1], ["n", c], a[2]] if o[0] == "r" else [o, a[2], ["n", c]]
            return f, True, "node", d, ast
        if k == "pow":
            a = self.node(op[1])
            if size(a[2]) > 16 or isinstance(val(a[2], self.env), str) or (val(a[2], self.env) or 0.0) == 0.0:
                return None
            return (lambda: a[0] ** op[2]), True, "node", tuple(x * op[2] for x in a[1]), ["^", a[2], ["n", op[2]]]
        if k == "npow":
            a = self.node(op[1])
            b = self.node(op[2], ZERO if op[3] else None)
            if op[4]:
                b = next((n for n in self.nodes[op[2] % len(self.nodes):] + self.nodes if agree(n[1], ZERO) and known(n[2])), b)
            if size(a[2]) + size(b[2]) > 12:
                return None
            if not agree(b[1], ZERO):
                return (lambda: a[0] ** b[0]), False, "node", None, None
            n = val(b[2], self.env) if known(b[2]) else None
            if n is not None and abs(n) > 4 or n is None and (known(b[2]) or not agree(a[1], ZERO)):
                return None                  # no value, or a dimension that only the exponent's value decides
            if (val(a[2], self.env) or 0.0) <= 0.0 and n is not None and n != int(n):
                return None
            if (val(a[2], self.env) or 0.0) == 0.0:
                return None
            return (lambda: a[0] ** b[0]), True, "node", ZERO if n is None else tuple(x * n for x in a[1]), ["opaque"] if n is None else ["^", a[2], ["n", n]]
        if k == "f":
            a = self.node(op[2], ZERO if op[3] else None)
            if size(a[2]) > 14:
                return None
            fn = {"sin": ops.Sin, "cos": ops.Cos, "exp": ops.Exp, "tan": ops.Tan, "log": ops.Log, "sqrt": ops.Sqrt, "abs": ops.Abs, "log10": ops.Log10}[op[1]]
            if op[1] in ("log", "log10") and (val(a[2], self.env) or 0.0) == 0.0:
                return None
            return (lambda: fn(a[0])), agree(a[1], ZERO), "node", ZERO, ["f", op[1], a[2]]
        if k == "mm":
            first = self.node(op[2][0])
            ns = [first] + [self.node(i, first[1] if op[3] else None) for i in op[2][1:]]
            if sum(size(n[2]) for n in ns) > 20:
                return None
            args = [n[0] for n in ns]
            asts = [n[2] for n in ns]
            if op[4] is not None:
                at = op[5] % (len(args) + 1)
                args.insert(at, op[4])
                asts.insert(at, ["n", op[4]])
            fn = ops.Min if op[1] == "min" else ops.Max
            return (lambda: fn(*args)), all(agree(n[1], first[1]) for n in ns), "node", first[1], [op[1]] + asts
        if k == "diff":
            o, t = self.q(op[1]), self.qs[-1] if op[2] % 3 else self.q(op[2])
            if o[2] != "v" or t[2] != "v" or o[3] is not None or t[3] is not None:
                return None
            return (lambda: o[0].Diff(t[0])), o[4], "node", tuple(x - y for x, y in zip(o[1], t[1])), None
        if k == "set":
            o = self.q(op[1])
            if o[2] == "v":
                return None
            if op[2] == "num":
                return (lambda: o[0].setValue(op[4])), True, "set", o, op[4]
            if op[2] == "bad":
                return (lambda: o[0].setValue("7")), False, "set", o, None
            if op[2] == "unit":
                u = next((x for x in self.units if agree(x[1], o[1])), None) if op[5] else None
                u = u or self.unit(op[3])
                x = op[4] if op[3] % 5 else op[3] % 10 // 5 * 0.5
                return (lambda: o[0].setValue(x, u[0])), agree(u[1], o[1]), "set", o, x
            p = next((x for x in self.qs if agree(x[1], o[1]) and x is not o and x[3] is not None), None) if op[5] else None
            p = p or self.q(op[3])
            if p[3] is None:
                return None
            return (lambda: o[0].setValue(p[0])), agree(p[1], o[1]), "set", o, p[3]
        if k == "eq":
            a = self.node(op[2])
            b = self.node(op[3], a[1] if op[4] else None)
            self.eqs += 1
            name = "e%d" % self.eqs
            mod = self.mod
            if op[1] == "==":
                return (lambda: mod.createEquation(name, "", a[0] == b[0])), agree(a[1], b[1]), "eq", name, None
            if op[1] == "=n":
                return (lambda: mod.createEquation(name, "", a[0] == 1.5)), True, "eq", name, None
            return (lambda: mod.createEquation(name, "", a[0] - b[0])), agree(a[1], b[1]), "eq", name, None
        raise AssertionError(k)

    def do(self, op, cut=None, check=True):
        ctx = self.ctx
        p = self.prepare(op)
        if p is None:
            return None
        f, accepted, kind, d, ast = p
        eqs = set(self.mod.equations) if kind == "eq" else None
        out, fired = None, None
        try:
            if cut:
                with sched.interrupt_at(cut[1], cut[0], ctx, fine=cut[2]) as w:
                    out = f()
                fired = w.fired
            else:
                out = f()
            outcome = "ok"
        except (KeyboardInterrupt, MemoryError):
            outcome = "cut"
            fired = True
        except Exception as e:
            outcome = "refused"
            err = e
        self.hist.append([op[0], op[1] if isinstance(op[1], str) else "", outcome])
        if outcome == "cut":
            if kind == "set" and d[0].value == ast and d[0].is_specified:
                d[3] = ast                   # the value had just been set
            elif kind == "set" and d[3] is None and d[0].value == ast and accepted:
                d[0].setValue(ast)           # between the value and the flag: set it again
                d[3] = ast
            if kind == "eq" and accepted:
                return outcome
            if kind == "eq":
                ctx.check(set(self.mod.equations) == eqs, "refused-equation-declared", lambda: "equations %s" % sorted(self.mod.equations))
            return outcome
        if outcome == "refused":
            ctx.check(not accepted, "coherent-operation-refused", lambda: "%s: %r" % (self.describe(op), err))
            if kind == "eq":
                ctx.check(set(self.mod.equations) == eqs, "refused-equation-declared", lambda: "equations %s" % sorted(self.mod.equations))
            return outcome
        ctx.check(accepted, "incoherent-operation-accepted", lambda: self.describe(op))
        if kind == "unit":
            self.same_dim(out, d, op)
            self.units.append((out, d, None))
        elif kind == "quantity":
            self.same_dim(out.units, d, op)
            ctx.check(abs(out.value - ast) <= 1e-12 * max(1, abs(ast)), "wrong-value", lambda: "%s gives %r" % (self.describe(op), out.value))
        elif kind == "node":
            self.same_dim(out.unit_object, d, op)
            if ast is None:
                ast = ["opaque"]
            else:
                self.same_value(out, ast, op)
            if ast != ["opaque"] or len(self.nodes) < 40:
                self.nodes.append((out, d, ast, state_of(out)))
        elif kind == "tuple":
            a, b = d
            ctx.check(isinstance(out, tuple) and len(out) == 2 and out[0] is a[0] and out[1] is (b[0] if isinstance(b, tuple) else b), "equality-lost-a-side", lambda: repr(out))
        elif kind == "set":
            d[3] = ast
        elif kind == "eq":
            ctx.check(d + "_M" in self.mod.equations, "equation-not-declared", lambda: d)
        return outcome

    def describe(self, op):
        def f(n):
            return "%s [%s]" % (n[3]["s"], show(n[1]))
        k = op[0]
        try:
            if k in ("n", "eq"):
                a = self.node(op[2])
                return "%s: %s, %s" % (op, f(a), f(self.node(op[3], a[1] if op[4] else None)))
            if k in ("num", "f"):
                return "%s: %s" % (op, f(self.node(op[2], ZERO if k == "f" and op[3] else None)))
            if k == "mm":
                a = self.node(op[2][0])
                return "%s: %s" % (op, [f(a)] + [f(self.node(i, a[1] if op[3] else None)) for i in op[2][1:]])
            if k == "pow":
                return "%s: %s" % (op, f(self.node(op[1])))
            if k == "set":
                return "%s: %s [%s]" % (op, self.q(op[1])[0].name, show(self.q(op[1])[1]))
        except Exception:
            pass
        return str(op)

    def same_dim(self, u, d, op):
        got = tuple(float(u.dimension[b]) for b in BASE)
        self.ctx.check(agree(got, d), "wrong-dimension", lambda: "%s has dimension %s, not %s" % (self.describe(op), show(got), show(d)))

    def same_value(self, node, ast, op):
        w = val(ast, self.env)
        if w is None:
            return
        try:
            v = sp.sympify(node.symbolic_object).evalf(subs={sp.Symbol(n): x for n, x in self.env.items()})
            v = complex(v)
        except (TypeError, ValueError):       # sympy cannot evaluate it here
            return
        if abs(v.imag) > 1e-9 * max(1, abs(v.real)):
            return
        self.ctx.check(abs(v.real - w) <= 1e-6 * max(1.0, abs(w), mag(ast, self.env)), "wrong-value", lambda: "%s is %r, not %r, at %s" % (self.describe(op), v.real, w, self.env))
        self.ctx.probe("value_checked")


def show(d):
    return " ".join("%s^%g" % (b, x) for b, x in zip(BASE, d) if x) or "1"


def size(ast):
    return 1 + sum(size(a) for a in ast[1:] if isinstance(a, list))


def known(ast):
    """Made of numbers only"""
    return ast[0] == "n" or ast[0] not in ("opaque", "s") and all(known(a) for a in ast[1:] if isinstance(a, list))


def opaque(ast):
    return ast[0] == "opaque" or any(opaque(a) for a in ast[1:] if isinstance(a, list))


def val(ast, env):
    """Value of an expression, None where it is undefined or not known"""
    if opaque(ast):
        return None
    try:
        v = ev(ast, env)
    except (ValueError, ZeroDivisionError, OverflowError, TypeError):
        return None
    return v if isinstance(v, float) and math.isfinite(v) and abs(v) < 1e12 else None


def ev(a, env):
    k = a[0]
    if k == "n":
        return float(a[1])
    if k == "s":
        return float(env[a[1]])
    if k == "f":
        x = ev(a[2], env)
        return {"sin": math.sin, "cos": math.cos, "exp": math.exp, "tan": math.tan, "log": math.log, "sqrt": math.sqrt, "abs": abs, "log10": math.log10}[a[1]](x)
    xs = [ev(b, env) for b in a[1:]]
    if k == "min":
        return min(xs)
    if k == "max":
        return max(xs)
    x, y = xs
    return x + y if k == "+" else x - y if k == "-" else x * y if k == "*" else x / y if k == "/" else x ** y


def mag(a, env):
    """Size of the largest intermediate value (scale of the rounding errors)"""
    m = 0.0
    try:
        m = abs(ev(a, env))
    except Exception:
        pass
    return max([m] + [mag(b, env) for b in a[1:] if isinstance(b, list)])


def state_of(n):
    return {"s": str(n.symbolic_object), "r": str(n.repr_symbolic), "m": sorted((k, id(v)) for k, v in n.symbolic_map.items()),
            "v": sorted((k, id(v)) for k, v in n.variable_map.items()), "t": dict(n.equation_type), "u": [round(float(n.unit_object.dimension[b]), 9) for b in BASE],
            "l": n.latex_text, "n": n.name, "a": str(n.args)}


def run(plan, ctx):
    if not plan["qs"]:
        return
    m = Model(ctx, plan)
    m.snapshot()
    refused = cut = 0
    for i, op in enumerate(plan["ops"]):
        r = m.do(op["op"], op.get("cut"))
        if r is None:
            continue
        refused += r == "refused"
        cut += r == "cut"
        ctx.ev(op["op"][0], r)
        m.snapshot()
    ctx.probe("refused", refused)
    taken = 0
    if len(plan["threads"]) >= 2 and plan["strategy"]:
        base = [m.units[:], m.nodes[:]]
        bodies, subs = [], []
        for ops in plan["threads"]:
            w = Model.__new__(Model)
            w.__dict__.update(m.__dict__)
            w.units, w.nodes, w.hist = base[0][:], base[1][:], []
            w.mod = build.api()["Model"]("M", "")
            w.mod.variables, w.mod.parameters, w.mod.constants = m.mod.variables, m.mod.parameters, m.mod.constants
            subs.append(w)

            def body(w=w, ops=ops):
                for op in ops:
                    w.do(op["op"])
            bodies.append(body)
        S = sched.Scheduler(ctx, bodies, plan["strategy"], plan.get("switches"))
        out = S.run()
        plan["switches"] = S.taken if not S.explicit else plan["switches"]
        taken = len(S.taken)
        ctx.fault("preemption", taken)
        for k, o in enumerate(out):
            if o is None or o[0] == "deadlock":
                ctx.fail("threads-blocked", "thread %d does not end" % k)
            if o[0] == "err":
                raise o[1]
        for w in subs:
            w.snapshot()
            m.hist.append(w.hist)
        m.snapshot()
        ctx.probe("threads_checked")
    ctx.state(m.hist)
    ctx.nontrivial = len(m.hist) >= 8 and refused > 0 or cut > 0 or taken >= 3
