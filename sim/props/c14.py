"""C14 Every declared equation and connection is in the solved system exactly once."""
import json

import sympy as sp

from .. import gen as G, build, sched
from ..core import SimulatedFault, SimInterrupt, SimNoMemory, rng_for
from ..seams import SIM

LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded declaration histories with failures, interrupts and scheduled threads, compared with a multiset model of the declared equations"
NOTE = ("Seeded sampling of declaration histories. The equations of the resolved system, and for algebraic systems what the backend receives, are compared "
        "with the specification as multisets of residual values at random points (up to sign), whatever their names and order.")
CASES = {"quick": 640, "thorough": 50000}
RULE = ("1-4 models of 0-8 random equations (named, numbered, unnamed, under flags, sharing names between alternatives, identical ones), connections of every mode, "
        "repeated and several between the same models, equations created outside the declaration; histories of flags, declarations, resolves, models added late, "
        "declarations that fail in user code or are interrupted and retried, and declarations from simulated threads. "
        "Non-trivial: at least 2 resolves with different expected systems were compared.")
STATES = "distinct (sequence of operations with outcomes, number of equations by model) histories"
REAL = ["capybara model/problem/equation/connection/equation_block code", "sympy"]
STUB = ["thread scheduling (thread operations)", "backend solvers (they only record what they were given)"]
ASSUMPTIONS = ["two different random equations do not agree at three random points", "reference evaluator of /verif/sim/gen.py",
               "threads declare or connect to different models, or only create equations"]

NAMES = ["eq", "e", "1", "2", "3", "7", "10", "11", "12", "13", "17", "23", "balance", "mass", "e_1", "eq_A", "e_A", "eq_B", "e_B", "1_A", "conn", "unnamed", "x", "e1", "e11"]


def gen_ast(rng, objs, depth):
    r = rng.random()
    if depth <= 0 or r < 0.2:
        a = list(rng.choice(objs))
        if rng.random() < 0.4:
            return ["*", ["n", G.r3(rng.uniform(-3, 3) or 1.0)], a]
        return a
    if r < 0.62:
        return [rng.choice(["+", "+", "-", "*"]), gen_ast(rng, objs, depth - 1), gen_ast(rng, objs, depth - 1)]
    if r < 0.72:
        return [rng.choice(["+", "-"]), gen_ast(rng, objs, depth - 1), ["n", G.r3(rng.uniform(-3, 3))]]
    if r < 0.8:
        return ["^", gen_ast(rng, objs, depth - 1), rng.choice([2, 3])]
    if r < 0.92:
        return ["f", rng.choice(["sin", "cos", "abs"]), gen_ast(rng, objs, depth - 1)]
    if r < 0.96:
        return [rng.choice(["min", "max"]), gen_ast(rng, objs, depth - 1), gen_ast(rng, objs, depth - 1)]
    return ["*", gen_ast(rng, objs, 0), gen_ast(rng, objs, 0)]


def stamped(rng, ast):
    """With a number of its own, so that no two drawn equations are equal by accident"""
    return ["+", ast, ["n", round(rng.uniform(0.1, 4), 5)]]


def gen_model(rng, name, tname):
    n = rng.randint(2, 6)
    namer = G.Namer(rng)
    if tname:
        namer.used.add(tname)
    m = {"name": name, "vars": [], "params": [], "consts": [], "eqs": [], "where": rng.choice(["init", "init", "declare"]), "desc": ""}
    for k in range(n):
        v = {"n": namer(), "u": {}}
        if k < 2 or rng.random() < 0.4:
            v["exposed"] = ["output", "input"][k] if k < 2 else rng.choice(["input", "output"])
        m["vars"].append(v)
    for k in range(rng.randint(0, 2)):
        m["params"].append({"n": namer(), "u": {}, "v": None if rng.random() < 0.3 else G.r3(rng.uniform(-2, 2))})
    # a parameter for connections only, so that its value can be changed and the connections made again
    m["params"].append({"n": namer(), "u": {}, "v": G.r3(rng.uniform(0.5, 2)), "conn": True})
    for k in range(rng.randint(0, 1)):
        m["consts"].append({"n": namer(), "u": {}, "v": G.r3(rng.uniform(-2, 2))})
    return m


def gen_eq(rng, m, models, tname, name):
    own = [["v", v["n"]] for v in m["vars"] if not v.get("time")] + [["p", p["n"]] for p in m["params"] if not p.get("conn")] + [["c", c["n"]] for c in m["consts"]]
    objs = rng.sample(own, min(len(own), rng.randint(1, 3)))
    if not any(o[0] == "v" for o in objs):
        objs.append(["v", m["vars"][0]["n"]])
    e = {"n": name}
    if tname and rng.random() < 0.35:
        e["l"] = ["d", rng.choice([v for v in m["vars"] if not v.get("time")])["n"]]
        e["r"] = stamped(rng, gen_ast(rng, objs, 2))
        return e
    others = [x for x in models if x is not m and x["where"] == "init"]
    if rng.random() < 0.15 and others:
        o = rng.choice(others)
        objs.append(["x", o["name"], "v", rng.choice([v for v in o["vars"] if not v.get("time")])["n"]])
        e["nocheck"] = True
    e["l"] = stamped(rng, gen_ast(rng, objs, rng.randint(0, 3)))
    r = rng.random()
    if r < 0.2:
        e["r"] = gen_ast(rng, objs, 1)
    elif r < 0.35:
        e["r"] = ["n", rng.choice([0, 0.0, 1, G.r3(rng.uniform(-3, 3))])]
    if e.get("r") is not None and not has_var(e["l"]):
        e["l"] = ["+", e["l"], ["v", m["vars"][0]["n"] if not m["vars"][0].get("time") else m["vars"][1]["n"]]]
    if not has_var(e["l"]) and not has_var(e.get("r") or ["n", 0]):
        e["l"] = ["+", e["l"], objs[-1] if objs[-1][0] in "vx" else ["v", m["vars"][-1]["n"]]]
    return e


def has_var(ast):
    return any(a[0] in ("v", "x", "d") for a in G.walk(ast))


def regroup(rng, a):
    """Another grouping of the same operands, else another operation: another equation in any case"""
    op, x, y = a
    if y[0] in ("+", "-", "*") and (op == "-" or op != y[0] and "*" in (op, y[0])):
        return [y[0], [op, x, y[1]], y[2]]
    if x[0] in ("+", "-", "*") and (x[0] == "-" or op != x[0] and "*" in (op, x[0])):
        return [x[0], x[1], [op, x[2], y]]
    return [{"+": "-", "-": "*", "*": "+"}[op], x, y]


def gen_conns(rng, models):
    conns = []
    pairs = [(a, b) for a in models for b in models if a is not b or rng.random() < 0.15]     # a recycle connects a model to itself
    if not pairs:
        return conns
    few = rng.sample(pairs, min(len(pairs), rng.randint(1, 2)))
    for _ in range(rng.randint(0, 6)):
        a, b = rng.choice(few if rng.random() < 0.8 else pairs)
        outs = [v["n"] for v in a["vars"] if v.get("exposed") == "output"]
        ins = [v["n"] for v in b["vars"] if v.get("exposed") == "input"]
        if conns and rng.random() < 0.15:
            conns.append(json.loads(json.dumps(rng.choice(conns))))      # made again
            continue
        if conns and rng.random() < 0.15:
            c = json.loads(json.dumps(rng.choice(conns)))                # the same objects, grouped otherwise
            k = next((k for k in ("expr", "out", "in") if c.get(k) and c[k][0] in "+-*"), None)
            if k:
                c[k] = regroup(rng, c[k])
                conns.append(c)
                continue
        mode = rng.choice(["vars", "vars", "expr_model", "expr_str", "expr_anon"])
        c = {"mode": mode, "m1": a["name"], "m2": b["name"], "outs": [], "ins": []}
        if mode == "vars":
            no, ni = rng.choice([(1, 1), (1, 1), (2, 1), (1, 2), (2, 2), (3, 2)])
            c["outs"] = rng.sample(outs, min(no, len(outs)))
            c["ins"] = rng.sample(ins, min(ni, len(ins)))
            c["lists"] = rng.random() < 0.4
            if rng.random() < 0.35:
                objs = [["x", a["name"], "v", n] for n in c["outs"]] + [["x", b["name"], "v", n] for n in c["ins"]]
                f = ["n", G.r3(rng.uniform(0.5, 2))]
                if rng.random() < 0.4:
                    o = rng.choice([a, b])
                    f = ["x", o["name"], "p", [p["n"] for p in o["params"] if p.get("conn")][0]]
                c["expr"] = stamped(rng, ["+", ["*", f, objs[0]], gen_ast(rng, objs, 2)])
        else:
            oo = [["x", a["name"], "v", v["n"]] for v in a["vars"] if not v.get("time")]
            io = [["x", b["name"], "v", v["n"]] for v in b["vars"] if not v.get("time")]
            if mode != "expr_anon" and rng.random() < 0.5:
                o = rng.choice([a, b])
                (oo if o is a else io).append(["x", o["name"], "p", [p["n"] for p in o["params"] if p.get("conn")][0]])
            c["out"] = gen_ast(rng, oo, rng.choice([0, 0, 1, 2]))
            c["in"] = gen_ast(rng, io, rng.choice([0, 0, 1, 2]))
            if not has_var(c["out"]):
                c["out"] = oo[0]
            if not has_var(c["in"]):
                c["in"] = io[0]
            if rng.random() < 0.5:
                c["out"] = stamped(rng, c["out"])
            c["label"] = "" if mode == "expr_anon" else rng.choice(["link", "l1", "1", "2", a["name"], b["name"], a["name"] + "'"])
        conns.append(c)
    return conns


def gen(rng, i, tier):
    nm = rng.choice([1, 2, 2, 3, 4])
    names = rng.sample(G.MODEL_NAMES + ["A_B"], nm) if rng.random() < 0.7 else rng.sample(["A", "B", "A_B", "AB"], nm)
    dynamic = rng.random() < 0.35
    tname = rng.choice(["t", "time", "tau_"]) if dynamic else None
    models = [gen_model(rng, n, tname) for n in names]
    if dynamic:
        models[0]["vars"].insert(0, {"n": tname, "u": {}, "time": True})
        for m in models:
            m["tref"] = [names[0], tname]
            m["where"] = "init"
    flags = []
    for m in models:
        used = set()
        for k in range(rng.choice([0, 1, 2, 3, 3, 4, 6, 8])):
            free = [n for n in NAMES if n not in used]
            nme = "" if rng.random() < 0.45 else rng.choice(free)
            used.add(nme)
            e = gen_eq(rng, m, models, tname, nme)
            m["eqs"].append(e)
            r = rng.random()
            if r < 0.25:
                f = rng.choice(flags) if flags and rng.random() < 0.5 else "f%d" % len(flags)
                if f not in flags:
                    flags.append(f)
                e["if"] = rng.choice([f, "!" + f])
                if rng.random() < 0.5:
                    a = gen_eq(rng, m, models, tname, rng.choice([nme, nme, ""]))
                    a["if"] = e["if"].lstrip("!") if e["if"].startswith("!") else "!" + f
                    m["eqs"].insert(rng.randint(0, len(m["eqs"])), a)
            elif r < 0.32:
                same = json.loads(json.dumps(e))
                same["n"] = ""
                m["eqs"].append(same)
    spec = {"kind": "system", "models": models, "conns": gen_conns(rng, models), "tvars": [G.full(names[0], tname)] if dynamic else [],
            "order": list(names), "add_one_by_one": rng.random() < 0.5}
    rng.shuffle(spec["order"])
    if dynamic:
        spec["domain"] = {"n": "dom", "u": {}, "t": [names[0], tname], "order": [[m["name"], v["n"]] for m in models for v in m["vars"] if not v.get("time")]}
    late = rng.sample(names, rng.randint(0, nm - 1)) if rng.random() < 0.3 else []
    todo = [{"op": "conn", "c": k} for k in range(len(spec["conns"]))] + [{"op": "add", "m": n} for n in late]
    rng.shuffle(todo)
    ops = []
    extras = 0
    for _ in range(rng.randint(3, 12)):
        r = rng.random()
        if todo and r < 0.3:
            op = todo.pop()
        elif r < 0.5:
            op = {"op": "resolve"}
        elif r < 0.62 and flags:
            op = {"op": "flag", "f": rng.choice(flags)}
        elif r < 0.72:
            op = {"op": "declare", "m": rng.choice(names)}
        elif r < 0.82:
            m = rng.choice(models)
            op = {"op": "extra", "m": m["name"], "e": gen_eq(rng, m, models, tname, rng.choice(["", "", "extra1", "extra2", "1x"]))}
        elif r < 0.86 and spec["conns"]:
            op = {"op": "set", "m": rng.choice(names), "v": G.r3(rng.uniform(0.5, 2))}
        elif r < 0.92:
            m = rng.choice(models)
            op = {"op": "fails", "m": m["name"], "k": rng.randint(0, max(0, len(m["eqs"]) - 1)), "via": rng.choice(["declare", "resolve"]), "retry": rng.random() < 0.5}
        elif nm > 1:
            sub = rng.sample(names, 2)
            bodies = []
            for n in sub:
                b = []
                for _k in range(rng.randint(1, 3)):
                    m = [x for x in models if x["name"] == n][0]
                    b.append({"op": "declare", "m": n} if rng.random() < 0.5 else {"op": "extra", "m": n, "e": gen_eq(rng, m, models, tname, "")})
                bodies.append(b)
            if rng.random() < 0.4:
                # several threads create equations in the same model
                m = rng.choice(models)
                bodies = [[{"op": "extra", "m": m["name"], "e": gen_eq(rng, m, models, tname, "")} for _k in range(rng.randint(1, 3))] for _b in range(2)]
            op = {"op": "threads", "bodies": bodies, "strategy": sched.gen_strategy(rng, 600)}
        else:
            op = {"op": "resolve"}
        if op["op"] in ("resolve", "declare", "conn") and rng.random() < 0.25:
            op["interrupt"] = {"r": rng.randint(0, 10 ** 9), "kind": rng.choice(["interrupt", "memory"]), "fine": False, "times": rng.choice([1, 1, 2])}
        ops.append(op)
    ops += todo
    return {"spec": spec, "late": late, "ops": ops}


class Want:
    """The system that should be solved, as far as the history has gone"""

    def __init__(self, spec):
        self.spec = spec
        self.models = []
        self.extra = {m["name"]: {} for m in spec["models"]}
        self.conns = {m["name"]: {} for m in spec["models"]}
        self.k = 0

    def add_extra(self, mn, e):
        self.k += 1
        self.extra[mn][e["n"] or "#%d" % self.k] = e

    def add_conn(self, c):
        self.k += 1
        if c["mode"] == "vars":
            key = ["vars", c["outs"], c["ins"], c.get("expr")]
        elif c["mode"] == "expr_anon":
            key = ["anon", self.k]
        else:
            key = ["expr", c["m1"] if c["mode"] == "expr_model" else c["label"], c["out"], c["in"]]
        self.conns[c["m2"]][json.dumps(key)] = c

    def equations(self, flags):
        out = []
        for mn in self.models:
            m = [x for x in self.spec["models"] if x["name"] == mn][0]
            out += [(mn, e) for e in m["eqs"] if G.active(e, flags)]
            out += [(mn, e) for e in self.extra[mn].values()]
            out += [(mn, G.conn_equation(c)) for c in self.conns[mn].values()]
        return out


def points(spec, n=3):
    r = rng_for("c14-points")
    envs = []
    for _ in range(n):
        env = {}
        for m in spec["models"]:
            for v in m["vars"]:
                f = G.full(m["name"], v["n"])
                env[f] = r.uniform(-1.5, 1.5)
                env["d:" + f] = r.uniform(-1.5, 1.5)
            for p in m["params"] + m["consts"]:
                env[G.full(m["name"], p["n"])] = float(p["v"]) if p["v"] is not None else r.uniform(-1.5, 1.5)
        envs.append(env)
    return envs


def value(expr, env):
    expr = sp.sympify(expr)
    expr = expr.xreplace({d: sp.Float(env["d:" + str(d.args[0])]) for d in expr.atoms(sp.Derivative)})
    return complex(expr.subs({s: env[str(s)] for s in expr.free_symbols}).evalf()).real


def uses(c, mn, name):
    return any(a == ["x", mn, "p", name] for k in ("expr", "out", "in") if c.get(k) for a in G.walk(c[k]))


def compare(ctx, spec, exprs, want, what):
    envs = points(spec)
    got = []
    for x in exprs:
        try:
            got.append([value(x, env) for env in envs])
        except (KeyError, TypeError, ValueError) as e:
            ctx.fail(what + "-unreadable", "%s: %r" % (x, e))
    left = list(range(len(got)))
    for mn, e in want:
        ref = [G.residual(e, env, mn) for env in envs]
        hit = None
        for k in left:
            for s in (1.0, -1.0):
                if all(abs(s * g - r) <= 1e-7 * (1 + abs(r)) for g, r in zip(got[k], ref)):
                    hit = k
                    break
            if hit is not None:
                break
        if hit is None:
            dup = any(all(abs(g - r) <= 1e-7 * (1 + abs(r)) for g, r in zip(got[k], ref)) for k in range(len(got)))
            ctx.fail(what + "-misses-equation", "%s %s of %s is not in it%s: %s" % (e.get("n"), json.dumps(e), mn, " a second time" if dup else "", [str(x) for x in exprs]))
        left.remove(hit)
    ctx.check(not left, what + "-has-more-equations", lambda: "not declared, or there twice: %s" % [str(exprs[k]) for k in left])


class Recorded(SimulatedFault):
    pass


def through_backend(ctx, s, want):
    """The system the backend receives from a run"""
    box = []

    def rec(real, f, a, kw):
        box.append(list(f))
        raise Recorded("recorded")
    kind = s.prob._getProblemType()
    if kind not in ("linear",):
        return
    s.make_simulation()
    s.sim.setConfigurations(linear_solver="sympy")
    SIM.symsolve = rec
    try:
        build.attempt(s.sim.runSimulation, sanity_check=False, show_output_msg=False, show_final_residuals=False)
    finally:
        SIM.symsolve = None
    if box:
        compare(ctx, s.spec, box[0], want, "solved-system")
        ctx.probe("compared_at_the_backend")


def do(s, want, op):
    o = op["op"]
    if o == "declare":
        s.built.models[op["m"]]()
    elif o == "resolve":
        s.prob.resolve()
    elif o == "add":
        s.prob.addModels(s.built.models[op["m"]])
    elif o == "conn":
        s.connect_one(s.spec["conns"][op["c"]])
    elif o == "extra":
        build.make_equation(s.built.models[op["m"]], op["e"], s.built.get(s.built.models[op["m"]]))


def done(want, op, spec):
    o = op["op"]
    if o == "add":
        want.models.append(op["m"])
    elif o == "conn":
        want.add_conn(spec["conns"][op["c"]])
    elif o == "extra":
        want.add_extra(op["m"], op["e"])


def run(plan, ctx):
    spec = json.loads(json.dumps(plan["spec"]))
    names = [m["name"] for m in spec["models"]]
    if not names or sorted(spec["order"]) != sorted(names):
        return
    s = build.Session(spec)
    s.build_models().declare().make_problem()
    want = Want(spec)
    first = [n for n in spec["order"] if n not in plan["late"]]
    if not first:
        return
    if spec["add_one_by_one"]:
        for n in first:
            s.prob.addModels(s.built.models[n])
    else:
        s.prob.addModels([s.built.models[n] for n in first])
    want.models += first
    systems = set()

    def check(where):
        eqs = s.prob.equation_block.equations
        w = want.equations(s.built.flags)
        compare(ctx, spec, [e.equation_expression.symbolic_object for e in eqs], w, "resolved-system")
        ctx.ev("resolved", where, len(eqs))
        systems.add(json.dumps(w, sort_keys=True))
        ctx.probe("systems_compared")
        through_backend(ctx, s, w)
    hist = []
    for op in plan["ops"] + [{"op": "resolve"}]:
        o = op["op"]
        if o == "flag":
            s.built.flags[op["f"]] = not s.built.flags.get(op["f"], False)
            hist.append("flag")
            continue
        if o == "set":
            # the value of a parameter changes and the connections that use it are made again
            q = [p for m in spec["models"] if m["name"] == op["m"] for p in m["params"] if p.get("conn")]
            if not q:
                continue
            q[0]["v"] = op["v"]
            s.obj(op["m"], q[0]["n"]).setValue(op["v"])
            again = [c for cs in want.conns.values() for c in cs.values() if uses(c, op["m"], q[0]["n"])]
            for c in again:
                s.connect_one(c)
            hist.append(["set", len(again)])
            continue
        if o == "fails":
            m = s.built.models.get(op["m"])
            if m is None:
                continue
            fired = []

            def hook(model, k):
                if k >= op["k"] and not fired:
                    fired.append(k)
                    raise SimulatedFault("the user's declaration failed")
            m._hook = hook
            f = {"op": op["via"], "m": op["m"]}
            kind, out = build.attempt(do, s, want, f)
            m._hook = None
            if fired:
                ctx.fault("declaration_error")
                ctx.check(kind == "err", "failed-declaration-unnoticed", repr(out))
                if op["retry"]:
                    do(s, want, f)
            if (not fired or op["retry"]) and op["via"] == "resolve":
                check("after a failed declaration")
            hist.append(["fails", bool(fired), op["via"], op["retry"]])
            continue
        if o == "threads":
            if any(b["m"] not in names for bs in op["bodies"] for b in bs):
                continue
            bodies = [(lambda bs: (lambda: [do(s, want, b) for b in bs]))(bs) for bs in op["bodies"]]
            S = sched.Scheduler(ctx, bodies, op["strategy"], op.get("switches"))
            out = S.run()
            if not S.explicit:
                op["switches"] = S.taken
            ctx.fault("preemption", len(S.taken))
            for k, x in enumerate(out):
                ctx.check(x is not None and x[0] == "ok", "declaration-fails-in-thread", lambda: repr(x))
            for bs in op["bodies"]:
                for b in bs:
                    done(want, b, spec)
            hist.append(["threads", len(S.taken) > 0])
            continue
        if o == "conn" and (op["c"] >= len(spec["conns"]) or not {spec["conns"][op["c"]]["m1"], spec["conns"][op["c"]]["m2"]} <= set(names)):
            continue
        if o == "add" and (op["m"] not in names or op["m"] in want.models) or o == "declare" and op["m"] not in names:
            continue
        it = op.get("interrupt")
        if it:
            anon = o == "conn" and spec["conns"][op["c"]]["mode"] == "expr_anon"
            for rep in range(0 if anon else it["times"]):
                at = sched.pick_point(lambda: do(s, want, op), dict(it, r=it["r"] + rep))
                if at is None:
                    break
                I = sched.interrupt_at(at, it["kind"], ctx, it["fine"])
                try:
                    with I:
                        do(s, want, op)
                except (SimInterrupt, SimNoMemory):
                    pass
                ctx.ev("interrupted", o, I.fired, getattr(I, "line", None))
                ctx.probe("interrupted_" + o if I.fired else "interrupt_too_late")
                hist.append(["interrupted", o, I.fired])
        do(s, want, op)
        done(want, op, spec)
        hist.append(o)
        if o == "resolve":
            check("resolve")
    ctx.state(hist, [len(m["eqs"]) for m in spec["models"]])
    ctx.nontrivial = len(systems) >= 2
