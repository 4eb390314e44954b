"""C07 Only square systems reach a solver, and square systems are never refused for their degrees of freedom."""
import copy

from .. import gen as G, build, dyn
from ..seams import SIM

LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded declaration histories, backend seams counting the solver calls, degrees-of-freedom model"
NOTE = ("Seeded sampling of histories; the expected answer is a count of names and equations of the specification. Whether a solver was "
        "reached is observed at the backend seams (root, linear solve, sympy solve, odeint, CVode, IDA).")
CASES = {"quick": 560, "thorough": 40000}
RULE = ("seeded systems (linear, nonlinear, ODE, DAE) whose equations are switched on and off, whose parameters are left unspecified and "
        "given values later, and whose models and connections are added one by one; every step is resolved and run. Non-trivial: the "
        "history has a refused and an accepted run.")
STATES = "distinct (kind, sequence of changes with excess/deficit and outcome) histories"
REAL = ["capybara analysis/problem/equation_block/simulation code", "sympy", "pyneqsys", "scipy"]
STUB = ["assimulo CVode and IDA (simulated integrators)"]
ASSUMPTIONS = ["numbers of unknowns and equations as counted by /verif/sim/gen.py"]


def gen(rng, i, tier):
    r = rng.random()
    if r < 0.35:
        spec = G.gen_algebraic(rng, "linear", maxn=2)
    elif r < 0.55:
        spec = G.gen_algebraic(rng, "nonlinear", maxn=2)
    elif r < 0.85:
        spec = G.gen_dynamic(rng, "ode")
    else:
        spec = G.gen_dynamic(rng, "dae")
    flags = []
    for m in spec["models"]:
        vs = [v for v in m["vars"] if not v.get("time")]
        if rng.random() < 0.7:
            f = "x_" + m["name"]
            x = ["v", rng.choice(vs)["n"]]
            e = {"l": ["-", ["*", ["n", 2.0], x], x]}
            if m["eqs"] and rng.random() < 0.35:
                # the same equation once more, under another name
                d = rng.choice(m["eqs"])
                e = {k: copy.deepcopy(d[k]) for k in ("l", "r") if k in d}
            m["eqs"].insert(rng.randint(0, len(m["eqs"])), {"n": rng.choice(["extra", "", "zz"]), **e, "if": f, "nocheck": True})
            flags.append(f)
        if m["eqs"] and rng.random() < 0.5:
            f = "r_" + m["name"]
            e = rng.choice(m["eqs"])
            if "if" not in e:
                e["if"] = "!" + f
                flags.append(f)
    free = []
    if rng.random() < 0.45:
        for m in spec["models"]:
            for p in m["params"]:
                if p["v"] is not None and rng.random() < 0.3 and m["where"] == "init":
                    free.append([m["name"], p["n"], p["v"]])
                    p["v"] = None
    late = 0
    if spec["kind"] in ("linear", "nonlinear") and len(spec["models"]) > 1 and rng.random() < 0.7:
        late = rng.randint(1, len(spec["models"]) - 1)
    names = [m["name"] for m in spec["models"]]
    held = names[len(names) - late:] if late else []
    ops = [{"op": "nop"}]
    pool = [{"op": "specify", "p": p} for p in free]
    order = [{"op": "model", "m": n} for n in held] + [{"op": "conn", "c": k} for k, c in enumerate(spec["conns"])
                                                       if c["m1"] in held or c["m2"] in held or rng.random() < 0.2]
    for _ in range(rng.randint(2, 6)):
        if flags:
            pool.append({"op": "flag", "f": rng.choice(flags)})
    if rng.random() < 0.3:
        pool.append({"op": "nop"})
    rng.shuffle(pool)
    ops += merge(rng, pool, order)
    withheld = [o["c"] for o in order if o["op"] == "conn"]
    conf = G.gen_conf(rng, spec)
    if rng.random() < 0.3:
        conf["number_parameters_to_optimize"] = rng.randint(1, 3)
    return {"spec": spec, "held": held, "withheld": withheld, "ops": ops, "conf": conf, "msg": rng.random() < 0.3}


def merge(rng, a, b):
    a, b, out = list(a), list(b), []
    while a or b:
        out.append(a.pop(0) if a and (not b or rng.random() < 0.5) else b.pop(0))
    return out


def counts(spec, flags, over):
    """unknown variables, unspecified parameters, equations"""
    eqs = G.all_equations(spec, flags)
    tv = set(spec["tvars"])
    vs = set(G.unknowns(spec, flags)) - tv
    pars = set()
    for mn, e in eqs:
        for side in (e["l"], e.get("r")):
            if side is not None:
                pars.update(G.mentions(side, mn, kinds=("p",)))
    env = G.values_of(spec, over)
    return len(vs), len([p for p in pars if p not in env]), len(eqs)


def run(plan, ctx):
    spec, conf = plan["spec"], plan["conf"]
    full = spec
    names = {m["name"] for m in spec["models"]}
    if not names or set(spec["order"]) != names:
        return
    present = [n for n in spec["order"] if n not in plan["held"]]
    conns = [k for k in range(len(spec["conns"])) if k not in plan["withheld"]]
    for k in conns:
        if spec["conns"][k]["m1"] not in present or spec["conns"][k]["m2"] not in present:
            return
    if not present:
        return

    def current():
        c = dict(full)
        c["models"] = [m for m in full["models"] if m["name"] in present]
        c["conns"] = [full["conns"][k] for k in conns]
        return c
    s = build.Session(spec)
    s.build_models().declare().make_problem()
    for n in present:
        s.prob.addModels(s.built.models[n])
    for k in conns:
        s.connect_one(spec["conns"][k])
    s.set_time()
    over = {}
    hist = []
    seen = set()
    first = True
    for op in plan["ops"]:
        o = op["op"]
        if o == "specify":
            mn, n, v = op["p"]
            try:
                s.obj(mn, n).setValue(v)
            except KeyError:
                return
            over[G.full(mn, n)] = v
        elif o == "flag":
            s.built.flags[op["f"]] = not s.built.flags.get(op["f"], False)
        elif o == "model":
            if op["m"] not in s.built.models or op["m"] in present:
                continue
            s.prob.addModels(s.built.models[op["m"]])
            present.append(op["m"])
        elif o == "conn":
            c = spec["conns"][op["c"]] if op["c"] < len(spec["conns"]) else None
            if c is None or op["c"] in conns or c["m1"] not in present or c["m2"] not in present:
                continue
            s.connect_one(c)
            conns.append(op["c"])
        cur = current()
        flags = dict(s.built.flags)
        if not G.all_equations(cur, flags):
            continue
        s.prob.resolve()
        if first and spec["tvars"]:
            s.set_ics()
        if first:
            s.make_simulation()
            first = False
        if spec["tvars"]:
            s.sim.reset()
        s.conf = conf
        kw = s.kwargs(conf)
        if conf.get("@guess"):
            un = G.unknowns(cur, flags)
            kw["initial_guess"] = {n: conf["guess_values"][j % len(conf["guess_values"])] for j, n in enumerate(un)}
        s.sim.setConfigurations(**kw)
        nv, nu, ne = counts(cur, flags, over)
        dof = nv + nu - ne
        SIM.calls.clear()
        dyn.arm(ctx, None, None)
        kind, out = build.attempt(s.run, show_output_msg=plan["msg"], show_final_residuals=plan["msg"])
        dyn.disarm()
        calls = SIM.backend_calls()
        ctx.ev(o, nv, nu, ne, kind, type(out).__name__ if kind == "err" else None, calls)
        hist.append([o, dof, nu, kind])
        if dof != 0:
            ctx.check(kind == "err", "non-square-system-accepted", lambda: "%d variables, %d unspecified parameters, %d equations" % (nv, nu, ne))
            ctx.check(calls == 0, "solver-called-for-non-square-system",
                      lambda: "%d variables, %d unspecified parameters, %d equations: %s" % (nv, nu, ne, SIM.calls))
            ctx.probe("over_specified_refused" if dof < 0 else "under_specified_refused")
            seen.add("refused")
            continue
        if kind == "err":
            ctx.check("egrees of" not in str(out), "square-system-refused",
                      lambda: "%d variables, %d unspecified parameters, %d equations: %s" % (nv, nu, ne, out))
        regular = spec["kind"] in ("linear", "nonlinear") or not any(flags.values())
        if nu == 0 and regular:
            ctx.check(calls > 0, "square-system-not-solved",
                      lambda: "%d variables, %d equations, no solver was called: %r" % (nv, ne, out))
            ctx.probe("square_reached_solver")
            seen.add("accepted")
    ctx.nontrivial = len(seen) == 2
    ctx.state(spec["kind"], len(spec["models"]), hist)
