"""Faults of the numerical backends, as handlers for the seams."""
import numpy as np

from .core import SimulatedFault
from .seams import SIM


class BackendError(SimulatedFault, RuntimeError):
    pass


ROOT_KINDS = ["fail", "fail_real", "false_success", "false_success", "nan", "inf", "raise", "zeros"]
LIN_KINDS = ["raise", "wrong", "nan", "inf"]
SYM_KINDS = ["none", "complex", "wrong", "partial", "raise", "extra_wrong_first", "extra_wrong_last", "nan"]


def gen_fault(rng, kind_of_problem, conf):
    solver = conf.get("linear_solver", "symbolicsys") if kind_of_problem == "linear" else conf.get("nonlinear_solver", "*")
    if solver == "scipy":
        return {"at": "linsolve", "kind": rng.choice(LIN_KINDS), "size": float("%.3g" % 10 ** rng.uniform(-4, 1)), "k": rng.randint(0, 7), "call": 0}
    if solver == "sympy":
        return {"at": "symsolve", "kind": rng.choice(SYM_KINDS), "size": float("%.3g" % 10 ** rng.uniform(-4, 1)), "k": rng.randint(0, 7), "call": 0}
    call = rng.randint(0, 1) if conf.get("initial_guess_solver") is not None and kind_of_problem == "nonlinear" else 0
    return {"at": "root", "kind": rng.choice(ROOT_KINDS), "size": float("%.3g" % 10 ** rng.uniform(-4, 1)), "k": rng.randint(0, 7), "call": call}


def arm(fault, ctx):
    """Install one backend fault; it fires at the given call of that backend"""
    n = {"calls": 0}
    kind = fault["kind"]

    def due():
        n["calls"] += 1
        return n["calls"] - 1 == fault["call"]

    def root(real, fun, x0, a, kw):
        if not due():
            return real(fun, x0, *a, **kw)
        ctx.fault("root_" + kind)
        if kind == "raise":
            raise BackendError("root failed")
        if kind == "fail_real":
            kw = dict(kw)
            opts = dict(kw.get("options") or {})
            opts.pop("maxiter", None)
            opts.pop("maxfev", None)
            opts["maxiter" if kw.get("method") == "lm" else "maxfev"] = 1
            kw["options"] = opts
            return real(fun, x0, *a, **kw)
        s = real(fun, x0, *a, **kw)
        x = np.array(s.x, dtype=float)
        k = fault["k"] % len(x)
        if kind == "fail":
            s.success = False
            s.message = "simulated failure"
            x = x + fault["size"]
        else:
            s.success = True
            if kind == "false_success":
                x[k] += fault["size"]
            elif kind == "nan":
                x[k] = np.nan
            elif kind == "inf":
                x[k] = np.inf
            elif kind == "zeros":
                x[:] = 0.0
        s.x = x
        return s

    def linsolve(real, A, b, a, kw):
        if not due():
            return real(A, b, *a, **kw)
        ctx.fault("linsolve_" + kind)
        if kind == "raise":
            raise np.linalg.LinAlgError("simulated singular matrix")
        x = np.array(real(A, b, *a, **kw), dtype=float)
        f = x.reshape(-1)
        k = fault["k"] % len(f)
        if kind == "wrong":
            f[k] += fault["size"]
        else:
            f[k] = np.nan if kind == "nan" else np.inf
        return f.reshape(x.shape)

    def symsolve(real, f, a, kw):
        if not due():
            return real(f, *a, **kw)
        import sympy as sp
        ctx.fault("symsolve_" + kind)
        if kind == "raise":
            raise NotImplementedError("simulated: could not solve")
        sols = real(f, *a, **kw)
        if kind == "none" or not isinstance(sols, list) or not sols:
            return []

        def changed(s, g):
            s = dict(s)
            keys = sorted(s, key=str)
            kk = keys[fault["k"] % len(keys)]
            r = g(s[kk])
            if r is None:
                s.pop(kk)
            else:
                s[kk] = r
            return s
        if kind == "complex":
            return [changed(s, lambda v: v + sp.I * fault["size"]) for s in sols]
        if kind == "wrong":
            return [changed(s, lambda v: v + fault["size"]) for s in sols]
        if kind == "nan":
            return [changed(s, lambda v: sp.nan) for s in sols]
        if kind == "partial":
            return [changed(s, lambda v: None) for s in sols]
        if kind == "extra_wrong_first":
            return [changed(sols[0], lambda v: v + fault["size"])] + list(sols)
        return list(sols) + [changed(sols[0], lambda v: v + fault["size"])]

    SIM.root = SIM.linsolve = SIM.symsolve = None
    setattr(SIM, fault["at"], {"root": root, "linsolve": linsolve, "symsolve": symsolve}[fault["at"]])
    return n


def disarm():
    SIM.root = SIM.linsolve = SIM.symsolve = None
