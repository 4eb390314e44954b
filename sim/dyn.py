"""Faults and evaluation schedules of the simulated and real integrators, shared by the dynamic properties."""
import numpy as np

from .core import SimulatedFault, rng_for
from .integrators import Schedule, ExplicitIntegrator, ImplicitIntegrator, IntegratorFailure
from .seams import SIM

ODEINT_KINDS = ["message", "message", "nan", "raise", "late_raise"]
METHODS = ["DOP853", "RK45", "LSODA", "Radau"]


def gen_fault(rng, kind, conf):
    if kind == "dae":
        return {"at": "ida", "kind": rng.choice(["make_consistent", "evaluations", "evaluations"]), "n": rng.randint(0, 40)}
    if conf.get("differential_solver") == "CVODE":
        return {"at": "cvode", "kind": "evaluations", "n": rng.choice([0, 1, rng.randint(2, 60)])}
    return {"at": "odeint", "kind": rng.choice(ODEINT_KINDS), "n": rng.randint(1, 60), "row": rng.randint(0, 8)}


def gen_schedule(rng):
    return {"seed": rng.randint(0, 10 ** 6), "extra": rng.choice([0.0, 0.1, 0.4]), "dup": rng.choice([0.0, 0.1, 0.3]),
            "method": rng.choice(METHODS[:3])}


def arm(ctx, fault, sched, seen=None):
    """Install the integrators of one run: evaluation schedule and at most one fault.  Returns a list of observations."""
    obs = [] if seen is None else seen

    def mism(t, y, a, b):
        obs.append(("impure", float(t), np.array(y).tolist(), a.tolist(), b.tolist()))

    def mut(t, y, b):
        obs.append(("argument-changed", float(t), np.array(y).tolist(), np.array(b).tolist()))
    counters = ctx.faults
    kw = dict(on_mismatch=mism, on_mutation=mut, counters=counters)
    s = sched or {"seed": 0, "extra": 0.0, "dup": 0.0, "method": "DOP853"}
    fail = fault["n"] if fault and fault["kind"] == "evaluations" else None
    SIM.cvode = ExplicitIntegrator(Schedule(rng=rng_for("sched", s["seed"]), extra=s["extra"], dup=s["dup"], method=s["method"],
                                            fail_after=fail if fault and fault["at"] == "cvode" else None, **kw))
    ida = ImplicitIntegrator(Schedule(rng=rng_for("sched", s["seed"]), extra=s["extra"], dup=s["dup"], method="DOP853",
                                      fail_after=fail if fault and fault["at"] == "ida" else None, **kw))
    if fault and fault["at"] == "ida" and fault["kind"] == "make_consistent":
        def mc(problem, method):
            ctx.fault("ida_make_consistent")
            raise IntegratorFailure("no consistent initial values (simulated)")
        ida.make_consistent = mc
    SIM.ida = ida

    def odeint(real, func, y0, t, a, kw2):
        if fault is None or fault["at"] != "odeint":
            return real(func, y0, t, *a, **kw2)
        ctx.fault("odeint_" + fault["kind"])
        k = fault["kind"]
        if k == "raise":
            raise IntegratorFailure("odeint failed (simulated)")
        if k == "late_raise":
            n = {"n": 0}

            def f2(*args):
                n["n"] += 1
                if n["n"] > fault["n"]:
                    raise IntegratorFailure("evaluation failed (simulated)")
                return func(*args)
            return real(f2, y0, t, *a, **kw2)
        r = real(func, y0, t, *a, **kw2)
        full = kw2.get("full_output")
        Y, info = r if full else (r, {})
        Y = np.array(Y)
        row = fault["row"] % len(Y)
        if k == "message":
            Y[row:] = 0.0 if fault["n"] % 2 else 1e300
            if full:
                info = dict(info)
                info["message"] = "Excess work done on this call (perhaps wrong Dfun type)."
        else:
            Y[row:] = np.nan
        return (Y, info) if full else Y
    SIM.odeint = odeint
    return obs


def disarm():
    SIM.odeint = SIM.cvode = SIM.ida = None
