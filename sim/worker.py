"""A worker: imports capybara once behind the seams, then forks one process per simulated run."""
import importlib
import json
import os
import resource
import select
import signal
import sys
import time
import traceback

import warnings
warnings.simplefilter("ignore")
from . import seams, twin  # noqa: E402

CPU_LIMIT = 100          # seconds of processor time one run may use (typical: well below 2)
WALL_LIMIT = 400


def run_case(prop, plan, jit=False):
    """One execution in this process. Returns a plain result."""
    from .core import Ctx, Violation, SimulatedFault
    import random
    import numpy as np
    import numba
    mod = importlib.import_module("sim.props." + prop.lower())
    numba.config.DISABLE_JIT = not jit
    random.seed(12345)
    np.random.seed(12345)
    seams.SIM.reset()
    ctx = Ctx(prop, plan)
    res = {"status": "ok", "cls": None, "msg": None}
    try:
        from .build import quiet
        with quiet():
            mod.run(plan, ctx)
    except Violation as v:
        res.update(status="violation", cls=v.cls, msg=v.msg)
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        frames = [(f.filename, f.name) for f in tb]
        inside = [(f, n) for f, n in frames if "/src/sloth/" in f]
        text = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        if inside and not isinstance(e, SystemExit) and "/verif/" not in frames[-1][0]:
            res.update(status="violation", cls="unexpected-" + type(e).__name__, msg=text)
        else:
            res.update(status="harness", cls=type(e).__name__, msg=text)
    finally:
        sys.settrace(None)
        seams.SIM.reset()
    ctx.ev("end", res["status"], res["cls"])
    res.update(digest=ctx.digest(), nlog=ctx.nlog, faults=ctx.faults, probes=ctx.probes, states=sorted(ctx.states),
               simtime=ctx.simtime, nontrivial=bool(ctx.nontrivial), tail=ctx.tail[-40:])
    return res


def run_side(prop, plan, side):
    """One side of a comparison, asked for by a run in the other worker"""
    import numba
    from .build import quiet
    mod = importlib.import_module("sim.props." + prop.lower())
    numba.config.DISABLE_JIT = True
    seams.SIM.reset()
    try:
        with quiet():
            out = mod.side(plan, side)
    finally:
        seams.SIM.reset()
    return {"status": "ok", "out": out}


def gen_plan(prop, seed, i, tier):
    from .core import rng_for
    mod = importlib.import_module("sim.props." + prop.lower())
    return mod.gen(rng_for(prop, seed, i), i, tier)


def child(job, wfd):
    out = {}
    try:
        if "plan" in job:
            plan = job["plan"]
        else:
            plan = gen_plan(job["prop"], job["seed"], job["i"], job["tier"])
        if "side" in job:
            out = run_side(job["prop"], plan, job["side"])
        else:
            out = run_case(job["prop"], plan, job.get("jit", False))
        if out["status"] != "ok" or job.get("want_plan"):
            out["plan"] = plan
    except BaseException as e:
        out = {"status": "harness", "cls": type(e).__name__,
               "msg": "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]}
    data = json.dumps(out, default=repr).encode()
    while data:
        n = os.write(wfd, data)
        data = data[n:]


def fork_case(job):
    r, w = os.pipe()
    t0 = time.monotonic()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGXCPU, signal.SIG_DFL)
            child(job, w)
        finally:
            os._exit(0)
    os.close(w)
    buf = []
    timed_out = False
    while True:
        left = WALL_LIMIT - (time.monotonic() - t0)
        if left <= 0:
            timed_out = True
            os.kill(pid, signal.SIGKILL)
            break
        if not select.select([r], [], [], left)[0]:
            continue
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if st or timed_out:
        twin.restart()
    try:
        res = json.loads(b"".join(buf))
    except ValueError:
        sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else None
        if timed_out:
            res = {"status": "hang", "cls": "hang", "msg": "no progress for %d s" % WALL_LIMIT}
        elif sig in (signal.SIGXCPU,) or (sig == signal.SIGKILL and time.monotonic() - t0 > CPU_LIMIT - 5):
            res = {"status": "hang", "cls": "hang", "msg": "run used more than %d s of processor time" % CPU_LIMIT}
        else:
            res = {"status": "died", "cls": "died", "msg": "process ended by %s" % (("signal %d" % sig) if sig else "exit %d" % os.WEXITSTATUS(st))}
    res["wall"] = round(time.monotonic() - t0, 4)
    return res


def main():
    # the protocol uses private copies of the standard streams; whatever else writes to stdout goes nowhere
    inp = os.fdopen(os.dup(0), "r")
    outp = os.fdopen(os.dup(1), "w")
    null = os.open("/dev/null", os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    if not os.environ.get("CAPYSIM_STDERR"):
        os.dup2(null, 2)
    try:
        if os.environ.get("CAPYSIM_TWIN"):
            twin.start()
        os.chdir(os.environ["CAPYSIM_SCRATCH"])
        seams.install()
        seams.import_sut()
        if os.environ.get("CAPYSIM_TWIN"):
            twin.ready()
        hello = {"ready": True}
    except BaseException as e:
        hello = {"ready": False, "msg": "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:],
                 "inside": "/src/sloth/" in "".join(f.filename for f in traceback.extract_tb(e.__traceback__))}
    outp.write(json.dumps(hello) + "\n")
    outp.flush()
    if not hello["ready"]:
        return
    for line in inp:
        job = json.loads(line)
        res = fork_case(job)
        res["i"] = job.get("i")
        outp.write(json.dumps(res) + "\n")
        outp.flush()
    twin.close()


if __name__ == "__main__":
    main()
