"""A second worker process with another hash seed, asked by the runs of the first one (its runs are forked from a clean process too)."""
import json
import os
import subprocess
import sys

_twin = None


def hashseed_of(hashseed):
    """The hash seed of the twin of a worker"""
    return (int(hashseed) * 7919 + 1000003) % 4294967295


def start():
    """Called once in a worker, before it serves; the twin is a worker without a twin"""
    global _twin
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = env.pop("CAPYSIM_TWIN")
    p = subprocess.Popen([sys.executable, "-W", "ignore", "-m", "sim.worker"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=env, bufsize=0)
    _twin = [p, False, env]


def ready():
    line = _line()
    h = json.loads(line) if line else {"ready": False, "msg": "the twin did not start"}
    if not h["ready"]:
        raise RuntimeError(h["msg"])


def _line():
    out = []
    fd = _twin[0].stdout.fileno()
    while True:
        b = os.read(fd, 1 << 16)
        if not b:
            return ""
        out.append(b)
        if b.endswith(b"\n"):
            return b"".join(out).decode()


def restart():
    """After a run of this worker ended without having read an answer"""
    if _twin is None:
        return
    p = _twin[0]
    p.stdin.close()
    p.kill()
    p.wait()
    os.environ["CAPYSIM_TWIN"] = _twin[2]["PYTHONHASHSEED"]
    start()
    ready()


def close():
    if _twin is not None:
        _twin[0].stdin.close()


def ask(job):
    """Run a job in a process forked from the twin"""
    data = (json.dumps(job) + "\n").encode()
    fd = _twin[0].stdin.fileno()
    while data:
        data = data[os.write(fd, data):]
    line = _line()
    if not line:
        raise RuntimeError("the twin ended")
    return json.loads(line)
