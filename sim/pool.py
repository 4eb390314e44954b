"""Worker processes, one per hash seed, and the dispatch of cases to them."""
import json
import os
import queue
import shutil
import subprocess
import tempfile
import threading
import time

PY = "/opt/venv/bin/python"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HASHSEEDS = [0, 1, 2, 3, 17, 101, 4242, 99991]


class WorkerFailed(Exception):
    pass


class Worker:
    def __init__(self, hashseed, scratch, twins=False):
        env = dict(os.environ)
        env.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
                   OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", NUMBA_NUM_THREADS="1", PYTHONPATH=VERIF + ":/repo",
                   CAPYSIM_SCRATCH=scratch, PYTHONWARNINGS="ignore")
        if os.path.isdir("/opt/mplconfig"):
            env.setdefault("MPLCONFIGDIR", "/opt/mplconfig")
        else:
            env["MPLCONFIGDIR"] = scratch
        if twins:
            from .twin import hashseed_of
            env["CAPYSIM_TWIN"] = str(hashseed_of(hashseed))
        self.hashseed = hashseed
        self.p = subprocess.Popen([PY, "-W", "ignore", "-m", "sim.worker"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  cwd=VERIF, env=env, text=True)
        self.ready = None

    def wait_ready(self):
        if self.ready is None:
            line = self.p.stdout.readline()
            if not line:
                raise WorkerFailed("worker did not start")
            h = json.loads(line)
            if not h["ready"]:
                raise WorkerFailed(h["msg"])
            self.ready = True

    def ask(self, job):
        self.wait_ready()
        self.p.stdin.write(json.dumps(job) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise WorkerFailed("worker ended")
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(5)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()


class Pool:
    def __init__(self, n=8, hashseeds=None, twins=False):
        self.scratch = tempfile.mkdtemp(prefix="capysim.")
        self.hashseeds = hashseeds or HASHSEEDS
        self.workers = [Worker(self.hashseeds[k % len(self.hashseeds)], self.scratch, twins) for k in range(n)]

    def close(self):
        for w in self.workers:
            w.close()
        shutil.rmtree(self.scratch, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def hashseed_of(self, i):
        return self.hashseeds[i % len(self.hashseeds)]

    def map(self, jobs, on_result, deadline=None, stop=None):
        """jobs: dicts with 'i'; a job goes to the workers whose hash seed is that of case i"""
        by = {}
        for j in jobs:
            by.setdefault(j.get("hashseed", self.hashseed_of(j["i"])), queue.Queue()).put(j)
        lock = threading.Lock()
        errors = []

        def loop(w):
            q = by.get(w.hashseed)
            if q is None:
                return
            try:
                while True:
                    if errors or (deadline is not None and time.monotonic() > deadline):
                        return
                    if stop is not None and stop():
                        return
                    try:
                        j = q.get_nowait()
                    except queue.Empty:
                        return
                    r = w.ask(j)
                    with lock:
                        on_result(j, r)
            except Exception as e:
                errors.append(e)
        ts = [threading.Thread(target=loop, args=(w,)) for w in self.workers]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errors:
            raise errors[0]
