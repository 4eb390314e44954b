"""The simulated thread scheduler, and faults at chosen points of the code under test.

Both observe the line (or bytecode) events of capybara's own code objects, and of the model code of the simulated user,
through sys.monitoring.  Exactly one simulated thread runs at any time; at every event the schedule decides which one goes on.
"""
import dis
import gc
import random
import sys
import threading
import types

from .core import SimInterrupt, SimNoMemory, Violation, rng_for

TOOL = 4
mon = sys.monitoring
_codes = {}
_active = None            # callable(code) called at every event


def _collect(code, out):
    out.add(code)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _collect(c, out)


def sut_codes(part=None):
    """Code objects of capybara's functions (of files whose name contains `part`), and of the user's models"""
    if not _codes:
        from . import build
        build.api()
        cls = build.model_class()
        s = set()
        for o in gc.get_objects():
            if isinstance(o, types.FunctionType) and "/src/sloth/" in o.__code__.co_filename:
                _collect(o.__code__, s)
        for o in vars(cls).values():
            if isinstance(o, types.FunctionType):
                _collect(o.__code__, s)
        for f in (build.make_equation, build.expr):
            _collect(f.__code__, s)
        for c in sorted(s, key=lambda c: (c.co_filename, c.co_firstlineno, c.co_name)):
            _codes.setdefault(c.co_filename.rsplit("/", 1)[-1], []).append(c)
    return [c for f, cs in sorted(_codes.items()) if part is None or part in f for c in cs]


def user_codes():
    sut_codes()
    return _codes.get("build.py", [])


# An interrupt or a failed allocation can only surface where the interpreter checks for signals, calls or allocates; loads and
# stores of names, attributes and items do not count, so that two plain assignments in a row are one step
RAISING = ("CALL", "BINARY_", "COMPARE_OP", "CONTAINS_OP", "BUILD_", "LIST_", "SET_", "DICT_", "MAP_ADD", "FOR_ITER", "GET_ITER", "IMPORT_",
           "JUMP_BACKWARD", "RESUME", "UNARY_", "FORMAT_VALUE", "BEFORE_WITH", "MAKE_FUNCTION", "RAISE_VARARGS", "YIELD_VALUE")
_strikable = {}


def strikable(code, off, fine):
    """Can an exception surface at this event, at an instruction under the same handler?"""
    d = _strikable.get(code)
    if d is None:
        d = _strikable[code] = _analyse(code)
    return d[0 if fine else 1].get(off, False)


def _analyse(code):
    ins = list(dis.get_instructions(code))
    table = dis._parse_exception_table(code)

    def handler(o):
        return next((e.target for e in table if e.start <= o < e.end), None)

    def none(i):
        return ins[i].opname == "LOAD_CONST" and ins[i].argval is None
    raising = []
    for i, x in enumerate(ins):
        ok = x.opname.startswith(RAISING)
        if ok and x.opname == "CALL" and x.arg == 2 and i >= 3 and none(i - 1) and none(i - 2) and none(i - 3):
            ok = False              # __exit__ of a with statement: not skipped
        raising.append(ok)
    fine = {x.offset: r for x, r in zip(ins, raising)}
    lines = [next((l for s, e, l in code.co_lines() if s <= x.offset < e), None) for x in ins]
    line = {}
    for i, x in enumerate(ins):
        j = i
        while j < len(ins) and lines[j] == lines[i] and not raising[j]:
            j += 1
        line[x.offset] = j < len(ins) and lines[j] == lines[i] and handler(ins[j].offset) == handler(x.offset)
    return fine, line


class _Tracing:
    def __init__(self, f, fine=False, part=None):
        self.f, self.fine, self.part = f, fine, part

    def __enter__(self):
        global _active
        codes = sut_codes(self.part)
        ev = mon.events.INSTRUCTION if self.fine else mon.events.LINE
        mon.use_tool_id(TOOL, "capysim")
        mon.register_callback(TOOL, ev, self.f)
        self.codes, self.ev = codes, ev
        for c in codes:
            mon.set_local_events(TOOL, c, ev)
        return self

    def __exit__(self, *a):
        for c in self.codes:
            mon.set_local_events(TOOL, c, 0)
        mon.register_callback(TOOL, self.ev, None)
        mon.free_tool_id(TOOL)


class count_points:
    """Counts the events of a block"""

    def __init__(self, fine=False):
        self.n = 0
        self.where = None
        self.fine = fine

    def _ev(self, code, x):
        self.n += 1

    def __enter__(self):
        self.t = _Tracing(self._ev, self.fine)
        self.t.__enter__()
        return self

    def __exit__(self, *a):
        self.t.__exit__()


def sites_of(f, fine=False):
    """The sequence of code sites f would go through, observed in a forked copy of the process"""
    import json
    import os
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            table, seq = {}, []

            def ev(code, x):
                if not strikable(code, sys._getframe(1).f_lasti, fine):
                    return
                k = (code.co_filename.rsplit("/", 1)[-1], code.co_qualname, code.co_firstlineno, x)
                seq.append(table.setdefault(k, len(table)))
            try:
                with _Tracing(ev, fine):
                    f()
            except BaseException:
                pass
            data = json.dumps([[list(k) for k in table], seq]).encode()
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf += b
    os.close(r)
    os.waitpid(pid, 0)
    return json.loads(buf) if buf else [[], []]


def pick_point(f, it):
    """The event at which an interruption `it` strikes f: sites are drawn first, so that rare ones are as likely as frequent ones"""
    table, seq = sites_of(f, it.get("fine", False))
    if not seq:
        return None
    r = random.Random(it["r"])
    how = r.random()
    if how < 0.25:
        return r.randrange(len(seq))
    if how < 0.35:
        return max(0, len(seq) - 1 - r.randrange(min(40, len(seq))))
    site = seq.index(r.randrange(len(table)))
    if r.random() < 0.5:
        return site
    return r.choice([k for k, v in enumerate(seq) if v == seq[site]])


class interrupt_at:
    """Raises KeyboardInterrupt or MemoryError at the k-th event of a block"""

    def __init__(self, k, kind="interrupt", ctx=None, fine=False):
        self.k, self.kind, self.ctx, self.fine = k, kind, ctx, fine
        self.n = 0
        self.fired = None

    def _ev(self, code, x):
        if not strikable(code, sys._getframe(1).f_lasti, self.fine):
            return
        self.n += 1
        if self.n - 1 == self.k and self.fired is None:
            line = x
            if self.fine:
                line = next((l for s, e, l in code.co_lines() if s <= x < e), 0)
            self.fired = "%s:%s" % (code.co_filename.rsplit("/", 1)[-1], code.co_qualname)
            self.line = line
            if self.ctx is not None:
                self.ctx.fault("code_" + self.kind)
            raise SimInterrupt("interrupted (simulated)") if self.kind == "interrupt" else SimNoMemory("allocation failed (simulated)")

    def __enter__(self):
        self.t = _Tracing(self._ev, self.fine)
        self.t.__enter__()
        return self

    def __exit__(self, *a):
        self.t.__exit__()


# ---------------------------------------------------------------- threads

class Stop(BaseException):
    """Ends the simulated threads after a verdict"""


class Scheduler:
    """Runs the bodies as simulated threads.  `switches`: explicit preemptions [[point, thread], ...], or None: drawn from `strategy`."""

    current = None

    def __init__(self, ctx, bodies, strategy, switches=None, kill=None):
        self.kill = dict(kill or {})       # thread -> number of its events after which an allocation fails
        self.own = [0] * len(bodies)
        self.ctx = ctx
        self.bodies = bodies
        self.explicit = switches is not None
        self.table = {int(k): int(t) for k, t in switches} if switches is not None else {}
        self.taken = []
        self.st = strategy
        self.rng = rng_for("sched", strategy["seed"])
        self.k = 0
        self.me = {}
        self.cur = 0
        self.done = [False] * len(bodies)
        self.sem = [threading.Semaphore(0) for _ in bodies]
        self.end = threading.Semaphore(0)
        self.outcomes = [None] * len(bodies)
        self.blocked = [False] * len(bodies)
        self.pairs = set()
        self.stopping = False
        self.points = {}
        if strategy["kind"] == "change":
            n = strategy["n"]
            self.points = {self.rng.randrange(strategy["span"]): None for _ in range(n)}

    # -- schedule
    def others(self, me):
        return [i for i in range(len(self.bodies)) if i != me and not self.done[i]]

    def choose(self, me, code):
        o = self.others(me)
        if not o:
            return None
        if self.explicit:
            t = self.table.get(self.k)
            return t if t in o else None
        st = self.st
        if st["kind"] == "random":
            hit = self.rng.random() < st["p"]
        elif st["kind"] == "focus":
            hit = st["file"] in code.co_filename and self.rng.random() < st["p"]
        elif st["kind"] == "user":
            hit = code.co_filename.endswith("build.py") and self.rng.random() < st["p"]
        else:
            hit = self.k in self.points
        return self.rng.choice(o) if hit else None

    def _ev(self, code, x):
        me = self.me.get(threading.get_ident())
        if me is None:
            return
        if self.stopping:
            raise Stop()
        if me in self.kill and strikable(code, sys._getframe(1).f_lasti, self.st.get("fine", False)):
            self.own[me] += 1
            if self.kill[me] == self.own[me]:
                self.ctx.fault("thread_memory")
                self.ctx.ev("killed", me, code.co_qualname)
                raise SimNoMemory("allocation failed (simulated)")
        t = self.choose(me, code)
        if t is not None:
            self.taken.append([self.k, t])
            self.pairs.add((code.co_qualname, t))
        self.k += 1
        if t is not None:
            self.hand(me, t)

    def hand(self, me, t):
        self.cur = t
        self.sem[t].release()
        self.sem[me].acquire()
        if self.stopping:
            raise Stop()

    def block(self, me):
        """The thread cannot go on until another one releases a lock"""
        o = [i for i in self.others(me) if not self.blocked[i]]
        self.blocked[me] = True
        if not o:
            if self.others(me) and not all(self.blocked[i] for i in self.others(me)):
                o = self.others(me)
            else:
                self.stopping = True
                self.outcomes[me] = ("deadlock", None)
                raise Stop()
        self.hand(me, o[0])

    def _thread(self, i):
        self.sem[i].acquire()
        self.me[threading.get_ident()] = i
        try:
            if not self.stopping:
                self.outcomes[i] = ("ok", self.bodies[i]())
        except Stop:
            pass
        except BaseException as e:
            self.outcomes[i] = ("err", e)
        finally:
            self.me.pop(threading.get_ident(), None)
            self.done[i] = True
            left = self.others(-1)
            if left:
                t = left[0]
                if not self.explicit and len(left) > 1:
                    t = left[self.rng.randrange(len(left))]
                    self.taken.append([-1 - sum(self.done), t])
                elif self.explicit:
                    t2 = self.table.get(-1 - sum(self.done))
                    t = t2 if t2 in left else t
                self.cur = t
                self.blocked[t] = False
                self.sem[t].release()
            else:
                self.end.release()

    def run(self):
        Scheduler.current = self
        ts = [threading.Thread(target=self._thread, args=(i,), daemon=True) for i in range(len(self.bodies))]
        old = threading.stack_size()
        try:
            with _Tracing(self._ev, self.st.get("fine", False), self.st.get("part")):
                for t in ts:
                    t.start()
                first = self.st.get("first", 0) % len(ts)
                self.cur = first
                self.sem[first].release()
                self.end.acquire()
                for t in ts:
                    t.join()
        finally:
            Scheduler.current = None
        return self.outcomes

    def thread_index(self):
        return self.me.get(threading.get_ident())


class SimLock:
    """threading.Lock and RLock as the code under test sees them: a simulated thread that has to wait passes the turn on"""

    def __init__(self, reentrant=False):
        self._r = reentrant
        self._l = threading.RLock() if reentrant else threading.Lock()

    def acquire(self, blocking=True, timeout=-1):
        s = Scheduler.current
        me = s.thread_index() if s is not None else None
        if me is None:
            return self._l.acquire(blocking, timeout)
        while not self._l.acquire(False):
            if not blocking or timeout >= 0:
                return False
            s.block(me)
        s.blocked[me] = False
        return True

    def release(self):
        self._l.release()
        s = Scheduler.current
        if s is not None:
            s.blocked = [False] * len(s.blocked)

    def locked(self):
        if self._r:
            if self._l.acquire(False):
                self._l.release()
                return False
            return True
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def threading_proxy():
    m = types.ModuleType("threading")
    m.__dict__.update({k: v for k, v in threading.__dict__.items() if not k.startswith("__")})
    m.Lock = lambda: SimLock(False)
    m.RLock = lambda: SimLock(True)
    return m


def gen_strategy(rng, span=20000):
    r = rng.random()
    st = {"seed": rng.randint(0, 10 ** 9), "first": rng.randint(0, 3)}
    if r < 0.3:
        st.update(kind="random", p=rng.choice([0.001, 0.01, 0.1, 0.5]))
    elif r < 0.6:
        st.update(kind="focus", p=rng.choice([0.05, 0.3, 0.9]), file=rng.choice(
            ["equation.py", "expression_evaluation.py", "unit.py", "quantity.py", "variable.py", "problem.py", "model.py", "equation_block.py", "solvers.py",
             "simulation.py", "analysis.py", "domain.py", "equation_operators.py", "math_functions.py"]))
    elif r < 0.75:
        st.update(kind="user", p=rng.choice([0.2, 1.0]))
    else:
        st.update(kind="change", n=rng.randint(1, 6), span=int(span * rng.choice([0.02, 0.2, 1])) + 1)
    if rng.random() < 0.2:
        st["fine"] = True
    return st
