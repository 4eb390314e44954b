"""Every source of nondeterminism the properties depend on goes through the objects of this module.

`install()` is called once in a worker, before capybara is imported.  The wrappers are transparent until a
case sets the corresponding attribute of `SIM`.
"""
import os
import sys
import types
import time as _time
import datetime as _dt

from .core import SimulatedFault

REAL_TIME = _time.time


class _Sim:
    """Switchboard: what each seam does at the moment."""

    def reset(self):
        self.clock = None          # callable -> seconds since the epoch
        self.odeint = None         # callable(real, func, y0, t, kwargs)
        self.root = None
        self.linsolve = None
        self.symsolve = None
        self.cvode = None          # factory for the simulated explicit integrator
        self.ida = None
        self.savefig = None        # callable(real, figure, fname, kwargs)
        self.show = None
        self.disk = None
        self.calls = {}            # backend -> number of calls

    def count(self, name):
        self.calls[name] = self.calls.get(name, 0) + 1

    def backend_calls(self):
        return sum(self.calls.values())


SIM = _Sim()
SIM.reset()


# ---------------------------------------------------------------- assimulo (not installable here): simulated

class Explicit_Problem:
    def __init__(self, rhs=None, y0=None, t0=0.0, name=None, **kw):
        if rhs is not None:
            self.rhs = rhs
        self.y0 = y0
        self.t0 = t0
        self.name = name


class Implicit_Problem:
    def __init__(self, res=None, y0=None, yd0=None, t0=0.0, name=None, **kw):
        if res is not None:
            self.res = res
        self.y0 = y0
        self.yd0 = yd0
        self.t0 = t0
        self.name = name


class CVode:
    def __init__(self, problem):
        self.problem = problem
        self.options = {}

    def simulate(self, tfinal, ncp=0, ncp_list=None):
        SIM.count("cvode")
        from . import integrators
        sim = SIM.cvode or integrators.ExplicitIntegrator()
        return sim.simulate(self.problem, tfinal, ncp, ncp_list)


class IDA:
    def __init__(self, problem):
        self.problem = problem
        self.consistent = None

    def _flags(self):
        # assimulo also accepts the classification on the solver
        if hasattr(self, "algvar"):
            self.problem.algvar = self.algvar

    def make_consistent(self, method=None):
        self._flags()
        self.consistent = method
        from . import integrators
        sim = SIM.ida or integrators.ImplicitIntegrator()
        sim.make_consistent(self.problem, method)

    def simulate(self, tfinal, ncp=0, ncp_list=None):
        SIM.count("ida")
        self._flags()
        from . import integrators
        sim = SIM.ida or integrators.ImplicitIntegrator()
        return sim.simulate(self.problem, tfinal, ncp, ncp_list)


def _install_assimulo():
    a = types.ModuleType("assimulo")
    p = types.ModuleType("assimulo.problem")
    s = types.ModuleType("assimulo.solvers")
    p.Explicit_Problem = Explicit_Problem
    p.Implicit_Problem = Implicit_Problem
    s.CVode = CVode
    s.IDA = IDA
    a.problem = p
    a.solvers = s
    for m in (a, p, s):
        sys.modules[m.__name__] = m


# ---------------------------------------------------------------- numerical backends

def _install_backends():
    import scipy.integrate
    import scipy.optimize
    import scipy.linalg
    import sympy

    real_odeint = scipy.integrate.odeint
    real_root = scipy.optimize.root
    real_linsolve = scipy.linalg.solve
    real_symsolve = sympy.solve
    depth = {"sym": 0}

    def odeint(func, y0, t, *a, **kw):
        SIM.count("odeint")
        if SIM.odeint is not None:
            return SIM.odeint(real_odeint, func, y0, t, a, kw)
        return real_odeint(func, y0, t, *a, **kw)

    def root(fun, x0, *a, **kw):
        SIM.count("root")
        if SIM.root is not None:
            return SIM.root(real_root, fun, x0, a, kw)
        return real_root(fun, x0, *a, **kw)

    def linsolve(A, b, *a, **kw):
        SIM.count("linsolve")
        if SIM.linsolve is not None:
            return SIM.linsolve(real_linsolve, A, b, a, kw)
        return real_linsolve(A, b, *a, **kw)

    def symsolve(f, *a, **kw):
        if depth["sym"]:
            return real_symsolve(f, *a, **kw)
        depth["sym"] += 1
        try:
            SIM.count("symsolve")
            if SIM.symsolve is not None:
                return SIM.symsolve(real_symsolve, f, a, kw)
            return real_symsolve(f, *a, **kw)
        finally:
            depth["sym"] -= 1

    scipy.integrate.odeint = odeint
    scipy.optimize.root = root
    scipy.linalg.solve = linsolve
    sympy.solve = symsolve


# ---------------------------------------------------------------- clock

def _install_clock():
    real_time = _time.time
    real_mono = _time.monotonic
    real_perf = _time.perf_counter
    real_sleep = _time.sleep

    def time():
        if SIM.clock is not None:
            return SIM.clock()
        return real_time()

    def perf_counter():
        if SIM.clock is not None:
            return SIM.clock()
        return real_perf()

    def sleep(x):
        if SIM.clock is not None:
            return None
        return real_sleep(x)

    def _strip(real):
        def f(arg=None):
            if arg is None:
                arg = time()
            return real(arg)
        return f

    _time.time = time
    _time.perf_counter = perf_counter
    _time.sleep = sleep
    _time.gmtime = _strip(_time.gmtime)
    _time.localtime = _strip(_time.localtime)

    real_dt = _dt.datetime

    class _Meta(type(real_dt)):
        def __instancecheck__(cls, obj):
            return isinstance(obj, real_dt)

        def __subclasscheck__(cls, sub):
            return issubclass(sub, real_dt)

    class datetime(real_dt, metaclass=_Meta):
        @classmethod
        def now(cls, tz=None):
            if SIM.clock is not None:
                return real_dt(1970, 1, 1) + _dt.timedelta(seconds=SIM.clock())
            return real_dt.now(tz)

        @classmethod
        def utcnow(cls):
            return cls.now()

        @classmethod
        def today(cls):
            return cls.now()

    _dt.datetime = datetime


# ---------------------------------------------------------------- figures

def _install_figures():
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.figure
    import matplotlib.pyplot as plt
    real_savefig = matplotlib.figure.Figure.savefig
    real_show = plt.show

    def savefig(self, fname, *a, **kw):
        if SIM.savefig is not None:
            return SIM.savefig(real_savefig, self, fname, kw)
        return real_savefig(self, fname, *a, **kw)

    def show(*a, **kw):
        if SIM.show is not None:
            return SIM.show(plt)
        return real_show(*a, **kw)

    matplotlib.figure.Figure.savefig = savefig
    plt.show = show


_done = False


def install():
    global _done
    if _done:
        return
    _done = True
    os.environ.setdefault("MPLBACKEND", "Agg")
    # libraries that keep their own reference to the real clock are imported first
    import numpy, scipy, sympy, pandas, numba, prettytable  # noqa
    import matplotlib.pyplot, matplotlib.backends.backend_agg  # noqa
    import pyneqsys, pygmo  # noqa
    _install_assimulo()
    _install_backends()
    _install_clock()
    _install_figures()
    from . import disk
    disk.install()


def import_sut():
    import warnings
    warnings.simplefilter("ignore")
    repo = os.environ.get("CAPYSIM_TREE", "/repo")      # another tree: only for trying planted bugs beside a running check
    if repo not in sys.path:
        sys.path.insert(0, repo)
    # locks of the code under test belong to the simulated threads
    from . import sched
    real = sys.modules["threading"]
    sys.modules["threading"] = sched.threading_proxy()
    try:
        _import_all()
    finally:
        sys.modules["threading"] = real


def _import_all():
    import src.sloth.model, src.sloth.problem, src.sloth.simulation, src.sloth.optimization  # noqa
    import src.sloth.core.template_units, src.sloth.core.domain, src.sloth.core.equation_operators  # noqa
    import src.sloth.unit_op, src.sloth.core.property_package, src.sloth.plotter, src.sloth.analysis  # noqa
