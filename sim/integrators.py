"""Simulated integrators.

They follow the contract of assimulo's CVode and IDA (initial point first, then the requested times after it) and
of scipy's odeint; the order, number and kind of the evaluations they make is drawn from a PRNG: extra trial points,
repeated, backward and rejected evaluations, one shared buffer that is overwritten between calls.
"""
import numpy as np
from scipy.integrate import solve_ivp

from .core import SimulatedFault


class IntegratorFailure(SimulatedFault):
    pass


class Schedule:
    """Which evaluations an integrator makes besides those it needs, and how it passes its buffers."""

    def __init__(self, rng=None, extra=0.0, dup=0.0, method="DOP853", fail_after=None, fail_kind=None,
                 on_mismatch=None, on_mutation=None, counters=None):
        self.rng = rng
        self.extra = extra
        self.dup = dup
        self.method = method
        self.fail_after = fail_after
        self.fail_kind = fail_kind
        self.on_mismatch = on_mismatch or (lambda *a: None)
        self.on_mutation = on_mutation or (lambda *a: None)
        self.counters = counters if counters is not None else {}
        self.n = 0

    def count(self, k):
        self.counters[k] = self.counters.get(k, 0) + 1

    def wrap(self, f, t0, tf, n):
        """f(t, y) -> dy, evaluated under this schedule"""
        buf = np.zeros(n)

        def call(t, y):
            buf[:] = y
            out = f(t, buf)
            if not np.array_equal(buf, y, equal_nan=True):
                self.on_mutation(t, np.array(y), np.array(buf))
            res = np.array(out, dtype=float).reshape(-1)
            buf[:] = np.nan
            return res

        def g(t, y):
            self.n += 1
            if self.fail_after is not None and self.n > self.fail_after:
                self.count("integrator_failed")
                raise IntegratorFailure(self.fail_kind or "step size too small")
            y = np.array(y, dtype=float)
            if self.rng is not None and self.rng.random() < self.extra:
                tt = t0 + (tf - t0) * self.rng.random()
                yy = y * (1 + 0.01 * (self.rng.random() - 0.5))
                self.count("trial_point")
                call(tt, yy)
            res = call(t, y)
            if self.rng is not None and self.rng.random() < self.dup:
                self.count("repeated_evaluation")
                res2 = call(t, y)
                if not np.array_equal(res, res2, equal_nan=True):
                    self.on_mismatch(t, y, res, res2)
            return res
        return g


def _times(t0, tfinal, ncp_list):
    ts = [float(x) for x in np.asarray(ncp_list, dtype=float).reshape(-1) if t0 < float(x) <= tfinal]
    if not ts or ts[-1] != tfinal:
        ts.append(float(tfinal))
    return [float(t0)] + ts


def _integrate(g, t0, ts, y0, method, rtol=1e-9, atol=1e-11):
    rows = [np.array(y0, dtype=float)]
    if len(ts) > 1:
        sol = solve_ivp(g, (ts[0], ts[-1]), np.array(y0, dtype=float), method=method, t_eval=ts[1:], rtol=rtol, atol=atol)
        if sol.status != 0 or sol.y.shape[1] != len(ts) - 1:
            raise IntegratorFailure("integration stopped: %s" % sol.message)
        rows += [sol.y[:, k] for k in range(sol.y.shape[1])]
    return np.array(rows)


class ExplicitIntegrator:
    def __init__(self, schedule=None):
        self.schedule = schedule or Schedule()
        self.seen = []

    def simulate(self, problem, tfinal, ncp, ncp_list):
        y0 = np.array([float(v) for v in problem.y0])
        t0 = float(problem.t0)
        self.seen.append((t0, y0.copy()))
        tfinal = float(tfinal)
        if tfinal < t0:
            raise IntegratorFailure("final time before initial time")
        ts = _times(t0, tfinal, ncp_list)
        g = self.schedule.wrap(lambda t, y: problem.rhs(t, y), t0, tfinal, len(y0))
        g(t0, y0)
        Y = _integrate(g, t0, ts, y0, self.schedule.method)
        return list(ts), Y


def newton(F, x, tol=1e-12, maxit=60):
    """Damped Newton with a finite-difference Jacobian; raises IntegratorFailure when it does not converge"""
    x = np.array(x, dtype=float)
    n = len(x)
    fx = F(x)
    if not np.all(np.isfinite(fx)):
        raise IntegratorFailure("residual is not finite")
    best = np.max(np.abs(fx)) if n else 0.0
    for _ in range(maxit):
        if best <= tol:
            return x
        J = np.empty((len(fx), n))
        for j in range(n):
            h = 1e-7 * max(1.0, abs(x[j]))
            xp = x.copy()
            xp[j] += h
            J[:, j] = (F(xp) - fx) / h
        try:
            dx = np.linalg.solve(J, -fx)
        except np.linalg.LinAlgError:
            raise IntegratorFailure("singular Jacobian")
        if not np.all(np.isfinite(dx)):
            raise IntegratorFailure("singular Jacobian")
        lam = 1.0
        for _k in range(12):
            xn = x + lam * dx
            fn = F(xn)
            if np.all(np.isfinite(fn)) and np.max(np.abs(fn)) < best:
                break
            lam *= 0.5
        else:
            if best <= 1e-9:
                return x
            raise IntegratorFailure("corrector did not converge")
        x, fx = xn, fn
        best = np.max(np.abs(fx))
    if best <= 1e-9:
        return x
    raise IntegratorFailure("corrector did not converge")


class ImplicitIntegrator:
    """Index-1 reduction: for given differential variables, solve the residual for their derivatives and for the algebraic ones."""

    def __init__(self, schedule=None):
        self.schedule = schedule or Schedule()
        self.seen = []
        self.started = None

    def _setup(self, problem):
        self.y = np.array([float(v) for v in problem.y0])
        self.yd = np.array([float(v) for v in problem.yd0])
        self.t0 = float(problem.t0)
        n = len(self.y)
        flags = getattr(problem, "algvar", None)
        flags = [1.0] * n if flags is None else [float(v) for v in flags]
        if len(flags) != n or len(self.yd) != n:
            raise IntegratorFailure("algvar, y0 and yd0 must have the same length")
        self.diff = [i for i in range(n) if flags[i] != 0.0]
        self.alg = [i for i in range(n) if flags[i] == 0.0]
        self.seen.append((self.t0, self.y.copy(), self.yd.copy(), flags))
        if self.schedule.rng is None and not self.schedule.fail_after:
            pass

    def _res(self, problem, t, y, yd):
        by, byd = y.copy(), yd.copy()
        r = np.array(problem.res(t, by, byd), dtype=float).reshape(-1)
        if not (np.array_equal(by, y, equal_nan=True) and np.array_equal(byd, yd, equal_nan=True)):
            self.schedule.on_mutation(t, y, by)
        if self.schedule.rng is not None and self.schedule.rng.random() < self.schedule.dup:
            self.schedule.count("repeated_evaluation")
            by[:] = y
            byd[:] = yd
            r2 = np.array(problem.res(t, by, byd), dtype=float).reshape(-1)
            if not np.array_equal(r, r2, equal_nan=True):
                self.schedule.on_mismatch(t, y, r, r2)
        if len(r) != len(y):
            raise IntegratorFailure("residual has %d entries for %d variables" % (len(r), len(y)))
        return r

    def _solve(self, problem, t, u, guess_z, guess_ud):
        nd = len(self.diff)

        def F(x):
            y = np.empty(len(self.y))
            yd = np.zeros(len(self.y))
            y[self.diff] = u
            y[self.alg] = x[nd:]
            yd[self.diff] = x[:nd]
            return self._res(problem, t, y, yd)
        x = newton(F, np.concatenate([guess_ud, guess_z]))
        return x[:nd], x[nd:]

    def make_consistent(self, problem, method):
        self._setup(problem)
        if method != "IDA_YA_YDP_INIT":
            raise IntegratorFailure("unsupported consistency method %r" % (method,))
        ud, z = self._solve(problem, self.t0, self.y[self.diff], self.y[self.alg], self.yd[self.diff])
        self.yd[self.diff] = ud
        self.y[self.alg] = z
        self.started = problem

    def simulate(self, problem, tfinal, ncp, ncp_list):
        if self.started is not problem:
            self._setup(problem)
            r = self._res(problem, self.t0, self.y, self.yd)
            if np.max(np.abs(r)) > 1e-6:
                raise IntegratorFailure("inconsistent initial values")
        tfinal = float(tfinal)
        ts = _times(self.t0, tfinal, ncp_list)
        guess = [self.yd[self.diff].copy(), self.y[self.alg].copy()]

        def f(t, u):
            ud, z = self._solve(problem, t, np.array(u), guess[1], guess[0])
            guess[0], guess[1] = ud, z
            return ud
        g = self.schedule.wrap(f, self.t0, tfinal, len(self.diff))
        U = _integrate(g, self.t0, ts, self.y[self.diff], self.schedule.method, rtol=1e-8, atol=1e-10)
        Y = np.zeros((len(ts), len(self.y)))
        YD = np.zeros((len(ts), len(self.y)))
        z, ud = self.y[self.alg].copy(), self.yd[self.diff].copy()
        for k, t in enumerate(ts):
            ud, z = self._solve(problem, t, U[k], z, ud)
            Y[k, self.diff] = U[k]
            Y[k, self.alg] = z
            YD[k, self.diff] = ud
        return list(ts), Y, YD
