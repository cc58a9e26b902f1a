"""Stand-in for the `assimulo` package, which is not installed in this sandbox.

The code under test imports assimulo unconditionally, so nothing above it can be
imported without it.  The stand-in implements the small part of the interface the
code uses, with real integrators, and records what it was given so that monitors
can look at it (`instances`).  If assimulo is importable it is still replaced: the
checks want the recorded hand-over.
"""
import sys
import types

import numpy as np

instances = []          # every solver object created, in order
problems = []           # every problem object created, in order


class _Problem:
    def __init__(self, fun=None, y0=None, yd0=None, t0=0.0, name='', res=None, rhs=None, **kw):
        self.fun = fun if fun is not None else (res if res is not None else rhs)
        self.y0 = np.array([float(v) for v in y0])
        self.yd0 = None if yd0 is None else np.array([float(v) for v in yd0])
        self.given_y0 = self.y0.copy()
        self.given_yd0 = None if self.yd0 is None else self.yd0.copy()
        self.t0 = float(t0)
        self.name = name
        self.algvar = None
        problems.append(self)


class Explicit_Problem(_Problem):
    def __init__(self, rhs=None, y0=None, t0=0.0, name='', **kw):
        super().__init__(fun=rhs, y0=y0, t0=t0, name=name)


class Implicit_Problem(_Problem):
    def __init__(self, res=None, y0=None, yd0=None, t0=0.0, name='', **kw):
        super().__init__(fun=res, y0=y0, yd0=yd0, t0=t0, name=name)


class CVode:
    def __init__(self, problem):
        self.problem = problem
        self.atol = 1e-10
        self.rtol = 1e-10
        self.verbosity = 30
        instances.append(self)

    def simulate(self, tfinal, ncp=0, ncp_list=None):
        from scipy.integrate import solve_ivp
        p = self.problem
        if ncp_list is None:
            ncp_list = np.linspace(p.t0, tfinal, (ncp or 100) + 1)
        grid = np.array([float(t) for t in ncp_list])
        f = lambda t, y: np.array([float(v) for v in p.fun(t, y)])
        pts = [g for g in grid if g > p.t0]
        if not pts:
            return list(grid), np.tile(p.y0, (len(grid), 1))
        sol = solve_ivp(f, (p.t0, max(pts)), p.y0, method='LSODA', dense_output=True,
                        rtol=1e-10, atol=1e-10)
        if not sol.success:
            raise RuntimeError("integrator failed: " + sol.message)
        out = [p.y0 if g <= p.t0 else sol.sol(g) for g in grid]
        return list(grid), np.array(out)


class IDA:
    """3-stage Radau IIA on F(t, y, yd) = 0, fixed sub-steps, finite-difference Newton."""
    A = np.array([[(88 - 7 * 6 ** .5) / 360, (296 - 169 * 6 ** .5) / 1800, (-2 + 3 * 6 ** .5) / 225],
                  [(296 + 169 * 6 ** .5) / 1800, (88 + 7 * 6 ** .5) / 360, (-2 - 3 * 6 ** .5) / 225],
                  [(16 - 6 ** .5) / 36, (16 + 6 ** .5) / 36, 1 / 9]])
    C = np.array([(4 - 6 ** .5) / 10, (4 + 6 ** .5) / 10, 1.0])

    def __init__(self, problem):
        self.problem = problem
        self.verbosity = 30
        self.consistent_called = None
        instances.append(self)
        # what IDA does with these: lengths have to agree with the residual
        n = len(problem.y0)
        if problem.yd0 is None or len(problem.yd0) != n:
            raise ValueError("y0 and yd0 must be of the same length")
        if problem.algvar is not None and len(problem.algvar) != n:
            raise ValueError("algvar must be an array of length len(y0)")

    def _res(self, t, y, yd):
        return np.array([float(v) for v in np.asarray(self.problem.fun(t, y, yd)).reshape(-1)])

    @staticmethod
    def _newton(g, x, tol=1e-12, it=60):
        x = np.array(x, dtype=float)
        for _ in range(it):
            r = g(x)
            J = np.empty((len(r), len(x)))
            for k in range(len(x)):
                h = 1e-7 * max(1.0, abs(x[k]))
                xp = x.copy(); xp[k] += h
                xm = x.copy(); xm[k] -= h
                J[:, k] = (g(xp) - g(xm)) / (2 * h)
            dx = np.linalg.solve(J, -r)
            x = x + dx
            if np.max(np.abs(dx)) <= tol * max(1.0, np.max(np.abs(x))):
                return x
        if np.max(np.abs(g(x))) < 1e-7:
            return x
        raise RuntimeError("Newton did not converge")

    def make_consistent(self, method):
        self.consistent_called = method
        p = self.problem
        n = len(p.y0)
        alg = [False] * n if p.algvar is None else [not bool(a) for a in p.algvar]

        def unpack(x):
            y, yd = p.y0.copy(), p.yd0.copy()
            for i in range(n):
                if alg[i]:
                    y[i] = x[i]
                else:
                    yd[i] = x[i]
            return y, yd
        x0 = np.array([p.y0[i] if alg[i] else p.yd0[i] for i in range(n)])
        x = self._newton(lambda x: self._res(p.t0, *unpack(x)), x0)
        p.y0, p.yd0 = unpack(x)
        return None, p.y0, p.yd0

    def simulate(self, tfinal, ncp=0, ncp_list=None, substeps=3):
        p = self.problem
        self.asked = (tfinal, None if ncp_list is None else [float(v) for v in ncp_list])
        if ncp_list is None:
            ncp_list = np.linspace(p.t0, tfinal, (ncp or 100) + 1)
        grid = [float(t) for t in ncp_list]
        n = len(p.y0)
        t, y, yd = p.t0, p.y0.copy(), p.yd0.copy()
        T, Y, YD = [], [], []
        for g in grid:
            if g > t:
                k = max(substeps, min(200, int(np.ceil((g - t) / .05))))
                h = (g - t) / k
                for _ in range(k):
                    def stages(k):
                        K = k.reshape(3, n)
                        return np.concatenate([self._res(t + self.C[i] * h, y + h * self.A[i] @ K, K[i])
                                               for i in range(3)])
                    K = self._newton(stages, np.tile(yd, 3), tol=1e-10).reshape(3, n)
                    y = y + h * self.A[2] @ K
                    yd = K[2].copy()
                    t = t + h
                t = g
            T.append(g); Y.append(y.copy()); YD.append(yd.copy())
        return T, np.array(Y), np.array(YD)


def install():
    if 'assimulo' in sys.modules and getattr(sys.modules['assimulo'], '_verif_stub', False):
        return
    pkg = types.ModuleType('assimulo'); pkg.__path__ = []; pkg._verif_stub = True
    prob = types.ModuleType('assimulo.problem')
    prob.Explicit_Problem = Explicit_Problem
    prob.Implicit_Problem = Implicit_Problem
    solv = types.ModuleType('assimulo.solvers')
    solv.CVode = CVode
    solv.IDA = IDA
    pkg.problem, pkg.solvers = prob, solv
    sys.modules['assimulo'] = pkg
    sys.modules['assimulo.problem'] = prob
    sys.modules['assimulo.solvers'] = solv
