"""Right-hand sides that return arbitrary values, and solver factories."""
import numpy as np

from . import methods as M
from .sr import is_sym, SR


def skey(x):
    return x.key() if is_sym(x) else float(x)


class Oracle:
    """arbitrary function of (t, y): every new argument gets fresh values,
    the same argument gets the same values again. Calls are recorded."""

    def __init__(self, env, n, lo=-10.0, hi=10.0, kind="erk", name="f",
                 indep_v=False, limit=None, autonomous=False):
        self.env, self.n, self.lo, self.hi = env, n, lo, hi
        self.kind, self.name, self.indep_v = kind, name, indep_v
        self.memo = {}
        self.calls = []               # (t, y, f)
        self.k = 0
        self.limit = limit
        self.override = {}

    def key(self, t, y):
        if self.indep_v:
            y = y[:self.n//2]
        if self.env.sym:
            return (skey(t),) + tuple(skey(v) for v in y)
        return tuple(float(f"{float(v):.11e}") for v in (t, *y))

    def __call__(self, t, y):
        if np.ndim(t):
            t = np.asarray(t).ravel()[0]
        k = self.key(t, y)
        m = self.n//2 if self.kind == "rkn" else self.n
        if self.limit is not None and len(self.calls) >= self.limit:
            self.env.abort(f"more than {self.limit} evaluations")
        if k not in self.memo:
            self.memo[k] = self.fresh(self.k, m)
            self.k += 1
        f = self.memo[k]
        if self.kind == "rkn":
            f = self.env.arr(list(y[m:]) + list(f))
        self.calls.append((t, np.array(y, copy=True), f))
        return f.copy()

    def fresh(self, k, m):
        return self.env.arr([
            self.env.real(f"{self.name}{k}_{i}", self.lo, self.hi)
            for i in range(m)])

    def find(self, t, y):
        """value of the last evaluation at (t, y), None if not evaluated"""
        k = self.key(t, y)
        if k in self.memo:
            f = self.memo[k]
            if self.kind == "rkn":
                m = self.n//2
                f = self.env.arr(list(y[m:]) + list(f))
            return f
        if not self.env.sym:
            for tt, yy, f in reversed(self.calls):
                if abs(tt - t) <= 1e-9*(1 + abs(t)) and \
                        np.all(np.abs(yy - y) <= 1e-9*(1 + np.abs(y))):
                    return f
        return None


class Guard:
    """passes a function on and keeps the arrays it returned: nobody may
    change these"""

    def __init__(self, f):
        self.f, self.kept = f, []

    def __call__(self, t, y):
        r = self.f(t, y)
        self.kept.append((r, list(np.ravel(r))))
        return r

    def __getattr__(self, k):
        return getattr(self.f, k)

    def check(self, env, who=""):
        bad = sum(any(u is not v and not same(u, v)
                      for u, v in zip(np.ravel(r), c)) for r, c in self.kept)
        env.claim("arrays returned by the right-hand side are left alone"
                  + who, not bad)


def same(u, v):
    if is_sym(u) or is_sym(v):
        return is_sym(u) and is_sym(v) and u.key() == v.key()
    return u == v or (u != u and v != v)


def build(env, name, fun, t0, y0, tb, rho=None, **kw):
    """a solver of the library; implicit methods get a zero Jacobian array
    (their stages then take one evaluation each)"""
    C = M.cls(name) if isinstance(name, str) else name
    nm = name if isinstance(name, str) else C.__name__
    kd = M.kind(nm)
    if kd == "esdirk" or hasattr(C, "Az"):
        kw.setdefault("jac", np.zeros((len(y0), len(y0))))
    if nm == "SSV2stab":
        kw["rho_jac"] = None if rho == "estimate" else \
            rho if rho is not None else (lambda t, y: 1.0)
    return C(fun, t0, y0, tb, **kw)


def dims(name, m=1):
    """state size for m (second order) components"""
    return 2*m if M.kind(name) == "rkn" else m


class NormSeq:
    """error norm stub: given values, then the last one forever"""

    def __init__(self, seq):
        self.seq, self.i = list(seq), 0

    def __call__(self, x):
        v = self.seq[min(self.i, len(self.seq) - 1)]
        self.i += 1
        return v
