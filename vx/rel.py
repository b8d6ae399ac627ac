"""Runs of solvers that are compared with each other: the right-hand side is a
memoised arbitrary function, the error norms are symbolic values that only
depend on the number of the call, and everything observable is recorded."""
import numpy as np

from . import methods as M
from .oracle import build, dims
from .sr import is_sym


class Norms:
    """error norms e0, e1, ... (the same inputs in every run); arguments are
    recorded. Before env is set the real values do not matter"""

    def __init__(self, env, pattern, lo=1/64, hi=64.0):
        self.env, self.pattern, self.lo, self.hi = env, pattern, lo, hi
        self.k = 0
        self.args = []
        self.on = False
        self.vals = []

    def reset(self):
        self.k, self.args, self.on = 0, [], False

    def state(self):
        return self.k, self.args, self.on

    def restore(self, st):
        self.k, self.args, self.on = st

    def __call__(self, x):
        if not self.on:
            return real_norm(x)
        k = self.k
        self.k += 1
        self.args.append(np.array(x, copy=True))
        while k >= len(self.vals):
            j = len(self.vals)
            s = self.pattern[j] if j < len(self.pattern) else self.pattern[-1]
            self.vals.append(self.env.real(f"e{j}", self.lo, self.hi, s=s))
        return self.vals[k]


def real_norm(x):
    """the norm of the library (root mean square), also for symbolic values"""
    from . import sr
    x = np.ravel(x)
    q = 0
    for v in x:
        q = q + v*v
    q = q/len(x)
    return sr.ssqrt(q) if is_sym(q) else float(q)**0.5


class Run:
    """one solver, stepped and recorded"""

    def __init__(self, env, norms, name, fun, t0, y0, tb, on=True, **kw):
        self.env, self.norms, self.name = env, norms, name
        norms.reset()
        norms.on = on == "all"
        self.s = build(env, name, fun, t0, y0, tb, **kw)
        norms.on = bool(on)
        self.st = norms.state()
        self.rec = []

    def step(self):
        s = self.s
        self.norms.restore(self.st)
        s.step()
        self.rec.append((s.t, np.array(s.y, copy=True), s.status))
        self.st = self.norms.state()
        return s.status

    def dense(self):
        self.norms.restore(self.st)
        o = self.s.dense_output()
        self.st = self.norms.state()
        return o

    @property
    def args(self):
        return self.st[1]


def compare(env, label, a, b, tmap=None, tol=1e-9, rtol=1e-9):
    """two recorded runs are the same (times through tmap, applied to b)"""
    env.claim(f"{label}: number of steps", len(a.rec) == len(b.rec))
    env.claim(f"{label}: number of error estimates",
              len(a.args) == len(b.args))
    for k, (x, y) in enumerate(zip(a.rec, b.rec)):
        tb = y[0] if tmap is None else tmap(y[0])
        env.claim(f"{label}: status of step {k}", x[2] == y[2])
        env.zero(f"{label}: time of step {k}", [x[0] - tb], tol)
        env.zero(f"{label}: state of step {k}", list(x[1] - y[1]), tol)
    ds, scale = [], 1.0
    for x, y in zip(a.args, b.args):
        x, y = np.ravel(x), np.ravel(y)
        if len(x) != len(y):
            env.claim(f"{label}: shape of the error estimates", False)
            continue
        for u, v in zip(x, y):
            d = u - v
            if not is_sym(d) and not is_sym(u):
                d = d/(1 + abs(u))
            ds.append(d)
    env.zero(f"{label}: error estimates", ds, 1e-7)


def values(o, t, h):
    """values of an interpolant inside of the step"""
    return [np.array(o(t + c*h), copy=True) for c in (0.25, 0.625, 1.0)]


def pattern(i, n=40):
    """sampled sequences of error norms (accepted below one)"""
    import random
    if i == 0:
        return [0.3]
    r = random.Random(100 + i)
    if i == 1:
        return [0.3, 0.5, 4.0] + [r.uniform(0.2, 0.8) for _ in range(n)]
    return [r.choice([0.02, 0.2, 0.5, 0.8, 0.95, 0.3, 3.0, 0.1])
            for _ in range(n)] + [0.3]


def y0_of(env, name, m=1, lo=0.5, hi=2.0):
    n = dims(name, m)
    return n, env.reals("y", n, lo, hi, s=[1.0, 0.75, 1.25, 0.875][:n])
