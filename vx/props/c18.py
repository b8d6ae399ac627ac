"""C18: the Adams method is stepped with a right-hand side that returns
arbitrary (symbolic) values while prescribed error norms drive step sizes and
orders. Every trial evaluation shows the predicted solution; it is compared
with the integral of the polynomial through the last k derivative values (k is
recognised from the sampled point), the accepted solution with the integral of
the polynomial that also contains the trial derivative, and the interpolant
with the polynomial through both end values and k + 1 slopes. z3 decides
equality for all derivative values and initial step lengths."""
import random

import numpy as np

from .. import shim
from ..env import sabs, sand
from ..oracle import Oracle, build
from ..sr import is_sym, numerator
from .c13 import sample

ID = "C18"
BOUNDS = ("|f| <= 4, |y0| <= 4, |t0| <= 4, first step in [1/8, 1/4], one "
          "component, both directions; sampled sequences of error norms that "
          "drive order and step size, 6 to 16 (thorough 30) steps, k_max 1 to "
          "12; last step shortened to a symbolic t_bound (few steps), or cut "
          "by max_step, a rest of one to three rounding units; every trial and accepted step, interpolants where "
          "step ratios are numbers or the order is at most 4")
OUTSIDE = ("other sequences of step size ratios and orders than the sampled "
           "ones; rounding")
OPTS = dict(max_paths=1, budget=200, branch_ms=500, claim_ms=10000)


def cases(tier, seed):
    out = []
    big = tier == "thorough"
    for d in (1, -1):
        for i in range(60 if big else 24):
            out.append(dict(name=f"seq{i}{d:+d}", seq=i, dir=d, concolic=True,
                            steps=30 if big else 12, kmax=12, v=""))
        for km in (1, 2, 3, 4, 7):
            out.append(dict(name=f"kmax{km}{d:+d}", seq=100 + km, dir=d,
                            concolic=True, steps=16 if big else 10, kmax=km,
                            v=""))
        out.append(dict(name=f"raise{d:+d}", seq=-1, dir=d, concolic=True,
                        steps=11, kmax=12, v=""))
        for i in range(24 if big else 12):
            out.append(dict(name=f"max{i}{d:+d}", seq=400 + 4*i + 3*(i % 2),
                            dir=d, v="max", concolic=True,
                            steps=30 if big else 18, kmax=12))
        for i in range(120 if big else 40):
            out.append(dict(name=f"block{i}{d:+d}", seq=300 + i, dir=d,
                            concolic=True, steps=24 if big else 12, kmax=12,
                            v=""))
        for t0 in (1.0, -3.5):
            out.append(dict(name=f"tiny{t0:+.0f}{d:+d}", dir=d, v="tiny",
                            t0=t0, concolic=True))
        for n in (1, 2, 3, 4) if not big else (1, 2, 3, 4, 5, 6):
            out.append(dict(name=f"end{n}{d:+d}", seq=-1, dir=d, v="end",
                            concolic=True, steps=n, kmax=12))
    return out


class NormList:
    def __init__(self, i):
        self.r = random.Random(1000 + i)
        self.i = i
        self.i0 = [1, 30, 300][i % 3]             # typical step length
        self.calls = []
        self.left = 0
        self.base = 0.0

    def __call__(self, x):
        if self.i == -1:
            e = 1e-6
        else:
            a, b = [(-4, 1), (-2, 1.5), (-1, 0.3), (-3, 2)][self.i % 4]
            if self.i >= 400:                     # mostly high orders
                a, b = -5, (0.5 if self.i % 2 else -1)
            if 300 <= self.i < 400:               # similar norms for a while
                if self.left == 0:
                    self.left = self.r.randint(4, 14)
                    self.base = self.r.choice([-4, -3, -2, -1, 0, 0.5, 1, 2])
                self.left -= 1
                a = self.base - 0.15
                b = self.base + 0.15
            e = float(f"{10**self.r.uniform(a, b)/self.i0**0.5:.3g}")
        self.calls.append((np.array(x, copy=True), e))
        return e


def polymul(a, b):
    out = [0]*(len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] = out[i + j] + x*y
    return out


def ev(a, x):
    s = 0
    for c in reversed(a):
        s = s*x + c
    return s


def Q(x):
    from fractions import Fraction
    return Fraction(x)


class Model:
    """polynomials in theta = (t - t_n)/H"""

    def __init__(self, env):
        self.env = env

    def basis(self, th):
        out = []
        for j, a in enumerate(th):
            p = [self.one()]
            for m, b in enumerate(th):
                if m != j:
                    w = 1/(a - b)
                    p = polymul(p, [-b*w, w])
            out.append(p)
        return out

    def one(self):
        from ..sr import SR
        return SR.const(1) if self.env.sym else 1.0

    def num(self, x):
        return x if self.env.sym else float(x)

    def scale(self, H, th):
        """size of the terms of the integral (at the sampled values)"""
        th = [sample(x) if is_sym(x) else float(x) for x in th]
        w = 0
        for j, a in enumerate(th):
            p = np.poly1d([1.0])
            for m, b in enumerate(th):
                if m != j:
                    p = p*np.poly1d([1.0, -b])/(a - b)
            w += np.sum(np.abs(p.coeffs))
        return 1 + 4*size(H)*float(w)

    def integral(self, th, fs, x):
        """integral from 0 to x of the polynomial through (th, fs)"""
        return sum(self.int1(p, x)*f for p, f in zip(self.basis(th), fs))

    def int1(self, p, x):
        q = [0] + [c*self.num(Q(1)/(i + 1)) for i, c in enumerate(p)]
        return ev(q, x)


def same(env, label, dev, tol):
    """dev = 0 to a tolerance"""
    a, b = [], []
    for x in dev:
        if is_sym(x):
            n, d = numerator(x)
            if n is not None and is_sym(d) and not d.is_const():
                sg = 1 if sample(d) > 0 else -1
                a.append(sand(sg*n <= tol*sg*d, -sg*n <= tol*sg*d))
                b.append(sand(sg*n <= 4*tol*sg*d, -sg*n <= 4*tol*sg*d))
                continue
        a.append(sabs(x) <= tol)
        b.append(sabs(x) <= 4*tol)
    env.claim(label, sand(*a), sand(*b))


def size(v):
    return abs(sample(v)) if is_sym(v) else abs(float(v))


def tiny(env, case):
    """a rest of a few rounding units is extrapolated"""
    d, t0 = case["dir"], case["t0"]
    u = float(np.spacing(abs(t0)))
    T = env.real("T", u, 3*u, pin=[u, 2*u, 3*u])
    f = [env.real(f"f{i}", -4, 4, s=1.0 + i, pin=[1.5, -2.0]) for i in (0, 1)]
    tb = t0 + d*T

    def fun(t, y):
        return env.arr(f)
    s = build(env, "SWAG", fun, t0, env.arr([0.0, 0.0]), tb, first_step=T)
    s.step()
    env.claim("the step ends on the end time",
              s.status == "finished" and (s.t == tb))
    for i in (0, 1):
        env.zero(f"the rest is extrapolated ({i})",
                 [(s.y[i] - (tb - t0)*f[i])/u], 1e-6)


def run(env, case):
    if case["v"] == "tiny":
        return tiny(env, case)
    norms = NormList(case["seq"])
    with shim.stubbed({"norm": lambda: norms}):
        body(env, case, norms)


def body(env, case, norms):
    d, v, kmax = case["dir"], case["v"], case["kmax"]
    t0 = env.real("t0", -4, 4)
    h = env.real("h", 1/8, 1/4)
    y0 = env.reals("y", 1, -4, 4)
    f = Oracle(env, 1, -4, 4)
    tb = t0 + d*1000
    kw = {}
    n = case["steps"]
    if v == "end":
        # doubling: 1, 2, 4, ...; a shorter last step
        c = env.real("c", 0.25, 0.75)
        tb = t0 + d*h*(2**n - 1 + 2**n*c)
    if v == "max":
        kw["max_step"] = h*[2.6, 5.25, 11.0, 3.0][case["seq"] % 4]
    s = build(env, "SWAG", f, t0, y0, tb, first_step=h, rtol=1e-3, atol=1.0,
              k_max=kmax, **kw)
    M = Model(env)
    ts, fs = [t0], [f.calls[0][2][0]]         # accepted points, newest first
    kprev = 0
    for step in range(n + (v == "end")):
        yo = s.y[0]
        k0 = len(f.calls)
        norms.calls.clear()
        s.step()
        if s.status == "failed":
            env.abort("step failed")
        new = f.calls[k0:]
        env.claim(f"evaluations in step {step}", len(new) >= 2)
        if len(new) < 2:
            return
        kk = None
        for i, (tt, yy, ff) in enumerate(new[:-1]):
            H = tt - ts[0]
            th = [(a - ts[0])/H for a in ts]
            # the order of the predictor
            best = None
            kk = None
            for k in range(1, min(len(ts), kmax) + 1):
                dev = yy[0] - yo - H*M.integral(th[:k], fs[:k], 1)
                sz = size(dev)/M.scale(H, th[:k])
                if best is None or sz < best[0]:
                    best = sz, k, dev
                if sz < 1e-7:
                    kk = k
                    break
            if kk is None:
                kk = best[1]
            else:
                best = None, kk, dev
            same(env, f"predictor, trial {i} of step {step}", [best[2]],
                 1e-9*M.scale(H, th[:kk]))
            env.claim(f"order is raised by at most one, step {step}",
                      kk <= kprev + 1)
            kprev = kk
        tt, yy, ff = new[-2]
        H = tt - ts[0]
        th = [(a - ts[0])/H for a in ts]
        tn, yn, fn = new[-1]
        env.zero(f"one time for predictor and corrector of step {step}",
                 [tn - tt, s.t - tt], 1e-12)
        env.zero(f"corrected state is evaluated, step {step}",
                 [s.y[0] - yn[0]], 1e-9)
        dev = s.y[0] - yo - H*M.integral([1] + th[:kk],
                                         [ff[0]] + fs[:kk], 1)
        same(env, f"corrector of step {step}", [dev],
             1e-9*M.scale(H, [1] + th[:kk]))
        # interpolant
        flat = all(not is_sym(x) or x.is_const() for x in th)
        if (v != "end" or step == n) and (flat or kk <= 4):
            sol = s.dense_output()
            nodes = [M.one()] + th[:kk]
            vals = [fn[0]] + fs[:kk]
            B = M.basis(nodes)
            pi = [M.one()]
            for a in nodes:
                pi = polymul(pi, [-a, M.one()])
            s1 = M.int1(pi, 1)
            full = sum(M.int1(p, 1)*g for p, g in zip(B, vals))
            ds = []
            for x in (0.25, 0.5, 0.875):
                b = sum(M.int1(p, x)*g for p, g in zip(B, vals))
                sg = M.int1(pi, x)/s1
                e = yo + H*b + sg*(s.y[0] - yo - H*full)
                ds.append(sol(ts[0] + H*x)[0] - e)
            same(env, f"interpolant of step {step}", ds,
                 1e-8*M.scale(H, [1] + th[:kk]))
        ts.insert(0, tn)
        fs.insert(0, fn[0])
        if s.status != "running":
            break
