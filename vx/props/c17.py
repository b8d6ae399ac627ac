"""C17: two runs with the same (symbolic) error norms and the same arbitrary
right-hand side function: (mirror) the second one integrates -f(2*t0 - t, y)
in the other direction, (shift) the second one integrates an autonomous
problem from a start time that is shifted by an arbitrary amount. z3 decides
that times (mirrored, shifted), states, interpolants, failures and the
arguments of all error norms, hence all acceptance decisions, are the same."""
import numpy as np

from .. import methods as M, shim
from ..oracle import Oracle
from ..rel import Norms, Run, compare, pattern, values, y0_of
from .c03 import TABLE
from .c13 import sample

ID = "C17"
BOUNDS = ("|f| <= 10, 1/2 <= y0 <= 2, |t0| <= 4, |shift| <= 4, first step in "
          "[1/64, 1/2] or automatic, interval such that the end is reached or "
          "not, error norms in [1/64, 64]; three steps (SWAG six; thorough: "
          "five and nine); automatic first step also for constant (|f| <= 1000),"
          " zero and time-dependent right-hand sides; implicit methods with "
          "zero Jacobian and (mirror) with prescribed Jacobians and corrections"
          " of arbitrary size; along sampled histories of acceptance, rejection "
          "and order changes: z3 covers all values on the path of the sample")
OUTSIDE = ("histories other than the sampled ones; "
           "the automatic first step of mirrored Nystrom problems; rounding floors of the step size")
OPTS = dict(max_paths=4, budget=60, branch_ms=500, claim_ms=10000)


def cases(tier, seed):
    out = []
    big = tier == "thorough"
    for name, kw, _ in TABLE:
        tag = "".join(f"-{v}" for v in kw.values())
        for rel in ("mirror", "shift"):
            for d in (1, -1):
                for i in range(24 if big else 4):
                    nst = (9 if big else 6) if name == "SWAG" else \
                        5 if big else 3
                    out.append(dict(
                        name=f"{name}{tag}{d:+d}-{rel}-{i}", m=name, kw=kw,
                        dir=d, pat=i, rel=rel, steps=nst,
                        auto=i % 4 == 2 and (rel == "shift" or
                                             M.kind(name) != "rkn"),
                        end=i % 2, concolic=True))
                # automatic first step for special right-hand sides
                if rel == "mirror" and M.kind(name) != "rkn":
                    for i, fn in enumerate(("const", "zero", "zero0", "lin")):
                        for e in (0, 1):
                            out.append(dict(
                                name=f"{name}{tag}{d:+d}-{rel}-{fn}-{e}",
                                m=name, kw=kw, dir=d, pat=i, rel=rel, steps=2,
                                auto=True, fn=fn, end=e, concolic=True))
                # implicit stages that iterate
                if M.kind(name) == "esdirk" and rel == "mirror":
                    for i in range(12 if big else 6):
                        for jm in ("array", "call"):
                            out.append(dict(
                                name=f"{name}{tag}{d:+d}-{rel}-{jm}-{i}",
                                m=name, kw=kw, dir=d, pat=("it", i), rel=rel,
                                steps=5 if big else 3, auto=False, end=0,
                                jac=jm, concolic=True))
    return out


class Iter:
    """sizes of Newton corrections and errors by turns: the iterations take
    two or three evaluations, few do not converge"""

    def __init__(self, i):
        import random
        r = random.Random(i)
        self.v = []
        for k in range(400):
            self.v.append([0.4, 0.06, 0.9, 0.03, 0.3, 0.3, 0.02, 0.5,
                           3.0][int(r.random()*(8 + (i % 3 == 2)))])


def run(env, case):
    pat = case["pat"]
    norms = Norms(env, Iter(pat[1]).v if isinstance(pat, (tuple, list)) else
                  pattern(pat))
    stubs = {"norm": lambda: norms}
    if case.get("jac"):
        # the scale is the same function of the states in both runs
        stubs["calculate_scale"] = lambda: one
    with shim.stubbed(stubs):
        body(env, case, norms)


def one(atol, rtol, y, y_new, _mean=False):
    return np.ones(len(y))


class Twin:
    """f(t, y) for the first run, the related problem for the second"""

    def __init__(self, env, f, back, sign, kd, n):
        self.env, self.f, self.back, self.sign = env, f, back, sign
        self.kd, self.m = kd, n//2

    def __call__(self, t, y):
        if np.ndim(t):
            t = np.asarray(t).ravel()[0]
        if self.kd == "rkn":
            # velocity changes sign with the direction of time
            z = np.array(y, copy=True)
            if self.sign < 0:
                z[self.m:] = -z[self.m:]
            r = self.f(self.back(t), z)
            r = np.array(r, copy=True)
            r[:self.m] = y[self.m:]
            return r
        return self.sign*self.f(self.back(t), y)


class Jac:
    """another (given) number at each point"""

    def __init__(self, env, n):
        self.n, self.seen, self.key = n, {}, Oracle(env, n).key

    def __call__(self, t, y):
        k = self.key(t, y)
        self.seen.setdefault(k, len(self.seen))
        v = [-1.5, -0.75, -2.25, -1.25][self.seen[k] % 4]
        return np.diag([v]*self.n)


def special(env, fn, n, y0, t0):
    c = env.reals("c", n, -1000, 1000, s=[700.0, -300.0, 1.0][:n])
    if fn == "zero0":
        y0 = env.arr([0.0]*n)
    if fn in ("zero", "zero0"):
        c = env.arr([0.0]*n)
    if fn == "lin":
        return (lambda t, y: env.arr([u + 2.0*(t - t0) for u in c])), y0
    return (lambda t, y: c.copy()), y0


def body(env, case, norms):
    name, d = case["m"], case["dir"]
    kd = M.kind(name)
    n, y0 = y0_of(env, name)
    m = n//2
    t0 = env.real("t0", -4, 4, s=0.75)
    kw = dict(rtol=1e-3, atol=1.0, **case["kw"])
    if not case["auto"]:
        kw["first_step"] = env.real("h", 1/64, 0.5, s=0.25)
    T = env.real("T", 1/4, 2, s=0.625) if case["end"] else 1000.0
    f = Oracle(env, n, -10, 10, kind=kd, indep_v=name == "MR6NN")
    fn = case.get("fn")
    if fn:
        f, y0 = special(env, fn, n, y0, t0)
    g = f
    J1 = J2 = None
    if case["rel"] == "mirror":
        sign, rkn = -1, kd == "rkn"
        ta = t0
        fun2 = Twin(env, f, lambda t: 2*t0 - t, -1, kd, n)
        back = lambda t: 2*t0 - t                    # noqa: E731
    else:
        sign, rkn = 1, False
        c = env.real("c", -4, 4, s=1.5)
        ta = t0 + c
        # autonomous: the key of the function is the state
        g = Twin(env, f, lambda t: t0, 1, kd, n)
        fun2 = g
        back = lambda t: t - c                       # noqa: E731
    y2 = y0.copy()
    if rkn:
        y2[m:] = -y2[m:]
    if case.get("jac"):
        J = Jac(env, n)
        J1, J2 = (J(t0, y0),)*2 if case["jac"] == "array" else (
            J, lambda t, y: sign*J(back(t), y))
        if case["jac"] == "array":
            J2 = sign*J2
    k1, k2 = (dict(kw, jac=j) if j is not None else kw for j in (J1, J2))
    a = Run(env, norms, name, g, t0, y0.copy(), t0 + d*T, **k1)
    b = Run(env, norms, name, fun2, ta, y2, ta + sign*d*T, **k2)
    if rkn:
        flip = np.array([1.0]*m + [-1.0]*m)
    else:
        flip = np.array([1.0]*n)
    for k in range(case["steps"]):
        t, u = a.s.t, b.s.t
        x, y = a.step(), b.step()
        if x == "failed" or y == "failed":
            break
        v = values(a.dense(), t, a.s.t - t)
        w = values(b.dense(), u, b.s.t - u)
        env.zero(f"interpolant of step {k}",
                 [q for p, r in zip(v, w) for q in p - flip*r], 1e-8)
        if x == "finished" or y == "finished":
            break
    b.rec = [(t, flip*y, s) for t, y, s in b.rec]
    # (error estimates are compared up to their sign)
    a.st = (a.st[0], [np.ravel(x) for x in a.args], 1)
    b.st = (b.st[0], [np.ravel(x) for x in b.args], 1)
    for x, y in zip(a.args, b.args):
        for i in range(min(len(x), len(y))):
            p, q = sample(x[i]), sample(y[i])
            if abs(p*q) < 1e-12:
                x[i], y[i] = abs(x[i]), abs(y[i])
            elif p*q < 0:
                y[i] = -y[i]
    compare(env, case["rel"], a, b, tmap=back)
