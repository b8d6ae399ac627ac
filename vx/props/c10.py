"""C10: a solver is constructed without first step, with symbolic start time,
interval length, maximum step, tolerance, initial state and arbitrary
right-hand side values; the first trial step is recovered from the evaluation
times of the first step call. z3 decides on every path that it is non-zero,
directed to the end, not longer than the interval and the maximum step, and
not longer than the inverse of each Lipschitz estimate that follows from the
evaluations made while probing."""
import numpy as np

from .. import methods as M
from ..env import sabs
from ..oracle import Oracle, dims, skey

ID = "C10"
BOUNDS = ("|t0| <= 4 or t0 = 0, interval in [1e-7, 8], max_step in [1/64, 16] "
          "or none, atol in [1e-9, 1], |f| <= 10 or f = 0 or the same value at "
          "every evaluation, 1/64 <= |y0| <= 10 or y0 = 0; one component (a pair for "
          "the Nystrom methods; thorough: also two components); linear index-1 DAEs of two "
          "components with a Jacobian array, rates up to 200, interval in "
          "[1/512, 8]")
OUTSIDE = ("rounding; intervals so short that the rounding floor matters; the "
           "stabilised method with a given spectral radius of 0.1 or 2")
OPTS = dict(max_paths=60, budget=8, branch_ms=60, claim_ms=1500,
            nra_branch=False, fork_max=True)


FULL = ("Ts5", "Fi4N", "HS2I", "SWAG", "SSV2stab")
# implicit methods stretch a step that nearly reaches the end
SLACK = {"esdirk": 1.0102}


def cases(tier, seed):
    out = []
    big = tier == "thorough"
    opts = dict(max_paths=1000, budget=150, claim_ms=15000) if big else {}
    for name in M.ESD if big else ("HS2I", "KC4I"):
        for d in (1, -1):
            for v in ("plain", "coupled"):
                out.append(dict(name=f"{name}{d:+d}-dae-{v}", m=name, dir=d,
                                rhs="dae", v=v, opts=opts))
    for i, name in enumerate(M.NAMES):
        for d in (1, -1):
            for rhs in ("free", "zero", "const"):
                for y in ("free", "zero"):
                    for t in ("free", "zero"):
                        if not big and (y, t) == ("zero", "free"):
                            continue
                        if not big and rhs == "free" and name not in FULL \
                                and (y, t) != ("free", "free"):
                            continue
                        mxs = (0, 1) if big or name in FULL else (
                            int(d < 0),)
                        for mx in mxs:
                            out.append(dict(
                                name=f"{name}{d:+d}-{rhs}-y{y}-t{t}"
                                f"{'-max' if mx else ''}", m=name, dir=d,
                                rhs=rhs, y=y, t=t, maxs=mx, n=1, opts=opts))
            if big:
                out.append(dict(name=f"{name}{d:+d}-two", m=name, dir=d,
                                rhs="free", y="free", t="free", maxs=1, n=2,
                                opts=opts))
    return out


class Stop(Exception):
    pass


def dae(env, case):
    """u' = a u + b v, 0 = c u + v: reduced problem u' = (a - b c) u"""
    name, d = case["m"], case["dir"]
    t0 = env.real("t0", -4, 4, s=0.5, pin=[1.0, -2.5])
    a = env.real("a", -200, -1/8, s=-30.0, pin=[-40.0, -3.0])
    if case["v"] == "plain":
        b, c, atol = 0.0, env.real("c", 1/8, 16, s=1.5, pin=[4.0, 10.0]), 100.0
    else:
        b, c, atol = 4.0, 7.5, 100.0
    T = 8.0 if case["v"] == "coupled" else env.real("T", 1/512, 8, s=1.0,
                                                    pin=[1/256, 0.25, 8.0])
    tb = t0 + T*d
    calls = []

    def f(t, y):
        if lim and len(calls) >= lim[0]:
            raise Stop
        calls.append(t)
        return env.arr([(a*y[0] + b*y[1])*d, (c*y[0] + y[1])*d])
    lim = []
    J = env.arr([a*d, b*d, c*d, 1.0*d]).reshape(2, 2)
    s = M.cls(name)(f, t0, env.arr([1.0, -c]), tb, jac=J,
                    M=np.array([1.0, 0.0]), rtol=1e-3, atol=atol)
    k = len(calls)
    lim.append(k + 1)
    try:
        s.step()
    except Stop:
        pass
    if len(calls) == k:
        env.abort("no trial")
    h = (calls[k] - t0)*d/float(s.C[1])
    env.claim("first step is non-zero and points to the end", h > 0, h > 0)
    env.claim("first step fits in the interval", h <= T*(1 + 1e-9),
              h <= T*(1 + 1e-6))
    env.claim("first step at most the inverse Lipschitz constant of the "
              "reduced problem", h*sabs(a - b*c) <= 1.0102*(1 + 1e-9),
              h*sabs(a - b*c) <= 1.0102*(1 + 1e-4))


def run(env, case):
    if case["rhs"] == "dae":
        return dae(env, case)
    name, d = case["m"], case["dir"]
    kd = M.kind(name)
    n = dims(name, case["n"])
    t0 = env.real("t0", -4, 4, pin=[1.0, -2.5]) if case["t"] == "free" else 0.0
    T = env.real("T", 1e-7, 8, pin=[1.0, 1e-6, 3.0])
    tb = t0 + d*T
    kw = dict(rtol=1e-3, atol=env.real("atol", 1e-9, 1, pin=[1e-3, 1e-6]))
    mx = None
    if case["maxs"]:
        kw["max_step"] = mx = env.real("max", 1/64, 16, pin=[0.5, 0.25, 2.0])
    if case["y"] == "free":
        y0 = d*env.reals("y", n, 1/64, 10, pin=[1.0, 0.5])
    else:
        y0 = env.arr([0.0]*n)
    if case["rhs"] == "free":
        f = Oracle(env, n, -10, 10, kind=kd, indep_v=name == "MR6NN")
    else:
        m = n//2 if kd == "rkn" else n
        c = env.reals("c", m, -10, 10, pin=[1.0, -2.0]) \
            if case["rhs"] == "const" else env.arr([0.0]*m)
        f = Const(env, kd, m, c)
    C = M.cls(name)
    if kd == "esdirk":
        kw["jac"] = np.zeros((n, n))
    if name == "SSV2stab":
        kw["rho_jac"] = lambda t, y: 0.1
    # the solver takes and returns arrays of its own
    s = C(f, t0, y0, tb, **kw)
    probe = list(f.calls)
    k = len(f.calls)
    lim = [k + (3 if name == "SSV2stab" else 1)]
    inner = s.fun

    def stop(t, y):
        if len(f.calls) >= lim[0]:
            raise Stop
        return inner(t, y)
    s.fun = stop
    try:
        s.step()
    except Stop:
        pass
    if len(f.calls) < lim[0]:
        env.abort("no trial")
    c = 1.0 if name in ("SWAG", "SSV2stab") else float(s.C[1])
    h = (f.calls[lim[0] - 1][0] - t0)*d/c
    env.claim("first step is non-zero and points to the end", h > 0, h > 0)
    env.claim("first step fits in the interval", h <= T*(1 + 1e-9),
              h <= T*(1 + 1e-6))
    if mx is not None:
        env.claim("first step respects max_step", h <= mx*(1 + 1e-9),
                  h <= mx*(1 + 1e-6))
    if name == "SSV2stab":
        return
    base = {}
    g = SLACK.get(kd, 1.0)
    for t, y, fv in probe:
        key = skey(t)
        if key not in base:
            base[key] = (y, fv)
            continue
        dy, df = y - base[key][0], fv - base[key][1]
        if not any(env.decide(v != 0) for v in dy):
            continue
        if len(df) == 1:
            a, b = h*sabs(df[0]), sabs(dy[0])
            m = 1
        else:
            a, b = h*h*sum(v*v for v in df), sum(v*v for v in dy)
            m = 2
        env.claim("first step at most the inverse Lipschitz estimate",
                  a <= b*(g*(1 + 1e-9))**m, a <= b*(g*(1 + 1e-4))**m)
        if kd == "rkn":
            break       # the constructor makes another evaluation to see if
            #             the right-hand side depends on the velocity


class Const:
    """the same values at every evaluation"""

    def __init__(self, env, kd, m, c):
        self.env, self.kd, self.m, self.c = env, kd, m, c
        self.calls = []

    def __call__(self, t, y):
        v = list(self.c)
        if self.kd == "rkn":
            v = list(y[self.m:]) + v
        v = self.env.arr(v)
        self.calls.append((t, np.array(y, copy=True), v))
        return v.copy()
