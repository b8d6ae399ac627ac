"""C19: the same problem is integrated without stiffness detection and with
detection after various numbers of evaluations, with the same (symbolic) error
norms. z3 decides that times, states, interpolants and the arguments of the
error norms are the same; an exception of the test is a violation. The root
finder is executed with symbolic coefficients, and the whole power iteration
with a symbolic 2x2 Jacobian: the roots it returns must be the roots of the
quadratic (the eigenvalues of step times Jacobian), the larger one first."""
import math

import numpy as np

from .. import methods as M, shim, sr
from ..env import sand, sor
from ..oracle import Guard, Oracle, dims
from ..rel import Norms, Run, compare, pattern, values, y0_of
from .c03 import TABLE

ID = "C19"
BOUNDS = ("|f| <= 10, 1/2 <= y0 <= 2 (also y0 = 0), |t0| <= 4, first step in "
          "[1/64, 1/2], error norms in [1/64, 64]; settings 1, s, 2s+1 for s "
          "stages; three (thorough six) steps, right-hand side arbitrary, "
          "linear with symbolic coefficients (rotating, damped, stiff), "
          "constant and zero; 41 steps with many rejections; all coefficients "
          "of the quadratic with |alpha|, |beta| <= 1000")
OUTSIDE = ("histories and iteration counts other than those of the samples; "
           "complex problems; overflow of the power iteration")
OPTS = dict(max_paths=64, budget=60, branch_ms=500, claim_ms=10000)

FUNS = ("any", "const", "zero", "zero0", "rot", "damp", "stiff", "sad")
LIN = {  # (trace, determinant) like samples: a, b, c, d
    "rot": (-0.25, 2.0, -3.0, 0.125), "damp": (-4.0, 1.0, 0.5, -1.5),
    "stiff": (-30.0, 4.0, 2.0, -8.0), "sad": (3.0, 1.0, 0.25, -2.0),
    "swap": (-1.0, 2.0, 1.0, -1.5),
}


def cases(tier, seed):
    out = []
    big = tier == "thorough"
    for name, kw, _ in TABLE:
        if M.kind(name) not in ("erk", "rkn") or name == "CKdisc":
            continue
        tag = "".join(f"-{v}" for v in kw.values())
        for j, fn in enumerate(FUNS):
            for q in range(3):
                if not big and (q + j) % 3 and fn != "any":
                    continue
                for i in range(4 if big else 1):
                    out.append(dict(
                        name=f"{name}{tag}-{fn}-{q}-{i}", m=name, kw=kw,
                        dir=-1 if (q + j + i) % 2 else 1, pat=i + q, set=q,
                        fn=fn, steps=6 if big else 3 + (q > 1), concolic=True,
                        mode="run"))
        for fn in ("any",) if not big else ("any", "damp", "rot"):
            out.append(dict(name=f"{name}{tag}-{fn}-long", m=name, kw=kw,
                            dir=1, fn=fn, set=3, steps=41, mode="long",
                            concolic=True, pat=0))
    out.append(dict(name="roots", mode="roots"))
    for fn in LIN:
        for d in (1, -1):
            for v in range(4):
                out.append(dict(name=f"eigen-{fn}-{v}{d:+d}", mode="eigen",
                                fn=fn, dir=d, var=v, concolic=True, pat=0))
    return out


def settings(name, i):
    s = M.cls(name).n_stages
    return (1, s, 2*s + 1, 10**6)[i]


def run(env, case):
    if case["mode"] == "roots":
        return roots(env)
    p = pattern(case["pat"])
    if case["mode"] == "long":
        p = [0.3 if k % 3 else 1.1 for k in range(200)]
    norms = Norms(env, p)
    if case["mode"] == "long" or case.get("fn") in LIN:
        norms.vals = list(p) + [p[-1]]*200
    with shim.stubbed({"norm": lambda: norms}):
        if case["mode"] == "eigen":
            eigen(env, case, norms)
        else:
            body(env, case, norms)


def problem(env, case, n, name):
    """right-hand side (first order form) and initial state"""
    fn = case["fn"]
    kd = M.kind(name)
    y0 = env.reals("y", n, 0.5, 2, s=[1.0, 0.75, 1.25, 0.875, 1.5, 0.625][:n])
    if fn == "any":
        return Oracle(env, n, -10, 10, kind=kd, indep_v=name == "MR6NN"), y0
    m = n//2 if kd == "rkn" else n

    def wrap(acc):
        def f(t, y):
            if kd == "rkn":
                return env.arr(list(y[m:]) + list(acc(y[:m], y[m:])))
            return env.arr(list(acc(y, y)))
        return f
    if fn in ("const", "zero", "zero0"):
        c = [env.real(f"c{i}", -10, 10) if fn == "const" else 0.0
             for i in range(m)]
        if fn == "zero0":
            y0 = env.arr([0.0]*n)
        return wrap(lambda y, v: c), y0
    # concrete linear part, in exact arithmetic so that differences cancel
    a, b, c, d = LIN[fn]
    one = sr.SR.const(1) if env.sym else 1.0
    z = [1.0*one, 0.75*one, y0[2]]
    if kd == "rkn":
        z += [0.5*one, 0.25*one, y0[5]]
    g = 0.0
    return wrap(lambda y, v: [a*y[0] + b*y[1], c*y[0] + d*y[1], g]), \
        env.arr(z)


def body(env, case, norms):
    name, d = case["m"], case["dir"]
    lin = case["fn"] in LIN
    n = dims(name, 3 if lin else 1)
    t0 = env.real("t0", -4, 4, s=0.75)
    h = env.real("h", 1/64, 0.5, s=0.25)
    if case["mode"] == "long" or lin:
        t0, h = 0.75, 0.25 if case["mode"] == "long" else 0.0625
    tb = t0 + 4000*d
    f, y0 = problem(env, case, n, name)
    g = Guard(f)
    runs = []
    K = settings(name, case["set"])
    for q in (0, K):
        if q and case["fn"] == "any" and M.kind(name) == "rkn":
            # two components: large differences end the power iteration
            f.fresh = lambda k, m: env.arr([1e9]*m)
        try:
            r = Run(env, norms, name, g, t0, y0.copy(), tb, first_step=h,
                    rtol=1e-3, atol=1.0, nfev_stiff_detect=q, **case["kw"])
            v = []
            for k in range(case["steps"]):
                t = r.s.t
                if r.step() == "failed":
                    break
                if case["mode"] == "run" or k == case["steps"] - 1:
                    v.append(values(r.dense(), t, r.s.t - t))
        except (ZeroDivisionError, ArithmeticError, AttributeError, TypeError,
                ValueError, NameError, IndexError) as e:
            if q == 0:
                env.abort(f"{type(e).__name__} without detection")
            env.claim(f"no exception with nfev_stiff_detect={q} "
                      f"({type(e).__name__})", False)
            return
        runs.append((r, v))
    g.check(env)
    compare(env, f"with nfev_stiff_detect={K}", runs[0][0], runs[1][0])
    for k, (x, y) in enumerate(zip(runs[0][1], runs[1][1])):
        env.zero(f"interpolant of step {k}",
                 [p for a, b in zip(x, y) for p in a - b], 1e-9)


def eigen(env, case, norms):
    """roots of the power iteration with a 2x2 Jacobian"""
    import extensisq.common as cm
    d = case["dir"]
    if not hasattr(cm, "stiff_a"):
        return
    a, b, c, e = LIN[case["fn"]]
    k = "abce"[case["var"]]
    a, b, c, e = [env.real(k, v - abs(v)/8, v + abs(v)/8, s=v)
                  if i == case["var"] else v for i, v in enumerate((a, b, c, e))]
    h = 0.0625

    def f(t, y):
        return env.arr([a*y[0] + b*y[1], c*y[0] + e*y[1]])
    y0 = np.array([1.0, 0.75])
    w = np.array([1.25, 0.5])
    v0 = np.array([1.0, -0.75])
    fits = []
    real = getattr(cm, "stiff_c", None)
    if real is not None:
        def hook(al, be):
            fits.append((al, be))
            return real(al, be)
        cm.stiff_c = hook
    try:
        st, re_, rts = cm.stiff_a(f, 0.0, y0.copy(), h*d, h*d, 1e4*d, 1, w,
                                  f(0.0, y0), v0.copy(), 5)
    finally:
        if real is not None:
            cm.stiff_c = real
    if rts is None:
        env.claim("the iteration converges", False)
        return
    r1, r2, rho = rts
    T, D = (a + e)*h*d, (a*e - b*c)*(h*h)
    if re_:
        return
    if fits:
        # the roots of these quadratics: case "roots"
        for k, (al, be) in enumerate(fits):
            env.zero(f"fitted quadratic {k}: trace", [al + T], 1e-6)
            env.zero(f"fitted quadratic {k}: determinant", [be - D], 1e-6)
        return
    env.zero("sum of the roots is the trace",
             [r1[0] + r2[0] - T, r1[1] + r2[1]], 1e-6)
    env.zero("product of the roots is the determinant",
             [r1[0]*r2[0] - r1[1]*r2[1] - D, r1[0]*r2[1] + r1[1]*r2[0]], 1e-6)
    env.le("larger root first", r2[0]*r2[0] + r2[1]*r2[1],
           r1[0]*r1[0] + r1[1]*r1[1], 1e-8)
    env.zero("spectral radius", [rho*rho - r1[0]*r1[0] - r1[1]*r1[1]], 1e-6)


def roots(env):
    import extensisq.common as cm
    if not hasattr(cm, "stiff_c"):
        return
    al = env.real("alpha", -1000, 1000)
    be = env.real("beta", -1000, 1000)
    r1, r2 = cm.stiff_c(al, be)
    env.zero("sum of the roots", [r1[0] + r2[0] + al, r1[1] + r2[1]], 1e-6)
    env.zero("product of the roots", [r1[0]*r2[0] - r1[1]*r2[1] - be,
                                      r1[0]*r2[1] + r1[1]*r2[0]], 1e-6)
    env.le("larger root first", r2[0]*r2[0] + r2[1]*r2[1],
           r1[0]*r1[0] + r1[1]*r1[1], 1e-8)
