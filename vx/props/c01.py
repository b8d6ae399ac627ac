"""C01: for every rooted tree up to the documented order (and, for the second
order methods, every Nystrom tree) a component y' = a*prod(children) with
symbolic factors a in [-1,1] is integrated over one step of symbolic length by
the real step code; z3 decides that the difference with the Taylor polynomial
of the exact solution is below rounding of the coefficients for all values.
The tree components span all elementary differentials, so this covers every
smooth right-hand side through the power h^p."""
from fractions import Fraction

import numpy as np

from .. import methods as M
from ..ode import TreeODE, NystromODE

ID = "C01"
BOUNDS = ("h in [1/64, 1], |a| <= 1, t0 in [-1, 1], both directions; "
          "coefficient tolerance 2e-13 (relative to 1; 1e-11 for SSV2stab); "
          "stage counts of SSV2stab up to 24 (quick) / 200 (thorough)")
OUTSIDE = ("rounding of the step itself; acceptance is assumed (the error "
           "norm is replaced by 0.5 in symbolic mode, tolerance 1e6 in replay)"
           "; implicit stages are assumed to be solved exactly (see C13, C22)")
OPTS = dict(max_paths=8, budget=150, branch_ms=500, claim_ms=20000)
NORM = {"norm": lambda x: 0.5}


def cases(tier, seed):
    out = []
    for d in (1, -1):
        for name in M.ERK:
            out.append(dict(name=f"{name}{d:+d}", m=name, dir=d,
                            concolic=True, extra=NORM))
        for name in M.RKN:
            out.append(dict(name=f"{name}{d:+d}", m=name, dir=d,
                            concolic=True, extra=NORM))
        for name in M.ESD:
            out.append(dict(name=f"{name}{d:+d}", m=name, dir=d,
                            concolic=True, extra=NORM))
        out.append(dict(name=f"CKdisc-fallback3{d:+d}", m="CKdisc", dir=d,
                        bump=3, concolic=True))
        out.append(dict(name=f"CKdisc-fallback2{d:+d}", m="CKdisc", dir=d,
                        bump=2, concolic=True))
    for i, name in enumerate(list(M.ERK) + ["SSV2stab"] + list(M.RKN)):
        out.append(dict(name=f"{name}-retry", m=name, dir=1 - 2*(i % 2),
                        retry=True, pmax=3 if name in M.RKN else 4,
                        concolic=True))
    ms = list(range(2, 25)) if tier == "quick" else \
        list(range(2, 80)) + [100, 150, 200]
    for m in ms:
        d = 1 if m % 2 else -1
        out.append(dict(name=f"SSV2stab-m{m}", m="SSV2stab", dir=d, stages=m,
                        concolic=True, extra=NORM))
    out.sort(key=lambda c: -M.order(c["m"])[0])
    return out


def make(env, case, order_extra=0, **kw):
    """solver of a case on the tree problem, not stepped yet"""
    name, d = case["m"], case["dir"]
    C = M.cls(name)
    p = min(M.order(name)[0] + order_extra, case.get("pmax", 99))
    t0 = env.real("t0", -1, 1)
    h = env.real("h", 1/64, 1)
    tb = t0 + 64*d
    kw.setdefault("first_step", h)
    kw.setdefault("atol", 1e6)
    if M.kind(name) == "rkn":
        ode = NystromODE(env, p, t0, velocity=name != "MR6NN")
        if callable(kw["atol"]):
            kw["atol"] = kw["atol"](ode)
        fun, y0 = ode.fun, ode.y0()
        if case.get("retry"):
            kw["rtol"] = 1e-13
            fun, y0, kw["atol"] = make_retry(env, case, ode, t0, h)
        s = C(fun, t0, y0, tb, **kw)
    elif M.kind(name) == "esdirk":
        ode = TreeODE(env, p, t0)
        D = M.esdirk_zero_predictor(C)
        st = {"on": False}
        hd = h*d*float(C.d)

        def fun(t, y):
            if st["on"]:
                return ode.fun_implicit(t, y, hd)
            return ode.fun(t, y)
        s = D(fun, t0, ode.y0(), tb, jac=np.zeros((ode.n, ode.n)), **kw)
        st["on"] = True
    else:
        ode = TreeODE(env, p, t0)
        fun = ode.fun
        if name == "SSV2stab":
            rho = env.real("rho", 0.01, 1e6)
            kw["rho_jac"] = lambda t, y: rho
        y0 = ode.y0()
        if case.get("retry"):
            kw["rtol"] = 1e-13
            fun, y0, kw["atol"] = make_retry(env, case, ode, t0, h)
        if case.get("bump"):
            return make_bump(env, case, ode, C, t0, h, tb)
        s = C(fun, t0, y0, tb, **kw)
    return s, ode, t0, h


def make_retry(env, case, ode, t0, h):
    """an extra component with a large right-hand side near the end of the
    first trial: that trial is rejected"""
    d = case["dir"]
    G = env.real("G", 1e30, 1e32, s=1e31)
    rkn = isinstance(ode, NystromODE)

    def fun(t, y):
        big = (t - t0)*d > (0.15 if case["m"] == "CKdisc" else 0.45)*h
        g = G if big else 0.0*G
        if rkn:
            H = ode.h
            r = list(ode.fun(t, np.concatenate((y[:H], y[H+1:-1]))))
            return env.arr(r[:H] + [y[-1]] + r[H:] + [g])
        return env.arr(list(ode.rates(t, lambda k: y[k])) + [g])
    y0 = list(ode.y0())
    if rkn:
        H = ode.h
        y0 = y0[:H] + [0.0] + y0[H:] + [0.0]
    else:
        y0 = y0 + [0.0]
    return fun, env.arr(y0), 100.0


def make_bump(env, case, ode, C, t0, h, tb):
    """an extra component that is not smooth: forces a fallback solution"""
    d = case["dir"]
    lo, hi = (0.55, 0.7) if case["bump"] == 2 else (0.8, 2.0)
    G = env.real("G", 4e3, 5e4, s=2e4)

    def fun(t, y):
        r = list(ode.rates(t, lambda k: y[k]))
        x = (t - t0)*d
        r.append(G if (x > lo*h and x < hi*h) else 0.0*G)
        return env.arr(r)
    y0 = env.arr(list(ode.y0()) + [0.0])
    s = C(fun, t0, y0, tb, first_step=h, atol=60.0, rtol=1e-9)
    return s, ode, t0, h


def run(env, case):
    if case.get("stages"):
        m = case["stages"]
        # 1 + int(sqrt(1.54*h*rho + 1)) == m
        case = dict(case)
        z = (m - 0.5)**2 - 1
        case["sample"] = {"h": 0.5, "rho": z/1.54/0.5}
        env.case = case
    if M.kind(case["m"]) != "esdirk" and case.get("bump"):
        case["sample"] = {"h": 0.9}
        env.case = case
    s, ode, t0, h = make(env, case)
    s.step()
    if s.status == "failed":
        env.abort("step failed")
    H = s.t - t0
    p = M.order(case["m"])[0]
    y = s.y
    if case.get("retry"):
        if env.decide(abs(H) > 0.5*h):
            env.abort("first trial was not rejected")
        if isinstance(ode, NystromODE):
            y = np.concatenate((y[:ode.h], y[ode.h+1:-1]))
    if case.get("bump"):
        if env.decide(abs(H) <= 0.5*h):
            p = 2                            # second order fallback
        elif env.decide(abs(H) <= 0.9*h):
            p = 3                            # third order fallback
        # else: the full step has the full order
    if env.decide((H*case["dir"]) <= 0):
        env.abort("no step (see C06)")
    ex = ode.exact(H)
    tol = 1e-11 if case["m"] == "SSV2stab" else 2e-13
    byorder = {}
    for i in range(ode.n):
        k = ode.degree(i)
        if k > p:
            continue
        byorder.setdefault(k, []).append(y[i] - ex[i])
    for k in sorted(byorder):
        xs = byorder[k]
        for j in range(0, len(xs), 60):
            env.zero(f"order {k} terms", xs[j:j+60], tol)
