"""C03: steps are taken with a right-hand side that returns arbitrary
(symbolic) values; the interpolant of the step is evaluated at both ends, and
its end slopes are derived from its values at fixed interior points. z3 decides
that they equal the old/new state and the right-hand side values, for all
values, step lengths, start times and both directions."""
from fractions import Fraction

import numpy as np

from .. import methods as M
from ..oracle import Oracle, build, dims, NormSeq

ID = "C03"
BOUNDS = ("|f| <= 10, |y0| <= 10, |t0| <= 10, first step in [1/64, 1]; after "
          "1, 2 and 3 accepted steps (SWAG up to 9), also with a rejected "
          "trial; one component (a pair for the Nystrom methods); tolerance "
          "1e-10 on values, 1e-8 on slopes")
OUTSIDE = ("rounding; the accept/reject decisions are prescribed by an error "
           "norm stub; implicit methods with a zero Jacobian array")
OPTS = dict(max_paths=8, budget=120, branch_ms=500, claim_ms=10000)

# (class, options, slopes: "both", "old", "new", "")
TABLE = [
    ("Me4", {}, "both"), ("Ts5", {}, "both"), ("CK5", {}, "both"),
    ("CKdisc", {}, "both"), ("BS5", {"interpolant": "low"}, "both"),
    ("BS5", {"interpolant": "best"}, "both"),
    ("BS5", {"interpolant": "free"}, "both"), ("Pr7", {}, "both"),
    ("Pr8", {}, "both"), ("Pr9", {}, "both"), ("CFMR7osc", {}, "both"),
    ("Fi4N", {}, "both"), ("Fi5N", {"interpolant": 0}, "both"),
    ("Fi5N", {"interpolant": 1}, "both"), ("Fi5N", {"interpolant": 2}, "both"),
    ("Fi5N", {"interpolant": 3}, "both"),
    ("Mu5Nmb", {"interpolant": "better"}, "both"),
    ("Mu5Nmb", {"interpolant": "free"}, "both"), ("MR6NN", {}, "both"),
    ("HS2I", {}, "both"), ("HS2Ia", {}, "both"),
    ("KC3I", {"interpolant": "C0"}, ""), ("KC3I", {"interpolant": "C1"}, "both"),
    ("KC4I", {"interpolant": "C0"}, ""), ("KC4I", {"interpolant": "C1"}, "both"),
    ("KC4Ia", {"interpolant": "C0"}, ""),
    ("KC4Ia", {"interpolant": "C1"}, "both"),
    ("Kv3I", {"interpolant": "C0"}, ""), ("Kv3I", {"interpolant": "C1"}, "both"),
    ("SSV2stab", {}, "both"), ("SWAG", {}, "both"),
]


def nseq(seq):
    return {"norm": lambda: NormSeq(seq)}


def cases(tier, seed):
    out = []
    for name, o, sl in TABLE:
        tag = "".join(f"-{v}" for v in o.values())
        for d in (1, -1):
            nst = (1, 2, 3) if name != "SWAG" else (
                (1, 2, 3, 5) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7))
            for k in nst:
                out.append(dict(name=f"{name}{tag}{d:+d}-steps{k}", m=name,
                                kw=o, dir=d, steps=k, slopes=sl,
                                concolic=True, stub=nseq([0.3])))
            if name not in ("SWAG",):
                out.append(dict(name=f"{name}{tag}{d:+d}-rej", m=name, kw=o,
                                dir=d, steps=2, slopes=sl, concolic=True,
                                stub=nseq([0.3]*2 + [7.0, 0.3])))
    for d in (1, -1):
        # user-defined implicit method: cubic Hermite interpolant
        out.append(dict(name=f"user-ESDIRK{d:+d}-steps2", m="HS2I", kw={},
                        dir=d, steps=2, slopes="both", concolic=True,
                        stub=nseq([0.3]), user=True))
        # reduced order solutions of the variable order method
        for tag, seq in (("fb3", [0.5, 0.5, 2.0, 0.5]),
                         ("fb2", [0.5, 1e9, 0.5]),
                         ("fb2b", [0.5, 4.0, 2.0, 0.5])):
            for pre in (0, 1):
                out.append(dict(
                    name=f"CKdisc-{tag}-{pre}{d:+d}", m="CKdisc", kw={}, dir=d,
                    steps=1 + pre, slopes="both", concolic=True,
                    stub=nseq([0.3]*3*pre + seq + [0.3])))
    out.sort(key=lambda c: -c["steps"])
    return out


def user_esdirk():
    from extensisq.common import ESDIRK
    C = M.cls("HS2I")
    keep = ("n_stages", "order", "order_secondary", "kappa", "d", "A", "B",
            "C", "E", "Az")
    return type("HS2I", (ESDIRK,), {k: getattr(C, k) for k in keep})


# points for the end slopes: polynomial pieces of degree <= 8
P0 = [Fraction(i, 20) for i in range(10)]
P1 = [1 - Fraction(i, 25) for i in range(10)]


def weights(pts, x):
    """exact differentiation weights at x"""
    w = []
    for j, pj in enumerate(pts):
        s = Fraction(0)
        den = Fraction(1)
        for m_, pm in enumerate(pts):
            if m_ != j:
                den *= pj - pm
        for k, pk in enumerate(pts):
            if k == j:
                continue
            t = Fraction(1)
            for m_, pm in enumerate(pts):
                if m_ not in (j, k):
                    t *= x - pm
            s += t
        w.append(s/den)
    return w


W0, W1 = weights(P0, 0), weights(P1, 1)


def run(env, case):
    name, d = case["m"], case["dir"]
    kd = M.kind(name)
    n = dims(name)
    t0 = env.real("t0", -10, 10)
    h = env.real("h", 1/64, 1)
    y0 = env.reals("y", n, -10, 10)
    f = Oracle(env, n, kind=kd, indep_v=name == "MR6NN")
    kw = dict(case["kw"])
    cl = user_esdirk() if case.get("user") else name
    s = build(env, cl, f, t0, y0, t0 + 1000*d, first_step=h, rtol=1e-3,
              atol=1.0, **kw)
    fn = f.calls[0][2]
    for k in range(case["steps"]):
        yo = np.array(s.y, copy=True)
        fo = fn
        s.step()
        fn = f.calls[-1][2]
        if s.status == "failed":
            env.abort("step failed")
    to, tn = s.t_old, s.t
    if kd != "esdirk":
        # implicit methods: the last evaluation of a step is the end slope
        fo, fn = f.find(to, yo), f.find(tn, s.y)
    sol = s.dense_output()
    yn = np.array(s.y, copy=True)
    H = tn - to
    a, b = sol(to), sol(tn)
    env.zero("old end", [p - q for p, q in zip(a, yo)], 1e-10)
    env.zero("new end", [p - q for p, q in zip(b, yn)], 1e-10)
    lo, hi = (to, tn) if d > 0 else (tn, to)
    env.zero("interval", [sol.t_min - lo, sol.t_max - hi], 1e-12)
    v = sol(np.array([to, tn]))
    env.claim("array shape", np.shape(v) == (n, 2))
    env.zero("array evaluation",
             [p - q for p, q in zip(v[:, 0], yo)] +
             [p - q for p, q in zip(v[:, 1], yn)], 1e-10)
    if not case["slopes"]:
        return
    if env.decide(H*d <= 1/4096):
        env.abort("tiny step")

    def slope(pts, w):
        tot = None
        for p, c in zip(pts, w):
            c = c if env.sym else float(c)
            q = p if env.sym else float(p)
            r = sol(to + H*q)*c
            tot = r if tot is None else tot + r
        return tot
    m = n//2
    for lab, pts, w, ff, yy in (("old slope", P0, W0, fo, yo),
                                ("new slope", P1, W1, fn, yn)):
        if ff is None:
            continue
        g = slope(pts, w)
        if name == "Fi5N" and case["kw"]["interpolant"] == 1 and \
                lab == "new slope":
            continue
        env.zero(lab, [p - H*q for p, q in zip(g, ff)], 1e-7)
