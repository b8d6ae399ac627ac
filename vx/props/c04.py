"""C04: the interpolant of a step on the rooted-tree (Nystrom-tree) model
problems is compared with the exact solution at a symbolic point of the step.
z3 decides that all terms up to the documented order of the interpolant agree
for every point, step length and parameter; array and scalar evaluation of the
interpolant must agree."""
import numpy as np

from .. import methods as M
from ..ode import NystromODE
from . import c01

ID = "C04"
BOUNDS = ("one step of length h in [1/64, 1] in both directions, position "
          "theta in [0, 1] of the step, |parameters| <= 1; coefficient "
          "tolerance 1e-12")
OUTSIDE = ("rounding; acceptance is assumed (error norm replaced by 0.5 in "
           "symbolic mode, loose tolerance in replay); implicit stages solved "
           "exactly")
OPTS = dict(max_paths=8, budget=150, branch_ms=500, claim_ms=20000)
TOL = 1e-12
TOLS = {"Pr9": 2e-11}

# (class, options, order of position, order of velocity)
TABLE = [(n, o, q, q) for n, o, q in M.DENSE] + [
    ("Fi4N", {}, 4, 4),
    ("Fi5N", {"interpolant": 0}, 4, 4), ("Fi5N", {"interpolant": 1}, 5, 5),
    ("Fi5N", {"interpolant": 2}, 4, 5), ("Fi5N", {"interpolant": 3}, 4, 4),
    ("Mu5Nmb", {}, 4, 4), ("Mu5Nmb", {"interpolant": "free"}, 4, 4),
    ("MR6NN", {}, 6, 5),
    ("HS2I", {}, 2, 2), ("HS2Ia", {}, 2, 2),
    ("KC3I", {"interpolant": "C0"}, 3, 3),
    ("KC3I", {"interpolant": "C1"}, 3, 3),
    ("KC4I", {"interpolant": "C0"}, 4, 4),
    ("KC4I", {"interpolant": "C1"}, 4, 4),
    ("KC4Ia", {"interpolant": "C0"}, 4, 4),
    ("KC4Ia", {"interpolant": "C1"}, 4, 4),
    ("Kv3I", {"interpolant": "C0"}, 3, 3),
    ("Kv3I", {"interpolant": "C1"}, 3, 3),
]


def cases(tier, seed):
    out = []
    for name, o, q, qv in TABLE:
        for d in (1, -1):
            tag = "".join(f"-{v}" for v in o.values())
            out.append(dict(name=f"{name}{tag}{d:+d}", m=name, dir=d, kw=o,
                            q=q, qv=qv, concolic=True, extra=c01.NORM))
    for d in (1, -1):
        for b in (2, 3):
            out.append(dict(name=f"CKdisc-fallback{b}{d:+d}", m="CKdisc",
                            dir=d, kw={}, bump=b, q=b, qv=b, concolic=True))
        for m in (2, 3, 5, 8, 13):
            out.append(dict(name=f"SSV2stab-m{m}{d:+d}", m="SSV2stab", dir=d,
                            kw={}, stages=m, q=2, qv=2, concolic=True,
                            extra=c01.NORM))
    out.sort(key=lambda c: -c["q"])
    return out


def run(env, case):
    case = dict(case)
    if case.get("stages"):
        z = (case["stages"] - 0.5)**2 - 1
        case["sample"] = {"h": 0.5, "rho": z/1.54/0.5}
    if case.get("bump"):
        case["sample"] = {"h": 0.9}
    env.case = case
    s, ode, t0, h = c01.make(env, case, **case["kw"])
    s.step()
    if s.status == "failed":
        env.abort("step failed")
    H = s.t - t0
    if case.get("bump") and env.decide(abs(H) > 0.65*h):
        env.abort("no fallback taken")
    th = env.real("theta", 0, 1)
    f = s.dense_output()
    y = f(t0 + th*H)
    z = f(np.array([t0, t0 + th*H]))
    env.claim("shape of array evaluation", np.shape(z) == (len(s.y), 2))
    env.zero("array evaluation", [a - b for a, b in zip(z[:, 1], y)], 1e-12)
    ex = ode.exact(th*H)
    rkn = isinstance(ode, NystromODE)
    tol = 1e-11 if case["m"] == "SSV2stab" else TOLS.get(case["m"], TOL)
    byorder = {}
    for i in range(ode.n):
        k = ode.degree(i)
        q = case["qv"] if rkn and i >= ode.h else case["q"]
        if k <= q:
            byorder.setdefault(k, []).append(y[i] - ex[i])
    for k in sorted(byorder):
        xs = byorder[k]
        for j in range(0, len(xs), 60):
            env.zero(f"order {k} terms", xs[j:j+60], tol)
