"""C12: three runs of the same problem with the same (symbolic) error norms
and the same arbitrary right-hand side function: without dense output, with
dense output (asked for twice and evaluated) after every step, and with dense
output after the last step only. z3 decides that times, states, and the
arguments of every error norm are the same, that interpolants of earlier steps
keep their values, and that the interpolant of the last step does not depend
on earlier requests."""
import numpy as np

from .. import methods as M, shim
from ..oracle import Oracle
from ..rel import Norms, Run, compare, pattern, values, y0_of
from .c03 import TABLE

ID = "C12"
BOUNDS = ("|f| <= 10, 1/2 <= y0 <= 2, |t0| <= 4, first step in [1/64, 1/2], "
          "error norms in [1/64, 64], both directions; three steps (SWAG "
          "five; thorough: five, SWAG nine) along sampled histories of "
          "acceptance, rejection and order changes: z3 covers all values on "
          "the path of the sample")
OUTSIDE = ("histories other than the sampled ones (quick: 6 patterns per "
           "method and direction, thorough: 30); implicit methods with zero "
           "Jacobian")
OPTS = dict(max_paths=4, budget=60, branch_ms=500, claim_ms=10000)


def cases(tier, seed):
    out = []
    big = tier == "thorough"
    for name, kw, _ in TABLE:
        tag = "".join(f"-{v}" for v in kw.values())
        for d in (1, -1):
            for i in range(30 if big else 6):
                nst = (9 if big else 5) if name == "SWAG" else 5 if big else 3
                if i == 0 and d > 0 and name != "SWAG":
                    nst += 1
                out.append(dict(name=f"{name}{tag}{d:+d}-{i}", m=name, kw=kw,
                                dir=d, pat=i, steps=nst, concolic=True))
    return out


def run(env, case):
    norms = Norms(env, pattern(case["pat"]))
    with shim.stubbed({"norm": lambda: norms}):
        body(env, case, norms)


def body(env, case, norms):
    name, d = case["m"], case["dir"]
    kd = M.kind(name)
    n, y0 = y0_of(env, name)
    t0 = env.real("t0", -4, 4, s=0.75)
    h = env.real("h", 1/64, 0.5, s=0.25)
    tb = t0 + 1000*d
    f = Oracle(env, n, -10, 10, kind=kd, indep_v=name == "MR6NN")
    runs = {}
    moves = name == "Fi5N" and case["kw"].get("interpolant") == 1
    for mode in ("none", "all", "last"):
        r = Run(env, norms, name, f, t0, y0.copy(), tb, first_step=h,
                rtol=1e-3, atol=1.0, **case["kw"])
        runs[mode] = r
        kept = []
        for k in range(case["steps"]):
            t = r.s.t
            if r.step() == "failed":
                break
            if mode == "all" or (mode == "last" and k == case["steps"] - 1):
                o = r.dense()
                H = r.s.t - t
                v = values(o, t, H)
                if mode == "all":
                    w = values(r.dense(), t, H)
                    env.zero(f"dense output of step {k} can be repeated",
                             [x for a, b in zip(v, w) for x in a - b], 1e-9)
                kept.append((o, t, H, v))
        for k, (o, t, H, v) in enumerate(kept):
            w = values(o, t, H)
            env.zero(f"interpolant {k} stays valid",
                     [x for a, b in zip(v, w) for x in a - b], 1e-9)
            env.zero(f"interpolant {k} keeps its interval",
                     [o.t_min + o.t_max - 2*t - H,
                      o.t_max - o.t_min - H*d], 1e-9)
        r.kept = kept
    if moves:
        return
    compare(env, "with dense output", runs["none"], runs["all"])
    compare(env, "with dense output at the end", runs["none"], runs["last"])
    a, b = runs["all"].kept, runs["last"].kept
    if a and b:
        env.zero("last interpolant does not depend on earlier ones",
                 [x for p, q in zip(a[-1][3], b[-1][3]) for x in p - q], 1e-9)
