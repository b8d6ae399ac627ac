"""C02: (a) every tree component up to the embedded order, with symbolic
factors, is integrated over one step by the real step code with a tiny
tolerance: z3 decides that the first trial is accepted for all values (the
estimate is nothing but the terms of higher order, which are absent). (b) with
the trees of one order higher the scaled error vector handed to the error norm
is recorded; z3 decides that it equals the leading error term of the published
pair (committed coefficients, derived from the published tableaux) for all
values, so that the estimate neither vanishes nor is scaled."""
import json
import os

import numpy as np

from .. import methods as M, shim
from . import c01

ID = "C02"
BOUNDS = ("one step, h in [1/64, 1], |a| <= 1, |t0| <= 1, both directions; "
          "(a) atol = 2e-9 and rtol = 1e-13; (b) relative tolerance "
          "1e-9 on the leading error coefficients")
OUTSIDE = ("rounding; SWAG (C18); (b) covers the methods whose error norm is "
           "taken by the module function `norm` of one error vector")
OPTS = dict(max_paths=8, budget=150, branch_ms=0, claim_ms=20000)
DATA = os.path.join(os.path.dirname(__file__), "..", "data", "lead.json")


def q_of(name):
    return min(M.order(name))


def cases(tier, seed):
    out = []
    for d in (1, -1):
        for name in list(M.ERK) + list(M.RKN) + list(M.ESD) + ["SSV2stab"]:
            out.append(dict(name=f"{name}{d:+d}-vanish", m=name, dir=d,
                            part="c" if name == "CKdisc" else "a",
                            concolic=name == "CKdisc"))
            if name != "SSV2stab":
                out.append(dict(name=f"{name}{d:+d}-lead", m=name, dir=d,
                                part="b", concolic=True,
                                sample={"t0": 0.25, "h": 0.5}))
    out.sort(key=lambda c: -q_of(c["m"]))
    return out


class Spy:
    def __init__(self):
        self.args = []

    def __call__(self, x):
        self.args.append(np.array(x, copy=True))
        return 0.5


def spied(env, case, extra):
    spy = Spy()
    with shim.stubbed({"norm": lambda: spy}):
        s, ode, t0, h = c01.make(env, case, extra, atol=1.0, rtol=1e-13)
        spy.args.clear()
        s.step()
    return s, ode, t0, h, spy


def run(env, case):
    name, d = case["m"], case["dir"]
    q = q_of(name)
    p = M.order(name)[0]
    if case["part"] == "a":
        atol = 2e-9
        if M.kind(name) == "rkn":       # no weight on q of one order higher
            def atol(ode):
                return np.array([2e-9 if ode.degree(i) <= q else 1e9
                                 for i in range(ode.n)])
        s, ode, t0, h = c01.make(env, case, q - p, atol=atol, rtol=1e-13)
        s.step()
        if s.status == "failed":
            env.claim("accepted at once", False)
            return
        if env.sym:
            env.zero("accepted at once", [s.t - t0 - h*d], 1e-9)
        else:
            env.claim("accepted at once", abs(s.t - t0) >= h - 1e-6)
        return
    if name == "CKdisc" and case["part"] == "c":
        # two assessments (orders 1 and 2) before the final estimate
        s, ode, t0, h, spy = spied(env, case, 0)
        if len(spy.args) < 3:
            env.abort("no error vectors seen")
        for j, qq in enumerate((1, 2, 4)):
            env.zero(f"assessment {j}", [
                v for i, v in enumerate(spy.args[j]) if ode.degree(i) <= qq
                and np.ndim(v) == 0], 1e-12)
            lead = json.load(open(DATA))[f"CKdisc#{j}"]
            xs = []
            for i, c in lead.items():
                i = int(i)
                pw = (h*d)**(qq + 1)
                xs.append(spy.args[j][i] - c*ode.pa[i]*pw)
            env.zero(f"leading error term {j}", xs, 2e-10)
        return
    spy = Spy()
    with shim.stubbed({"norm": lambda: spy}):
        s, ode, t0, h = c01.make(env, case, q + 1 - p, atol=1.0, rtol=1e-13)
        spy.args.clear()
        s.step()
    if s.status == "failed" or not spy.args:
        env.abort("no error vector seen")
    x = spy.args[-1]
    if np.shape(x) != (ode.n,):
        env.abort("error vector has another shape")
    lead = json.load(open(DATA)).get(name) if os.path.exists(DATA) else None
    pw = [1]
    for _ in range(12):
        pw.append(pw[-1]*(h*d))
    xs = []
    for i in range(ode.n):
        deg = ode.degree(i)
        if deg != q + 1:
            continue
        j = i
        if hasattr(ode, "h"):
            j = i if i < ode.h else i - ode.h
        pa = ode.pa[j] if j < ode.N else 0.0
        if lead is None or str(i) not in lead:
            continue
        xs.append(x[i] - lead[str(i)]*pa*pw[deg])
    if lead is None:
        env.abort("no published coefficients")
    env.zero("leading error term", xs, 2e-10)
    big = max(abs(v) for v in lead.values())
    env.claim("the estimate does not vanish", big > 1e-7)


def derive(name, num=-1, q=None):
    """leading error coefficients of the current tree (used once, committed)"""
    from ..env import ConcEnv
    vals = {"t0": 0.25, "h": 0.5}
    case = dict(name="x", m=name, dir=1)
    env = ConcEnv(vals, case)
    real = env.real
    env.real = lambda n, lo=-9, hi=9, s=None, pin=None: np.float64(
        vals[n] if n in vals else 1.0 if n[0] == "a" else 0.5)
    q = q_of(name) if q is None else q
    spy = Spy()
    with shim.stubbed({"norm": lambda: spy}):
        s, ode, t0, h = c01.make(
            env, case, q + 1 - M.order(name)[0] if num < 0 else 0,
            atol=1.0, rtol=1e-13)
        spy.args.clear()
        s.step()
    x = spy.args[num]
    out = {}
    for i in range(ode.n):
        if ode.degree(i) == q + 1:
            j = i if not hasattr(ode, "h") or i < ode.h else i - ode.h
            if j < ode.N:
                pa = ode.pa[j]
                out[str(i)] = float(x[i]/pa/0.5**(q + 1))
    return out


if __name__ == "__main__":
    os.makedirs(os.path.dirname(DATA), exist_ok=True)
    D = {n: derive(n) for n in list(M.ERK) + list(M.RKN) + list(M.ESD)
         }
    for j, qq in enumerate((1, 2, 4)):
        D[f"CKdisc#{j}"] = derive("CKdisc", j, qq)
    json.dump(D, open(DATA, "w"), indent=0)
    for n in D:
        print(n, len(D[n]), max(abs(v) for v in D[n].values()))
