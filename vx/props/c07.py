"""C07: the stepping loops run on symbolic IEEE doubles (start time, end time
and first step are free Float64 values). cvc5 decides bit-exactly that every
step moves, that no time beyond the end time is reported, that no step call
fails because the rest became too small, and that a step that covers the
remaining interval ends on exactly the end time."""
import contextlib

import numpy as np

from .. import fp, methods as M, shim
from ..oracle import build, dims

ID = "C07"
BOUNDS = ("2^-10 <= |end - start| and |start|, |end| <= 2^10, all doubles; "
          "first step equal to the interval, or any double between a quarter "
          "of the interval and the interval, up to three steps")
OUTSIDE = ("accepted steps only, with prescribed error norms; the right-hand "
           "side is zero; powers of step ratios are free positive values; "
           "no maximum step")
OPTS = dict(budget=40)
LIMIT = {"quick": 420, "thorough": 2400}


REP = ("Ts5", "BS5", "CFMR7osc", "CKdisc", "SWAG", "SSV2stab", "HS2I",
       "Fi4N")


def cases(tier, seed):
    out = []
    big = tier == "thorough"
    for i, name in enumerate(M.NAMES):
        for d in (1, -1):
            out.append(dict(name=f"{name}{d:+d}-full", m=name, dir=d,
                            custom=True, full=True, norm=0.5, steps=2,
                            opts=dict(budget=60 if big else 20)))
            if not big and (name not in REP or d != (1 if name != "SWAG"
                                                     else -1)):
                continue
            for e in ((0.5,) if not big else (0.5, 0.0, 0.9)):
                out.append(dict(
                    name=f"{name}{d:+d}-rest-{e}", m=name, dir=d, custom=True,
                    full=False, norm=e, steps=3 if big else 2,
                    opts=dict(budget=110 if big else 30)))
    out.sort(key=lambda c: (c["norm"] != 0.5 and not c["full"], c["full"],
                            M.kind(c["m"]) != "esdirk"))
    return out


def gen_t(rng, W):
    a = rng.uniform(-8, 8, W)
    b = np.round(rng.uniform(-4, 4, W), 1)
    c = np.where(rng.random(W) < 0.5, a, b)
    c[::9] = 0.0
    return c


class Env:
    """solver side"""
    sym = True

    def __init__(self, eng):
        self.eng = eng

    def inputs(self, case):
        e, d = self.eng, case["dir"]
        t0 = e.real("t0", gen_t)
        tb = e.real("tb", lambda r, W: gen_t(r, W))
        for x in (t0, tb):
            e.assume(abs(x) <= 1024.0)
        e.assume(tb - t0 >= 2.0**-10 if d > 0 else t0 - tb >= 2.0**-10)
        T = abs(tb - t0)
        if case["full"]:
            return t0, tb, T
        h = e.real("h", lambda r, W: np.abs(
            e.samples["tb"] - e.samples["t0"])*r.uniform(0.25, 1, W))
        e.assume(h <= T)
        e.assume(h >= T*0.25)
        return t0, tb, h

    def claim(self, label, c):
        return self.eng.claim(label, c)

    def abort(self, w):
        raise fp.Abort(w)


class Conc:
    sym = False

    def __init__(self, env):
        self.env = env

    def inputs(self, case):
        t0 = self.env.real("t0", s=0.0)
        tb = self.env.real("tb", s=1.0*case["dir"])
        T = abs(tb - t0)
        return t0, tb, T if case["full"] else self.env.real("h", s=T)

    def claim(self, label, c):
        return self.env.claim(label, bool(c))

    def abort(self, w):
        self.env.abort(w)


@contextlib.contextmanager
def patched():
    mods = shim.ext_modules()
    saved = []
    for m in mods:
        for name, f in (("copysign", fp.copysign), ("sqrt", fp.fsqrt),
                        ("int", fp.Int)):
            d = m.__dict__
            if name in d or name == "int":
                saved.append((d, name, d.get(name)))
                d[name] = f
    try:
        yield
    finally:
        for d, n, o in saved:
            if o is None:
                del d[n]
            else:
                d[n] = o


def run(env, case):
    body(Conc(env), case)


def body(env, case):
    name, d = case["m"], case["dir"]
    t0, tb, h = env.inputs(case)
    n = dims(name)
    y0 = np.array([1.0] + [0.0]*(n - 1))

    def fun(t, y):
        return np.zeros(n)
    kw = {"first_step": h}
    if M.kind(name) in ("erk", "rkn"):
        if name != "CKdisc":
            kw["nfev_stiff_detect"] = 0
        kw["sc_params"] = "standard"
    elif M.kind(name) == "esdirk":
        kw["sc_params"] = "standard"
    elif name == "SSV2stab":
        kw["rho"] = lambda t, y: 1e-30
    with shim.stubbed({"norm": lambda: (lambda x: case["norm"])}):
        s = build(env, name, fun, t0, y0, tb, **kw)
        if name == "SWAG" and env.sym:
            for a in ("phi", "psi", "alpha", "beta", "sig", "v", "w", "g",
                      "gi"):
                setattr(s, a, getattr(s, a).astype(object))
            with shim.stubbed({"norm": lambda: (lambda x: 0.0)}):
                steps(env, case, s, t0, tb)
        else:
            steps(env, case, s, t0, tb)


def steps(env, case, s, t0, tb):
    d = case["dir"]
    t = t0
    for k in range(case["steps"]):
        s.step()
        ok = env.claim(f"step {k} does not fail", s.status != "failed")
        if s.status == "failed" or not ok:
            return
        tn = s.t
        env.claim(f"step {k} moves", tn > t if d > 0 else tn < t)
        env.claim(f"step {k} not beyond the end",
                  tn <= tb if d > 0 else tn >= tb)
        if case["full"]:
            env.claim("ends exactly on the end time", tn == tb)
        elif case["m"] != "SWAG" and s.status == "running":
            # SWAG may stop short of the end, it extrapolates the rest
            env.claim(f"rest after step {k} is not a rounding error",
                      abs(tb - tn) >= 2.0**-20)
        if s.status == "finished":
            env.claim(f"finished at step {k} on the end time", tn == tb)
            return
        t = tn


def custom(case, tier, seed, out):
    o = case["opts"]
    eng = fp.Engine(seed, budget=o["budget"],
                    claim_s=60 if tier == "thorough" else 20)
    import traceback
    import os

    def b(e):
        try:
            body(Env(e), case)
        except Exception as x:
            if os.environ.get("VX_DEBUG"):
                traceback.print_exc()
            out["inconclusive"].append((type(x).__name__, str(x)[:150]))
            raise fp.Abort("exception " + type(x).__name__)
    with patched():
        eng.explore(b)
    out.update(obligations=eng.obligations, discharged=eng.discharged,
               paths=eng.paths, aborted=eng.aborted, truncated=eng.truncated,
               labels=eng.labels, cands=eng.cands, **eng.q)
    out["inconclusive"] = (out["inconclusive"] + eng.open)[:20]
    out["solver_s"] = round(out["solver_s"], 1)
