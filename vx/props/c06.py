"""C06: the stepping loop of every class runs with symbolic start time,
interval length, maximum step and first step, and with a fresh symbolic value
for every error norm, so every accept/reject history and every proposed step
within the bound is covered. z3 decides for every step: strictly towards the
end, not beyond it, at most max_step long, finished exactly when the end is
reached, and the end is reached when the remaining distance fits in the step."""
import numpy as np

from .. import methods as M
from ..env import sabs
from ..oracle import build, dims

ID = "C06"
BOUNDS = ("|t0| <= 4, interval in [1/16, 8], max_step in [1/8, 16] or none, "
          "first step in [1/16, interval], error norms in [1/1024, 64]; up to "
          "two accepted steps with at most two trials each (thorough: three "
          "with three), four (five) steps when every error norm is 2^-9; relative margin 1e-9")
OUTSIDE = ("rounding (C07 is the floating point statement); the right-hand "
           "side is zero and the error norm is a free value; failures (C08)")
OPTS = dict(max_paths=40, budget=14, branch_ms=60, claim_ms=4000,
            nra_branch=False, fork_max=True)


class FreeNorm:
    """a free value for every call"""

    def __init__(self, lo=1/1024, hi=64.0, first=()):
        self.env, self.lo, self.hi, self.k = None, lo, hi, 0
        self.first = list(first)       # (lo, hi) of the first calls
        self.vals = []

    def __call__(self, x):
        if self.env is None:
            return 0.25
        lo, hi = self.first[self.k] if self.k < len(self.first) else (
            self.lo, self.hi)
        if lo == hi:
            self.k += 1
            self.vals.append(lo)
            return lo
        v = self.env.real(f"e{self.k}", lo, hi, pin=[
            x for x in (0.25, 2.0, 0.9, 1/512, 2.0**15, 2.0**20)
            if lo <= x <= hi])
        self.k += 1
        self.vals.append(v)
        return v


def cases(tier, seed):
    out = []
    big = tier == "thorough"
    opts = dict(max_paths=800, budget=300, claim_ms=15000) if big else {}
    for name in M.NAMES:
        for d in (1, -1):
            for mx in (0, 1):
                out.append(dict(
                    name=f"{name}{d:+d}{'-max' if mx else ''}", m=name, dir=d,
                    maxs=mx, steps=3 if big else 2, trials=3 if big else 2,
                    opts=opts, full=False))
            # the error norms are a fixed small number: the step grows until
            # the maximum step stops it
            out.append(dict(name=f"{name}{d:+d}-grow", m=name, dir=d, maxs=1,
                            steps=5 if big else 4, trials=1, opts=opts,
                            full=False, norm=2.0**-9))
            out.append(dict(name=f"{name}{d:+d}-full", m=name, dir=d, maxs=0,
                            steps=1, trials=2, opts=opts, full=True))
    return out


def run(env, case):
    from .. import shim
    e = case.get("norm")
    nrm = FreeNorm() if e is None else FreeNorm(e, e)
    with shim.stubbed({"norm": lambda: nrm}):
        body(env, case, nrm)


def body(env, case, nrm):
    name, d = case["m"], case["dir"]
    kd = M.kind(name)
    n = dims(name)
    t0 = env.real("t0", -4, 4, pin=[0.0, 1.0, -2.5])
    T = env.real("T", 1/16, 8, pin=[1.0, 0.5, 3.0])
    tb = t0 + d*T
    kw = {}
    if case["full"]:
        kw["first_step"] = fs = sabs(tb - t0)
    else:
        kw["first_step"] = fs = env.real("h", 1/16, 8, pin=[0.5, 0.25, 1.0])
        env.assume(fs <= T*(1 - 1/1024))
    if case["maxs"]:
        kw["max_step"] = mx = env.real("max", 1/8, 16, pin=[0.5, 0.25, 2.0])
    calls = [0]
    limit = [10**9]

    def fun(t, y):
        calls[0] += 1
        if calls[0] > limit[0]:
            env.abort("more trials than the bound")
        return env.arr([0.0]*n)
    if name == "SSV2stab":
        kw["rtol"] = 1e-3
    s = build(env, name, fun, t0, env.arr([1.0] + [0.0]*(n - 1)), tb, **kw)
    nrm.env = env
    per = 2 if kd == "other" else s.n_stages + 1
    for k in range(case["steps"]):
        t = s.t
        limit[0] = calls[0] + per*case["trials"]
        c0 = calls[0]
        s.step()
        if s.status == "failed":
            env.abort("step failed")
        H = (s.t - t)*d
        rest = (tb - s.t)*d
        env.claim(f"step {k} moves to the end", H > 0,
                  H > -1e-9)
        env.claim(f"step {k} not beyond the end", rest >= 0, rest > -1e-9)
        if case["maxs"]:
            env.claim(f"step {k} at most max_step", H <= mx*(1 + 1e-9),
                      H <= mx*(1 + 1e-6))
        if k == 0 and not case["full"]:
            # a step that nearly reaches the end may be stretched to it
            lim = 1.1 if name == "SSV2stab" else 1/0.99 if kd == "esdirk" \
                else 1.0
            env.claim("first step as requested", H <= fs*lim*(1 + 1e-9),
                      H <= fs*lim*(1 + 1e-6))
        if s.status == "finished":
            env.zero(f"step {k} finished at the end", [rest], 1e-9)
        else:
            env.claim(f"step {k} goes on before the end", rest > 0,
                      rest > 1e-12)
        if not case["full"]:
            one = False
        elif name == "SWAG":
            one = calls[0] - c0 <= 2
        else:                           # no reason to reject the first trial
            one = all(env.decide(v < 0.99) for v in nrm.vals)
        if one:
            env.claim("the rest is done in one step", s.status == "finished")
        if s.status == "finished":
            break
