"""C09: every time at which the right-hand side (or the Jacobian, or the
spectral radius function) is evaluated is recorded. (start) construction with
automatic first step and the first step call, with symbolic start time,
interval length and maximum step and arbitrary right-hand side values; (steps)
step-size histories from free error norms, with dense output after every step.
z3 decides that every recorded time lies in the interval, that the times of a
step call do not precede the current time, and that the times of a step
accepted at the first trial and of its dense output lie within the step."""
import numpy as np

from .. import methods as M, shim
from ..env import sand
from ..oracle import Oracle, build, dims
from .c03 import TABLE, user_esdirk
from .c06 import FreeNorm

ID = "C09"
BOUNDS = ("|t0| <= 4, interval in [1e-7, 8], max_step in [1/64, 16] or none; "
          "(start) |f| <= 10, |y0| <= 10, one component (thorough: two); "
          "(steps) first step in [1/16, interval], free error norms in "
          "[1/1024, 64], two step calls of at most two trials (thorough: three "
          "of three); absolute margin 1e-10")
OUTSIDE = ("rounding; (steps) the right-hand side is zero and the error norm "
           "a free value; calls made by user-facing wrappers of scipy (events, "
           "t_eval)")
OPTS = dict(max_paths=30, budget=12, branch_ms=60, claim_ms=4000,
            nra_branch=False, fork_max=True)


def cases(tier, seed):
    out = []
    big = tier == "thorough"
    opts = dict(max_paths=400, budget=200, claim_ms=15000) if big else {}
    for name in M.NAMES:
        for d in (1, -1):
            for mx in (0, 1):
                out.append(dict(
                    name=f"{name}{d:+d}-start{'-max' if mx else ''}", m=name,
                    dir=d, part="start", maxs=mx, opts=opts, jac="zero",
                    n=2 if big else 1))
            if M.kind(name) == "esdirk":
                for j in ("callable", "none", "dae"):
                    out.append(dict(
                        name=f"{name}{d:+d}-start-{j}", m=name, dir=d,
                        part="start", maxs=0, opts=opts, jac=j, n=1,
                        concolic=j != "callable"))
    for name, kw, _ in TABLE:
        tag = "".join(f"-{v}" for v in kw.values())
        for d in (1, -1):
            for mx in (0, 1) if big else (int(d < 0),):
                out.append(dict(
                    name=f"{name}{tag}{d:+d}-steps{'-max' if mx else ''}",
                    m=name, kw=kw, dir=d, part="steps", maxs=mx, opts=opts,
                    steps=3 if big else 2, trials=3 if big else 2))
    return out


def run(env, case):
    if case["part"] == "start":
        start(env, case)
    else:
        nrm = FreeNorm()
        with shim.stubbed({"norm": lambda: nrm}):
            steps(env, case, nrm)


# the published tableau of this method has a stage beyond the step end
OVER = {"KC4I": 0.0401}


def inside(env, label, ts, a, b, d, over=0.0):
    """all times between a and b (or beyond by the given part)"""
    los, his = [], []
    for x in ts:
        los.append((x - a)*d)
        his.append((b - x)*d + over*(b - a)*d)
    if ts:
        for what, v in (("not before the start", los),
                        ("not beyond the end", his)):
            env.claim(f"{label}: {what} of the range",
                      sand(*[x >= 0 for x in v]),
                      sand(*[x >= -1e-10 for x in v]))


def start(env, case):
    name, d = case["m"], case["dir"]
    kd = M.kind(name)
    n = dims(name, case["n"])
    t0 = env.real("t0", -4, 4, s=1.5, pin=[0.0, 1.0, -2.5])
    T = env.real("T", 1e-7, 8, s=2.0, pin=[1.0, 1e-6, 3.0])
    tb = t0 + d*T
    kw = {}
    if case["maxs"]:
        kw["max_step"] = env.real("max", 1/64, 16, pin=[0.5, 0.25, 2.0])
    ts = []
    if case["jac"] in ("none", "dae"):
        n = 2
        y0 = env.arr([1.0, 1.0])

        def fun(t, y):
            ts.append(t)
            return env.arr([-y[0], y[0] - y[1]])
        if case["jac"] == "dae":
            kw["M"] = np.diag([1.0, 0.0])

            def jac(t, y):
                ts.append(t)
                return np.array([[-1.0, 0.0], [1.0, -1.0]])
            kw["jac"] = jac
        else:
            kw["jac"] = None
    else:
        y0 = env.reals("y", n, -10, 10, s=[1.0, 0.5, 2.0, 3.0][:n],
                       pin=[1.0, 0.0])
        f = Oracle(env, n, -10, 10, kind=kd, indep_v=name == "MR6NN")

        def fun(t, y):
            ts.append(t)
            return f(t, y)
        if case["jac"] == "callable":
            def jac(t, y):
                ts.append(t)
                return np.zeros((n, n))
            kw["jac"] = jac

    def rho(t, y):
        ts.append(t)
        return 2.0
    C = M.cls(name)
    if name == "SSV2stab":
        kw["rho_jac"] = rho if case["maxs"] else None
        kw["rtol"] = 1e-3
    elif kd == "esdirk":
        kw.setdefault("jac", np.zeros((n, n)))

    class Stop(Exception):
        pass
    s = C(fun, t0, y0, tb, **kw)
    inside(env, "constructor", ts, t0, tb, d)
    lim = len(ts) + 4
    inner = s.fun

    def stop(t, y):
        if len(ts) >= lim:
            raise Stop
        return inner(t, y)
    s.fun = stop
    k = len(ts)
    try:
        s.step()
    except Stop:
        pass
    inside(env, "first step", ts[k:], t0, tb, d, OVER.get(name, 0))


def steps(env, case, nrm):
    name, d = case["m"], case["dir"]
    kd = M.kind(name)
    n = dims(name)
    t0 = env.real("t0", -4, 4, pin=[0.0, 1.0, -2.5])
    T = env.real("T", 1/16, 8, pin=[1.0, 0.5, 3.0])
    h = env.real("h", 1/16, 8, pin=[0.5, 0.25, 1.0])
    env.assume(h <= T)
    tb = t0 + d*T
    kw = dict(case["kw"], first_step=h)
    if case["maxs"]:
        kw["max_step"] = env.real("max", 1/8, 16, pin=[0.5, 0.25, 2.0])
    ts = []
    limit = [10**9]

    def fun(t, y):
        if len(ts) >= limit[0]:
            env.abort("more trials than the bound")
        ts.append(t)
        return env.arr([0.0]*n)
    if name == "SSV2stab":
        kw["rtol"] = 1e-3
    s = build(env, name, fun, t0, env.arr([1.0] + [0.0]*(n - 1)), tb, **kw)
    nrm.env = env
    per = 2 if kd == "other" else s.n_stages + 1
    for k in range(case["steps"]):
        t, i0, v0 = s.t, len(ts), len(nrm.vals)
        limit[0] = i0 + per*case["trials"]
        s.step()
        if s.status == "failed":
            env.abort("step failed")
        inside(env, f"step {k}", ts[i0:], t, tb, d, OVER.get(name, 0))
        first = all(env.decide(v < 0.99) for v in nrm.vals[v0:])
        if first and len(ts) - i0 <= per:
            inside(env, f"step {k}, one trial", ts[i0:], t, s.t, d,
                   OVER.get(name, 0))
        i1 = len(ts)
        limit[0] = 10**9
        o = s.dense_output()
        o(t + 0.5*(s.t - t))
        inside(env, f"dense output {k}", ts[i1:], t, s.t, d)
        if s.status == "finished":
            break
