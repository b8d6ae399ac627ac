"""C08: (a) steps with a right-hand side of arbitrary (symbolic) values: the
lengths of successive trials are recovered from the evaluation times and z3
decides that each rejected trial is followed by one that is shorter by at
least the safety factor; (b) faults: at a symbolic evaluation index the
right-hand side returns nan or an infinity, once or from then on; every step
call must end, and either fail with time and state unchanged or accept a
finite state; (c) an error that never gets small must end in a reported
failure with time and state unchanged."""
import math

import numpy as np

from .. import methods as M, shim
from ..env import sabs, sand
from ..oracle import Oracle, build, dims, NormSeq
from .c06 import FreeNorm
from ..sr import is_sym

ID = "C08"
BOUNDS = ("(a) |f| <= 10, up to three trials (thorough: four), both "
          "directions, h in [1/64, 1]; (b) fault at any of the first 25 "
          "(thorough: 40) evaluations of up to three step calls, values nan, "
          "inf, -inf, in one or both components, once or persistent; (c) "
          "|t0| <= 8, first step in [1/64, 1]")
OUTSIDE = ("(b) the right-hand side is otherwise constant; (c) error norm "
           "replaced by 1e100; implicit methods with zero "
           "Jacobian (array, or callable in (b))")
OPTS = dict(max_paths=60, budget=14, branch_ms=60, claim_ms=4000,
            nra_branch=False, fork_max=True)
NAN, INF = math.nan, math.inf


def cases(tier, seed):
    out = []
    big = tier == "thorough"
    for i, name in enumerate(M.NAMES):
        d = 1 if i % 2 else -1
        for dd in ((1, -1) if big else (d,)):
            out.append(dict(
                name=f"{name}{dd:+d}-shrink", m=name, dir=dd, part="a",
                trials=4 if big else 3,
                opts=dict(budget=200, max_paths=400) if big else {}))
            out.append(dict(name=f"{name}{dd:+d}-floor", m=name, dir=dd,
                            part="c", concolic=True,
                            stub={"norm": lambda: NormSeq([1e100])}))
        jacs = ["zero"] + (["callable"] if M.kind(name) == "esdirk" else [])
        for j in jacs:
            out.append(dict(
                name=f"{name}{d:+d}-norms-{j}", m=name, dir=d, part="d",
                steps=4 if big else 3, trials=4 if big else 3, jac=j,
                opts=dict(budget=200 if big else 25 if name == "CKdisc" else 14,
                          max_paths=3000 if big else 600 if name == "CKdisc"
                          else 150)))
        if name == "CKdisc":
            # two calm steps first
            out.append(dict(
                name=f"{name}{-d:+d}-norms-calm", m=name, dir=-d, part="d",
                steps=3, trials=3 if big else 2, jac="zero", pre=1,
                opts=dict(budget=200 if big else 14,
                          max_paths=3000 if big else 600)))
            # after first steps with given norms
            for i, seq in enumerate(((2e4, 0.001, 0.001), (0.001, 9e5, 0.001),
                                     (0.5, 0.5, 0.5))):
                out.append(dict(
                    name=f"{name}{d:+d}-norms-after{i}", m=name, dir=d,
                    part="d", steps=2, trials=3 if big else 2, jac="zero",
                    pre=1, first=[(v, v) for v in seq],
                    opts=dict(budget=200 if big else 14,
                              max_paths=3000 if big else 400)))
        for v, tag in ((NAN, "nan"), (INF, "inf")):
            # at time zero the spacing of the doubles is no lower limit
            out.append(dict(name=f"{name}-{tag}-zero", m=name, dir=d, part="b",
                            val=v, keep=1, comp=0, jac="zero", K=25, zero=True,
                            concolic=True))
        for v, tag in ((NAN, "nan"), (INF, "inf"), (-INF, "-inf")):
            for keep in (0, 1):
                if not big and (tag, keep) not in (
                        ("nan", 0), ("inf", 1), ("-inf", 0)):
                    continue
                for comp in ((0,) if not big else (0, 1)):
                    vs = ["zero"]
                    if M.kind(name) == "esdirk":
                        vs.append("callable")
                    for j in vs:
                        out.append(dict(
                            name=f"{name}-{tag}-{'stay' if keep else 'once'}"
                            f"-{comp}{'-jac' if j == 'callable' else ''}",
                            m=name, dir=d, part="b", val=v, keep=keep,
                            comp=comp, jac=j, K=40 if big else 25,
                            opts=dict(max_paths=150,
                                      budget=60 if big else 12)))
    return out


def run(env, case):
    {"a": shrink, "b": fault, "c": floor,
     "d": norms}[case["part"]](env, case)


# ---- (a)
def same(env, a, b):
    """equal up to rounding of coefficients?"""
    x = a - b
    if is_sym(x):
        return all(abs(float(c)) < 1e-11 for c in x.p.values())
    return abs(x) <= 1e-9*(abs(a) + abs(b)) + 1e-12


def first_c(s, name):
    if name == "SWAG":
        return [1.0]
    C = [float(c) for c in s.C]
    return C[1:]


def trials(env, s, name, t, d, times):
    """trial lengths from the evaluation times of one step call"""
    C = first_c(s, name)
    hs, j = [], 0
    while j < len(times):
        h = (times[j] - t)*d/C[0]
        k = 1
        while k < len(C) and j + k < len(times) and \
                same(env, (times[j+k] - t)*d, C[k]*h):
            k += 1
        if k == len(C) and j + k < len(times) and \
                same(env, (times[j+k] - t)*d, h):
            k += 1                      # evaluation at the new point
        if name == "CKdisc" and k == 1 and hs:
            break              # derivative at the end of a fallback solution
        hs.append(h)
        j += k
    return hs


def shrink(env, case):
    name, d = case["m"], case["dir"]
    kd = M.kind(name)
    n = dims(name)
    t0 = 0.25
    h = env.real("h", 1/64, 1, pin=[0.5, 1.0, 0.125])
    y0 = env.reals("y", n, 1/8, 4, pin=[1.0, 0.25, 3.0])
    f = Oracle(env, n, -10, 10, kind=kd, indep_v=name == "MR6NN")
    s = build(env, name, f, t0, y0, t0 + 1000*d, first_step=h, rtol=1e-3,
              atol=1e-3)
    per = s.n_stages + 1 if kd != "other" else 2
    i0 = len(f.calls)
    over = [False]
    t, yo = s.t, np.array(s.y, copy=True)

    class Stop(Exception):
        pass
    lim = i0 + per*case["trials"]
    inner = s.fun

    def fun(tt, yy):
        if len(f.calls) >= lim:
            raise Stop
        return inner(tt, yy)
    s.fun = fun
    if hasattr(s, "fun_single"):
        pass
    try:
        s.step()
    except Stop:
        over[0] = True
    times = [c[0] for c in f.calls[i0:]]
    if name == "SSV2stab":
        # one end-point evaluation per trial; the stages are inside
        hs = stab_trials(env, t, d, times)
    else:
        hs = trials(env, s, name, t, d, times)
    if s.status == "failed":
        env.claim("failed call leaves the time", s.t is t or s.t == t)
        env.zero("failed call leaves the state", list(s.y - yo), 1e-12)
    g = {"SWAG": 0.5, "SSV2stab": 0.8}.get(name, 0.8 if kd == "esdirk"
                                           else 0.9)
    if not hs:
        env.abort("no trial")
    env.claim("first trial as requested", hs[0] <= h*(1 + 1e-9),
              hs[0] <= h*(1 + 1e-6))
    for k in range(len(hs) - 1):
        env.claim(f"trial {k + 1} shorter than {k}",
                  hs[k+1] <= hs[k]*g*(1 + 1e-9),
                  hs[k+1] <= hs[k]*g*(1 + 1e-4))


def stab_trials(env, t, d, times):
    """evaluation times of a trial increase to its end point"""
    r = [(x - t)*d for x in times]
    hs, k = [], 0
    # stages of two and three stage trials: one or two inner points, the end
    cur = []
    for x in r:
        if cur and env.decide(x < cur[-1]):
            hs.append(cur[-1])
            cur = []
        cur.append(x)
    if cur:
        hs.append(cur[-1])
    return hs[:-1] if len(hs) > 1 else hs


# ---- (d)
def norms(env, case):
    nrm = FreeNorm(1/1024, 1e8 if case["m"] == "CKdisc" else 1e5,
                   case.get("first", ()))
    with shim.stubbed({"norm": lambda: nrm}):
        norm_history(env, case, nrm)


def norm_history(env, case, nrm):
    name, d = case["m"], case["dir"]
    kd = M.kind(name)
    n = dims(name)
    t0 = 0.25
    h = env.real("h", 1/64, 1, pin=[0.5, 1.0, 0.125])
    log = []
    limit = [10**9]

    def fun(t, y):
        if len(log) >= limit[0]:
            raise Stop
        log.append(t)
        return env.arr([0.0]*n)
    kw = {}
    if case["jac"] == "callable":
        def jac(t, y):
            log.append(None)
            return np.zeros((n, n))
        kw["jac"] = jac
    s = build(env, name, fun, t0, env.arr([1.0] + [0.0]*(n - 1)),
              t0 + 1e6*d, first_step=h, rtol=1e-3, atol=1e-3, **kw)
    nrm.env = env
    per = 2 if kd == "other" else s.n_stages + 1
    if case["jac"] == "callable":
        per = 3*per
    g = {"SWAG": 0.5, "SSV2stab": 0.8}.get(name, 0.8 if kd == "esdirk"
                                           else 0.9)
    for k in range(case["steps"]):
        t, yo, i0 = s.t, np.array(s.y, copy=True), len(log)
        limit[0] = i0 + per*case["trials"] if k == case["steps"] - 1 else \
            i0 + case.get("pre", 2)*per
        over = False
        try:
            s.step()
        except Stop:
            over = True
        ev = log[i0:]
        if s.status == "failed":
            env.claim("failed call leaves the time", s.t is t or s.t == t)
        if name == "SSV2stab":
            hs = [(x, 0) for x in stab_trials(env, t, d, ev)]
        elif case["jac"] == "callable":
            hs = newton_trials(env, s, t, d, ev)
        else:
            hs = [(x, 0) for x in trials(env, s, name, t, d, ev)]
        for (a, ja), (b, jb) in zip(hs, hs[1:]):
            if jb and same(env, a, b):
                # another attempt with a new Jacobian
                continue
            env.claim(f"step {k}: trials get shorter", b <= a*g*(1 + 1e-9),
                      b <= a*g*(1 + 1e-4))
        if over or s.status == "failed":
            return


def newton_trials(env, s, t, d, ev):
    """(length, Jacobian evaluated before it) of the trials, where a stage
    may take several evaluations"""
    C = [float(c) for c in s.C][1:]
    hs, h, k, newj = [], None, 0, 0
    for x in ev:
        if x is None:
            h, newj = None, 1
            continue
        x = (x - t)*d
        if h is not None and same(env, x, C[k]*h):
            continue
        if h is not None and k + 1 < len(C) and same(env, x, C[k+1]*h):
            k += 1
            continue
        h, k = x/C[0], 0
        hs.append((h, newj))
        newj = 0
    return hs


class Stop(Exception):
    pass


# ---- (b)
def isbad(x):
    return not is_sym(x) and (math.isnan(x) or math.isinf(x))


def fault(env, case):
    name, d = case["m"], case["dir"]
    kd = M.kind(name)
    n = dims(name, 2)
    m = n//2 if kd == "rkn" else n
    t0 = env.real("t0", -8, 8, s=0.5, pin=[0.5]) if not case.get("zero") \
        else 0.0
    h = env.real("h", 1/64, 1, s=0.25, pin=[0.25])
    c = env.reals("c", m, 1/8, 4, s=[0.5, 1.5], pin=[0.5])
    if d < 0:
        c = -c
    y0 = env.reals("y", n, 1/8, 4, s=[1.0, 2.0, 0.5, 0.75], pin=[1.0])
    kf = env.real("kf", 0, case["K"], s=3.5) if not case.get("zero") \
        else 0.0
    calls = [0]
    armed = [0]
    # the constructor of this class compares two evaluations
    first = [0 if name != "MR6NN" else 10**6]
    comp = case["comp"]
    total = 25000

    def fun(t, y):
        i = calls[0]
        calls[0] += 1
        if calls[0] > total:
            env.claim("step call ends", False)
            env.abort("endless")
        r = list(c)
        hit = False
        if armed[0] == 2:
            hit = True
        elif armed[0] == 0 and i >= first[0] and i <= case["K"]:
            if env.decide(kf < i):
                armed[0] = 2 if case["keep"] else 1
                hit = True
        if hit:
            r[comp] = case["val"]
        if kd == "rkn":
            r = list(y[m:]) + r
        out = np.empty(n, object if env.sym else float)
        for q in range(n):
            out[q] = r[q]
        return out
    kw = {}
    if case["jac"] == "callable":
        kw["jac"] = lambda t, y: np.zeros((n, n))
    if kd == "rkn":
        y0[m:] = 0.0*y0[m:]
    s = build(env, name, fun, t0, y0, t0 + 1e6*d, first_step=h, rtol=1e-3,
              atol=1e-3, **kw)
    first[0] = min(first[0], calls[0])
    for k in range(4):
        t, yo = s.t, np.array(s.y, copy=True)
        s.step()
        if s.status == "failed":
            env.claim("failure leaves the time", bool(s.t is t or s.t == t))
            env.zero("failure leaves the state", list(s.y - yo), 1e-12)
            return
        env.claim("accepted state is finite",
                  not any(isbad(v) for v in s.y) and not isbad(s.t))
        env.claim("accepted step moves", (s.t - t)*d > 0)
        if calls[0] > case["K"] + 2 and not armed[0]:
            return


# ---- (c)
def floor(env, case):
    name, d = case["m"], case["dir"]
    n = dims(name)
    t0 = env.real("t0", -8, 8)
    h = env.real("h", 1/64, 1)
    calls = [0]

    def fun(t, y):
        calls[0] += 1
        if calls[0] > 60000:
            env.claim("step call ends", False)
            env.abort("endless")
        return env.arr([0.0]*n)
    s = build(env, name, fun, t0, env.arr([1.0] + [0.0]*(n - 1)), t0 + 100*d,
              first_step=h, rtol=1e-3, atol=1e-3)
    yo = np.array(s.y, copy=True)
    s.step()
    env.claim("failure is reported", s.status == "failed")
    env.zero("time unchanged", [s.t - t0], 1e-12)
    env.zero("state unchanged", list(s.y - yo), 1e-12)
