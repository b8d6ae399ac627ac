"""C05: steps are taken with a right-hand side that returns arbitrary
(symbolic) values and with symbolic tolerances; every accept/reject history up
to the bound is explored. When a step is accepted, the error estimate of the
method is recomputed from the recorded evaluations, and z3 decides that the root
mean square of its components over atol_i + rtol*max(|y_i| before, after) is not
above one. With prescribed norms, the argument of the norm is compared with the
error over its scale, component by component."""
import numpy as np

from .. import methods as M
from ..env import smax, sabs, sand
from ..oracle import Oracle, build, dims
from .. import shim
from ..sr import is_sym, numerator
from .c13 import Generic, sample

ID = "C05"
BOUNDS = ("|f| <= 4, |y0| in [1/8, 4], h in [1/64, 1], rtol in [1e-6, 0.1], "
          "atol in [1e-6, 0.1] (scalar or one per component); one or two "
          "components; up to two trials in the first step and one in the "
          "second (thorough: three and two); relative margin 1e-6")
OUTSIDE = ("rounding; implicit methods with a zero Jacobian array; the Adams "
           "method beyond order 1 (C18)")
OPTS = dict(max_paths=20, budget=16, branch_ms=60, claim_ms=6000,
            nra_branch=False)


def cases(tier, seed):
    out = []
    big = tier == "thorough"
    for i, name in enumerate(list(M.ERK) + list(M.RKN) + list(M.ESD) +
                             ["SSV2stab", "SWAG"]):
        for n in ((1, 2) if big or name != "CKdisc" else (1,)):
            for vec in ((False,) if n == 1 else (False, True)):
                d = 1 if (i + n + vec) % 2 else -1
                for dd in ((d,) if not big else (1, -1)):
                    o = {"fork_max": True}
                    if big:
                        o.update(max_paths=120, budget=240, claim_ms=20000)
                    out.append(dict(
                        name=f"{name}{dd:+d}-n{n}{'v' if vec else ''}",
                        m=name, dir=dd, n=n, vec=vec, opts=o,
                        trials=3 if big else 2, steps=2 if big else 1))
        if name == "CKdisc" and not big:
            continue
        o = {"fork_max": True}
        out.append(dict(name=f"{name}-two", m=name, dir=1 - 2*(i % 2), n=1,
                        vec=False, opts=o, trials=1, steps=2))
    # fixed lengths and states: all conditions are linear in the right-hand
    # side values, which reaches the reduced order solutions
    for i, (h, y, rt, at) in enumerate((
            (0.5, 1.0, 1e-3, 1e-3), (0.125, 3.0, 1e-2, 1e-5),
            (1.0, 0.25, 1e-6, 0.1))):
        out.append(dict(name=f"CKdisc-lin{i}", m="CKdisc", dir=1 - 2*(i % 2),
                        n=1, vec=False, trials=1, steps=1, fix=(h, y, rt, at),
                        opts=dict(max_paths=200, budget=60 if big else 20,
                                  claim_ms=20000 if big else 6000)))
    # what is judged: the argument of the norm
    for i, name in enumerate(list(M.ERK) + list(M.RKN) + list(M.ESD) +
                             ["SSV2stab", "SWAG"]):
        if name == "CKdisc":
            continue
        for vec in (False, True):
            for rej in (0, 1, 2) if big else (0, 1 + (i + vec) % 2):
                for d in (1, -1) if big else (1 - 2*((i + rej) % 2),):
                    out.append(dict(
                        name=f"{name}{d:+d}-judged{'-v' if vec else ''}-{rej}",
                        m=name, dir=d, n=2, vec=vec, rej=rej, trials=1,
                        steps=2, judged=True,
                        opts=dict(budget=60, claim_ms=10000)))
    for n in (1, 2, 3):
        out.append(dict(name=f"norm-{n}", m="", dir=1, n=n, vec=False,
                        trials=1, steps=1))
    out.sort(key=lambda c: M.ESD.get(c["m"], (0,))[0] - c["n"])
    return out


def trial_calls(s, name):
    """(evaluations of a trial, further ones when it is accepted)"""
    kd = M.kind(name)
    if kd == "esdirk":
        return s.n_stages - 1, 0
    fsal = int(bool(s.FSAL))
    return s.n_stages - 1 + fsal, 1 - fsal


def rows(name, s, K):
    """error vector (without the powers of h) of the last accepted trial"""
    kd = M.kind(name)

    def comb(E):
        tot = 0.0
        for c, k in zip(E, K):
            if c != 0:
                tot = tot + k*float(c)
        return tot
    if kd == "rkn":
        return comb(s.E), comb(s.Ep)
    return comb(s.E)


def estimate(env, name, s, f, t, y, calls, H):
    """error estimate of the accepted step of length H from (t, y), from the
    recorded evaluations of this step call; None: not known"""
    kd = M.kind(name)
    n = len(y)
    if name == "SSV2stab":
        f0, f1 = f.find(t, y), f.find(s.t, s.y)
        if f0 is None or f1 is None:
            return None
        return [0.8*(y[i] - s.y[i]) + 0.4*H*(f0[i] + f1[i]) for i in range(n)]
    if name == "SWAG":
        return None
    if name == "CKdisc":
        return cash_karp(f, t, y, calls, H)
    a, b = trial_calls(s, name)
    if len(calls) < a + b:
        return None
    if kd == "esdirk":
        k0 = case_k0(f)
    else:
        k0 = f.find(t, y)
        if k0 is None:
            return None
    ks = [k0] + [c[2] for c in calls[len(calls) - a - b:]]
    if kd == "rkn":
        m = n//2
        e, ep = rows(name, s, [k[m:] for k in ks])
        return [H*H*v for v in e] + [H*v for v in ep]
    e = rows(name, s, ks)
    return [H*v for v in e]


def case_k0(f):
    return f.k0


def same(a, b):
    """equal up to the rounding of coefficients?"""
    x = a - b
    if is_sym(x):
        return all(abs(float(c)) < 1e-11 for c in x.p.values())
    return abs(x) <= 1e-9*(abs(a) + abs(b)) + 1e-12


CK_C = (0.2, 0.3, 0.6, 1.0, 0.875)
# error coefficients of the three solutions of the Cash-Karp method, by the
# length of the accepted step relative to that of the trial
CK_E = {1.0: (277/64512, 0, -6925/370944, 6925/202752, 277/14336, -277/7084),
        0.6: (1/10, 0, -2/10, 1/10), 0.2: (-1/10, 1/10)}


def cash_karp(f, t, y, calls, H):
    """estimate of the accepted solution, which may be a fallback"""
    r = [c[0] - t for c in calls[:-1]]          # the last one: the new point
    for n in (5, 3):
        if len(r) < n:
            continue
        g = r[-n:]
        h = g[0]*5
        if not all(same(x, h*c) for x, c in zip(g, CK_C)):
            continue
        for rel, E in CK_E.items():
            if same(H, h*rel):
                ks = [f.find(t, y)] + [c[2] for c in calls[-1-n:-1]]
                if len(E) > len(ks):
                    return None
                tot = 0.0
                for c, k in zip(E, ks):
                    if c:
                        tot = tot + k*float(c)
                return [h*v for v in tot]
    return None


def scales(yo, yn, atol, rtol):
    return [(atol[i] if np.ndim(atol) else atol) +
            rtol*smax(sabs(yo[i]), sabs(yn[i])) for i in range(len(yo))]


class Norm:
    """error norms are prescribed, the argument is kept"""

    def __init__(self):
        self.on, self.seq, self.arg = False, [], None

    def __call__(self, x):
        if not self.on or not self.seq:
            return 0.5
        self.arg = np.array(x, copy=True)
        return self.seq.pop(0)


def sequence(name, s, rej):
    """norms met in a step with rej rejected trials"""
    kd = M.kind(name)
    if kd == "esdirk":
        it = [1.0]*(s.n_stages - 1)
        return (it + [3.0])*rej + it + [0.5]
    if name in ("BS5", "CFMR7osc"):
        return [[], [3.0], [3.0, 0.5, 3.0]][rej] + [0.5, 0.5]
    if name == "SWAG":
        return [0.5] + [100.0]*rej + [0.5]
    return [3.0]*rej + [0.5]


def judged(env, case):
    name, d, n = case["m"], case["dir"], dims(case["m"], case["n"])
    kd = M.kind(name)
    norm = Norm()
    with shim.stubbed({"norm": lambda: norm}):
        t0 = 0.25
        h = env.real("h", 1/64, 1/8) if kd != "esdirk" and name != "SSV2stab" \
            else 0.125
        y0 = env.arr([env.real("y0", 6, 8), env.real("y1", -3, -2),
                      env.real("y2", 2, 3), env.real("y3", -8, -6)][:n])
        rtol = 1e-3 if name == "SSV2stab" else env.real("rtol", 1e-6, 0.1)
        atol = env.reals("atol", n, 1e-6, 0.1) if case["vec"] else \
            env.real("atol", 1e-6, 0.1)
        f = Oracle(env, n, -4, 4, kind=kd, indep_v=name == "MR6NN")
        s = build(env, name, f, t0, y0, t0 + 1000*d, first_step=h, rtol=rtol,
                  atol=atol)
        f.k0 = f.calls[0][2]
        norm.on = True
        for k in range(1 if name == "SWAG" else case["steps"]):
            t, yo = s.t, np.array(s.y, copy=True)
            i0 = len(f.calls)
            norm.seq = sequence(name, s, case["rej"] if k == 0 else 0)
            norm.arg = None
            s.step()
            if s.status == "failed" or norm.seq or norm.arg is None:
                # another way to judge
                env.abort("norms are not called as expected")
            calls = f.calls[i0:]
            H = s.t - t
            if name == "SWAG":
                f1 = calls[-2][2]
                e = [0.5*H*(f1[i] - f.k0[i]) for i in range(n)]
                x = 0.5*H*norm.arg
                sc = [(atol[i] if np.ndim(atol) else atol) + rtol*0.5*(
                    sabs(yo[i]) + sabs(yo[i] + H*f.k0[i])) for i in range(n)]
            else:
                e = estimate(env, name, s, f, t, yo, calls, H)
                if e is None:
                    env.abort("estimate not known")
                x, sc = norm.arg, scales(yo, s.y, atol, rtol)
            if len(x) != n:
                env.claim("components that are judged", False)
                return
            dev = []
            for a, b, c in zip(x, e, sc):
                a = a*c
                if sample(a)*sample(b) < 0:
                    a = -a
                r = a - b
                if is_sym(r):
                    m, _ = numerator(r)
                    r = r if m is None else m
                dev.append(r)
            env.zero(f"error over scale is judged (step {k})", dev, 1e-9)
            f.k0 = f.calls[-1][2]


def definition(env, n):
    """the norm is the root of the mean of the squares"""
    import extensisq.common as c
    if not hasattr(c, "norm"):
        env.abort("no norm")
    x = env.reals("x", n, -10, 10)
    v = c.norm(x)
    q = 0.0
    for u in x:
        q = q + u*u
    env.zero("square of the norm", [n*v*v - q], 1e-7)
    env.claim("the norm is not negative", v >= 0)


def run(env, case):
    if case["name"].startswith("norm-"):
        return definition(env, case["n"])
    if case.get("judged"):
        return judged(Generic(env), case)
    name, d = case["m"], case["dir"]
    kd = M.kind(name)
    n = dims(name, case["n"])
    t0 = 0.25
    h = env.real("h", 1/64, 1, pin=[0.5, 1.0, 0.125])
    y0 = env.reals("y", n, 1/8, 4, pin=[1.0, 0.25, 3.0])
    rtol = 1e-3 if name == "SSV2stab" else env.real(
        "rtol", 1e-6, 0.1, pin=[1e-3, 0.1, 1e-6])
    if case["vec"]:
        atol = env.reals("atol", n, 1e-6, 0.1, pin=[1e-3, 0.1, 1e-6])
    else:
        atol = env.real("atol", 1e-6, 0.1, pin=[1e-3, 0.1, 1e-6])
    if case.get("fix"):
        h, y1, rtol, atol = case["fix"]
        y0 = env.arr([y1])
    f = Oracle(env, n, -4, 4, kind=kd, indep_v=name == "MR6NN")
    s = build(env, name, f, t0, y0, t0 + 1000*d, first_step=h, rtol=rtol,
              atol=atol)
    f.k0 = f.calls[0][2]
    if kd == "rkn" or kd == "esdirk" or name not in ("SWAG", "SSV2stab"):
        per = (s.n_stages + 1)
    else:
        per = 2 if name == "SWAG" else 2
    for k in range(case["steps"]):
        t, yo = s.t, np.array(s.y, copy=True)
        i0 = len(f.calls)
        f.limit = len(f.calls) + per*case["trials"]
        s.step()
        if s.status == "failed":
            env.abort("step failed")
        calls = f.calls[i0:]
        H = s.t - t
        if name == "SWAG" and k == 0:
            f1, f0 = calls[0][2], f.k0
            if len(calls) > 2:
                env.abort("more than one trial")
            e = [0.5*H*(f1[i] - f0[i]) for i in range(n)]
            sc = []
            for i in range(n):
                p = yo[i] + H*f0[i]
                at = atol[i] if np.ndim(atol) else atol
                sc.append(at + rtol*0.5*(sabs(yo[i]) + sabs(p)))
        else:
            e = estimate(env, name, s, f, t, yo, calls, H)
            if e is None:
                env.abort("estimate not known")
            sc = scales(yo, s.y, atol, rtol)
        lab = "accepted within tolerance"
        if len(calls) > per:
            lab += " after rejection"
        if name == "CKdisc" and n == 1:
            e, sc = e[0], sc[0]
            env.claim(lab, sand(e <= sc*(1 + 1e-6), -e <= sc*(1 + 1e-6)),
                      sand(e <= sc*(1 + 1e-3), -e <= sc*(1 + 1e-3)))
        else:
            tot = 0.0
            for x, y in zip(e, sc):
                q = x/y
                tot = tot + q*q
            env.claim(lab, tot <= n*(1 + 1e-6), tot <= n*(1 + 1e-3))
        f.k0 = f.calls[-1][2]
