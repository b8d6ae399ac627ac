"""C24: the library runs on an arbitrary right-hand side function with symbolic
error norms, along sampled histories of acceptance and rejection. The lengths
of the accepted steps are compared with the documented controller, written
down independently here: z3 decides that they are the same for all error
norms, first steps and (named or user-supplied) parameters on the path."""
import numpy as np

from .. import methods as M, shim
from ..env import smax, smin
from ..oracle import Oracle
from ..rel import Norms, Run, pattern, y0_of

ID = "C24"
BOUNDS = ("|f| <= 10, 1/2 <= y0 <= 2, |t0| <= 4, first step in [1/64, 1/2], "
          "error norms in [1e-9, 1e9], both directions; five (thorough eight) "
          "accepted steps along sampled histories; default, named and three "
          "sets of user-supplied parameters; without limits on the step, and "
          "with max_step")
OUTSIDE = ("histories other than the sampled ones; the controller of SWAG; "
           "shortened steps before t_bound (C06, C07); implicit "
           "methods with zero Jacobian array")
OPTS = dict(max_paths=4, budget=60, branch_ms=500, claim_ms=10000)

DEFAULT = {"BS5": "standard", "Pr7": "S", "Pr9": "standard"}   # others: "G"
NAMED = {"erk": {"G": (0.7, -0.4, 0, 0.9), "S": (0.6, -0.2, 0, 0.9),
                 "standard": (1, 0, 0, 0.9)},
         "esdirk": {"G": (2., -1., -1., 0.8), "S": (1.1, -0.7, -1., 0.8),
                    "standard": (1, 0, 0, 0.8)}}
USER = [(0.5, -0.25, 0.25, 0.8), (0.75, 0.125, -0.5, 0.95), (1.0, -0.5, 0, 0.5)]
GROW0, GROW, SHRINK = 10.0, 4.0, 0.2


def cases(tier, seed):
    out = []
    big = tier == "thorough"
    for name in M.NAMES:
        kd = M.kind(name)
        if name == "SSV2stab":
            for i in range(len(SEQ)):
                for mx in (False, True):
                    out.append(dict(
                        name=f"{name}-{i}{'-max' if mx else ''}", m=name,
                        sc=None, pat=i, max=mx, steps=8 if big else 5,
                        dir=-1 if i % 2 else 1, concolic=True))
        if kd == "other":
            continue
        sets = [None, "G", "S", "standard"] + USER
        if name == "CKdisc":
            sets = [None]
        for j, sc in enumerate(sets):
            pats = range(len(SEQ)) if sc is None or big else (
                (j + len(name)) % len(SEQ), (3*j + 1) % len(SEQ), 1)
            for i in sorted(set(pats)):
                out.append(dict(
                    name=f"{name}-{j}-{i}", m=name, sc=sc, pat=i,
                    steps=8 if big else 5, dir=-1 if (i + j) % 2 else 1,
                    concolic=True))
        for i in range(6 if big else 3):
            if name != "CKdisc":
                out.append(dict(
                    name=f"{name}-max-{i}", m=name, sc=None, pat=i, max=True,
                    steps=8 if big else 5, dir=-1 if i % 2 else 1,
                    concolic=True))
    return out


SEQ = [
    [0.3],
    [0.3, 0.5, 4.0, 0.9, 0.4, 0.7],
    [2.0, 0.6, 0.01, 0.2, 30.0, 3.0, 0.2, 0.7, 0.05],
    [1e-6, 1e-6, 0.3, 1e-7, 1e-7, 0.5, 0.4],
    [0.01, 0.02, 1e8, 0.9, 0.9, 1e-3, 0.95, 0.2],
    [0.9, 0.95, 0.1, 1.5, 1e-5, 0.4, 1e-5, 0.8, 0.3],
    [1e5, 1e4, 1e-8, 0.5, 0.8, 1e-8, 1e-8, 1e-8],
    [0.05, 0.99, 0.02, 0.6, 7.0, 0.1, 0.98, 0.3],
]


def run(env, case):
    p = list(SEQ[case["pat"]])
    p += pattern(3 + case["pat"])
    name = case["m"]
    if M.kind(name) == "esdirk":
        # the norms of the stage iterations are not used
        S = M.cls(name).n_stages - 1
        p = [v for e in p for v in [0.5]*S + [e]]
    elif name in ("BS5", "CFMR7osc"):
        # an early estimate before the final one, sometimes a rejection
        q = []
        for k, e in enumerate(p):
            q += [0.9 if k % 2 else 0.1, e] if (k + case["pat"]) % 5 != 4 \
                else [3.0]
        p = q
    elif name == "CKdisc":
        q = []
        for e in p:
            q += [0.2, 0.1, e] if e < 1 else [1e7]
        p = q
    norms = Norms(env, p, 1e-9, 1e9)
    with shim.stubbed({"norm": lambda: norms}):
        body(env, case, norms)


class Controller:
    def __init__(self, env, name, sc, h, hmax):
        self.env, self.name, self.h, self.hmax = env, name, h, hmax
        self.kd = "esdirk" if M.kind(name) == "esdirk" else "erk"
        if sc is None:
            sc = DEFAULT.get(name, "G")
        if isinstance(sc, str):
            sc = NAMED[self.kd][sc]
        k1, k2, a, g = sc
        x = -1/(min(M.order(name)) + 1)
        self.x, self.g, self.g2 = x, g, g**(k1 + k2)
        self.b1, self.b2, self.a = k1*x, k2*x, -a
        self.std, self.grow = True, GROW0
        self.hold = self.eold = None

    def step(self, take):
        """length of the accepted step; take(): next error norm"""
        env = self.env
        h = self.h
        if self.hmax is not None and env.decide(h > self.hmax):
            h = self.hmax
            self.std = True
        rejected = False
        while True:
            e, pre = take()
            if pre and not env.decide(e > 1):
                continue
            if not pre and env.decide(e < 1):
                break
            h = h*smax(SHRINK, self.g*e**self.x)
            rejected = True
            if self.kd == "esdirk":
                self.std = True
                self.grow = GROW       # a factor below the final limit
        if self.std:
            f = self.g*e**self.x
            if self.kd == "esdirk":
                f = smin(f, self.grow)
            self.std = self.kd == "esdirk" and self.grow != GROW
        else:
            f = self.g2*e**self.b1
            if self.b2:
                f = f*self.eold**self.b2
            if self.a:
                f = f*(h/self.hold)**self.a
            f = smin(self.grow, smax(SHRINK, f))
        if rejected:
            f = smin(1, f)
            if self.kd == "esdirk":
                self.std = True
        if self.grow != GROW and env.decide(f < GROW):
            self.grow = GROW
        self.hold, self.eold = h, e
        self.h = h*f
        return h


def body(env, case, norms):
    name, d = case["m"], case["dir"]
    n, y0 = y0_of(env, name)
    t0 = env.real("t0", -4, 4, s=0.75)
    h = env.real("h", 1/64, 0.5, s=0.25)
    kw = {}
    hmax = None
    if case.get("max"):
        hmax = kw["max_step"] = env.real("hmax", 0.2, 0.375, s=0.3)
    if case["sc"] is not None:
        kw["sc_params"] = case["sc"]
    f = Oracle(env, n, -10, 10, kind=M.kind(name), indep_v=name == "MR6NN")
    r = Run(env, norms, name, f, t0, y0, t0 + 1e12*d, first_step=h, rtol=1e-3,
            atol=1.0, **kw)
    if name == "CKdisc":
        return ckdisc(env, case, norms, r, h)
    if name == "SSV2stab":
        return deadbeat(env, case, norms, r, h, hmax)
    c = Controller(env, name, case["sc"], h, hmax)
    for k in range(case["steps"]):
        t, i0 = r.s.t, len(r.args)
        if r.step() == "failed":
            break
        es = norms.vals[i0:len(r.args)]
        if M.kind(name) == "esdirk":
            S = M.cls(name).n_stages
            es = es[S - 1::S]
        two = name in ("BS5", "CFMR7osc")
        it = iter(es)
        state = [True]

        def take():
            try:
                e = next(it)
            except StopIteration:
                env.claim(f"step {k}: accepted by the controller", False)
                env.abort("decisions differ")
            if not two:
                return e, False
            pre = state[0]
            state[0] = not pre or env.decide(e > 1)
            return e, pre
        g = c.step(take)
        env.claim(f"step {k}: all error norms are used",
                  next(it, None) is None)
        check(env, k, (r.s.t - t)*d, g)


def check(env, k, got, want):
    # relative to the size on the sampled path
    env.claim(f"length of step {k}",
              env_and(got <= want*(1 + 1e-7), got >= want*(1 - 1e-7)),
              env_and(got <= want*(1 + 1e-6), got >= want*(1 - 1e-6)))


def env_and(a, b):
    from ..env import sand
    return sand(a, b)


def deadbeat(env, case, norms, r, h, hmax):
    """the controller of SSV2stab"""
    d = case["dir"]
    if hmax is not None:
        h = smin(h, hmax)
    hold = eold = None
    for k in range(case["steps"]):
        t, i0 = r.s.t, len(r.args)
        if r.step() == "failed":
            break
        es = norms.vals[i0:len(r.args)]
        for e in es[:-1]:
            h = 0.8*h/e**(1/3)
        e = es[-1]
        check(env, k, (r.s.t - t)*d, h)
        f = 0.8/e**(1/3) if hold is None else \
            0.8*(h/hold)*eold**(1/3)/e**(2/3)
        hold, eold = h, e
        h = h*smax(0.1, smin(10.0, f))
        if hmax is not None:
            h = smin(h, hmax)


def ckdisc(env, case, norms, r, h):
    """fully accepted steps: h*min(5, 0.9/err**(1/5)); after a rejection the
    accepted step is not longer and the next one does not grow"""
    d = case["dir"]
    want, cap, prev = h, None, h
    for k in range(case["steps"]):
        t, i0 = r.s.t, len(r.args)
        if r.step() == "failed":
            break
        es = norms.vals[i0:len(r.args)]
        got = (r.s.t - t)*d
        if cap is not None:
            env.claim(f"no growth after the rejection before step {k}",
                      got <= cap*(1 + 1e-7), got <= cap*(1 + 1e-6))
        rejected = len(es) > 3
        if not rejected and want is not None:
            check(env, k, got, want)
        if rejected:
            env.claim(f"rejected step {k} is shortened", got <= prev*0.91)
        if len(es) < 3 or rejected:
            want, cap = None, got if rejected else None
            prev = got*5
        else:
            cap = None
            want = got*smin(5.0, 0.9/es[-1]**0.2)
            prev = want
