"""C11: a problem is integrated twice with the same (symbolic) error norms and
the same arbitrary right-hand side function, first on its own, then with other
solvers (same class with other options, or another class) created before, in
between and stepped alternately. z3 decides that times, states, interpolants
and the arguments of all error norms are the same. The class attributes of all
solver classes (method coefficients) and all arrays handed to the constructors
are compared before and after."""
import numpy as np

from .. import methods as M, shim
from ..oracle import Guard, Oracle, dims
from ..rel import Norms, Run, compare, pattern, values, y0_of
from .c03 import TABLE

ID = "C11"
BOUNDS = ("|f| <= 10, 1/2 <= y0 <= 2, |t0| <= 4, first step in [1/64, 1/2], "
          "error norms in [1/64, 64]; three steps (SWAG five) of the observed "
          "solver, interleaved with two steps of one (quick) or each (thorough)"
          " of the other classes and with another instance of the same class; "
          "along sampled histories: z3 covers all values on the sampled path")
OUTSIDE = ("histories other than the sampled ones; threads; the documented "
           "module-level counters")
OPTS = dict(max_paths=4, budget=60, branch_ms=500, claim_ms=10000)


def cases(tier, seed):
    out = []
    big = tier == "thorough"
    names = M.NAMES
    for j, (name, kw, _) in enumerate(TABLE):
        tag = "".join(f"-{v}" for v in kw.values())
        others = [name] + [o for o in names if o != name] if big else \
            [name, names[(5*j + 3) % len(names)], names[(7*j + 9) % len(names)]]
        for q, o in enumerate(others):
            for i in range(3 if big else 2):
                out.append(dict(
                    name=f"{name}{tag}-with-{o}{'' if q == 0 else q}-{i}",
                    m=name, kw=kw, dir=1 if (i + q) % 2 else -1, pat=i,
                    other=o, steps=5 if name == "SWAG" else 3, concolic=True))
    return out


def run(env, case):
    norms = Norms(env, pattern(case["pat"]))
    with shim.stubbed({"norm": lambda: norms}):
        body(env, case, norms)


def freeze(v):
    if isinstance(v, np.ndarray):
        return (v.shape, v.dtype.str, v.tobytes() if v.dtype != object else
                tuple(map(repr, v.ravel())))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(freeze(x) for x in v)
    if isinstance(v, dict):
        return tuple((k, freeze(x)) for k, x in v.items())
    if isinstance(v, (int, float, str, bool, type(None), np.generic)):
        return repr(v)
    return "object"


def snapshot():
    """all data attributes of all solver classes"""
    out = {}
    for name in M.NAMES:
        for c in M.cls(name).__mro__:
            if c.__module__.startswith("extensisq"):
                for k, v in list(vars(c).items()):
                    if k.startswith("__") or callable(v) or isinstance(
                            v, (property, staticmethod, classmethod)):
                        continue
                    out[c.__name__, k] = freeze(v)
    return out


def same(env, label, a, b):
    bad = [f"{c}.{k}" for (c, k) in set(a) | set(b)
           if a.get((c, k)) != b.get((c, k))]
    env.claim(label + (": " + bad[0] if bad else ""), not bad)


def options(name):
    """other options than the defaults"""
    o = {}
    kd = M.kind(name)
    if kd in ("erk", "rkn"):
        o["nfev_stiff_detect"] = 0
    if name in M.ERK and name != "CKdisc" or kd in ("rkn", "esdirk"):
        o["sc_params"] = (0.6, -0.2, 0.1, 0.8)
    if name == "SWAG":
        o["k_max"] = 3
    if name == "CKdisc":
        o.pop("nfev_stiff_detect", None)
    for n, kw, _ in reversed(TABLE):
        if n == name:
            o.update(kw)
            break
    return o


def body(env, case, norms):
    name, d, oth = case["m"], case["dir"], case["other"]
    kd = M.kind(name)
    n, y0 = y0_of(env, name)
    t0 = env.real("t0", -4, 4, s=0.75)
    h = env.real("h", 1/64, 0.5, s=0.25)
    tb = t0 + 1000*d
    f = Oracle(env, n, -10, 10, kind=kd, indep_v=name == "MR6NN")
    f = Guard(f)
    g = Oracle(env, dims(oth), -10, 10, kind=M.kind(oth), name="g",
               indep_v=oth == "MR6NN")
    g = Guard(g)
    on = Norms(env, [0.4, 3.0] + [0.3]*50)
    # the other solvers see real values for their error norms
    on.vals = [v for v in on.pattern]
    before = snapshot()
    user = {}

    def main(tag):
        ym, atol = y0.copy(), np.full(n, 1.0)
        kw = dict(case["kw"])
        if kd == "esdirk":
            kw["jac"] = user[tag, "jac"] = np.zeros((n, n))
            kw["M"] = user[tag, "M"] = np.eye(n)
        user[tag, "y0"], user[tag, "atol"] = ym, atol
        init = {k: v.copy() for k, v in user.items() if k[0] == tag}
        r = Run(env, norms, name, f, t0, ym, tb, first_step=h, rtol=1e-3,
                atol=atol, **kw)
        return r, init

    def other(tag, first):
        ym = env.arr([1.0]*dims(oth))
        kw = options(oth)
        r = Run(env, on, oth, g, t0 + 0.5, ym, t0 + 0.5 - 1000*d,
                first_step=first, rtol=1e-2, atol=np.full(dims(oth), 0.5),
                **kw)
        return r

    def advance(r, dense=True):
        t = r.s.t
        if r.s.status != "running" or r.step() == "failed":
            return None
        return values(r.dense(), t, r.s.t - t) if dense else None
    sw = norms_switch(norms, on)
    with shim.stubbed({"norm": lambda: sw}):
        sw.use(norms)
        a, ia = main("a")
        va = [advance(a) for _ in range(case["steps"])]
        sw.use(on)
        o1 = other("p", 0.125)
        advance(o1)
        sw.use(norms)
        b, ib = main("b")
        sw.use(on)
        o2 = other("q", 0.5)
        vb = []
        for k in range(case["steps"]):
            sw.use(norms)
            vb.append(advance(b))
            sw.use(on)
            if k < 2:
                advance(o1)
                advance(o2)
    compare(env, "with other solvers", a, b)
    for k, (x, y) in enumerate(zip(va, vb)):
        if x is not None and y is not None:
            env.zero(f"interpolant of step {k}",
                     [q for p, r in zip(x, y) for q in p - r], 1e-9)
    same(env, "coefficients are left alone", before, snapshot())
    f.check(env)
    g.check(env, " (other solver)")
    for init in (ia, ib):
        for k, v in init.items():
            env.zero(f"argument {k[1]} is left alone",
                     list((v - user[k]).ravel()), 0.0)


class norms_switch:
    def __init__(self, a, b):
        self.cur = a

    def use(self, x):
        self.cur = x

    def __call__(self, x):
        return self.cur(x)
