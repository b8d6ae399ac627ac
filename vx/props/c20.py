"""C20: the constructors of all solver classes are executed with symbolic
tolerances, first and maximum step. On every path z3 decides that a ValueError
is raised exactly for the invalid values, and that the accepted tolerances are
the given ones with the documented limits."""
import math

import numpy as np

from .. import methods as M
from ..env import sand, sor, smax, smin
from ..oracle import build, dims

ID = "C20"
BOUNDS = ("rtol in [-1, 2], atol in [-1, 2] as scalar, list or array of "
          "length one to three, max_step in [-4, 16], first_step in [-4, 16], "
          "|t0| <= 4, interval length in [1/2, 8], both directions: all "
          "constructor paths, no other bound; wrong shapes and types as "
          "concrete arguments")
OUTSIDE = ("NaN and infinite arguments other than max_step=inf; complex and "
           "single precision states")
OPTS = dict(max_paths=400, budget=120, branch_ms=2000, claim_ms=10000)

EPS = 10*float(np.finfo(float).epsneg)
TINY = math.sqrt(float(np.finfo(float).tiny))


def cases(tier, seed):
    out = []
    for name in M.NAMES:
        for d in (1, -1):
            for v in ("scalar", "list", "array1", "array"):
                out.append(dict(name=f"{name}{d:+d}-tol-{v}", m=name, dir=d,
                                part="tol", atol=v))
            out.append(dict(name=f"{name}{d:+d}-steps", m=name, dir=d,
                            part="steps"))
            out.append(dict(name=f"{name}{d:+d}-max", m=name, dir=d,
                            part="max"))
        out.append(dict(name=f"{name}-types", m=name, dir=1, part="types"))
    return out


def make(env, name, t0, tb, n, **kw):
    y0 = np.array([1.0, 0.5, 0.25, 2.0][:n])
    if M.kind(name) == "rkn":
        h = n//2

        def f(t, y):
            return np.concatenate([y[h:], -np.ones(h)])
    else:
        def f(t, y):
            return -np.ones(n)
    try:
        return build(env, name, f, t0, y0, tb, **kw), None
    except (ValueError, TypeError, AssertionError) as e:
        return None, e


def run(env, case):
    name, d = case["m"], case["dir"]
    n = dims(name, 2 if M.kind(name) == "rkn" else 3)
    globals()["part_" + case["part"]](env, case, name, d, n)


def part_tol(env, case, name, d, n):
    v = case["atol"]
    m = {"scalar": 1, "list": n, "array": n, "array1": 1}[v]
    if v == "array1":
        n = dims(name, 1)
        m = n
    rtol = env.real("rtol", -1, 2, s=1e-3)
    a = [env.real(f"a{i}", -1, 2, s=1e-3) for i in range(min(m, 2))]
    a = (a*4)[:m] if m > 2 else a
    at = a[0] if v == "scalar" else a if v == "list" else env.arr(a)
    s, e = make(env, name, 0.5, 0.5 + 2*d, n, rtol=rtol, atol=at,
                first_step=0.125)
    bad = sor(rtol < 0, *[x < 0 for x in a])
    good = sand(rtol >= 0, *[x >= 0 for x in a])
    if s is None:
        env.claim("rejected only if negative", sand(
            isinstance(e, ValueError), bad),
            sor(bad, sand(rtol < 1e-6, *[x < 1e-6 for x in a])))
        return
    env.claim("negative tolerances are rejected", good,
              sand(rtol >= -1e-6, *[x >= -1e-6 for x in a]))
    er = smin(smax(rtol, EPS), 0.1)
    env.claim("rtol is kept within its limits",
              sand(s.rtol <= er*1.0001, s.rtol >= er*0.9999))
    sa = np.asarray(s.atol, object if env.sym else float)
    env.claim("atol has the shape of the state or is a scalar",
              sa.ndim == 0 or sa.shape == (n,))
    sa = np.broadcast_to(sa, (n,))
    for i in range(n):
        ea = smax(a[i if v != "scalar" else 0], TINY)
        env.claim(f"atol of component {i} is kept",
                  sand(sa[i] <= ea*1.0001, sa[i] >= ea*0.9999))


def part_steps(env, case, name, d, n):
    L = env.real("L", 0.5, 8, s=2.0)
    t0 = env.real("t0", -4, 4, s=0.75)
    mx = env.real("max", -4, 16, s=1.0)
    h = env.real("h", -4, 16, s=0.25)
    s, e = make(env, name, t0, t0 + d*L, n, max_step=mx, first_step=h)
    good = sand(mx > 0, h > 0, h <= L)
    if s is None:
        env.claim("rejected only if invalid",
                  sor(mx <= 0, h <= 0, h > L) if isinstance(e, ValueError)
                  else False, sor(mx <= 1e-6, h <= 1e-6, h >= L - 1e-6)
                  if isinstance(e, ValueError) else False)
        return
    env.claim("invalid steps are rejected", good,
              sand(mx >= -1e-6, h >= -1e-6, h <= L + 1e-6))
    env.le("max_step is a limit", s.max_step, mx, 1e-9)


def part_max(env, case, name, d, n):
    mx = env.real("max", -4, 16, s=1.0)
    s, e = make(env, name, 0.75, 0.75 + 4*d, n, max_step=mx)
    if s is None:
        env.claim("rejected only if invalid",
                  mx <= 0 if isinstance(e, ValueError) else False,
                  mx <= 1e-6 if isinstance(e, ValueError) else False)
        return
    env.claim("an invalid maximum is rejected", mx > 0, mx >= -1e-6)
    env.le("max_step is a limit", s.max_step, mx, 1e-9)


def part_types(env, case, name, d, n):
    """(concrete arguments)"""
    def bad(label, **kw):
        s, e = make(env, name, 0.75, 4.75, n, **kw)
        env.claim(label + " is rejected", s is None)
        if s is None:
            env.claim(label + " gives a ValueError",
                      isinstance(e, ValueError))
    bad("atol with one element too many", atol=np.full(n + 1, 1e-3))
    bad("atol with one element too few", atol=[1e-3]*(n - 1))
    bad("atol of length one", atol=[1e-3])
    bad("two-dimensional atol", atol=np.full((n, n), 1e-3))
    bad("atol as column", atol=np.full((n, 1), 1e-3))
    bad("integer rtol", rtol=1)
    bad("rtol array", rtol=np.full(n, 1e-3))
    bad("one negative atol", atol=[-1e-300] + [1e-3]*(n - 1))
    bad("negative atol at the end", atol=np.array([1e-3]*(n - 1) + [-1e-9]))
    bad("zero max_step", max_step=0.0)
    bad("zero first_step", first_step=0.0)
    bad("first_step outside of the interval", first_step=4.001)
    for tol in (0.0, 1e-3):
        s, e = make(env, name, 0.75, 4.75, n, atol=tol, rtol=tol)
        env.claim("non-negative tolerances are accepted", s is not None)
