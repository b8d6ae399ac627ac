"""C15: (poly) for every number of stages m, the library takes one step with
y' = -(z/h) y, symbolic h and z; y is then the stability polynomial. z3 decides
|P_m(z)| <= 1 for all 0 <= z <= h*rho and all h for which m is chosen, and for
all z up to the limit L(m) used in (count). (count): along sampled histories
with a different symbolic spectral radius at every time the number of stages
of each accepted step is counted in the calls; z3 decides that
length*radius <= L(m).
(rho): the estimate of the spectral radius for linear problems with symbolic
rates; z3 decides that it is not below the radius."""
import numpy as np

from .. import shim
from ..env import sand
from ..oracle import Oracle, build
from ..rel import Norms, pattern

ID = "C15"
BOUNDS = ("stability polynomials of 2 to 20 (thorough 60) stages: all step "
          "lengths and all z of the interval; histories of three (thorough "
          "six) accepted steps, spectral radius in [1/4, 400] different in "
          "each step, first step in [1/64, 1/2] or chosen by the solver, "
          "error norms in [1/64, 64], both directions, with steps that are "
          "stretched or shortened to t_bound, with max_step, constant "
          "Jacobian, and a limited number of stages; linear problems with "
          "rates in [1/8, 100] for the estimate of the spectral radius")
OUTSIDE = ("larger numbers of stages; complex eigenvalues; the "
           "estimated spectral radius of other than scalar linear problems "
           "and linear systems at rest or with equal rates; histories other "
           "than the sampled ones")
OPTS = dict(max_paths=64, budget=200, branch_ms=2000, claim_ms=60000)


def limit(m):
    """limit of the stability interval, a little above (m**2 - 1)/1.54"""
    return 0.6505*(m*m - 1)


def cases(tier, seed):
    out = []
    big = tier == "thorough"
    for m in range(2, 61 if big else 21):
        for d in (1, -1):
            if d < 0 and not big and m > 4:
                continue
            out.append(dict(name=f"poly-{m}{d:+d}", mode="poly", m=m, dir=d))
    for d in (1, -1):
        for v in ("scalar", "scalar-rest", "scalar-zero", "scalar-zero-rest",
                  "rest", "rest2", "diagonal"):
            out.append(dict(name=f"rho-{v}{d:+d}", mode="rho", v=v, dir=d,
                            concolic=True))
    for i in range(30 if big else 12):
        for mode in ("free", "end", "end2", "max", "const", "mmax", "first"):
            out.append(dict(name=f"count-{mode}-{i}", mode="count", v=mode,
                            pat=i, dir=-1 if i % 2 else 1, concolic=True,
                            steps=6 if big else 3))
    return out


def run(env, case):
    if case["mode"] == "poly":
        with shim.stubbed({"norm": lambda: (lambda x: 0.3)}):
            return poly(env, case)
    if case["mode"] == "rho":
        with shim.stubbed({"norm": lambda: (lambda x: 0.3)}):
            return estimate(env, case)
    p = pattern(case["pat"])
    norms = Norms(env, p)
    with shim.stubbed({"norm": lambda: norms}):
        count(env, case, norms)


def poly(env, case):
    m, d = case["m"], case["dir"]
    lo, hi = ((m - 1)**2 - 1)/1.54, (m*m - 1)/1.54
    h = env.real("h", max(lo, 1/64), hi, s=0.5*(lo + hi))
    z = env.real("z", 0, limit(m), s=0.4*hi)
    calls = []

    def f(t, y):
        calls.append(t)
        return -(y*(z/h))*d
    s = build(env, "SSV2stab", f, 0.0, np.array([1.0]), 1e6*d, first_step=h,
              rho=lambda t, y: 1.0)
    k = len(calls)
    s.step()
    n = len(calls) - k
    if n != m and not env.decide(z <= h):
        # another number of stages: for z of the actual interval only
        return
    y = s.y[0]
    env.claim("no growth on the interval", sand(y <= 1 + 1e-9, y >= -1 - 1e-9),
              sand(y <= 1 + 1e-8, y >= -1 - 1e-8))


def estimate(env, case):
    """the estimate of the spectral radius, linear problems"""
    d, v = case["dir"], case["v"]
    a = env.real("a", 1/8, 100, s=20.0, pin=[3.0, 90.0])
    b = env.real("b", 1/8, 100, s=35.0, pin=[5.0, 60.0])
    c = env.real("c", 1/8, 4, s=1.5, pin=[0.5, 2.0])
    e = env.real("e", 1/8, 4, s=0.75, pin=[1.0, 3.0])
    t0 = env.real("t0", -4, 4, s=0.5)
    if v.startswith("scalar"):
        # y' = -a (y - y1)
        y0 = [0.0 if "zero" in v else c]
        y1 = y0[0] if "rest" in v else e + 5

        def f(t, y):
            return env.arr([-d*a*(y[0] - y1)])
        radius = a
    elif v == "diagonal":
        # both modes present in the first slope, equal eigenvalues
        y0 = [c, e]

        def f(t, y):
            return env.arr([-d*a*y[0], -d*a*y[1]])
        radius = a
    else:
        # diffusion between two cells, equal content: at rest
        y0 = [c, c] if v == "rest" else [c, -c]
        g = 1 if v == "rest" else -1

        def f(t, y):
            x = y[0] - g*y[1]
            return env.arr([-d*a*x, g*d*b*x])
        radius = a + b
    s = build(env, "SSV2stab", f, t0, env.arr(y0), t0 + d, first_step=1/256,
              rho="estimate")
    s.step()
    if s.status == "failed":
        env.abort("failed")
    env.claim("estimate not below the spectral radius",
              s.sprad >= radius*(1 + 1e-6), s.sprad >= radius*(1 - 1e-3))


def count(env, case, norms):
    d, v = case["dir"], case["v"]
    first = v == "first"
    t0 = env.real("t0", -4, 4, s=0.75)
    h = env.real("h", 1/64, 0.5, s=0.25)
    tb = {"end": t0 + d*h*1.07, "end2": t0 + d*0.625}.get(v, t0 + d*1000)
    kw = {}
    if not first:
        kw["first_step"] = h
    if v == "max":
        kw["max_step"] = 0.3
    if v == "const":
        kw["const_jac"] = True
    rtol = 1e-3
    if v == "mmax":
        rtol = 2e-14 + 1e-14*(case["pat"] % 3)
    r, memo = env.rng, {}

    def rho(t, y):
        k = "c" if v == "const" else f.key(t, y)
        if k not in memo:
            x = r.choice([0.5, 3.0, 20.0, 60.0, 150.0, 350.0])
            memo[k] = env.real(f"r{len(memo)}", 0.25, 400,
                               s=x*r.uniform(0.8, 1.1))
        return memo[k]
    f = Oracle(env, 1, -10, 10)
    y0 = env.reals("y", 1, 0.5, 2, s=[1.0])
    marks = []

    class N:
        def __call__(self, x):
            marks.append(len(f.calls))
            return norms(x)
    norms.on = False
    nn = N()
    with shim.stubbed({"norm": lambda: nn}):
        s = build(env, "SSV2stab", f, t0, y0, tb, rho=rho, rtol=rtol,
                  atol=1.0, **kw)
        norms.on = True
        for k in range(case["steps"]):
            t, y = s.t, s.y.copy()
            if first and k == 0:
                norms.on = False      # starting step length: actual norm

                class First:
                    def __call__(self, x):
                        marks.append(len(f.calls))
                        e = norms(x)
                        norms.on = True
                        return e
                ff = First()
                with shim.stubbed({"norm": lambda: ff}):
                    marks.clear()
                    marks.append(len(f.calls))
                    s.step()
            else:
                marks.clear()
                marks.append(len(f.calls))
                s.step()
            if s.status == "failed":
                break
            m = marks[-1] - marks[-2]
            H = (s.t - t)*d
            env.claim(f"enough stages in step {k}",
                      H*rho(t, y) <= limit(m)*(1 + 1e-12),
                      H*rho(t, y) <= limit(m)*1.001)
            if s.status != "running":
                break
