"""C23: methods made by subclassing the public base classes, with symbolic
coefficient arrays (Runge-Kutta, Nystrom with and without velocity, ESDIRK).
Two steps (one with a rejected trial first) run on a right-hand side with
arbitrary values; arguments of all evaluations, the new state, the error that
is judged and the interpolant are compared with the formulas of the tableau by
z3, for all coefficients, values, start points and step lengths."""
import numpy as np

from .. import shim
from ..env import sabs, smax
from ..oracle import Oracle
from ..sr import is_sym, numerator
from .c13 import Generic

ID = "C23"
BOUNDS = ("2 to 4 (thorough 5) stages, coefficients in [-1, 1], prescribed "
          "sets of nodes (increasing, repeated, outside of [0, 1], decreasing)"
          ", first-same-as-last and conventional methods, with and without "
          "interpolation matrix, 1 or 2 equations, |f| <= 4, first step in "
          "[1/64, 1/4] (1/4 for implicit methods, linear problems), both "
          "directions, two steps (4 implicit stages after a rejected trial: one), "
          "with and without a rejected trial")
OUTSIDE = ("rounding; nonlinear implicit stages (C22); step size control and "
           "stiffness detection (C24, C19)")
OPTS = dict(max_paths=12, budget=150, branch_ms=1000, claim_ms=15000)

NODES = {2: [[0, 0.5], [0, 1]],
         3: [[0, 0.25, 0.75], [0, 0.5, 0.5], [0, 1.25, -0.25]],
         4: [[0, 0.75, 0.25, 1], [0, 0.5, 0.5, 1], [0, 0, 1, 1]],
         5: [[0, 0.125, 0.5, 0.25, 1]]}


def cases(tier, seed):
    out = []
    big = tier == "thorough"
    k = 0
    for kind in ("erk", "rkn", "rkn0", "esdirk"):
        for S in (2, 3, 4, 5) if big else (2, 3, 4):
            if kind == "esdirk" and S == 5:
                continue
            for ic in range(len(NODES[S])):
                if kind != "esdirk":
                    ends = ("no", "yes", "free")
                    if kind != "erk":
                        ends += ("x", "v")
                else:
                    ends = ("raw", "filter")
                for end in ends:
                    for P in (0, 2, 3) if big else (0, 3):
                        for rej in (False, True):
                            k += 1
                            if not big and k % 2 and S == 4:
                                continue
                            out.append(dict(
                                name=f"{kind}{S}-{ic}-{end}-P{P}"
                                     f"{'-rej' if rej else ''}",
                                kind=kind, S=S, ic=ic, end=end, P=P, rej=rej,
                                dir=1 if (k // 2) % 2 else -1,
                                n=2 if S == 2 and kind != "esdirk" else 1))
    return out


class Norm:
    def __init__(self, seq):
        self.seq, self.args = list(seq), []
        self.on = False

    def __call__(self, x):
        if not self.on:
            return 0.5
        v = self.seq[min(len(self.args), len(self.seq) - 1)]
        self.args.append(np.array(x, copy=True))
        return v


def tableau(env, case):
    kind, S, end = case["kind"], case["S"], case["end"]
    at = {}

    def co(name, lo=-1, hi=1):
        return env.real(name, lo, hi)

    def lower(name):
        return mat([[co(f"{name}{i}{j}") if j < i else 0.0
                     for j in range(S)] for i in range(S)])

    def vec(xs):
        a = env.arr(list(xs))
        return a.view(shim.SArr) if env.sym else a.astype(float)

    def mat(rows):
        a = env.mat(rows)
        return a.view(shim.SArr) if env.sym else a.astype(float)

    def last(which):
        if end == "yes" or end == which:
            return co("El" + which, 0.125, 1)
        if end == "free":
            return co("El" + which)
        return 0.0

    def interp(name, B):
        q = case["P"]
        rows = []
        for i, b in enumerate(list(B) + ([0.0] if kind != "esdirk" else [])):
            r = [co(f"{name}{i}{j}") for j in range(q - 1)]
            t = b
            for v in r:
                t = t - v
            rows.append(r + [t])
        return mat(rows)
    at["n_stages"] = S
    at["order"], at["order_secondary"] = 3, 2
    at["C"] = np.array(NODES[S][case["ic"]], float)
    if kind == "esdirk":
        d = 0.375
        A = lower("a")
        for i in range(1, S):
            A[i, i] = d
        at.update(A=A, B=A[-1, :].copy(), d=d, kappa=0.5,
                  E=vec([co(f"e{i}") for i in range(S)]), Az=lower("z"),
                  filter_error=end == "filter")
        if case["P"]:
            at["P"] = interp("p", at["B"])
        return at
    at.update(A=lower("a"), B=vec([co(f"b{i}") for i in range(S)]),
              E=vec([co(f"e{i}") for i in range(S)] + [last("x")]))
    if kind == "rkn":
        at["Ap"] = lower("c")
    if kind != "erk":
        at.update(Bp=vec([co(f"d{i}") for i in range(S)]),
                  Ep=vec([co(f"g{i}") for i in range(S)] + [last("v")]))
    if case["P"]:
        at["P"] = interp("p", at["B"])
        if kind != "erk":
            at["Pp"] = interp("q", at["Bp"])
    return at


def run(env, case):
    env = Generic(env)
    norms = Norm([3.0, 0.5, 0.25] if case["rej"] else [0.5, 0.25])
    with shim.stubbed({"norm": lambda: norms}):
        if case["kind"] == "esdirk":
            implicit(env, case, norms)
        else:
            explicit(env, case, norms)


def base(kind):
    import extensisq.common as c
    return {"erk": c.RungeKutta, "rkn": c.RungeKuttaNystrom,
            "rkn0": c.RungeKuttaNystrom, "esdirk": c.ESDIRK}[kind]


def comb(co, ks):
    """sum of co[i]*ks[i] (vectors)"""
    r = 0
    for a, k in zip(co, ks):
        if is_sym(a) or a:
            r = r + a*k
    return r


RTOL, ATOL = 1e-2, 0.5


def judged(env, label, x, err, y, yn):
    """the argument of the norm is the error over its scale"""
    ok = len(x) == len(err)
    env.claim(label + ": number of components", ok)
    if not ok:
        return
    dev = []
    for a, e, u, v in zip(x, err, y, yn):
        w = ATOL + RTOL*smax(sabs(u), sabs(v))
        r = a*w - e
        if is_sym(r):
            n, _ = numerator(r)
            r = r if n is None else n
        dev.append(r)
    env.zero(label, dev, 1e-9)


def vsub(env, a, b):
    return [u - v for u, v in zip(list(np.ravel(a)), list(np.ravel(b)))]


def explicit(env, case, norms):
    kind, S, d, n = case["kind"], case["S"], case["dir"], case["n"]
    T = tableau(env, case)
    cls = type("Own", (base(kind),), T)
    rkn = kind != "erk"
    t0 = env.real("t0", -4, 4)
    h = env.real("h", 1/64, 1/4)
    y0 = env.reals("y", n*(1 + rkn), 6, 8)
    f = Oracle(env, n*(1 + rkn), -4, 4, kind="rkn" if rkn else "erk",
               indep_v=kind == "rkn0")
    s = cls(f, t0, y0, t0 + 1000*d, first_step=h, rtol=RTOL, atol=ATOL)
    A, B, C, E = T["A"], T["B"], T["C"], T["E"]
    Ap = T.get("Ap", np.zeros((S, S)))
    Bp, Ep = T.get("Bp"), T.get("Ep")
    fsal = bool(E[S] != 0) or (rkn and bool(Ep[S] != 0))
    part = (lambda v: v[n:]) if rkn else (lambda v: v)
    f0 = part(f.calls[0][2])
    norms.on = True
    hs = h*d
    for step in range(2):
        t, y = s.t, np.array(s.y, copy=True)
        k0 = len(f.calls)
        if step:
            norms.args.clear()
            norms.seq = [0.25]
        before = len(norms.args)
        s.step()
        env.claim("the step does not fail", s.status == "running")
        if s.status != "running":
            return
        if len(norms.args) == before:
            env.abort("norms are not called as expected")
        new = f.calls[k0:]
        ntr = 2 if case["rej"] and step == 0 else 1
        per = S - 1 + (1 if fsal else 0)
        want = ntr*per + (0 if fsal else 1)
        env.claim(f"number of evaluations in step {step}", len(new) == want)
        env.claim(f"number of error norms in step {step}",
                  len(norms.args) - before == ntr)
        if len(new) != want or len(norms.args) - before != ntr:
            return
        for tr in range(ntr):
            ev = new[tr*per:]
            if tr == ntr - 1:
                hh = s.t - t
            else:
                # from the first stage (nodes may be zero: then h is known)
                hh = hs
            K = [f0]
            x, v = (y[:n], y[n:]) if rkn else (y, None)
            for i in range(1, S):
                tt, yy, ff = ev[i - 1]
                if rkn:
                    e = list(x + C[i]*hh*v + hh*hh*comb(A[i, :i], K)) + \
                        list(v + hh*comb(Ap[i, :i], K))
                else:
                    e = x + hh*comb(A[i, :i], K)
                env.zero(f"stage {i} of trial {tr}, step {step}",
                         [tt - t - C[i]*hh] + vsub(env, yy, e), 1e-9)
                K.append(part(ff))
            if rkn:
                xn = x + hh*v + hh*hh*comb(B, K)
                vn = v + hh*comb(Bp, K)
                yn = env.arr(list(xn) + list(vn))
            else:
                yn = x + hh*comb(B, K)
            if fsal or tr == ntr - 1:
                tt, yy, ff = ev[S - 1]
                env.zero(f"evaluation at the end of trial {tr}, step {step}",
                         [tt - t - hh] + vsub(env, yy, yn), 1e-9)
                fn = part(ff)
            KE = K + ([fn] if fsal else [])
            if rkn:
                err = list(hh*hh*comb(E, KE)) + list(hh*comb(Ep, KE))
            else:
                err = list(hh*comb(E, KE))
            judged(env, f"error of trial {tr}, step {step}",
                   norms.args[before + tr], err, y, yn)
        env.zero(f"new state, step {step}", vsub(env, s.y, yn), 1e-9)
        # interpolant
        sol = s.dense_output()
        env.zero(f"interpolant, ends of step {step}",
                 vsub(env, sol(t), y) + vsub(env, sol(s.t), s.y), 1e-8)
        K.append(fn)
        for th in (0.25, 0.625):
            if case["P"]:
                if rkn:
                    e = list(x + th*hh*v + hh*hh*poly(T["P"], K, th, 2)) + \
                        list(v + hh*poly(T["Pp"], K, th, 1))
                else:
                    e = x + hh*poly(T["P"], K, th, 1)
            elif rkn:
                e = quintic(th, hh, x, v, f0, s.y[:n], s.y[n:], fn)
            else:
                e = cubic(th, hh, x, f0, s.y, fn)
            env.zero(f"interpolant inside of step {step}",
                     vsub(env, sol(t + th*hh), e), 1e-8)
        f0 = fn


def poly(P, K, th, e):
    """sum_ij P[i, j] th**(j + e) K[i]"""
    r = 0
    for i, k in enumerate(K):
        c = 0
        for j in range(P.shape[1]):
            c = c + P[i, j]*th**(j + e)
        r = r + c*k
    return r


def cubic(x, h, y0, f0, y1, f1):
    return ((1 + 2*x)*(1 - x)**2*y0 + x*(1 - x)**2*h*f0
            + x*x*(3 - 2*x)*y1 + x*x*(x - 1)*h*f1)


def quintic(x, h, x0, v0, a0, x1, v1, a1):
    def p(*c):
        return sum(a*x**i for i, a in enumerate(c))

    def q(*c):
        return sum(i*a*x**(i - 1) for i, a in enumerate(c) if i)
    cs = [(1, 0, 0, -10, 15, -6), (0, 1, 0, -6, 8, -3),
          (0, 0, .5, -1.5, 1.5, -.5), (0, 0, 0, 10, -15, 6),
          (0, 0, 0, -4, 7, -3), (0, 0, 0, .5, -1, .5)]
    z = [x0, h*v0, h*h*a0, x1, h*v1, h*h*a1]
    u = sum(p(*c)*w for c, w in zip(cs, z))
    # derivative, divided by h: x0 - x1 is of order h
    w = (q(*cs[0])*(x0 - x1)/h + q(*cs[1])*v0 + h*q(*cs[2])*a0
         + q(*cs[4])*v1 + h*q(*cs[5])*a1)
    return list(u) + list(w)


def implicit(env, case, norms):
    S, d = case["S"], case["dir"]
    T = tableau(env, case)
    cls = type("Own", (base("esdirk"),), T)
    lam = [-1.5, 0.75, -4.0][case["ic"] % 3]
    t0 = env.real("t0", -4, 4)
    y0 = env.reals("y", 1, 6, 8)
    g = Oracle(env, 1, -4, 4, name="g")
    zero = env.arr([0.0])

    def rhs(t, y):
        f = g(t, zero)
        return env.arr([lam*y[0] + f[0]])
    s = cls(rhs, t0, y0, t0 + 1000*d, first_step=0.25, rtol=RTOL, atol=ATOL,
            jac=np.array([[lam]]))
    A, C, E, dd = T["A"], T["C"], T["E"], T["d"]
    yp = lam*y0[0] + g(t0, zero)[0]
    norms.on = True
    # corrections and errors are judged by the same function
    rej = case["rej"]
    for step in range(1 if rej and S == 4 else 2):
        t, y = s.t, s.y[0]
        k0 = len(g.calls)
        norms.args.clear()
        norms.seq = ([1.0]*(S - 1) + [3.0]) * (1 if rej and step == 0 else 0) \
            + [1.0]*(S - 1) + [0.5]
        s.step()
        if not norms.args:
            env.abort("norms are not called as expected")
        env.claim("the step does not fail", s.status == "running")
        if s.status != "running":
            return
        h = s.t - t
        ntr = 2 if rej and step == 0 else 1
        new = g.calls[k0:]
        want = ntr*(S - 1)
        env.claim(f"number of evaluations in step {step}", len(new) == want)
        env.claim(f"number of norms in step {step}",
                  len(norms.args) == ntr*S)
        if len(new) != want or len(norms.args) != ntr*S:
            return
        for tr in range(ntr):
            hh = h if tr == ntr - 1 else d*0.25
            ev = new[tr*(S - 1):]
            K = [yp]
            m = 1 - hh*dd*lam
            for i in range(1, S):
                tt, _, gg = ev[i - 1]
                env.zero(f"time of stage {i}, trial {tr}, step {step}",
                         [tt - t - C[i]*hh], 1e-12)
                K.append((lam*(y + hh*comb(A[i, :i], K)) + gg[0])/m)
            yn = y + hh*comb(A[-1], K)
            err = hh*comb(E, K)
            if case["end"] == "filter":
                err = err/m
            judged(env, f"error of trial {tr}, step {step}",
                   norms.args[(tr + 1)*S - 1], [err], [y],
                   [s.y[0] if tr == ntr - 1 else yn])
        env.zero(f"new state, step {step}", [s.y[0] - yn], 1e-9)
        sol = s.dense_output()
        env.zero(f"interpolant, ends of step {step}",
                 [sol(t)[0] - y, sol(s.t)[0] - s.y[0]], 1e-8)
        for th in (0.25, 0.625):
            if case["P"]:
                e = y + h*poly(T["P"], K, th, 1)
            else:
                e = cubic(th, h, y, K[0], s.y[0], K[-1])
            env.zero(f"interpolant inside of step {step}",
                     [sol(t + th*h)[0] - e], 1e-8)
        yp = K[-1]
