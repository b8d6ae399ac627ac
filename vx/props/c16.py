"""C16: the sensitivity functions are executed with symbolic parameters,
initial values, derivatives of the initial values, coefficients of the problem
and length of the interval. `solve_ivp` is replaced by an integrator that works
on polynomials: it applies Picard iteration to whatever right-hand side it is
given and so has the exact solution up to a power K of the interval length. The
sensitivities returned are compared, per power of the length, with the
derivatives (taken symbolically) of the exact solution of the user's problem
(forward), or of the objective (adjoint): an identity in all symbols. The
checks do not depend on how the library lays out its augmented problems. In
replays the real solve_ivp runs (with tight tolerances)."""
import random

import numpy as np

from .. import shim, sr
from ..sr import SR, is_sym

ID = "C16"
BOUNDS = ("1 to 3 states, 1 to 3 parameters, quadratic right-hand sides and "
          "objectives, |y0|, |p|, |dy0/dp| and coefficients <= 2, interval "
          "length <= 1/2 in both directions, agreement of all terms up to "
          "the 3rd (thorough 4th) power of the length; scalar and vector "
          "tolerances, parameters that are zero")
OUTSIDE = ("terms of higher order in the interval length; the accuracy of the "
           "integrators (C01 to C05)")
OPTS = dict(max_paths=40, budget=150, branch_ms=500, claim_ms=10000)


def cases(tier, seed):
    out = []
    big = tier == "thorough"
    for kind in ("fwd", "end", "int"):
        for ny, np_ in ((1, 1), (2, 2), (2, 3), (3, 2)) + (
                ((3, 3), (1, 3)) if big else ()):
            for d in (1, -1):
                for m in ("BS5", "BDF", "Radau", "LSODA"):
                    if not big and m != "BS5" and (ny, np_) == (1, 1):
                        continue
                    if not big and d < 0 and m in ("Radau", "LSODA"):
                        continue
                    for tol in ("s", "v"):
                        if tol == "v" and not (d == 1 and ny > 1):
                            continue
                        extra = ("",)
                        if m == "BS5" and tol == "s":
                            extra = ("", "jac") if kind == "fwd" else (
                                "", "given")
                        for x in extra:
                            out.append(dict(
                                name=f"{kind}-{ny}x{np_}{d:+d}-{m}-{tol}-{x}",
                                kind=kind, ny=ny, np=np_, dir=d, method=m,
                                tol=tol, x=x, K=4 if big else 3))
    for kind in ("fwd", "end", "int"):
        for tol in ("s", "v"):
            out.append(dict(name=f"{kind}-zero-{tol}", kind=kind, ny=2, np=2,
                            dir=1, method="BS5", tol=tol, x="zero", K=2))
        out.append(dict(name=f"{kind}-fail", kind=kind, ny=1, np=1, dir=1,
                        method="BS5", tol="s", x="fail", K=1))
    out.append(dict(name="fwd-teval", kind="fwd", ny=2, np=2, dir=1,
                    method="BS5", tol="s", x="teval", K=2))
    return out


# -- polynomials --------------------------------------------------------------
def atom(x):
    (m,) = x.p
    return m[0][0]


def diff(x, v):
    """derivative of a polynomial to an atom"""
    if not is_sym(x):
        return SR.const(0)
    a = atom(v)
    out = {}
    for m, c in x.p.items():
        d = dict(m)
        e = d.get(a, 0)
        if e:
            if e == 1:
                del d[a]
            else:
                d[a] = e - 1
            k = tuple(sorted(d.items()))
            out[k] = out.get(k, 0) + c*e
    return SR({k: c for k, c in out.items() if c})


def coeffs(x, v):
    """[c0, c1, ..] of x as a polynomial in the atom v"""
    x = x if is_sym(x) else SR.const(x)
    a = atom(v)
    out = {}
    for m, c in x.p.items():
        d = dict(m)
        e = d.pop(a, 0)
        out.setdefault(e, {})[tuple(sorted(d.items()))] = c
    n = max(out, default=0)
    return [SR(out.get(i, {})) for i in range(n + 1)]


def subs(x, v, val):
    s = SR.const(0)
    for c in reversed(coeffs(x, v)):
        s = s*val + c
    return s


class Flow:
    """stands in for solve_ivp"""

    def __init__(self, env, K, T, sg, fail=()):
        self.env, self.K, self.T, self.sg = env, K, T, sg
        self.calls = []
        self.fail = fail

    def trunc(self, x):
        if not is_sym(x):
            return x
        a, b = atom(self.T), atom(self.sg)
        return SR({m: c for m, c in x.p.items()
                   if sum(e for k, e in m if k in (a, b)) <= self.K})

    def integ(self, x):
        a = atom(self.sg)
        out = {}
        x = x if is_sym(x) else SR.const(x)
        for m, c in x.p.items():
            d = dict(m)
            d[a] = d.get(a, 0) + 1
            out[tuple(sorted(d.items()))] = c/d[a]
        return SR(out)

    def picard(self, fun, ta, y0):
        env = self.env
        Y = env.arr(list(y0))
        for _ in range(self.K):
            F = np.asarray(fun(ta + self.sg, env.arr(list(Y))))
            Y = env.arr([self.trunc(a + self.integ(self.trunc(f)))
                         for a, f in zip(y0, F)])
        return Y

    def __call__(self, fun, t_span, y0, method="RK45", t_eval=None,
                 dense_output=False, events=None, vectorized=False, args=None,
                 **kw):
        env = self.env
        rec = dict(fun=fun, t_span=tuple(t_span), y0=y0, method=method,
                   t_eval=t_eval, dense=dense_output, args=args, kw=kw)
        self.calls.append(rec)
        ok = len(self.calls) not in self.fail
        f = fun if args is None else (lambda t, y: fun(t, y, *args))
        ta, tb = t_span
        if not env.sym:
            from scipy.integrate import solve_ivp
            k2 = dict(kw, rtol=1e-9, atol=1e-11)
            r = solve_ivp(fun, t_span, y0, method=method, t_eval=t_eval,
                          dense_output=dense_output, args=args, **k2)
            r.success = ok
            return r
        Y = self.picard(f, ta, list(np.asarray(y0)))

        def at(t):
            s = t - ta
            return env.arr([self.trunc(subs(y, self.sg, s)) for y in Y])
        ts = [ta, tb] if t_eval is None else list(t_eval)
        ys = np.empty((len(Y), len(ts)), object)
        for j, t in enumerate(ts):
            ys[:, j] = at(t)

        class Res:
            pass
        r = Res()
        r.t, r.y, r.success, r.status = env.arr(ts), ys.view(shim.SArr), ok, 0
        r.message = ""
        r.sol = None
        if dense_output:
            def sol(t):
                return at(t).view(shim.SArr)
            r.sol = sol
        return r


class Problem:
    """quadratic in y, affine in p and t"""

    def __init__(self, env, ny, np_):
        big = ny*np_ > 4
        c = [env.real("c0", -2, 2), -0.75 if big else env.real("c1", -2, 2),
             1.25, 0.5 if big else env.real("c3", -2, 2)]
        self.ny, self.np, self.c = ny, np_, c

    def split(self, t, y, p):
        assert len(y) == self.ny and len(p) == self.np
        return list(y), list(p), self.c

    def f(self, t, y, p):
        y, p, c = self.split(t, y, p)
        n, m = self.ny, self.np
        out = []
        for i in range(n):
            j, k = (i + 1) % n, (i + 2) % n
            v = c[i % 3]*y[i] + 0.75*y[k]*y[j] + c[3]*t - 0.5*t*y[j]
            for q in range(m):
                v = v + p[q]*(0.25*(q + 1) + (0.5 - i)*y[(i + q) % n] + t*i)
            out.append(v)
        return out

    def g(self, t, y, p):
        y, p, c = self.split(t, y, p)
        n, m = self.ny, self.np
        s = 1.5*t + t*y[0]
        for i in range(n):
            s = s + c[i % 3]*y[i]*y[i] + 0.5*(i + 1)*y[i] + \
                y[i]*p[(i + 1) % m]
        for q in range(m):
            s = s + (0.5 + q)*p[q]*p[q] + t*(q + 1)*p[q]
        return s

    # derivatives written out by hand (the user's functions)
    def jac(self, t, y, p):
        y, p, c = self.split(t, y, p)
        n, m = self.ny, self.np
        J = [[0.0]*n for _ in range(n)]
        for i in range(n):
            j, k = (i + 1) % n, (i + 2) % n
            J[i][i] = J[i][i] + c[i % 3]
            J[i][k] = J[i][k] + 0.75*y[j]
            J[i][j] = J[i][j] + 0.75*y[k]
            J[i][j] = J[i][j] - 0.5*t
            for q in range(m):
                J[i][(i + q) % n] = J[i][(i + q) % n] + p[q]*(0.5 - i)
        return J

    def dfdp(self, t, y, p):
        y, p, c = self.split(t, y, p)
        n, m = self.ny, self.np
        return [[0.25*(q + 1) + (0.5 - i)*y[(i + q) % n] + t*i
                 for q in range(m)] for i in range(n)]

    def dgdy(self, t, y, p):
        y, p, c = self.split(t, y, p)
        n, m = self.ny, self.np
        out = [2*c[i % 3]*y[i] + 0.5*(i + 1) + p[(i + 1) % m]
               for i in range(n)]
        out[0] = out[0] + t
        return out

    def dgdp(self, t, y, p):
        y, p, c = self.split(t, y, p)
        n, m = self.ny, self.np
        out = [2*(0.5 + q)*p[q] + t*(q + 1) for q in range(m)]
        for i in range(n):
            out[(i + 1) % m] = out[(i + 1) % m] + y[i]
        return out


def reference(P, t0, tf, y0, S0, p):
    """y, S, g-integral and its sensitivity by many RK4 steps (replays)"""
    n, m = P.ny, P.np

    def rhs(t, z):
        y = z[:n]
        S = z[n:n + n*m].reshape(n, m)
        J = np.array(P.jac(t, y, p), float)
        dS = J @ S + np.array(P.dfdp(t, y, p), float)
        gp = np.array(P.dgdp(t, y, p), float) + \
            np.array(P.dgdy(t, y, p), float) @ S
        return np.concatenate([np.array(P.f(t, y, p), float), dS.ravel(),
                               [float(P.g(t, y, p))], gp])
    z = np.concatenate([y0, np.ravel(S0), [0.0], np.zeros(m)]).astype(float)
    N = 400
    h = (tf - t0)/N
    t = t0
    for i in range(N):
        k1 = rhs(t, z)
        k2 = rhs(t + h/2, z + h/2*k1)
        k3 = rhs(t + h/2, z + h/2*k2)
        k4 = rhs(t + h, z + h*k3)
        z = z + h/6*(k1 + 2*k2 + 2*k3 + k4)
        t = t0 + (i + 1)*h
    return z[:n], z[n:n + n*m].reshape(n, m), z[n + n*m], z[n + n*m + 1:]


class Generic:
    """inputs with suggested, different, values"""

    def __init__(self, env):
        self.env = env
        self.r = random.Random(7)

    def __getattr__(self, n):
        return getattr(self.env, n)

    def real(self, name, lo, hi, pin=None):
        p = pin or [lo + (hi - lo)*self.r.randint(99, 999)/1024
                    for _ in range(3)]
        return self.env.real(name, lo, hi, s=p[0], pin=p)

    def reals(self, name, n, lo, hi):
        return self.arr([self.real(f"{name}{i}", lo, hi) for i in range(n)])


def run(env, case):
    env = Generic(env)
    import extensisq.sensitivity as mod
    ny, np_, K, kind, x = (case[k] for k in ("ny", "np", "K", "kind", "x"))
    d = case["dir"]
    t0 = env.real("t0", -2, 2) if ny*np_ <= 4 else 0.375
    T = env.real("T", 0.125, 0.5, pin=[0.4])
    T = d*T
    L = T if d > 0 else -T
    y0 = env.reals("y", ny, -2, 2)
    if x == "zero":
        p = env.arr([0.0, env.real("p1", 0.25, 2)])
    else:
        # of both signs
        p = env.arr([env.real(f"p{i}", 0.25, 2) if (i + (d < 0)) % 2 == 0 else
                     env.real(f"p{i}", -2, -0.25) for i in range(np_)])
    S0 = env.mat([[env.real(f"s{i}{j}", -2, 2) for j in range(np_)]
                  for i in range(ny)])
    P = Problem(env, ny, np_)
    if not env.sym:
        y0, p, S0 = (np.array(a, float) for a in (y0, p, S0))
    sg = env.eng.real("sigma", -1, 1) if env.sym else None
    fail = ()
    if x == "fail":
        fail = (1,) if kind == "fwd" or env.case.get("first") else (2,)
    flow = Flow(env, K, L, sg, fail)
    old = mod.__dict__["np"]
    if env.sym:
        sr.TRUNC = {atom(L), atom(sg)}, K
    if env.sym:
        y0, p, S0 = (a.view(shim.SArr) for a in (y0, p, S0))
        mod.__dict__["np"] = shim.SymNPF("numpy")
    try:
        with shim.stubbed({"solve_ivp": lambda: flow}):
            body(env, case, mod, flow, P, t0, T, L, y0, p, S0)
    finally:
        mod.__dict__["np"] = old
        sr.TRUNC = None


def asarr(env, x):
    if env.sym:
        return shim.NP.asarray(x)
    return np.array(x, float)


def body(env, case, mod, flow, P, t0, T, L, y0, p, S0):
    ny, np_, K, kind, x = (case[k] for k in ("ny", "np", "K", "kind", "x"))
    tf = t0 + T
    seen = {"n": 0}

    def user(g, wrap=False):
        def h(t, y, *a):
            seen["n"] += 1
            if seen["n"] <= 8 or len(a) != np_:
                env.claim("parameters are passed", len(a) == np_)
            dev = [u - w for u, w in zip(a, p) if u is not w]
            dev = [u for u in dev if not (is_sym(u) and not u.p)]
            if dev:
                env.zero("parameters are passed on unchanged", dev, 1e-12)
            r = g(t, y, a)
            return asarr(env, [r] if wrap else r)
        return h
    import extensisq
    meth = getattr(extensisq, case["method"], case["method"])
    kw = dict(method=meth, rtol=1e-4)
    vec = case["tol"] == "v"
    at = [1e-6*(i + 1) for i in range(ny)] if vec else 3e-7
    aa = [2e-5*(i + 1) for i in range(ny)] if vec else 5e-6
    aq = 7e-4
    F = {n: user(getattr(P, n), n == "g")
         for n in ("f", "jac", "dfdp", "g", "dgdp", "dgdy")}
    a0 = [F["f"], (t0, tf), y0, F["jac"], F["dfdp"], S0, p]
    if kind == "fwd":
        kw["atol"] = at
        if x == "jac":
            kw["use_approx_jac"] = True
        if x == "teval":
            kw["t_eval"] = [t0, t0 + 0.25*T, tf]
            kw["dense_output"] = True
        call = mod.sens_forward
    else:
        a0 += [F["g"], F["dgdp"], F["dgdy"]]
        kw.update(atol=at, atol_adj=aa, atol_quad=aq)
        call = mod.sens_adjoint_end if kind == "end" else mod.sens_adjoint_int
    nf = 0
    if x == "given":
        r = flow(lambda t, y: asarr(env, P.f(t, y, p)), (t0, tf), y0,
                 dense_output=True, atol=0.1, rtol=0.1)
        kw["sol_y"] = r
        flow.calls.clear()
        nf = -1
    if x == "fail" and kind != "fwd":
        r = flow(lambda t, y: asarr(env, P.f(t, y, p)), (t0, tf), y0,
                 atol=0.1, rtol=0.1)
        try:
            call(*a0, sol_y=r, **kw)
            ok = False
        except ValueError:
            ok = True
        env.claim("a solution without dense output is refused", ok)
    if x == "fail":
        for k in ((1,) if kind == "fwd" else (1, 2)):
            flow.fail = (k,)
            flow.calls.clear()
            try:
                call(*a0, **kw)
                ok = False
            except RuntimeError:
                ok = True
            env.claim(f"failure of integration {k} is reported", ok)
        return
    res = call(*a0, **kw)
    calls = flow.calls
    want = 1 if kind == "fwd" else 2 + nf
    env.claim("number of integrations", len(calls) == want)
    if len(calls) != want:
        return
    for i, c in enumerate(calls):
        bw = kind != "fwd" and i == len(calls) - 1
        ta, tb = c["t_span"]
        A, B = (tf, t0) if bw else (t0, tf)
        env.zero(f"interval of integration {i}", [ta - A, tb - B], 1e-12)
        env.claim(f"method of integration {i}", c["method"] is meth)
        env.claim(f"rtol of integration {i}", c["kw"].get("rtol") == 1e-4)
    # exact solution
    if env.sym:
        yx = [flow.trunc(subs(u, flow.sg, T)) for u in flow.picard(
            lambda t, y: P.f(t, y, list(p)), t0, list(y0))]

        def total(u, j):
            """derivative to parameter j, with y0 = y0(p)"""
            r = diff(u, p[j]) if is_sym(p[j]) else zeroth(u, j)
            for i in range(ny):
                r = r + diff(u, y0[i])*S0[i, j]
            return flow.trunc(r)

        def zeroth(u, j):
            raise NotImplementedError
        Sx = Gx = Gs = ge = gs = None
        if x == "zero":
            # variational equations by hand
            zx = [flow.trunc(subs(u, flow.sg, T)) for u in flow.picard(
                lambda t, z: aug(P, t, z, p), t0,
                list(y0) + [S0[i, j] for i in range(ny) for j in range(np_)]
                + [0.0]*(1 + np_))]
            Sx = [[zx[ny + i*np_ + j] for j in range(np_)] for i in range(ny)]
            Gx, Gs = zx[ny*(1 + np_)], zx[ny*(1 + np_) + 1:]
        else:
            Sx = [[total(yx[i], j) for j in range(np_)] for i in range(ny)]
            if kind == "int":
                G = flow.picard(lambda t, z: P.f(t, z[:ny], list(p))
                                + [P.g(t, z[:ny], list(p))], t0,
                                list(y0) + [0.0])[-1]
                Gx = flow.trunc(subs(G, flow.sg, T))
                Gs = [total(Gx, j) for j in range(np_)]
        ge = P.g(tf, yx, list(p))
        dy, dp = P.dgdy(tf, yx, list(p)), P.dgdp(tf, yx, list(p))
        gs = [sum(dy[i]*Sx[i][j] for i in range(ny)) + dp[j]
              for j in range(np_)]
    else:
        yx, Sx, Gx, Gs = reference(P, t0, tf, y0, S0, p)
        ge = P.g(tf, yx, p)
        gs = np.array(P.dgdy(tf, yx, p)) @ Sx + np.array(P.dgdp(tf, yx, p))

    def eq(label, a, b):
        a, b = list(np.ravel(a)), list(np.ravel(b))
        env.claim(label + " (number of values)", len(a) == len(b))
        if len(a) != len(b):
            return
        if not env.sym:
            for u, w in zip(a, b):
                env.zero(label, [u - w], 2e-6*(1 + abs(w)))
            return
        for i, (u, w) in enumerate(zip(a, b)):
            for k, co in enumerate(coeffs(flow.trunc(u - w), L)):
                env.zero(f"{label}, value {i}, power {k} of the length",
                         [co], 1e-6)
    if kind == "fwd":
        env.claim("shape of sensf", np.shape(res.sensf) == (ny, np_))
        eq("sensitivity at the end", res.sensf, Sx)
        eq("solution at the end", res.yf, yx)
        env.claim("sol is the solver output", len(res.sol.y) == ny*(1 + np_))
        c = calls[0]
        if x == "teval":
            env.zero("t_eval is passed on", [
                u - w for u, w in zip(c["t_eval"], kw["t_eval"])], 0)
            env.claim("dense_output is passed on", bool(c["dense"]))
    elif kind == "end":
        env.claim("shape of sens", np.shape(res.sens) == (np_,))
        eq("sensitivity of the objective at the end", res.sens, gs)
        eq("objective at the end", res.gf, [ge])
    else:
        env.claim("shape of sens", np.shape(res.sens) == (np_,))
        eq("sensitivity of the integral", res.sens, Gs)
        eq("integral", res.G, [Gx])
    # tolerances
    if kind == "fwd":
        forward_tol(env, calls[0], y0, S0, p, at, ny, np_)
    else:
        adjoint_tol(env, case, calls, at, aa, aq, ny, np_)
    jacobians(env, case, calls, P, p, y0, S0)


def aug(P, t, z, p):
    ny, np_ = P.ny, P.np
    p = list(p)
    y = z[:ny]
    S = [[z[ny + i*np_ + j] for j in range(np_)] for i in range(ny)]
    J, D = P.jac(t, y, p), P.dfdp(t, y, p)
    gy, gp = P.dgdy(t, y, p), P.dgdp(t, y, p)
    out = list(P.f(t, y, p))
    for i in range(ny):
        for j in range(np_):
            out.append(sum(J[i][k]*S[k][j] for k in range(ny)) + D[i][j])
    out.append(P.g(t, y, p))
    for j in range(np_):
        out.append(sum(gy[i]*S[i][j] for i in range(ny)) + gp[j])
    return out


def layout(c, vals):
    """positions of the given initial values in the problem that is solved"""
    v = list(np.asarray(c["y0"]))
    out = []
    for a in vals:
        hit = [i for i, b in enumerate(v)
               if (is_sym(b) and is_sym(a) and b.key() == a.key())
               or (not is_sym(a) and not is_sym(b) and a == b)]
        out.append(hit[0] if len(hit) == 1 else None)
    return out


def tolvec(c, n):
    a = c["kw"].get("atol")
    a = list(np.ravel(np.asarray(a, dtype=object)))
    return a*n if len(a) == 1 else a


def forward_tol(env, c, y0, S0, p, at, ny, np_):
    at = at if isinstance(at, list) else [at]*ny
    tv = tolvec(c, ny*(1 + np_))
    env.claim("atol has one value per component", len(tv) == ny*(1 + np_))
    if len(tv) != ny*(1 + np_):
        return
    iy = layout(c, list(y0))
    iS = layout(c, [S0[i, j] for i in range(ny) for j in range(np_)])
    if None in iy or None in iS:
        return
    dev = [tv[iy[i]]*1e6 - at[i]*1e6 for i in range(ny)]
    for i in range(ny):
        for j in range(np_):
            q = p[j]
            v = tv[iS[i*np_ + j]]
            if not is_sym(q) and q == 0:
                dev.append(1e6*v - 1e6*at[i])
            else:
                dev.append(1e6*v*abs(q) - 1e6*at[i])
    env.zero("absolute tolerances", dev, 1e-9)


def adjoint_tol(env, case, calls, at, aa, aq, ny, np_):
    c = calls[-1]
    n = ny + np_ + (case["kind"] == "int")
    tv = tolvec(c, n)
    env.claim("atol has one value per component (backward)", len(tv) == n)
    if len(tv) == n:
        want = (list(aa) if isinstance(aa, list) else [aa]*ny) + \
            [aq]*(n - ny)
        env.claim("absolute tolerances of the backward integration",
                  sorted(float(v) for v in tv) == sorted(want))
    if len(calls) > 1:
        w = at if isinstance(at, list) else [at]*ny
        env.claim("absolute tolerance of the forward integration",
                  [float(v) for v in tolvec(calls[0], ny)] == w)
        env.claim("dense output of the forward integration",
                  bool(calls[0]["dense"]))


def jacobians(env, case, calls, P, p, y0, S0):
    """Jacobians that are passed on are the derivatives of the functions"""
    if not env.sym:
        return jac_float(env, case, calls)
    ny, np_ = case["ny"], case["np"]
    for i, c in enumerate(calls):
        n = len(np.asarray(c["y0"]))
        z = env.arr([env.eng.real(f"z{i}_{k}", -2, 2) for k in range(n)])
        t = env.eng.real(f"tz{i}", -2, 2)
        # within the interval
        J, sp = c["kw"].get("jac"), c["kw"].get("jac_sparsity")
        if J is None and sp is None:
            continue
        f = np.asarray(c["fun"](t, z.view(shim.SArr)))
        ex = [[diff(f[a], z[b]) for b in range(n)] for a in range(n)]
        if sp is not None:
            sp = np.asarray(sp.toarray() if hasattr(sp, "toarray") else sp)
            env.claim(f"sparsity pattern, integration {i}",
                      all(bool(sp[a, b] != 0) for a in range(n)
                          for b in range(n) if ex[a][b].p))
        if J is not None:
            Jv = J(t, z.view(shim.SArr)) if callable(J) else J
            Jv = np.asarray(Jv)
            if case["x"] == "jac":
                iy = layout(c, list(y0))
                iS = layout(c, [S0[a, b] for a in range(ny)
                                for b in range(np_)])
                if None in iy or None in iS:
                    continue
                blocks = [iy] + [[iS[a*np_ + b] for a in range(ny)]
                                 for b in range(np_)]
                dev = [Jv[r, s] - ex[r][s] for bl in blocks for r in bl
                       for s in bl]
            else:
                dev = [Jv[a, b] - ex[a][b] for a in range(n)
                       for b in range(n)]
            env.zero(f"Jacobian, integration {i}", dev, 1e-9)


def jac_float(env, case, calls):
    ny, np_ = case["ny"], case["np"]
    for i, c in enumerate(calls):
        n = len(np.asarray(c["y0"]))
        J, sp = c["kw"].get("jac"), c["kw"].get("jac_sparsity")
        if J is None and sp is None:
            continue
        z = np.array([env.real(f"z{i}_{k}", -2, 2) for k in range(n)])
        t = float(c["t_span"][0])
        ex = np.empty((n, n))
        for b in range(n):
            e = np.zeros(n)
            e[b] = 1e-5
            ex[:, b] = (np.asarray(c["fun"](t, z + e), float)
                        - np.asarray(c["fun"](t, z - e), float))/2e-5
        if sp is not None:
            sp = np.asarray(sp.toarray() if hasattr(sp, "toarray") else sp)
            env.claim(f"sparsity pattern, integration {i}",
                      bool(np.all((sp != 0) | (np.abs(ex) < 1e-6))))
        if J is not None:
            Jv = np.asarray(J(t, z) if callable(J) else J, float)
            dev = Jv - ex
            if case["x"] == "jac":
                v = np.zeros((n, n), bool)
                for b in range(1 + np_):
                    v[b*ny:(b + 1)*ny, b*ny:(b + 1)*ny] = True
                dev = dev[v]
            env.zero(f"Jacobian, integration {i}", list(np.ravel(dev)), 1e-4)
