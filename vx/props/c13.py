"""C13: linear problems M y' = J y + g(t) are manufactured: the stage
derivatives K_i, J, M, y0 and h are symbolic, and g(t_i) is chosen such that
the K_i solve the stage equations. The library takes steps (array, sparse,
callable or approximated Jacobian); z3 decides that the result is
y + h*sum(b_i*K_i). For a singular M, g is arbitrary and z3 decides that the
algebraic equation holds at the end of the step and that the initial slope is
consistent."""
import random

import numpy as np

from .. import methods as M
from .. import shim, sr
from ..oracle import skey
from ..sr import is_sym, reduce_inv

ID = "C13"
BOUNDS = ("one or two components, entries of J and M up to 4 in size, |y0| "
          "<= 2, |K| <= 4, h in [1/64, 1/2], t0 in [-4, 4], both directions, "
          "one and two steps; M none, vector, diagonal or full matrix (main entries in [1, 4] in size, others 1/16 to "
          "1/2), dense or sparse, regular or singular with one algebraic "
          "equation; Jacobian as dense or sparse array, callable, evaluated "
          "each step, or approximated by differences; fixed J where M "
          "is full and there are two steps or a callable Jacobian")
OUTSIDE = ("rounding; larger systems; near-singular M; inconsistent initial "
           "conditions")
OPTS = dict(max_paths=24, budget=120, branch_ms=1000, claim_ms=20000)


def cases(tier, seed):
    out = []
    big = tier == "thorough"
    for name in M.ESD:
        for d in (1, -1):
            for jm in ("array", "sparse", "call", "callsp", "each", "eachsp",
                       "num"):
                for mm in ("none", "vec", "diag", "full", "spfull"):
                    for k in (1, 2):
                        if d < 0 and not big and (k == 1) == (mm == "vec"):
                            continue
                        if name == "Kv3I" and k == 2 and not big and \
                                mm != "vec":
                            continue
                        out.append(dict(
                            name=f"{name}{d:+d}-{jm}-{mm}-{k}", m=name, dir=d,
                            jac=jm, mass=mm, steps=k, n=2,
                            concolic=jm == "num"))
            for jm in ("array", "sparse", "call"):
                for mm in ("low", "upp", "sub"):
                    if big or d > 0 or jm == "array":
                        out.append(dict(name=f"{name}{d:+d}-{jm}-{mm}", m=name,
                                        dir=d, jac=jm, mass=mm, steps=1, n=2))
            for jm in ("array", "sparse", "call", "each"):
                for mm in ("alg", "alg2", "algfull"):
                    out.append(dict(name=f"{name}{d:+d}-{jm}-{mm}", m=name,
                                    dir=d, jac=jm, mass=mm, steps=1, n=2))
    return out


TRI = ("low", "upp", "sub")


class Zero:
    """some norm: zero for zero, else a small constant"""

    def __init__(self, tol):
        self.tol = tol

    def __call__(self, x):
        xs = [v for v in np.ravel(x) if not is_sym(v) or v.p]
        if any(abs(sample(v)) > max(self.tol, 1e-6*is_sym(v)) for v in xs):
            return 0.01                   # not identically zero
        for v in xs:
            v = reduce_inv(v)
            if v.p if is_sym(v) else abs(v) > self.tol:
                return 0.01
        return 0.0


def sample(v):
    """value at some point"""
    if not is_sym(v):
        return v
    cache = {}
    for a in sr.STORE.atoms:
        if a.kind == "in":
            r = random.Random(a.id)
            lo, hi = max(a.lo, -10), min(a.hi, 10)
            cache[a.id] = lo + (hi - lo)*r.uniform(0.1, 0.9)
    try:
        return sr.evalf(v, {}, cache)
    except ArithmeticError:
        return 0.0


def run(env, case):
    with shim.stubbed({"norm": lambda: Zero(1e-5 if case["jac"] == "num" else 1e-9)}):
        body(env, case)


def solve(env, A, b):
    if env.sym:
        return shim.linsolve(A, b)
    return np.linalg.solve(np.array(A, float), np.array(b, float))


def sparse(env, A):
    import scipy.sparse
    if env.sym:
        return shim.s_csc_array(np.asarray(A, object))
    return scipy.sparse.csc_array(A)


class Generic:
    """inputs with suggested values in general position"""

    def __init__(self, env):
        self.env = env
        self.r = random.Random(5)

    def __getattr__(self, n):
        return getattr(self.env, n)

    def real(self, name, lo, hi):
        p = [lo + (hi - lo)*self.r.randint(3, 29)/32 for _ in range(3)]
        return self.env.real(name, lo, hi, s=p[0], pin=p)

    def reals(self, name, n, lo, hi):
        return self.arr([self.real(f"{name}{i}", lo, hi) for i in range(n)])


def body(env, case):
    env = Generic(env)
    name, d, n = case["m"], case["dir"], case["n"]
    C = M.cls(name)
    A, b, c = C.A, C.B, C.C
    S = len(c)
    h = env.real("h", 1/64, 0.5)
    t0 = env.real("t", -4, 4)
    y0 = env.reals("y", n, -2, 2)
    mm = case["mass"]
    jm = case["jac"]
    if (mm.startswith("alg") and len(set(c)) < S) or (
            mm.endswith("full") and mm[0] != "a" and
            (case["steps"] > 1 or jm not in ("array", "sparse"))) or \
            mm in TRI and jm == "call":
        # repeated stage times, or large expressions: fixed Jacobian
        J = np.array([[-1.5, 0.75], [1.25, 2.0]])
    else:
        J = env.mat([[env.real(f"J{i}{j}", -4, 4) for j in range(n)]
                     for i in range(n)])
    kw = {}
    I = np.eye(n)
    alg = mm.startswith("alg")
    if mm == "none":
        Mm = I
    elif mm in ("vec", "diag"):
        v = env.reals("m", n, 0.25, 4)
        kw["M"] = v
        Mm = env.mat([[v[i] if i == j else 0.0 for j in range(n)]
                      for i in range(n)])
        if mm == "diag":
            kw["M"] = Mm
    elif mm in TRI:
        v = env.reals("m", 2, 1, 4)
        w = env.real("w", 1/16, 0.5)
        Mm = kw["M"] = env.mat({"low": [[v[0], 0.0], [w, v[1]]],
                                "upp": [[v[0], -w], [0.0, v[1]]],
                                "sub": [[0.0, v[0]], [v[1], w]]}[mm])
    elif alg:
        m = env.real("m0", 0.25, 4) if len(set(c)) == S else 2.0
        if mm == "alg":
            kw["M"] = env.arr([m, 0.0])
            null = [0, 1]
            Mm = env.mat([[m, 0.0], [0.0, 0.0]])
        elif mm == "alg2":
            Mm = kw["M"] = env.mat([[0.0, 0.0], [0.0, -m]])
            null = [1, 0]
        else:
            Mm = kw["M"] = np.array([[1.0, 2.0], [-0.5, -1.0]])
            null = [0.5, 1.0]
    else:
        anti = d < 0
        sg = (-1)**len(name)
        Mm = env.mat([[env.real(f"M{i}{j}", 1, 4)*(sg if i else 1)
                       if (i == j) != anti else
                       env.real(f"M{i}{j}", 1/16, 0.5)*(-1 if j > i else 1)
                       for j in range(n)] for i in range(n)])
        kw["M"] = sparse(env, Mm) if mm == "spfull" else Mm
    if jm == "array":
        kw["jac"] = J
    elif jm == "sparse":
        kw["jac"] = sparse(env, J)
    elif jm in ("callsp", "eachsp"):
        kw["jac"] = lambda t, y: sparse(env, J)
    elif jm in ("call", "each"):
        kw["jac"] = lambda t, y: J.copy()
    if jm.startswith("each"):
        kw["jac_each_step"] = True
    table, near = {}, []
    ramp = env.reals("gd", n, -2, 2) if alg else None

    def g(t):
        if env.sym:
            k = skey(t)
            if k in table:
                return table[k]
        else:
            for k, v in table.items():
                if abs(k - t) < 1e-12:
                    return v
        if alg:
            return g0 + (t - t0)*ramp
        near.append(t)
        return np.zeros(n)

    def put(t, v):
        table[skey(t) if env.sym else float(t)] = v

    def f(t, y):
        if np.ndim(t):
            t = np.ravel(t)[0]
        if np.ndim(y) == 2:
            return np.stack([J @ y[:, i] + g(t) for i in range(y.shape[1])],
                            1)
        return J @ y + g(t)
    K0 = env.reals("k0", n, -4, 4)
    g0 = Mm @ K0 - J @ y0
    put(t0, g0)
    if alg:
        u = J.T @ np.array(null)
        # index one
        if len(set(c)) < S:
            pass                                  # fixed J
        elif mm == "alg":
            env.assume(J[1, 1]*J[1, 1] >= 0.01)
        elif mm == "alg2":
            env.assume(J[0, 0]*J[0, 0] >= 0.01)
        else:
            w = u @ np.array([2.0, -1.0])
            env.assume(w*w >= 0.04)
    s = C(f, t0, y0, t0 + d*1000, first_step=h, max_step=h, rtol=1e-3,
          atol=1.0, **kw)
    y, t, H = y0, t0, d*h
    if alg:
        K0 = s.yp
        r = reduce_inv(u @ K0 + np.array(null) @ ramp)
        env.zero("consistent initial slope (constraint)", [r], 1e-7)
        r = [reduce_inv(v) for v in Mm @ K0 - (J @ y0 + g0)]
        env.zero("consistent initial slope (equation)", r, 1e-7)
    for k in range(case["steps"]):
        K = [K0]
        for i in range(1, S):
            psi = y + H*sum(A[i, j]*K[j] for j in range(i))
            ti = t + c[i]*H
            rep = [j for j in range(1, i) if c[j] == c[i]]
            if rep:
                gi = g(ti)
                Ki = solve(env, Mm - H*C.d*J, J @ psi + gi)
                if env.sym:
                    Ki = env.arr([reduce_inv(v) for v in Ki])
            else:
                Ki = env.reals(f"k{k}_{i}", n, -4, 4)
                put(ti, Mm @ Ki - J @ (psi + H*C.d*Ki))
            K.append(Ki)
        near.clear()
        s.step()
        if s.status == "failed":
            env.claim("step succeeds", False)
            return
        ym = y + H*sum(b[j]*K[j] for j in range(S))
        env.zero(f"time of step {k}", [s.t - (t + H)], 1e-9)
        env.claim(f"right-hand side evaluated at the stage times of step {k}",
                  not near)
        env.zero(f"state of step {k}",
                 [reduce_inv(p - q) for p, q in zip(s.y, ym)], 1e-7)
        if alg:
            e = np.array(null) @ (J @ s.y + g(t + H))
            env.zero(f"constraint at the end of step {k}", [reduce_inv(e)],
                     1e-7)
        # (the last diagonal coefficient may differ by a rounding error)
        y, t, K0 = psi + H*C.d*K[-1], t + H, K[-1]
