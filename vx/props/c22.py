"""C22: one or two steps of the implicit methods on a scalar nonlinear problem.
The values of the right-hand side are arbitrary (symbolic), and so are the
sizes of the Newton corrections in one of the stages (the norm is replaced by a
stub that returns symbolic numbers and keeps its argument). Every way through
the Newton iteration is followed; z3 decides whether a stage that is used met
the convergence criterion, whether the corrections, iterates and the result
are those of the modified Newton iteration with the current matrix, and what
is done with a stage that did not converge."""
import numpy as np

from .. import methods as M
from .. import shim
from ..env import sand, sor
from ..sr import is_sym, snot
from .c13 import Generic, sample

ID = "C22"
BOUNDS = ("one equation, mass matrix 1 or 2, |f| <= 4, 6 <= y0 <= 8, first "
          "step and Jacobian values numbers; corrections of any size in one "
          "stage (each in turn), prescribed fast or slow convergence in the "
          "others; first and second step; non-finite function values in any "
          "iteration; trials up to the first retry")
OUTSIDE = ("convergence of more than one stage at a time with arbitrary rates,"
           " systems (C13 has linear systems), rounding")
OPTS = dict(max_paths=200, budget=150, branch_ms=1500, claim_ms=30000)
NAMES = ("HS2I", "HS2Ia", "KC3I", "KC4I", "KC4Ia", "Kv3I")


def cases(tier, seed):
    out = []
    big = tier == "thorough"
    for m in NAMES:
        C = M.cls(m)
        S = len(C.C)
        for s in range(1, S):
            if s + 1 < S and C.C[s] == C.C[s + 1]:
                continue
            kw = dict(m=m, free=s, mass=None, nf=None, seq="")
            for st in (1, 2):
                for sc in ("fast", "slow"):
                    for en in ((0.5, 0.9, 0.05) if st == 2 else (0.5,)):
                        d = 1 if (s + st) % 2 else -1
                        less = not big and (st, sc, en) not in (
                            (1, "fast", 0.5), (2, "slow", 0.9)) \
                            and (s not in (1, S - 1) or sc == "slow"
                                 or en == 0.9)
                        if not less:
                            out.append(dict(
                                kw, name=f"{m}-s{s}-step{st}-{sc}-{en}",
                                step=st, sc=sc, en=en, dir=d, mode="conv"))
                        for i, q in enumerate(SEQ):
                            if not big and (i + s + st) % 3:
                                continue
                            out.append(dict(
                                kw, name=f"{m}-s{s}-step{st}-{sc}-{en}-{q}",
                                step=st, sc=sc, en=en, seq=q, mode="it",
                                mass=2.0 if (s + i) % 2 else None, dir=d))
            for nf in (0, 1, 2):
                out.append(dict(kw, name=f"{m}-s{s}-nonfinite{nf}",
                                step=1 + nf % 2, sc="fast", en=0.5, nf=nf,
                                mode="conv", dir=1))
    return out


# sizes of the corrections of the free stage, relative to kappa
SEQ = {"two": [0.5, 0.01, 0, 0, 0, 0],
       "three": [10, 3, 0.9, 0, 0, 0],
       "five": [30, 12, 4.8, 1.92, 0.75, 0],
       "diverge": [1, 2, 4, 8, 16, 32],
       "stall": [30, 6, 5, 4, 3, 2.5],
       "late": [30, 1, 0.5, 3, 6, 9]}


class Stop(Exception):
    pass


class Watch:
    """right-hand side, Jacobian and norm with a common history"""

    def __init__(self, env, case, C):
        self.env, self.case, self.C = env, case, C
        self.ev = []                    # ("f", t, y, f) ("J", t, y, J) ..
        self.active = False
        self.step = 0
        self.trial = 0
        self.stage = 1
        self.it = 0
        self.free = False
        self.nj = 0
        self.ne = 0
        self.freed = False              # the free stage was met before
        self.over = False               # after the first retry

    def rhs(self, t, y):
        env = self.env
        if self.over:
            raise Stop
        i = sum(e[0] == "f" for e in self.ev)
        if self.case["mode"] == "it":
            v = env.real(f"f{i}", -4, 4)
        else:
            v = [1.0, -0.5, 2.25, 0.75, -1.375][i % 5] + 0.01*i
        if self.active:
            self.advance(t)
            if self.free and self.case["nf"] is not None and \
                    self.it == self.case["nf"]:
                v = float("nan")
            self.it += 1
        self.ev.append(("f", t, y[0], v))
        if self.over:
            raise Stop
        return env.arr([v])

    def advance(self, t):
        """which stage is this evaluation for?"""
        n = 3 if self.case["sc"] == "slow" else 2
        if self.it == 0:
            pass
        elif self.free:
            # its end shows in the time of the next stage
            last = [e for e in self.ev if e[0] == "f"][-1]
            if not same(t, last[1]):
                c, i = self.C.C, self.stage
                dt = (last[1] - self.t)/c[i]
                if i + 1 < len(c) and same(t, self.t + c[i + 1]*dt):
                    self.free = False
                    self.stage += 1
                    self.it = 0
                else:
                    self.restart()
                    self.over = True    # shorter step
        elif self.it == n:
            self.stage += 1
            self.it = 0
        if self.it == 0:
            self.free = (not self.freed and self.step == self.case["step"]
                         and self.stage == self.case["free"])
            if self.free:
                self.freed = True
            self.ev.append(("stage", self.stage, self.free, None))

    def jac(self, t, y):
        self.ev.append(("J", t, y[0], None))
        v = [-1.5, -0.75, -2.25, -1.25][self.nj % 4]
        self.nj += 1
        if self.active and self.free:
            self.restart()
        self.ev[-1] = ("J", t, y[0], v)
        return np.array([[v]])

    def restart(self):
        self.stage, self.it, self.free = 1, 0, False
        self.trial += 1

    def norm(self, x):
        env, c = self.env, self.case
        if not self.active:
            return 1.0
        if self.ev[-1][0] != "f":
            # the error of the step
            self.ev.append(("err", x, None, c["en"]))
            return c["en"]
        kappa = self.C.kappa
        if self.free:
            if c["mode"] == "conv":
                e = env.real(f"e{self.it - 1}", 0, 100)
            else:
                e = kappa*SEQ[c["seq"]][self.it - 1]
        elif c["sc"] == "slow":
            e = [10*kappa, 3*kappa, 0.9*kappa, 0, 0, 0][self.it - 1]
        else:
            e = [0.5*kappa, 0.005*kappa, 0, 0, 0, 0][self.it - 1]
        self.ev.append(("n", x, None, e))
        return e


def same(a, b):
    d = a - b
    if is_sym(d):
        return abs(sample(d)) < 1e-12
    return abs(d) < 1e-12


def run(env, case):
    C = M.cls(case["m"])
    env = Generic(env)
    W = Watch(env, case, C)
    with shim.stubbed({"norm": lambda: W.norm}):
        try:
            body(env, case, C, W)
        except Stop:
            retry(env, case, C, W)


H0 = 0.25


def body(env, case, C, W):
    t0 = 0.5
    d = case["dir"]
    if case["mode"] == "it":
        y0 = env.reals("y", 1, 6, 8)
    else:
        y0 = np.array([6.75])
    kw = {}
    if case["mass"]:
        kw["M"] = np.array([[case["mass"]]])
    W.mass = case["mass"] or 1.0
    s = C(W.rhs, t0, y0, t0 + 100*d, first_step=H0, jac=W.jac, rtol=1e-3,
          atol=1e-2, **kw)
    W.solver = s
    W.tiny = float(s.tiny_err)
    W.J = [e[3] for e in W.ev if e[0] == "J"][-1]
    W.yp = s.yp[0]
    W.lu = []
    for step in range(1, case["step"] + 1):
        W.step = step
        W.restart()
        W.trial = 0
        W.start = len(W.ev)
        W.t, W.y = s.t, s.y[0]
        W.h0 = s.h_abs
        W.active = True
        msg = s.step()
        W.active = False
        if s.status == "failed":
            env.claim(f"step {step} does not fail", False)
            return
        trials = split(W)
        h = s.t - W.t
        for tr in trials[:-1]:
            failed_trial(env, case, C, W, tr)
            again(env, W, tr, h, trials)
        accepted(env, case, C, W, trials[-1], s, h, step)
        W.yp = s.yp[0]
        W.yp_known = True


def split(W):
    """events of the trials of this step: [(J before it, [stages])]"""
    out = [dict(J=None, stages=[])]
    for e in W.ev[W.start:]:
        if e[0] == "J":
            if out[-1]["stages"]:
                out.append(dict(J=None, stages=[]))
            out[-1]["J"] = e
        elif e[0] == "stage":
            if out[-1]["stages"] and e[1] == 1:
                out.append(dict(J=None, stages=[]))
            out[-1]["stages"].append(dict(free=e[2], f=[], n=[]))
        elif e[0] == "f":
            out[-1]["stages"][-1]["f"].append(e)
        elif e[0] == "n":
            out[-1]["stages"][-1]["n"].append(e)
    return out


def criterion(C, W, ns):
    """the criterion after these corrections: [(lhs, rhs), ...] any of them
    lhs < rhs; cleared of the quotients. The rate is the largest ratio of
    successive corrections, the first one or after a correction > kappa."""
    k = C.kappa
    e = [n[3] for n in ns]
    alts = []
    if len(e) >= 2:
        # candidates for the rate
        rates = [(e[i], e[i - 1], True if i == 1 else e[i - 1] > k)
                 for i in range(1, len(e))]
        conds = []
        for a, b, on in rates:
            # e_last*a/b < k*(1 - a/b)
            c = e[-1]*a < k*(b - a)
            conds.append(c if on is True else sor(c, snot(on)))
        alts.append(sand(*conds))
    alts.append(e[-1] <= W.tiny)
    return sor(*alts)


def accepted(env, case, C, W, tr, s, h, step):
    env.claim(f"all stages are solved in step {step}",
              len(tr["stages"]) == len(C.C) - 1)
    if len(tr["stages"]) != len(C.C) - 1:
        return
    J = tr["J"][3] if tr["J"] else None
    if J is not None:
        env.zero("Jacobian is evaluated at the start of the step",
                 [tr["J"][1] - W.t, tr["J"][2] - W.y], 1e-12)
    d = C.d
    old = W.lu[-1] if W.lu else None
    if J is not None:
        W.J = J
        ms = [(h, W.J)]
    elif old is None:
        ms = [(h, W.J)]
    else:
        ms = [old, (h, W.J)]
    K = [W.yp]
    pick = None
    for i, st in enumerate(tr["stages"], start=1):
        fs, ns = st["f"], st["n"]
        for f in fs:
            env.zero(f"time of stage {i}", [f[1] - (W.t + C.C[i]*h)], 1e-12)
            env.claim("function values that are used are finite",
                      is_sym(f[3]) or bool(np.isfinite(f[3])))
            if not is_sym(f[3]) and not np.isfinite(f[3]):
                return
        if len(fs) != len(ns):
            env.claim("every correction is judged", False)
            return
        if st["free"]:
            env.claim(f"stage {i} met the criterion",
                      criterion(C, W, ns))
        psi = W.y + h*sum(C.A[i, j]*K[j] for j in range(i))
        z = (fs[0][2] - psi)/d
        for k, (f, n) in enumerate(zip(fs, ns)):
            res = h*f[3] - W.mass*z
            cand = [res/(W.mass - q*d*j) for q, j in ms]
            if pick is None:
                if len(ms) == 1:
                    pick = 0
                else:
                    if k + 1 == len(fs):
                        z = None            # nothing shows the matrix
                        break
                    nxt = (fs[k + 1][2] - f[2])/d
                    pick = min(range(len(ms)), key=lambda a: size(
                        cand[a] - nxt))
                W.used = ms[pick]
            up = cand[pick]
            # the size that is judged
            a, b = W.y, f[2]
            lo, hi = (a, b)
            wts = [1e-2 + 1e-3*a, 1e-2 + 1e-3*b]
            x = n[1][0]
            weight(env, f"correction {k} of stage {i}", x, up, wts)
            z = z + up
            if k + 1 < len(fs):
                env.zero(f"iterate {k + 1} of stage {i}",
                         [fs[k + 1][2] - psi - d*z], 1e-9)
        if z is None:
            return
        K.append(z/h)
    env.zero(f"result of step {step}", [s.y[0] - psi - d*z], 1e-9)
    env.zero(f"slope for the next step {step}", [(s.yp[0] - K[-1])], 1e-8)
    W.lu.append(W.used)


def weight(env, label, x, up, wts):
    """x is up divided by a weight between the two given ones"""
    a, b = wts
    if is_sym(x) and env.case["mode"] == "it":
        return                          # see the cases with numbers
    p, q = up - x*a, up - x*b
    env.claim(label + " is weighted by the tolerance",
              p*q <= 1e-9, p*q <= 1e-8)


def size(v):
    return abs(sample(v)) if is_sym(v) else abs(float(v))


def failed_trial(env, case, C, W, tr):
    st = tr["stages"][-1]
    if not st["free"]:
        env.claim("only the stage that does not converge is retried", False)
        return
    bad = [f for f in st["f"] if not is_sym(f[3]) and not np.isfinite(f[3])]
    if not bad:
        env.claim("a stage that met the criterion is not retried",
                  snot(criterion(C, W, st["n"])))


def again(env, W, tr, h, trials):
    i = trials.index(tr)
    nx = trials[i + 1]
    f0, f1 = tr["stages"][0]["f"][0], nx["stages"][0]["f"][0]
    if nx["J"] is not None:
        env.zero("new Jacobian, same step", [f0[1] - f1[1]], 1e-12)
        env.zero("Jacobian is evaluated at the start of the step",
                 [nx["J"][1] - W.t, nx["J"][2] - W.y], 1e-12)
    else:
        env.claim("a shorter step is taken with a current Jacobian only",
                  W.step == 1 or any(t["J"] is not None
                                     for t in trials[:i + 1]))
        dh0, dh1 = f0[1] - W.t, f1[1] - W.t
        if W.case["dir"] < 0:
            dh0, dh1 = -dh0, -dh1
        env.claim("the retry is with a shorter step",
                  sand(dh1 <= 0.99*dh0, dh1 >= 0.01*dh0))


def retry(env, case, C, W):
    trials = split(W)
    for tr in trials[:-1]:
        failed_trial(env, case, C, W, tr)
        again(env, W, tr, None, trials)
