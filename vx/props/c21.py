"""C21: the library code runs on an arbitrary right-hand side function that
counts its calls, along histories of acceptance and rejection prescribed by
symbolic error norms. After the constructor, every step, every request for
dense output and every stiffness test the reported number of evaluations is
compared with the calls, and the rejected-step counter with the rejected
trials (for the explicit Runge-Kutta methods: the calls on the tangent at the
start of the step, one for each trial)."""
import numpy as np

from .. import methods as M, shim
from ..oracle import Oracle, dims
from ..rel import Norms, Run, pattern, values, y0_of
from .c03 import TABLE

ID = "C21"
BOUNDS = ("|f| <= 10, 1/2 <= y0 <= 2, |t0| <= 4, first step in [1/64, 1/2] or "
          "chosen by the solver, error norms in [1/64, 64]; four steps (SWAG "
          "six, thorough: seven and ten) along sampled histories; dense "
          "output after every second step; stiffness tests after every step, "
          "every second step, and off; one run to t_bound")
OUTSIDE = ("histories other than the sampled ones; evaluations for finite "
           "difference Jacobians, spectral radius estimates and the "
           "constructors of the implicit methods (not counted, a documented "
           "convention); the evaluations by which the constructor of the "
           "Nystrom methods checks the problem; implicit methods with zero "
           "Jacobian array; vectorised functions")
OPTS = dict(max_paths=4, budget=60, branch_ms=500, claim_ms=10000)


def cases(tier, seed):
    out = []
    big = tier == "thorough"
    for name, kw, _ in TABLE:
        tag = "".join(f"-{v}" for v in kw.values())
        stiff = M.kind(name) in ("erk", "rkn") and name != "CKdisc"
        for i in range(12 if big else 5):
            nst = (10 if name == "SWAG" else 7) if big else \
                6 if name == "SWAG" else 4
            out.append(dict(
                name=f"{name}{tag}-{i}", m=name, kw=kw, pat=i, steps=nst,
                dir=-1 if i % 2 else 1, first=i != 2 and i != 7, concolic=True,
                end=i == 4, stiff=(0, 1, 2)[i % 3] if stiff else None))
    return out


def run(env, case):
    p = pattern(case["pat"])
    if not case["first"]:
        p = [0.3]
    norms = Norms(env, p)
    with shim.stubbed({"norm": lambda: norms}):
        body(env, case, norms)


def nfs():
    import extensisq
    return int(extensisq.NFS[()])


def body(env, case, norms):
    name, d = case["m"], case["dir"]
    kd = M.kind(name)
    n, y0 = y0_of(env, name)
    t0 = env.real("t0", -4, 4, s=0.75)
    kw = dict(case["kw"])
    if case["first"]:
        kw["first_step"] = env.real("h", 1/64, 0.5, s=0.25)
    if case["stiff"] is not None:
        kw["nfev_stiff_detect"] = (
            0, 1, 2*M.cls(name).n_stages)[case["stiff"]]
    tb = t0 + d*(1.5 if case["end"] else 4000.0)
    f = Oracle(env, n, -10, 10, kind=kd, indep_v=name == "MR6NN")
    with huge_differences(env, f):
        observe(env, case, norms, f, t0, y0, tb, kw)


class huge_differences:
    """the differences in the stiffness test are so large that it stops"""

    def __init__(self, env, f):
        import extensisq.common as cm
        self.cm, self.real = cm, getattr(cm, "stiff_a", None)

        def stiff_a(*a, **k):
            f.fresh = lambda k, m: env.arr([1e9]*m)
            try:
                return self.real(*a, **k)
            finally:
                del f.fresh
        self.hook = stiff_a

    def __enter__(self):
        if self.real is not None:
            self.cm.stiff_a = self.hook

    def __exit__(self, *a):
        if self.real is not None:
            self.cm.stiff_a = self.real


def observe(env, case, norms, f, t0, y0, tb, kw):
    name, kd = case["m"], M.kind(case["m"])
    r = Run(env, norms, name, f, t0, y0, tb, rtol=1e-3, atol=1.0, **kw)
    s = r.s
    made = len(f.calls)
    if kd in ("erk", "other"):
        env.claim("evaluations of the constructor", s.nfev == made)
    env.claim("no rejections after the constructor", nfs() == 0)
    base = s.nfev - made
    rejected = 0
    for k in range(case["steps"]):
        t, y = s.t, s.y
        c0, a0, nf0 = len(f.calls), len(r.args), s.nfev
        r.step()
        env.claim(f"evaluations of step {k}", s.nfev - base == len(f.calls))
        calls = f.calls[c0:]
        if kd == "erk":
            # trials: calls on the tangent
            f0 = f.find(t, y)
            trials = set()
            if f0 is None:
                env.abort("no slope at the start of the step")
            for tc, yc, _ in calls:
                if near(env, tc, t, 1e-9):
                    continue
                if all(near(env, a, b + (tc - t)*g, 1e-4*(tc - t)**2)
                       for a, b, g in zip(yc, y, f0)):
                    trials.add(f.key(tc, yc))
            rej = len(trials) - (s.status != "failed")
        elif name == "SWAG":
            rej = len(calls) - (2 if s.status != "failed" else 0)
        elif kd == "esdirk":
            S = M.cls(name).n_stages - 1
            env.claim(f"complete trials in step {k}", len(calls) % S == 0)
            rej = len(calls)//S - (s.status != "failed")
        else:
            es = norms.vals[a0:len(r.args)]
            if name == "SSV2stab" and k == 0:
                es = es[-1:] if len(es) < 2 else es
            rej = sum(1 for e in es if env.decide(e >= 1))
        rejected += rej
        env.claim(f"rejections in step {k}", nfs() == rejected)
        if s.status == "failed":
            break
        if k % 2:
            o = r.dense()
            values(o, t, s.t - t)
            env.claim(f"evaluations for dense output {k}",
                      s.nfev - base == len(f.calls))
            o = r.dense()
            env.claim(f"evaluations for repeated dense output {k}",
                      s.nfev - base == len(f.calls))
            env.claim(f"dense output {k} rejects nothing", nfs() == rejected)
        if s.status != "running":
            break


def near(env, a, b, tol):
    return env.decide(a - b <= tol) and env.decide(b - a <= tol)
