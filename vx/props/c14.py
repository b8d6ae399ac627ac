"""C14: the library takes one step of length h on the linear test problem
y' = lambda*y with an array Jacobian, where h*lambda runs over the imaginary
axis (as a real 2x2 system), the negative real axis, or far out on either.
The solution is a rational function of the symbolic parameter with one
denominator; it is reduced with the defining identity of the quotient, and z3
decides that its size does not exceed the limit for every parameter. By the
maximum modulus principle (poles at 1/d > 0 only) the imaginary axis covers
the closed left half plane."""
import numpy as np

from .. import methods as M
from .. import shim
from ..oracle import build
from ..sr import reduce_inv

ID = "C14"
BOUNDS = ("all z = h*lambda on the imaginary axis with |z| <= 1e12 and on the "
          "negative real axis with |z| <= 1e12, in the stiff limit 1e3 <= |z| "
          "<= 1e9; all h in [1/64, 1], both directions, all y0 (linearity); "
          "first and second step; tolerance 1e-9 on |y|**2")
OUTSIDE = ("the interior of the left half plane is covered by the maximum "
           "modulus principle (the poles, 1/d > 0, are read from the step "
           "taken), not by a query of its own; rounding")
OPTS = dict(max_paths=16, budget=120, branch_ms=2000, claim_ms=60000)

# documented as L-stable
LSTABLE = ("HS2I", "KC3I", "KC4I", "KC4Ia", "Kv3I")


def cases(tier, seed):
    out = []
    for name in M.ESD:
        for d in (1, -1):
            for mode in ("imag", "real", "imag-far", "real-far"):
                if "far" in mode and name not in LSTABLE:
                    continue
                for k in (1, 2):
                    out.append(dict(name=f"{name}{d:+d}-{mode}-{k}", m=name,
                                    dir=d, mode=mode, steps=k))
    return out


def run(env, case):
    with shim.stubbed({"norm": lambda: (lambda x: 0.3)}):
        body(env, case)


def body(env, case):
    name, d, mode = case["m"], case["dir"], case["mode"]
    h = env.real("h", 1/64, 1, s=0.5)
    far = "far" in mode
    w = env.real("w", 1e3 if far else 0, 1e9 if far else 1e12, s=2e4)
    if mode.startswith("imag"):
        J = env.mat([[0.0, -w/h*d], [w/h*d, 0.0]])
        y0 = env.arr([1.0, 0.0])
    else:
        J = env.mat([[-w/h*d]])
        y0 = env.arr([1.0])
    s = build(env, name, lambda t, y: J @ y, 0.0, y0, 1000.0*d, first_step=h,
              max_step=h, jac=J, rtol=1e-3, atol=1.0)
    for k in range(case["steps"]):
        s.step()
    y = [reduce_inv(v) for v in s.y]
    q = reduce_inv(sum(v*v for v in y))
    if far:
        lim = 50.0**2/(w*w)
        env.claim("vanishes in the stiff limit", q <= lim, q <= 4*lim)
    else:
        env.claim("no growth", q <= 1 + 1e-9, q <= 1 + 1e-7)
