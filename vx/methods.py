"""The solver classes of the library and their documented orders."""
import numpy as np

import extensisq as ex

# documented order, documented order of the embedded method
ERK = {"Me4": (4, 3), "Ts5": (5, 4), "BS5": (5, 4), "CK5": (5, 4),
       "CKdisc": (5, 4), "Pr7": (7, 5), "Pr8": (8, 6), "Pr9": (9, 7),
       "CFMR7osc": (7, 5)}
RKN = {"Fi4N": (4, 3), "Fi5N": (5, 4), "Mu5Nmb": (5, 4), "MR6NN": (6, 4)}
ESD = {"HS2I": (2, 3), "HS2Ia": (2, 3), "KC3I": (3, 2), "KC4I": (4, 3),
       "KC4Ia": (4, 3), "Kv3I": (3, 2)}
OTHER = ("SWAG", "SSV2stab")

# documented order of the dense output, by class and options
DENSE = [
    ("Me4", {}, 3), ("Ts5", {}, 4), ("CK5", {}, 4), ("CKdisc", {}, 4),
    ("BS5", {}, 5), ("BS5", {"interpolant": "low"}, 5),
    ("BS5", {"interpolant": "best"}, 5),
    ("BS5", {"interpolant": "free"}, 4),
    ("Pr7", {}, 6), ("Pr8", {}, 7), ("Pr9", {}, 8), ("CFMR7osc", {}, 5),
]


def cls(name):
    return getattr(ex, name)


def kind(name):
    return ("erk" if name in ERK else "rkn" if name in RKN else
            "esdirk" if name in ESD else "other")


def order(name):
    for d in (ERK, RKN, ESD):
        if name in d:
            return d[name]
    return {"SSV2stab": (2, 2)}[name]


NAMES = list(ERK) + list(RKN) + list(ESD) + list(OTHER)


def esdirk_zero_predictor(C):
    """the same method with a zero stage predictor (the predictor only
    starts the iteration; with zeros the stage argument seen by the
    right-hand side is psi itself)"""
    return type(C.__name__, (C,), {"Az": np.zeros_like(C.Az)})


def tuples_of(total, pool):
    """multisets of pool items [(deg, item)] with degrees summing to total"""
    out = []

    def rec(rest, start, acc):
        if rest == 0:
            out.append(tuple(acc))
            return
        for i in range(start, len(pool)):
            d, it = pool[i]
            if d <= rest:
                rec(rest - d, i, acc + [it])
    rec(total, 0, [])
    return out


def trees(p):
    """rooted trees up to p nodes: list of (nodes, children indices, gamma)"""
    out = []
    for n in range(1, p + 1):
        pool = [(t[0], i) for i, t in enumerate(out)]
        for ch in tuples_of(n - 1, pool):
            g = n
            for c in ch:
                g *= out[c][2]
            out.append((n, ch, g))
    return out


def nystrom_trees(p, velocity=True):
    """right-hand sides q'' = a*prod(factors); factors ("q", i), ("v", i),
    ("w",): q = w*t, ("t",). list of (degree m of q'', factors, coefficient c)
    with q'' = c*t**m*prod(a)"""
    out = []
    for m in range(0, p):
        pool = [(1, ("w",)), (1, ("t",))]
        for i, (mi, _, _) in enumerate(out):
            if mi + 2 <= m:
                pool.append((mi + 2, ("q", i)))
            if velocity and mi + 1 <= m:
                pool.append((mi + 1, ("v", i)))
        for fs in tuples_of(m, pool):
            if fs.count(("t",)) and fs.count(("w",)):
                continue
            c = 1.0
            from fractions import Fraction
            c = Fraction(1)
            for f in fs:
                if f[0] == "q":
                    mi, _, ci = out[f[1]]
                    c *= ci/((mi + 1)*(mi + 2))
                elif f[0] == "v":
                    mi, _, ci = out[f[1]]
                    c *= ci/(mi + 1)
            out.append((m, fs, c))
    return out
