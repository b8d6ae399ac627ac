"""Harness environments: the same harness body runs symbolically (SymEnv) and
on concrete doubles with the unpatched code (ConcEnv, the replay)."""
import math
import random
import warnings

import numpy as np

from . import sr
from .sr import SR, is_sym


class Skip(BaseException):
    """concrete values outside of the assumptions"""


class Violated(BaseException):
    pass


class SymEnv:
    sym = True

    def __init__(self, eng, case):
        self.eng, self.case = eng, case
        self.rng = random.Random(case.get("sample_seed", 0))

    def real(self, name, lo=-math.inf, hi=math.inf, s=None, pin=None):
        """symbolic input; s: value in concolic (single path) mode"""
        eng = self.eng
        over = self.case.get("sample", {})
        if eng.sample is not None and name not in eng.sample:
            if name in over:
                s = over[name]
            if s is None:
                a, b = max(lo, -10), min(hi, 10)
                s = a + (b - a)*self.rng.uniform(0.05, 0.95)
            eng.sample[name] = float(s)
        if pin is None:
            pin = [s] if s is not None else None
        return eng.real(name, lo, hi, pin=pin)

    def reals(self, name, n, lo=-math.inf, hi=math.inf, s=None, pin=None):
        return self.arr([self.real(f"{name}{i}", lo, hi,
                                   None if s is None else s[i], pin)
                         for i in range(n)])

    def assume(self, c):
        self.eng.assume(c)

    def claim(self, label, cond, strong=None):
        return self.eng.claim(label, cond, strong)

    def small(self, label, x, tol, margin=4.0):
        """|x| <= tol; a counterexample has |x| > margin*tol"""
        a = sr.sabs(x) if is_sym(x) else abs(x)
        return self.claim(label, a <= tol, a <= margin*tol)

    def zero(self, label, xs, tol):
        """all |x| <= tol, one query"""
        fs, st = [], []
        for x in xs:
            fs += [x <= tol, -x <= tol]
            st += [x <= 4*tol, -x <= 4*tol]
        if not fs:
            return True
        return self.claim(label, sr.sand(*fs), sr.sand(*st))

    def le(self, label, a, b, tol=0.0):
        """a <= b + tol; counterexample has margin"""
        return self.claim(label, a - b <= tol, a - b <= 4*tol + 1e-9)

    def arr(self, xs):
        a = np.empty(len(xs), object)
        for i, x in enumerate(xs):
            a[i] = x
        return a

    def mat(self, rows):
        a = np.empty((len(rows), len(rows[0])), object)
        for i, r in enumerate(rows):
            for j, x in enumerate(r):
                a[i, j] = x
        return a

    def abort(self, why):
        raise sr.PathAbort(why)

    def decide(self, c):
        return bool(c)

    def known(self, x):
        return float(x)


class ConcEnv:
    sym = False

    def __init__(self, values, case):
        self.values, self.case = values, case
        self.failed = []
        self.nclaims = 0
        self.used = {}
        self.rng = random.Random(case.get("sample_seed", 0))

    def real(self, name, lo=-math.inf, hi=math.inf, s=None, pin=None):
        over = self.case.get("sample", {})
        if name in self.values:
            v = self.values[name]
        else:
            if name in over:
                s = over[name]
            if s is None:
                a, b = max(lo, -10), min(hi, 10)
                s = a + (b - a)*self.rng.uniform(0.05, 0.95)
            v = s
        v = float(v)
        self.used[name] = v
        return np.float64(v)

    def reals(self, name, n, lo=-math.inf, hi=math.inf, s=None, pin=None):
        return self.arr([self.real(f"{name}{i}", lo, hi,
                                   None if s is None else s[i], pin)
                         for i in range(n)])

    def assume(self, c):
        if not c:
            raise Skip("assumption")

    def claim(self, label, cond, strong=None):
        self.nclaims += 1
        c = cond if strong is None else strong
        if not bool(c):
            self.failed.append(label)
            return False
        return True

    def small(self, label, x, tol, margin=4.0):
        return self.claim(label, bool(abs(x) <= margin*tol))

    def zero(self, label, xs, tol):
        return self.claim(label, all(abs(x) <= 4*tol for x in xs))

    def le(self, label, a, b, tol=0.0):
        return self.claim(label, bool(a - b <= 4*tol + 1e-9))

    def arr(self, xs):
        return np.array([float(x) for x in xs], dtype=float)

    def mat(self, rows):
        return np.array([[float(x) for x in r] for r in rows], dtype=float)

    def abort(self, why):
        raise Skip(why)

    def decide(self, c):
        return bool(c)

    def known(self, x):
        return float(x)


def sabs(x):
    return sr.sabs(x) if is_sym(x) else abs(x)


def smax(a, b):
    return sr.smax2(a, b) if is_sym(a) or is_sym(b) else max(a, b)


def smin(a, b):
    return sr.smin2(a, b) if is_sym(a) or is_sym(b) else min(a, b)


def sand(*xs):
    if any(isinstance(x, sr.SymBool) for x in xs):
        return sr.sand(*xs)
    return all(bool(x) for x in xs)


def sor(*xs):
    if any(isinstance(x, sr.SymBool) for x in xs):
        return sr.sor(*xs)
    return any(bool(x) for x in xs)
