"""Runs the real extensisq / scipy-base code on symbolic values: replaces the
names `np`, math functions and a few builtins in the module globals by versions
that accept symbolic reals, and restores them afterwards."""
import os
import builtins
import contextlib
import importlib
import math
import pkgutil
import sys
import types

import numpy as np

from . import sr
from .sr import SR, SymBool, Unsupported, is_sym

sys.dont_write_bytecode = True
REPO = os.environ.get("VX_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)


def any_sym(a):
    if isinstance(a, (SR, SymBool)):
        return True
    if isinstance(a, np.ndarray):
        return a.dtype == object
    if isinstance(a, (list, tuple)):
        return any(any_sym(x) for x in a)
    return False


class SArr(np.ndarray):
    """object array whose astype(float) keeps the symbols"""

    def astype(self, dtype, *a, **k):
        try:
            isf = np.issubdtype(dtype, np.inexact)
        except TypeError:
            isf = False
        if self.dtype == object and isf:
            return self.copy()
        return super().astype(dtype, *a, **k)


def obj(x):
    a = np.asarray(x, dtype=object)
    return a


class _F64:
    """np.float64 where the code compares dtypes: symbols pass for doubles"""

    def __eq__(self, o):
        return o == object or o == np.float64

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __call__(self, x=0.0):
        return _float(x)


F64 = _F64()


def _objdtype(dtype):
    if dtype is None or dtype is F64:
        return True
    if dtype is object or dtype == object:
        return True
    try:
        return np.issubdtype(dtype, np.inexact)
    except TypeError:
        return False


def _fill_garbage(a):
    it = np.nditer(a, flags=["refs_ok", "multi_index"], op_flags=["writeonly"])
    eng = sr.ENGINE
    for _ in it:
        eng.ngarb = getattr(eng, "ngarb", 0) + 1
        a[it.multi_index] = GARBAGE
    return a


class Garbage:
    """uninitialised memory: any use in arithmetic is an error, except a
    product with an exact zero coefficient"""

    def _bad(self, *a):
        raise Unsupported("uninitialised memory is read")

    def _mul(self, o):
        if is_sym(o):
            if not o.p:
                return 0.0
        elif o == 0:
            return 0.0
        raise Unsupported("uninitialised memory is read")
    __mul__ = __rmul__ = _mul
    __add__ = __radd__ = __sub__ = __rsub__ = __truediv__ = _bad
    __rtruediv__ = __lt__ = __le__ = __gt__ = __ge__ = __abs__ = _bad
    __neg__ = __pow__ = __float__ = _bad

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def __repr__(self):
        return "<garbage>"


GARBAGE = Garbage()


def elementwise1(f, npf):
    def g(x, *a, **k):
        if is_sym(x):
            return f(x)
        if isinstance(x, (list, tuple)):
            x = np.asarray(x)
        if isinstance(x, np.ndarray) and x.dtype == object:
            out = np.empty(x.shape, object)
            for i in np.ndindex(x.shape):
                out[i] = f(x[i])
            if x.ndim == 0:
                return out[()]
            return out
        return npf(x, *a, **k)
    g.__name__ = getattr(npf, "__name__", "f")
    return g


def elementwise2(f, npf):
    def g(x, y, *a, **k):
        if any_sym(x) or any_sym(y):
            X, Y = np.broadcast_arrays(np.asarray(x, object),
                                       np.asarray(y, object))
            out = np.empty(X.shape, object)
            for i in np.ndindex(X.shape):
                out[i] = f(X[i], Y[i])
            return out[()] if out.ndim == 0 else out
        return npf(x, y, *a, **k)
    g.__name__ = getattr(npf, "__name__", "f")
    return g


def _num(f):
    """object arrays may hold plain numbers too"""
    return f


def _isfinite(x):
    return True if is_sym(x) else bool(np.isfinite(x))


def _isnan(x):
    return False if is_sym(x) else bool(np.isnan(x))


def _isinf(x):
    return False if is_sym(x) else bool(np.isinf(x))


def boolarr(f):
    def g(x, *a, **k):
        if is_sym(x):
            return f(x)
        if isinstance(x, np.ndarray) and x.dtype == object:
            out = np.empty(x.shape, bool)
            for i in np.ndindex(x.shape):
                out[i] = f(x[i])
            return out[()] if x.ndim == 0 else out
        return getattr(np, f.__name__[1:])(x, *a, **k)
    return g


def _where(c, *xy):
    if not xy:
        return np.where(c)
    x, y = xy
    if any_sym(c) or any_sym(x) or any_sym(y):
        C, X, Y = np.broadcast_arrays(np.asarray(c, object),
                                      np.asarray(x, object),
                                      np.asarray(y, object))
        out = np.empty(C.shape, object)
        for i in np.ndindex(C.shape):
            out[i] = X[i] if C[i] else Y[i]
        return out
    return np.where(c, x, y)


def _finfo(d):
    try:
        if d is object or d == object:
            return np.finfo(float)
    except TypeError:
        pass
    if isinstance(d, (SR,)):
        return np.finfo(float)
    return np.finfo(d)


def _np_pow(x, q):
    return x**q


def _nmax(a, b):
    return sr.smax2(a, b, True)


def _nmin(a, b):
    return sr.smin2(a, b, True)


def _svd(a):
    """singular values of a symbolic 2x2 matrix (with the vectors if it is
    diagonal)"""
    n = a.shape[0]

    def zero(v):
        return not v.p if is_sym(v) else v == 0
    if all(zero(a[i, j]) for i in range(n) for j in range(n) if i != j):
        d = [sr.sabs(a[i, i]) for i in range(n)]
        idx = list(range(n))
        for i in range(n):                        # sort, largest first
            for j in range(n - 1 - i):
                if d[idx[j]] < d[idx[j + 1]]:
                    idx[j], idx[j + 1] = idx[j + 1], idx[j]
        U, Vh = np.zeros((n, n)), np.zeros((n, n))
        s = np.empty(n, object)
        for k, i in enumerate(idx):
            s[k] = d[i]
            U[i, k] = -1.0 if a[i, i] < 0 else 1.0
            Vh[k, i] = 1.0
        return U, s, Vh
    if n != 2:
        raise Unsupported("svd of a symbolic matrix")
    F = sum(v*v for v in a.ravel())
    D = 2*sr.sabs(a[0, 0]*a[1, 1] - a[0, 1]*a[1, 0])
    p, q = sr.ssqrt(F + D), sr.ssqrt(F - D)
    s = np.empty(2, object)
    s[0] = (p + q)/2
    s[1] = D/(p + q)
    return None, s, None


class LinalgProxy(types.ModuleType):
    def __getattr__(self, n):
        return getattr(np.linalg, n)

    @staticmethod
    def norm(x, ord=None, axis=None, **k):
        if any_sym(x):
            if axis is not None or ord not in (None, 2, "fro"):
                raise Unsupported("norm variant")
            s = 0
            for v in np.asarray(x, object).ravel():
                s = s + v*v
            return sr.ssqrt(s)
        return np.linalg.norm(x, ord, axis, **k)

    @staticmethod
    def solve(a, b):
        if any_sym(a) or any_sym(b):
            return linsolve(np.asarray(a, object), np.asarray(b, object))
        return np.linalg.solve(a, b)

    @staticmethod
    def inv(a):
        if any_sym(a):
            return linsolve(np.asarray(a, object), np.eye(len(a)))
        return np.linalg.inv(a)

    @staticmethod
    def matrix_rank(a, *k, **kw):
        if any_sym(a):
            a = np.asarray(a, object)
            if a.shape == (1, 1):
                return 0 if a[0, 0] == 0 else 1
            if a.shape == (2, 2):
                if a[0, 0]*a[1, 1] - a[0, 1]*a[1, 0] != 0:
                    return 2
                return 1
            raise Unsupported("matrix_rank")
        return np.linalg.matrix_rank(a, *k, **kw)

    @staticmethod
    def svd(a, *k, **kw):
        if any_sym(a):
            return _svd(np.asarray(a, object))
        return np.linalg.svd(a, *k, **kw)


LINALG = LinalgProxy("linalg")


def linsolve(A, b):
    """exact solution of A x = b (Gaussian elimination; a pivot that may be
    zero forks; singular: path outside the bounds)"""
    A = np.array(A, dtype=object)
    b = np.array(b, dtype=object)
    vec = b.ndim == 1
    if vec:
        b = b[:, None]
    n = A.shape[0]
    if n <= 2 and any(is_sym(v) and not v.is_const() for v in A.ravel()):
        return _cramer(A, b, vec)
    # lower/upper triangular needs no special treatment; choose first pivot
    # that is provably nonzero, else fork
    for k in range(n):
        piv = None
        for i in range(k, n):
            v = A[i, k]
            if is_sym(v):
                if v.is_const():
                    nz = v.const_value() != 0
                else:
                    lo, hi = v.interval()
                    nz = lo > 0 or hi < 0
            else:
                nz = v != 0
            if nz:
                piv = i
                break
        if piv is None:
            for i in range(k, n):
                if is_sym(A[i, k]) and (A[i, k] != 0):
                    piv = i
                    break
            else:
                raise sr.PathAbort("singular matrix")
        if piv != k:
            A[[k, piv]] = A[[piv, k]]
            b[[k, piv]] = b[[piv, k]]
        for i in range(k + 1, n):
            v = A[i, k]
            if (is_sym(v) and not v.p) or (not is_sym(v) and v == 0):
                continue
            r = v/A[k, k]
            A[i, k:] = A[i, k:] - r*A[k, k:]
            b[i] = b[i] - r*b[k]
    x = np.empty_like(b)
    for k in range(n - 1, -1, -1):
        s = b[k]
        for j in range(k + 1, n):
            s = s - A[k, j]*x[j]
        x[k] = s/A[k, k]
    return x[:, 0] if vec else x


def _cramer(A, b, vec):
    """n <= 2, symbolic matrix: one division by the determinant"""
    n = A.shape[0]
    if n == 1:
        det, num = A[0, 0], b
    else:
        det = A[0, 0]*A[1, 1] - A[0, 1]*A[1, 0]
        num = np.empty_like(b)
        num[0] = A[1, 1]*b[0] - A[0, 1]*b[1]
        num[1] = A[0, 0]*b[1] - A[1, 0]*b[0]
    lo, hi = det.interval()
    if not (lo > 0 or hi < 0) and not (det != 0):
        raise sr.PathAbort("singular matrix")
    x = np.empty_like(num)
    for i in np.ndindex(num.shape):
        q = sr.exact_div(num[i], det)
        x[i] = num[i]/det if q is None else q
    return x[:, 0] if vec else x


class SymNP(types.ModuleType):
    """numpy with symbolic-aware versions of some functions"""
    linalg = LINALG

    def __getattr__(self, n):
        return getattr(np, n)

    @staticmethod
    def asarray(x, dtype=None, **k):
        if any_sym(x):
            return np.asarray(x, dtype=object).view(SArr)
        return np.asarray(x, dtype=dtype, **k)

    @staticmethod
    def array(x, dtype=None, **k):
        if any_sym(x):
            return np.array(x, dtype=object).view(SArr)
        return np.array(x, dtype=dtype, **k)

    @staticmethod
    def empty(shape, dtype=None, order="C", **k):
        if _objdtype(dtype):
            a = np.empty(shape, object, order)
            a.fill(GARBAGE)
            return a
        return np.empty(shape, dtype, order)

    @staticmethod
    def zeros(shape, dtype=None, order="C", **k):
        if _objdtype(dtype):
            a = np.empty(shape, object, order)
            a.fill(0.0)
            return a
        return np.zeros(shape, dtype, order)

    @staticmethod
    def ones(shape, dtype=None, order="C", **k):
        if _objdtype(dtype):
            a = np.empty(shape, object, order)
            a.fill(1.0)
            return a
        return np.ones(shape, dtype, order)

    @staticmethod
    def empty_like(x, dtype=None, **k):
        if any_sym(x) or (hasattr(x, "dtype") and _objdtype(x.dtype)):
            return SymNP.empty(np.shape(x))
        return np.empty_like(x, dtype)

    @staticmethod
    def zeros_like(x, dtype=None, **k):
        if any_sym(x):
            return SymNP.zeros(np.shape(x))
        return np.zeros_like(x, dtype)

    @staticmethod
    def ones_like(x, dtype=None, **k):
        if any_sym(x):
            return SymNP.ones(np.shape(x)) if np.shape(x) else 1.0
        return np.ones_like(x, dtype)

    finfo = staticmethod(_finfo)
    maximum = staticmethod(elementwise2(_nmax, np.maximum))
    minimum = staticmethod(elementwise2(_nmin, np.minimum))
    fmax = staticmethod(elementwise2(_nmax, np.fmax))
    fmin = staticmethod(elementwise2(_nmin, np.fmin))
    abs = staticmethod(elementwise1(sr.sabs, np.abs))
    absolute = abs
    fabs = abs
    sign = staticmethod(elementwise1(sr.ssign, np.sign))
    copysign = staticmethod(elementwise2(sr.scopysign, np.copysign))
    sqrt = staticmethod(elementwise1(sr.ssqrt, np.sqrt))
    power = staticmethod(elementwise2(_np_pow, np.power))
    float_power = power
    log10 = staticmethod(elementwise1(lambda x: sr.sfun1("log10", x),
                                      np.log10))
    log = staticmethod(elementwise1(lambda x: sr.sfun1("log", x), np.log))
    exp = staticmethod(elementwise1(lambda x: sr.sfun1("exp", x), np.exp))
    square = staticmethod(elementwise1(lambda x: x*x, np.square))
    isfinite = staticmethod(boolarr(_isfinite))
    isnan = staticmethod(boolarr(_isnan))
    isinf = staticmethod(boolarr(_isinf))
    where = staticmethod(_where)

    @staticmethod
    def all(x, *a, **k):
        if any_sym(x):
            if isinstance(x, (SR, SymBool)):
                return builtins.bool(x)
            for v in np.asarray(x, object).ravel():
                if not v:
                    return False
            return True
        return np.all(x, *a, **k)

    @staticmethod
    def any(x, *a, **k):
        if any_sym(x):
            if isinstance(x, (SR, SymBool)):
                return builtins.bool(x)
            for v in np.asarray(x, object).ravel():
                if v:
                    return True
            return False
        return np.any(x, *a, **k)

    @staticmethod
    def clip(x, lo, hi, **k):
        if any_sym(x) or any_sym(lo) or any_sym(hi):
            return SymNP.minimum(SymNP.maximum(x, lo), hi)
        return np.clip(x, lo, hi)

    @staticmethod
    def max(x, *a, **k):
        if any_sym(x) and not a and not k:
            return sr.smax(list(np.asarray(x, object).ravel()))
        return np.max(x, *a, **k)
    amax = max

    @staticmethod
    def min(x, *a, **k):
        if any_sym(x) and not a and not k:
            return sr.smin(list(np.asarray(x, object).ravel()))
        return np.min(x, *a, **k)
    amin = min

    @staticmethod
    def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
        if any_sym(a) or any_sym(b):
            A, B = np.broadcast_arrays(np.asarray(a, object),
                                       np.asarray(b, object))
            r, t = np.asarray(rtol, object), np.asarray(atol, object)
            r, t = np.broadcast_to(r, A.shape), np.broadcast_to(t, A.shape)
            for i in np.ndindex(A.shape):
                if not (sr.sabs(A[i] - B[i]) <= t[i] + r[i]*sr.sabs(B[i])):
                    return False
            return True
        return np.allclose(a, b, rtol, atol, **k)

    @staticmethod
    def mean(x, *a, **k):
        if any_sym(x) and not a and not k:
            v = np.asarray(x, object).ravel()
            return sum(v[1:], v[0])/len(v)
        return np.mean(x, *a, **k)

    @staticmethod
    def real(x):
        return x if any_sym(x) else np.real(x)

    @staticmethod
    def imag(x):
        return x*0 if any_sym(x) else np.imag(x)

    @staticmethod
    def conj(x):
        return x if any_sym(x) else np.conj(x)
    conjugate = conj

    @staticmethod
    def vdot(a, b):
        return np.asarray(a).ravel() @ np.asarray(b).ravel()


NP = SymNP("numpy_symbolic")

_MATH = {
    "sqrt": sr.ssqrt, "copysign": sr.scopysign, "fabs": sr.sabs,
    "log": lambda x: sr.sfun1("log", x), "log10": lambda x: sr.sfun1("log10", x),
    "exp": lambda x: sr.sfun1("exp", x), "sinh": lambda x: sr.sfun1("sinh", x),
    "cosh": lambda x: sr.sfun1("cosh", x),
    "isnan": _isnan, "isinf": _isinf, "isfinite": _isfinite,
}


class SymNPF(SymNP):
    """for modules that check `x.dtype == np.float64`"""
    float64 = F64

    @staticmethod
    def asarray(x, dtype=None, **k):
        return SymNP.asarray(x, float if dtype is F64 else dtype, **k)

    @staticmethod
    def array(x, dtype=None, **k):
        return SymNP.array(x, float if dtype is F64 else dtype, **k)


class MathProxy(types.ModuleType):
    def __getattr__(self, n):
        f = _MATH.get(n)
        return mathwrap(n) if f else getattr(math, n)


def mathwrap(n):
    f, g = _MATH[n], getattr(math, n)

    def h(*a):
        a = [x[()] if isinstance(x, np.ndarray) and x.ndim == 0 else
             x.ravel()[0] if isinstance(x, np.ndarray) and x.size == 1 else x
             for x in a]
        if any(is_sym(x) for x in a):
            return f(*a)
        return g(*a)
    h.__name__ = n
    return h


MATHP = MathProxy("math_symbolic")


def _isinstance(x, c):
    if isinstance(x, SR):
        cs = c if isinstance(c, tuple) else (c,)
        return any(k in (float, np.floating, np.float64, SR) for k in cs)
    return builtins.isinstance(x, c)


def _max(*a, **k):
    if k:
        return builtins.max(*a, **k)
    xs = list(a[0]) if len(a) == 1 else a
    xs = [x[()] if isinstance(x, np.ndarray) and x.ndim == 0 else x
          for x in xs]
    if any(is_sym(x) for x in xs):
        return sr.smax(list(xs))
    return builtins.max(xs)


def _min(*a, **k):
    if k:
        return builtins.min(*a, **k)
    xs = list(a[0]) if len(a) == 1 else a
    xs = [x[()] if isinstance(x, np.ndarray) and x.ndim == 0 else x
          for x in xs]
    if any(is_sym(x) for x in xs):
        return sr.smin(list(xs))
    return builtins.min(xs)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, int)


class _int(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if is_sym(x):
            return sr.sint(x)
        return int(x, *a)


def _isinstance2(x, c):
    if c is _int:
        c = int
    elif isinstance(c, tuple):
        c = tuple(int if k is _int else float if k is _float else k for k in c)
    elif c is _float:
        c = float
    return _isinstance(x, c)


def _float(x=0.0):
    return x if is_sym(x) else float(x)


def _round(x, n=None):
    if is_sym(x):
        return sr.sint(x + 0.5)
    return builtins.round(x, n) if n is not None else builtins.round(x)


BUILT = {"isinstance": _isinstance2, "max": _max, "min": _min, "int": _int,
         "round": _round}


# ---- scipy linear algebra -------------------------------------------------
def s_lu_factor(A, *a, **k):
    if any_sym(A):
        return ("symLU", np.array(A, dtype=object))
    import scipy.linalg
    return scipy.linalg.lu_factor(A, *a, **k)


def s_lu_solve(LU, b, *a, **k):
    if isinstance(LU, tuple) and len(LU) == 2 and isinstance(LU[0], str):
        return linsolve(LU[1], b)
    if any_sym(b):
        # concrete matrix, symbolic right-hand side: rebuild the matrix
        lu, piv = LU
        lu = np.asarray(lu, float)
        n = lu.shape[0]
        L = np.tril(lu, -1) + np.eye(n)
        U = np.triu(lu)
        M = L @ U
        for i in reversed(range(n)):
            j = piv[i]
            if j != i:
                M[[i, j]] = M[[j, i]]
        return linsolve(M, b)
    import scipy.linalg
    return scipy.linalg.lu_solve(LU, b, *a, **k)


class SymSparse(SArr):
    """dense object array that answers the few sparse methods used"""

    def toarray(self):
        return np.asarray(self).view(SArr)

    todense = toarray

    def tocsc(self):
        return self


def s_issparse(x):
    if isinstance(x, SymSparse):
        return True
    import scipy.sparse
    return scipy.sparse.issparse(x)


def s_csc_array(x, *a, **k):
    if any_sym(x):
        return np.asarray(x, dtype=object).view(SymSparse)
    import scipy.sparse
    x = x.toarray() if scipy.sparse.issparse(x) else np.asarray(x)
    return np.asarray(x, dtype=object).view(SymSparse)


def s_eye_array(n, *a, **k):
    return np.asarray(np.eye(n), dtype=object).view(SymSparse)


def s_diags_array(d, *a, **k):
    d = np.asarray(d, dtype=object)
    n = d.shape[-1]
    A = np.empty((n, n), object)
    A.fill(0.0)
    for i in range(n):
        A[i, i] = d[i] if d.ndim == 1 else d[0][i]
    return A.view(SymSparse)


class SymSplu:
    def __init__(self, A):
        self.A = np.array(A, dtype=object)

    def solve(self, b):
        return linsolve(self.A, b)


def s_splu(A, *a, **k):
    return SymSplu(A)


class SymCubicHermite:
    def __init__(self, x, y, dydx, axis=0, extrapolate=None):
        self.x, self.y, self.d = list(x), np.asarray(y), np.asarray(dydx)
        for a, b in zip(self.x, self.x[1:]):
            if not is_sym(a) and not is_sym(b) and not (b > a):
                raise ValueError("`x` must be strictly increasing sequence.")

    def __call__(self, t, nu=0, extrapolate=None):
        if isinstance(t, np.ndarray):
            if t.ndim == 0:
                t = t[()]
            else:
                return np.array([self(v) for v in t])
        i = 0
        while i < len(self.x) - 2 and not (t < self.x[i+1]):
            i += 1
        x0, x1 = self.x[i], self.x[i+1]
        h = x1 - x0
        s = (t - x0)/h
        return ((1 + 2*s)*(1 - s)*(1 - s)*self.y[i]
                + s*(1 - s)*(1 - s)*h*self.d[i]
                + s*s*(3 - 2*s)*self.y[i+1] + s*s*(s - 1)*h*self.d[i+1])


def s_check_arguments(fun, y0, support_complex):
    y0 = np.asarray(y0)
    if y0.dtype != object:
        y0 = np.asarray(y0, dtype=object)
    if y0.ndim != 1:
        raise ValueError("`y0` must be 1-dimensional.")

    def fun_wrapped(t, y):
        return np.asarray(fun(t, y), dtype=object).view(SArr)
    return fun_wrapped, y0.copy().view(SArr)


LINSYS = {"lu_factor": s_lu_factor, "lu_solve": s_lu_solve,
          "issparse": s_issparse, "csc_array": s_csc_array,
          "csc_matrix": s_csc_array,
          "eye_array": s_eye_array, "diags_array": s_diags_array,
          "splu": s_splu, "CubicHermiteSpline": SymCubicHermite}


def ext_modules():
    import extensisq
    out = [extensisq]
    for m in pkgutil.iter_modules(extensisq.__path__):
        out.append(importlib.import_module("extensisq." + m.name))
    return out


def scipy_modules():
    import scipy.integrate._ivp.base as b
    import scipy.integrate._ivp.common as c
    return b, c


@contextlib.contextmanager
def symbolic(extra=None):
    """symbolic mode; extra: {name: replacement} applied to every extensisq
    module global of that name"""
    mods = ext_modules()
    b, c = scipy_modules()
    saved = []

    def put(m, name, val):
        d = m.__dict__
        saved.append((d, name, d.get(name, saved), name in d))
        d[name] = val
    import scipy.linalg
    import scipy.sparse
    for m in mods + [b, c]:
        d = m.__dict__
        for name in list(d):
            v = d[name]
            if v is np:
                put(m, name, NP)
            elif v is math:
                put(m, name, MATHP)
            elif isinstance(v, types.BuiltinFunctionType) and \
                    getattr(math, getattr(v, "__name__", ""), None) is v and \
                    v.__name__ in _MATH:
                put(m, name, mathwrap(v.__name__))
            elif v is np.linalg:
                put(m, name, LINALG)
            elif m in mods and callable(v) and name in LINSYS and \
                    getattr(v, "__module__", "").startswith("scipy"):
                put(m, name, LINSYS[name])
            elif isinstance(v, (types.FunctionType, types.BuiltinFunctionType)) \
                    and getattr(v, "__module__", "") == "numpy" \
                    and hasattr(SymNP, v.__name__):
                put(m, name, getattr(SymNP, v.__name__))
        for name, val in BUILT.items():
            put(m, name, val)
    put(b, "check_arguments", s_check_arguments)
    for name, val in (extra or {}).items():
        for m in mods:
            if name in m.__dict__:
                put(m, name, val)
    try:
        yield
    finally:
        for d, name, old, had in reversed(saved):
            if had:
                d[name] = old
            else:
                d.pop(name, None)


@contextlib.contextmanager
def stubbed(spec):
    """spec: {name: factory}; replaces the module globals of that name in the
    library for one run (used in symbolic runs and in replays alike)"""
    if not spec:
        yield
        return
    saved = []
    for name, factory in spec.items():
        val = factory()
        for m in ext_modules():
            if name in m.__dict__:
                saved.append((m.__dict__, name, m.__dict__[name]))
                m.__dict__[name] = val
    try:
        yield
    finally:
        for d, name, old in reversed(saved):
            d[name] = old
