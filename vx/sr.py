"""Symbolic reals and the path engine.

SR          exact Laurent polynomial (rational coefficients) over atoms
Atom        an input variable or a *defined* quantity (abs, max, min, quotient,
            sqrt, power, logarithm, ...), hash-consed on its normal form so
            that equal expressions share one atom
SymBool     a comparison; `bool()` of it forks the execution
Engine      depth-first exploration by re-execution; every fork and every claim
            is decided by z3 (first a linear abstraction of the monomials, then
            the full nonlinear encoding)
"""
import math
import time
import random
from fractions import Fraction

import numpy as np
import z3

INF = math.inf


class Unsupported(Exception):
    """the code did something the encoding cannot represent"""


class PathAbort(BaseException):
    """this path is outside of the stated bounds (reason recorded)"""


class Infeasible(BaseException):
    """path condition became unsatisfiable"""


# --------------------------------------------------------------------------
class Atom:
    __slots__ = ("id", "kind", "args", "lo", "hi", "name", "pin", "deps",
                 "depth")

    def __init__(self, id, kind, args, lo, hi, name, pin=None):
        self.id, self.kind, self.args = id, kind, args
        self.lo, self.hi, self.name, self.pin = lo, hi, name, pin
        deps = set()
        for a in args:
            if isinstance(a, SR):
                deps |= a.atoms()
        self.deps = deps


class Store:
    def __init__(self):
        self.atoms = []
        self.memo = {}
        self.mb = {}

    def new(self, kind, key, args, lo, hi, name=None, pin=None):
        if key is not None:
            got = self.memo.get((kind, key))
            if got is not None:
                return got
        a = Atom(len(self.atoms), kind, args, lo, hi,
                 name or f"{kind}{len(self.atoms)}", pin)
        self.atoms.append(a)
        s = SR({((a.id, 1),): Fraction(1)})
        if key is not None:
            self.memo[(kind, key)] = s
        return s


STORE = Store()
ENGINE = None          # current engine (None: no symbolic execution running)


def reset_store():
    global STORE
    STORE = Store()


# --------------------------------------------------------------------------
# intervals (floats, outward inflated)
def _infl(lo, hi):
    return (lo - abs(lo)*1e-13 if lo > -INF and lo else lo,
            hi + abs(hi)*1e-13 if hi < INF and hi else hi)


def _imul(a, b):
    c = []
    for x in a:
        for y in b:
            p = x*y if x and y else 0.0
            c.append(p)
    return min(c), max(c)


def _ipow(a, e):
    lo, hi = a
    if e < 0:
        if lo > 0 or hi < 0:
            l2 = 1/hi if abs(hi) < INF else 0.0
            h2 = 1/lo if abs(lo) < INF else 0.0
            lo, hi = min(l2, h2), max(l2, h2)
        elif lo == 0 and hi > 0:
            lo, hi = (1/hi if hi < INF else 0.0), INF
        elif hi == 0 and lo < 0:
            lo, hi = -INF, (1/lo if lo > -INF else 0.0)
        else:
            return (-INF, INF) if e % 2 else (0.0, INF)
        return _ipow((lo, hi), -e)
    r = (1.0, 1.0)
    if e % 2 == 0:
        m = max(abs(lo), abs(hi))
        k = 0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi))
        try:
            return (k**e, m**e)
        except OverflowError:
            return (0.0, INF)
    try:
        return (lo**e, hi**e)
    except OverflowError:
        return (-INF, INF)


def mono_interval(m):
    r = (1.0, 1.0)
    for aid, e in m:
        a = STORE.atoms[aid]
        r = _imul(r, _ipow((a.lo, a.hi), e))
    if STORE.mb:
        b = STORE.mb.get(m)
        if b is not None:
            r = (max(r[0], b[0]), min(r[1], b[1]))
    return r


def tighten(m, lo, hi):
    """path-local bounds on a monomial (implied by the path condition)"""
    lo, hi = _infl(lo, hi)
    if len(m) == 1 and m[0][1] == 1:
        a = STORE.atoms[m[0][0]]
        lo, hi = max(a.lo, lo), min(a.hi, hi)
        if lo > hi:
            raise Infeasible()
        a.lo, a.hi = lo, hi
    else:
        o = mono_interval(m)
        lo, hi = max(o[0], lo), min(o[1], hi)
        if lo > hi:
            raise Infeasible()
        STORE.mb[m] = (lo, hi)


def tighten_rel(rel, d, val):
    """the relation d rel 0 has the given truth value"""
    if not 1 <= len(d.p) <= 2:
        return
    rest = [(m, c) for m, c in d.p.items() if m]
    if len(rest) != 1:
        return
    (m, c), = rest
    try:
        b = float(-d.p.get((), 0)/c)
    except OverflowError:
        return
    if rel == "!=":
        rel, val = "==", not val
    if rel == "==":
        if val:
            tighten(m, b, b)
        return
    if (c > 0) == val:
        tighten(m, -INF, b)
    else:
        tighten(m, b, INF)


def interval(p):
    lo = hi = 0.0
    for m, c in p.items():
        try:
            cf = float(c)
        except OverflowError:
            cf = INF if c > 0 else -INF
        a, b = _infl(*_imul(mono_interval(m), (cf, cf)))
        lo += a
        hi += b
        if lo != lo:
            lo = -INF
        if hi != hi:
            hi = INF
    return _infl(lo, hi)


# --------------------------------------------------------------------------
def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, (float, np.floating)):
        return Fraction(float(x))
    raise TypeError(type(x))


NUM = (int, float, np.integer, np.floating, Fraction, np.bool_)


def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        s = d.get(k, 0) + e
        if s:
            d[k] = s
        else:
            d.pop(k, None)
    return tuple(sorted(d.items()))


TRUNC = None           # (atoms, K): products drop higher powers (see C16)


def _mul_trunc(a, b, ids, K):
    def deg(m):
        return sum(e for k, e in m if k in ids)
    bs = [(m, c, deg(m)) for m, c in b.items()]
    p = {}
    for m1, c1 in a.items():
        d = K - deg(m1)
        for m2, c2, e in bs:
            if e > d:
                continue
            m = _mono_mul(m1, m2)
            s = p.get(m)
            s = c1*c2 if s is None else s + c1*c2
            if s:
                p[m] = s
            else:
                p.pop(m, None)
    return p


class SR:
    __slots__ = ("p", "lb")

    def __init__(self, p, lb=None):
        self.p = p
        self.lb = lb            # lower bound known from the construction

    @property
    def nn(self):
        return self.lb is not None and self.lb >= 0

    # -- helpers
    @staticmethod
    def const(c):
        c = frac(c)
        return SR({(): c} if c else {})

    def is_const(self):
        return not self.p or (len(self.p) == 1 and () in self.p)

    def const_value(self):
        return self.p.get((), Fraction(0))

    def atoms(self):
        s = set()
        for m in self.p:
            for a, _ in m:
                s.add(a)
        return s

    def key(self):
        return frozenset(self.p.items())

    def interval(self):
        r = interval(self.p)
        if self.lb is not None and r[0] < self.lb:
            return (self.lb, max(self.lb, r[1]))
        return r

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        if self.is_const():
            return f"SR({float(self.const_value())!r})"
        t = []
        for m, c in list(self.p.items())[:6]:
            t.append(f"{float(c):.4g}" + "".join(
                f"*{STORE.atoms[a].name}" + (f"^{e}" if e != 1 else "")
                for a, e in m))
        return "SR(" + " + ".join(t) + (" ..." if len(self.p) > 6 else "") + ")"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    # -- numpy duck typing
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def conjugate(self):
        return self

    conj = conjugate

    def copy(self):
        return self

    def item(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    shape = ()
    ndim = 0
    size = 1

    # -- arithmetic
    def _co(self, o):
        """SR | special float | None (not supported)"""
        if isinstance(o, SR):
            return o
        if isinstance(o, NUM):
            if isinstance(o, (float, np.floating)) and not math.isfinite(o):
                return float(o)
            return SR.const(o)
        if isinstance(o, np.ndarray) and o.ndim == 0:
            return self._co(o.item())
        if isinstance(o, (complex, np.complexfloating)):
            if o.imag == 0:
                return self._co(o.real)
            raise Unsupported("complex arithmetic")
        return None

    def __add__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return o
        lb = None
        if self.lb is not None or o.lb is not None:
            lb = self.interval()[0] + o.interval()[0]
            lb = _infl(lb, lb)[0] if lb > -INF else None
        if len(o.p) > len(self.p):
            self, o = o, self
        p = dict(self.p)
        for m, c in o.p.items():
            s = p.get(m)
            if s is None:
                p[m] = c
            else:
                s = s + c
                if s:
                    p[m] = s
                else:
                    del p[m]
        return SR(p, lb)

    __radd__ = __add__

    def __neg__(self):
        return SR({m: -c for m, c in self.p.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return (-self) + o

    def __mul__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return self._mul_special(o)
        a, b = self.p, o.p
        if not a or not b:
            return SR({})
        lb = None
        if self is o:
            lb = 0.0
        elif self.lb is not None or o.lb is not None:
            l1, l2 = self.interval()[0], o.interval()[0]
            if l1 >= 0 and l2 >= 0:
                lb = _infl(l1*l2, 0)[0]
        if len(a) == 1 and () in a:
            c0 = a[()]
            return SR({m: c*c0 for m, c in b.items()}, lb)
        if len(b) == 1 and () in b:
            c0 = b[()]
            return SR({m: c*c0 for m, c in a.items()}, lb)
        p = {}
        if TRUNC is not None:
            return SR(_mul_trunc(a, b, *TRUNC))
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = _mono_mul(m1, m2)
                s = p.get(m)
                s = c1*c2 if s is None else s + c1*c2
                if s:
                    p[m] = s
                else:
                    p.pop(m, None)
        return SR(p, lb)

    __rmul__ = __mul__

    def _mul_special(self, o):
        if o != o:
            return o
        if self > 0:
            return o
        if self < 0:
            return -o
        return math.nan

    def __truediv__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return o if o != o else SR({})
        return sdiv(self, o)

    def __rtruediv__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return self._mul_special(o)
        return sdiv(o, self)

    def __floordiv__(self, o):
        raise Unsupported("floor division of a symbolic real")

    def __pow__(self, q):
        if isinstance(q, np.ndarray) and q.ndim == 0:
            q = q.item()
        if isinstance(q, SR):
            if q.is_const():
                q = q.const_value()
            else:
                raise Unsupported("symbolic exponent")
        if isinstance(q, NUM):
            return spow(self, q)
        return NotImplemented

    def __rpow__(self, b):
        b = float(b)
        return spowb(b, self)

    def __abs__(self):
        return sabs(self)

    def sqrt(self):
        return ssqrt(self)

    def log10(self):
        return sfun1("log10", self)

    def log(self):
        return sfun1("log", self)

    def exp(self):
        return sfun1("exp", self)

    def __float__(self):
        if self.is_const():
            return float(self.const_value())
        raise Unsupported("float() of a symbolic real")

    def __int__(self):
        return sint(self)

    def __round__(self, n=None):
        if n:
            raise Unsupported("round with digits")
        return sint(self + Fraction(1, 2))

    # -- comparison
    def _cmp(self, rel, o, swap=False):
        o = self._co(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            if o != o:
                return rel == "!="
            big = o > 0
            return {"<": big, "<=": big, ">": not big, ">=": not big,
                    "==": False, "!=": True}[rel]
        if rel in (">", ">="):
            d = o - self
            rel = {">": "<", ">=": "<="}[rel]
        else:
            d = self - o
        return mkcmp(rel, d)

    def __lt__(self, o):
        return self._cmp("<", o)

    def __le__(self, o):
        return self._cmp("<=", o)

    def __gt__(self, o):
        return self._cmp(">", o)

    def __ge__(self, o):
        return self._cmp(">=", o)

    def __eq__(self, o):
        return self._cmp("==", o)

    def __ne__(self, o):
        return self._cmp("!=", o)

    def __bool__(self):
        return bool(self != 0)


def _single(p):
    """p == c * atom^1 exactly? return (c, atom)"""
    if len(p) == 1:
        (m, c), = p.items()
        if len(m) == 1 and m[0][1] == 1:
            return c, STORE.atoms[m[0][0]]
    return None


def clear_den(d):
    """multiply by positive quantities: removes reciprocals and negative
    powers of atoms of known sign. Returns (sign-preserving) polynomial."""
    for _ in range(8):
        neg = {}
        for m in d.p:
            for aid, e in m:
                at = STORE.atoms[aid]
                if at.kind == "inv" and e > 0:
                    neg[aid] = max(neg.get(aid, 0), e)
                elif e < 0:
                    neg[aid] = max(neg.get(aid, 0), -e)
        done = True
        for aid, k in neg.items():
            at = STORE.atoms[aid]
            if at.kind == "inv":
                den = at.args[0]
                lo, hi = den.interval()
                if lo >= 0:
                    sg = 1
                elif hi <= 0:
                    sg = -1
                else:
                    continue
                if len(d.p) * len(den.p)**k > 4000:
                    continue
                r = SR({})
                groups = {}
                for m, c in d.p.items():
                    dm = dict(m)
                    j = dm.pop(aid, 0)
                    groups.setdefault(k - j, {})[tuple(sorted(
                        dm.items()))] = c
                for pw, g in groups.items():
                    r = r + SR(g)*_powint(den, pw) if pw else r + SR(g)
                d = r if sg > 0 or k % 2 == 0 else -r
                done = False
                break
            else:
                if at.lo >= 0:
                    sg = 1
                elif at.hi <= 0:
                    sg = -1
                else:
                    k += k % 2
                    sg = 1
                d = SR({_mono_mul(m, ((aid, k),)): c for m, c in d.p.items()})
                if sg < 0 and k % 2:
                    d = -d
                done = False
                break
        if done or d.is_const():
            break
    return d


def drop_common(rel, d):
    """divide by a common monomial of known strict sign / simplify"""
    common = common_factor(d.p)
    for k, e in list(common.items()):
        a = STORE.atoms[k]
        if a.lo > 0 or a.hi < 0:
            inv = ((k, -e),)
            neg = a.hi < 0 and e % 2
            d = SR({_mono_mul(m, inv): -c if neg else c
                    for m, c in d.p.items()})
    return d


def _same(sb, rel, d):
    if isinstance(sb, SymBool):
        sb.also = sb.also + ((rel, d),)
    return sb


def mkcmp(rel, d):
    """d rel 0"""
    if d.is_const():
        c = d.const_value()
        return {"<": c < 0, "<=": c <= 0, "==": c == 0, "!=": c != 0}[rel]
    # c*s + k  rel 0 with s = sqrt(e) or a power compared to one
    if len(d.p) <= 2:
        k = d.p.get((), Fraction(0))
        rest = [(m, c) for m, c in d.p.items() if m]
        if len(rest) == 1 and len(rest[0][0]) == 1 and rest[0][0][0][1] == 1:
            (m, c), = rest
            at = STORE.atoms[m[0][0]]
            b = -k/c
            if at.kind == "sqrt":
                if b < 0:
                    return {"<": c < 0, "<=": c < 0, "==": False,
                            "!=": True}[rel]
                if b >= 0:
                    dd = (at.args[0] - b*b)
                    return _same(mkcmp(rel, dd if c > 0 else -dd), rel, d)
            if at.kind == "pow" and b == 1:
                dd = at.args[0] - 1
                if at.args[1] < 0:
                    dd = -dd
                return _same(mkcmp(rel, dd if c > 0 else -dd), rel, d)
        if len(rest) == 1 and len(rest[0][0]) > 1:
            # c * sqrt(e) * (nonnegative factors) + k
            (m, c), = rest
            ats = [(STORE.atoms[a], e) for a, e in m]
            if any(a.kind == "sqrt" and e % 2 for a, e in ats) and all(
                    a.lo >= 0 for a, e in ats):
                b = -k/c
                if b < 0:
                    return {"<": c < 0, "<=": c < 0, "==": False,
                            "!=": True}[rel]
                sq = SR.const(1)
                for a, e in ats:
                    if a.kind == "sqrt":
                        sq = sq*_powint(a.args[0], e)
                    else:
                        sq = sq*SR({((a.id, 2*e),): Fraction(1)})
                dd = sq - b*b
                return _same(mkcmp(rel, dd if c > 0 else -dd), rel, d)
    if any(e < 0 or STORE.atoms[a].kind == "inv" for m in d.p for a, e in m):
        d2 = clear_den(d)
        if d2 is not d:
            return _same(mkcmp(rel, d2), rel, d)
    d2 = drop_common(rel, d)
    if d2.is_const():
        return mkcmp(rel, d2)
    return _same(SymBool(rel, d2), rel, d)


# formulas: ('rel', rel, SR) | ('and', [..]) | ('or', [..]) | True | False
class SymBool:
    __slots__ = ("f", "also")

    def __init__(self, rel, d=None):
        self.f = ("rel", rel, d) if d is not None else rel
        self.also = ()          # equivalent relations in other atoms

    def __bool__(self):
        if ENGINE is None:
            raise Unsupported("symbolic condition outside of an engine")
        return ENGINE.decide(self)

    def __and__(self, o):
        return sand(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return sor(self, o)

    __ror__ = __or__

    def __invert__(self):
        return snot(self)

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f"SymBool{self.f!r}"[:300]


def _form(x):
    if isinstance(x, SymBool):
        return x.f
    return bool(x)


def _wrap(f):
    return f if isinstance(f, bool) else SymBool(f)


def fnot(f):
    if isinstance(f, bool):
        return not f
    if f[0] == "rel":
        _, r, d = f
        if r == "<":
            return ("rel", "<=", -d)
        if r == "<=":
            return ("rel", "<", -d)
        return ("rel", "!=" if r == "==" else "==", d)
    if f[0] == "and":
        return ("or", [fnot(g) for g in f[1]])
    return ("and", [fnot(g) for g in f[1]])


def fand(fs):
    out = []
    for f in fs:
        if f is False:
            return False
        if f is not True:
            out.append(f)
    if not out:
        return True
    return out[0] if len(out) == 1 else ("and", out)


def for_(fs):
    out = []
    for f in fs:
        if f is True:
            return True
        if f is not False:
            out.append(f)
    if not out:
        return False
    return out[0] if len(out) == 1 else ("or", out)


def sand(*xs):
    return _wrap(fand([_form(x) for x in xs]))


def sor(*xs):
    return _wrap(for_([_form(x) for x in xs]))


def snot(x):
    return _wrap(fnot(_form(x)))


def simplies(a, b):
    return sor(snot(a), b)


# --------------------------------------------------------------------------
# defined functions (work on SR and on plain numbers)
def is_sym(x):
    return isinstance(x, SR)


def _content(p):
    """split p = scale * q with a canonical leading coefficient"""
    m0 = min(p)
    return p[m0]


def sabs(x):
    if not is_sym(x):
        return abs(x)
    if x.is_const():
        return SR.const(abs(x.const_value()))
    # |c * prod a^e| = |c| prod |a|^e, known signs taken out
    lo, hi = x.interval()
    if lo >= 0:
        return SR(x.p, max(lo, 0.0))
    if hi <= 0:
        return SR((-x).p, max(-hi, 0.0))
    if len(x.p) == 1:
        (m, c), = x.p.items()
        r = SR.const(abs(c))
        for aid, e in m:
            a = STORE.atoms[aid]
            base = SR({((aid, 1),): Fraction(1)})
            if not (a.lo >= 0 or e % 2 == 0):
                base = -base if a.hi <= 0 else _abs_atom(base)
            r = r * _powint(base, e)
        return r
    common = common_factor(x.p)
    if common:
        inv = tuple(sorted((k, -e) for k, e in common.items()))
        rest = SR({_mono_mul(m, inv): c for m, c in x.p.items()})
        return sabs(SR({tuple(sorted(common.items())): Fraction(1)}))*sabs(rest)
    s = abs(_content(x.p))
    q = SR({m: c/s for m, c in x.p.items()})
    if _content(q.p) < 0:
        q = -q
    return _abs_atom(q) * s


def common_factor(p):
    """largest common Laurent monomial {atom: exp} of a polynomial"""
    common = None
    for m in p:
        d = dict(m)
        common = d if common is None else {
            k: (min(e, d[k]) if e > 0 else max(e, d[k]))
            for k, e in common.items() if k in d and (d[k] > 0) == (e > 0)}
        if not common:
            return {}
    return common or {}


def _powint(x, e):
    if e == 1:
        return x
    if e < 0:
        return sdiv(SR.const(1), _powint(x, -e))
    r = SR.const(1)
    for _ in range(e):
        r = r*x
    if e % 2 == 0:
        r = SR(r.p, 0.0)
    return r


def _abs_atom(q):
    lo, hi = q.interval()
    return STORE.new("abs", q.key(), (q,), 0.0, max(abs(lo), abs(hi)))


def _isnan(x):
    return isinstance(x, (float, np.floating)) and x != x


def smax2(a, b, nan_prop=False):
    if not is_sym(a) and not is_sym(b):
        if nan_prop and (_isnan(a) or _isnan(b)):
            return math.nan
        return b if b > a else a            # python semantics max(a, b)
    if _isnan(a):
        return a
    if _isnan(b):
        return b if nan_prop else a
    for x, y in ((a, b), (b, a)):
        if not is_sym(x) and math.isinf(x):
            return x if x > 0 else y
    a = a if is_sym(a) else SR.const(a)
    b = b if is_sym(b) else SR.const(b)
    d = a - b
    if d.is_const():
        return a if d.const_value() >= 0 else b
    lo, hi = d.interval()
    if lo >= 0:
        return a
    if hi <= 0:
        return b
    k = _known_le(d)
    if k is not None:
        return b if k else a
    (l1, h1), (l2, h2) = a.interval(), b.interval()
    return STORE.new("max", frozenset((a.key(), b.key())), (a, b),
                     max(l1, l2), max(h1, h2))


def _known_le(d):
    """is d <= 0 decided already? (decided by forking in concolic mode or
    when the engine is told to fork on max and min)"""
    if ENGINE is None:
        return None
    c = mkcmp("<=", d)
    if not isinstance(c, SymBool):
        return bool(c)
    c2 = mkcmp("<=", -d)
    if isinstance(c2, SymBool) and not isinstance(c2.f, bool) and \
            ENGINE.known.get(ENGINE._key(c2.f)):
        return False
    if ENGINE.sample is not None or ENGINE.fork_max:
        return bool(c)
    k = ENGINE._key(c.f) if not isinstance(c.f, bool) else None
    return ENGINE.known.get(k) if k is not None else None


def smin2(a, b, nan_prop=False):
    if not is_sym(a) and not is_sym(b):
        if nan_prop and (_isnan(a) or _isnan(b)):
            return math.nan
        return b if b < a else a
    if _isnan(a):
        return a
    if _isnan(b):
        return b if nan_prop else a
    for x, y in ((a, b), (b, a)):
        if not is_sym(x) and math.isinf(x):
            return x if x < 0 else y
    a = a if is_sym(a) else SR.const(a)
    b = b if is_sym(b) else SR.const(b)
    d = a - b
    if d.is_const():
        return b if d.const_value() >= 0 else a
    lo, hi = d.interval()
    if lo >= 0:
        return b
    if hi <= 0:
        return a
    k = _known_le(d)
    if k is not None:
        return a if k else b
    (l1, h1), (l2, h2) = a.interval(), b.interval()
    return STORE.new("min", frozenset((a.key(), b.key())), (a, b),
                     min(l1, l2), min(h1, h2))


def smax(*xs):
    if len(xs) == 1:
        xs = list(xs[0])
    r = xs[0]
    for x in xs[1:]:
        r = smax2(r, x)
    return r


def smin(*xs):
    if len(xs) == 1:
        xs = list(xs[0])
    r = xs[0]
    for x in xs[1:]:
        r = smin2(r, x)
    return r


def sdiv(n, d):
    if d.is_const():
        c = d.const_value()
        if c == 0:
            if n.is_const() and n.const_value() == 0:
                return math.nan
            if n > 0:
                return INF
            return -INF if n < 0 else math.nan
        return SR({m: v/c for m, v in n.p.items()},
                  0.0 if n.nn and c > 0 else None)
    # zero divisor?
    lo, hi = d.interval()
    if not (lo > 0 or hi < 0):
        if ENGINE is not None and ENGINE.decide(SymBool("==", d)):
            if ENGINE.div0 == "abort":
                raise PathAbort("division by zero")
            if n > 0:
                return INF
            return -INF if n < 0 else math.nan
    if not n.p:
        return n
    if len(d.p) == 1:
        (m, c), = d.p.items()
        inv = tuple((a, -e) for a, e in m)
        return SR({_mono_mul(mm, inv): v/c for mm, v in n.p.items()})
    # exact multiple?
    r = _ratio(n, d)
    if r is not None:
        return SR.const(r)
    # canonical: den with unit leading coefficient and no common monomial
    common = None
    for m in d.p:
        dm = dict(m)
        common = dm if common is None else {
            k: e for k, e in common.items() if dm.get(k, 0) == e}
        if not common:
            break
    if common:
        inv = tuple(sorted((k, -e) for k, e in common.items()))
        iv = SR({inv: Fraction(1)})
        n, d = n*iv, d*iv
    s = _content(d.p)
    d = SR({m: c/s for m, c in d.p.items()})
    # 1/d as an atom: shares structure between numerators
    lo, hi = d.interval()
    il, ih = _ipow((lo, hi), -1) if (lo > 0 or hi < 0 or lo == 0 or hi == 0) \
        else (-INF, INF)
    inv = STORE.new("inv", d.key(), (d,), *_infl(il, ih))
    return n*inv*(1/s)


def exact_div(n, d):
    """quotient of two (Laurent) polynomials if the division is exact, else
    None (multivariate division, lexicographic order)"""
    if not isinstance(n, SR):
        n = SR.const(n)
    if not n.p:
        return n
    if len(d.p) == 1 or len(n.p) < len(d.p):
        return None

    def shift(x):
        low = {}
        for m in x.p:
            dm = dict(m)
            for k in dm:
                low.setdefault(k, None)
        for k in low:
            low[k] = min(dict(m).get(k, 0) for m in x.p)
        inv = tuple(sorted((k, -e) for k, e in low.items() if e))
        return {_mono_mul(m, inv): c for m, c in x.p.items()} if inv \
            else dict(x.p), tuple((k, -e) for k, e in inv)
    N, fn = shift(n)
    D, fd = shift(d)
    ids = sorted({k for m in N for k, _ in m} | {k for m in D for k, _ in m})
    pos = {k: i for i, k in enumerate(ids)}

    def vec(m):
        v = [0]*len(ids)
        for k, e in m:
            v[pos[k]] = e
        return tuple(v)
    N = {vec(m): c for m, c in N.items()}
    D = {vec(m): c for m, c in D.items()}
    ld = max(D)
    cd = D[ld]
    Q = {}
    import heapq
    heap = [tuple(-e for e in m) for m in N]
    heapq.heapify(heap)
    steps = 0
    while heap:
        m = tuple(-e for e in heapq.heappop(heap))
        c = N.get(m)
        if not c:
            N.pop(m, None)
            continue
        q = tuple(a - b for a, b in zip(m, ld))
        steps += 1
        if min(q) < 0 or steps > 20000:
            return None
        qc = c/cd
        Q[q] = Q.get(q, 0) + qc
        for dm, dc in D.items():
            k = tuple(a + b for a, b in zip(q, dm))
            if k not in N:
                N[k] = -qc*dc
                heapq.heappush(heap, tuple(-e for e in k))
            else:
                N[k] -= qc*dc
    out = {}
    sh = _mono_mul(tuple(sorted(fn)), tuple(sorted((k, -e) for k, e in fd)))
    for q, c in Q.items():
        if c:
            m = tuple((ids[i], e) for i, e in enumerate(q) if e)
            out[_mono_mul(m, sh) if sh else m] = c
    return SR(out)


def reduce_inv(x):
    """normal form of a polynomial modulo the definitions r*den = 1 of the
    quotients r in it (lexicographically leading monomial of den)"""
    if not is_sym(x):
        return x
    while True:
        before = x
        for i in sorted(x.atoms(), reverse=True):
            at = STORE.atoms[i]
            if at.kind != "inv" or any(e < 0 for m in at.args[0].p
                                       for _, e in m):
                continue
            den = at.args[0]
            ids = sorted(den.atoms())
            lm = max(den.p, key=lambda m: tuple(dict(m).get(k, 0)
                                                for k in ids))
            c = den.p[lm]
            rest = SR({m: v for m, v in den.p.items() if m != lm})
            r = SR({((i, 1),): Fraction(1)})
            sub = (1 - rest*r)*(1/c)
            while True:
                todo, keep = {}, {}
                for m, v in x.p.items():
                    dm = dict(m)
                    if dm.get(i, 0) >= 1 and all(dm.get(k, 0) >= e
                                                 for k, e in lm):
                        for k, e in lm:
                            dm[k] -= e
                        dm[i] -= 1
                        todo[tuple(sorted((k, q) for k, q in dm.items()
                                          if q))] = v
                    else:
                        keep[m] = v
                if not todo:
                    break
                x = SR(keep) + SR(todo)*sub
                if not is_sym(x) or len(x.p) > 60000:
                    return x
        if x.p == before.p:
            return x


def numerator(x):
    """(n, d) with x = n/d and without quotients; d is a product of the
    denominators of the quotients in x"""
    d = SR.const(1)
    while is_sym(x):
        q = [i for i in x.atoms() if STORE.atoms[i].kind == "inv"]
        if not q:
            break
        i = max(q)
        den = STORE.atoms[i].args[0]
        e = max(dict(m).get(i, 0) for m in x.p)
        if e <= 0:
            break
        pw = [SR.const(1)]
        for _ in range(e):
            pw.append(pw[-1]*den)
        parts = {}
        for m, c in x.p.items():
            k = dict(m).get(i, 0)
            if k < 0:
                return None, None
            parts.setdefault(k, {})[tuple((a, b) for a, b in m
                                          if a != i)] = c
        n = SR({})
        for k, p in parts.items():
            n = n + SR(p)*pw[e - k]
        x, d = n, d*pw[e]
    return x, d


def _ratio(n, d):
    if len(n.p) != len(d.p):
        return None
    r = None
    for m, c in n.p.items():
        c2 = d.p.get(m)
        if c2 is None:
            return None
        q = c/c2
        if r is None:
            r = q
        elif r != q:
            return None
    return r


def _is_square(p):
    """p = c * mono with all-even exponents, c > 0"""
    if len(p) == 1:
        (m, c), = p.items()
        return c > 0 and all(e % 2 == 0 for _, e in m)
    return False


def _fsqrt(c):
    """rational sqrt, exact if perfect square, else float-close rational"""
    if c < 0:
        return None, False
    n, d = c.numerator, c.denominator
    a, b = math.isqrt(n), math.isqrt(d)
    if a*a == n and b*b == d:
        return Fraction(a, b), True
    return None, False


def ssqrt(x):
    if not is_sym(x):
        if x < 0:
            return math.nan
        return math.sqrt(x)
    if x.is_const():
        c = x.const_value()
        if c < 0:
            return math.nan
        r, ok = _fsqrt(c)
        if ok:
            return SR.const(r)
        try:
            return SR.const(math.sqrt(c))
        except OverflowError:
            pass
    lo, hi = x.interval()
    if lo < 0 and not x.nn and not _sum_of_squares(x.p):
        if ENGINE.decide(SymBool("<", x)):
            return math.nan
    # take out even powers common to all monomials
    out = SR.const(1)
    if len(x.p) == 1:
        (m, c), = x.p.items()
        rest = []
        for aid, e in m:
            h, r = divmod(e, 2)
            if h:
                b = sabs(SR({((aid, 1),): Fraction(1)}))
                out = out*_powint(b, h)
            if r:
                rest.append((aid, r))
        r, ok = _fsqrt(c)
        if ok:
            out, c = out*r, Fraction(1)
        x = SR({tuple(rest): c})
        if x.is_const() and x.const_value() == 1:
            return out
    else:
        common = common_factor(x.p)
        common = {k: 2*(e//2) if e > 0 else -2*(-e//2)
                  for k, e in common.items()}
        common = {k: e for k, e in common.items() if e}
        if common:
            inv = SR({tuple(sorted((k, -e) for k, e in common.items())):
                      Fraction(1)})
            x = x*inv
            for k, e in common.items():
                out = out*_powint(sabs(SR({((k, 1),): Fraction(1)})), e//2)
        sq = _poly_sqrt(x)
        if sq is not None:
            return out*sabs(sq)
        c = abs(_content(x.p))
        r, ok = _fsqrt(c)
        if ok and r != 1:
            x = SR({m: v/c for m, v in x.p.items()})
            out = out*r
    lo, hi = x.interval()
    lo = max(lo, 0.0)
    return out*STORE.new("sqrt", x.key(), (x,),
                         *_infl(math.sqrt(lo), math.sqrt(hi) if hi < INF
                                else INF))


def _sum_of_squares(p):
    return all(c > 0 and all(e % 2 == 0 or STORE.atoms[a].lo >= 0
                             for a, e in m) for m, c in p.items())


def _poly_sqrt(x):
    """exact polynomial square root of a small polynomial, or None"""
    p = x.p
    if len(p) > 12:
        return None
    sq = {}
    for m, c in p.items():
        if all(e % 2 == 0 for _, e in m):
            r, ok = _fsqrt(c) if c > 0 else (None, False)
            if ok:
                sq[tuple((a, e//2) for a, e in m)] = r
    if not sq or len(sq) > 4:
        return None
    k = len(sq)
    if len(p) > k*(k+1)//2:
        return None
    items = list(sq.items())
    for signs in range(2**(k-1)):
        q = {}
        for i, (m, c) in enumerate(items):
            q[m] = -c if i and (signs >> (i-1)) & 1 else c
        q = SR(q)
        if (q*q - x).p == {}:
            return q
    return None


def spow(x, q):
    """x**q with constant q"""
    if not is_sym(x):
        return x**q
    qf = frac(q)
    near = qf.limit_denominator(64)
    if abs(float(near - qf)) < 1e-15:
        qf = near                      # 1/3 and the like
    if qf.denominator == 1 and abs(qf) <= 64:
        return _powint(x, int(qf)) if qf else SR.const(1)
    if qf == Fraction(1, 2):
        return ssqrt(x)
    if qf == Fraction(-1, 2):
        return 1/ssqrt(x)
    if x.is_const():
        c = x.const_value()
        if c == 0:
            return SR({}) if qf > 0 else INF
        return SR.const(float(c)**float(q)) if c > 0 else math.nan
    lo, hi = x.interval()
    if lo < 0 and ENGINE.decide(SymBool("<", x)):
        return math.nan
    if lo <= 0 and ENGINE.decide(SymBool("==", x)):
        return SR({}) if qf > 0 else INF
    lo = max(lo, 0.0)

    def pw(v):
        if v == 0:
            return 0.0 if qf > 0 else INF
        if v == INF:
            return INF if qf > 0 else 0.0
        return v**float(q)
    a, b = sorted((pw(lo), pw(hi)))
    return STORE.new("pow", (x.key(), qf), (x, qf), *_infl(a, b))


def spowb(b, x):
    lo, hi = x.interval()

    def pw(v):
        try:
            return b**v
        except OverflowError:
            return INF
    return STORE.new("powb", (b, x.key()), (b, x), *_infl(pw(lo), pw(hi)))


_F1 = {"log10": (math.log10, -INF), "log": (math.log, -INF),
       "exp": (math.exp, 0.0), "sinh": (math.sinh, -INF),
       "cosh": (math.cosh, 1.0)}


def sfun1(name, x):
    f, dl = _F1[name]
    if not is_sym(x):
        return f(x)
    if x.is_const():
        return SR.const(f(float(x.const_value())))
    lo, hi = x.interval()

    def ev(v, d):
        try:
            return f(v)
        except (ValueError, OverflowError):
            return d
    if name == "cosh":
        return STORE.new(name, x.key(), (x,), 1.0, INF)
    return STORE.new(name, x.key(), (x,),
                     *_infl(ev(lo, -INF if name != "exp" else 0.0),
                            ev(hi, INF)))


def sint(x):
    """int() of a non-negative symbolic real: enumerates the integer"""
    if not is_sym(x):
        return int(x)
    if x.is_const():
        return int(x.const_value())
    lo, hi = x.interval()
    if lo < 0:
        if ENGINE.decide(SymBool("<", x)):
            return -sint(-x)
        lo = 0
    k = int(lo)
    while True:
        if k > ENGINE.max_int:
            raise PathAbort(f"integer value above {ENGINE.max_int}")
        if x < k + 1:
            return k
        k += 1


def ssign(x):
    if not is_sym(x):
        return float(np.sign(x))
    if x > 0:
        return 1.0
    if x < 0:
        return -1.0
    return 0.0


def scopysign(a, b):
    if not is_sym(a) and not is_sym(b):
        return math.copysign(a, b)
    neg = bool(b < 0) if is_sym(b) else math.copysign(1, b) < 0
    a = sabs(a)
    return -a if neg else a


# --------------------------------------------------------------------------
# numeric evaluation
def evalf(x, env, cache):
    """float value of SR under env: atom id -> float (inputs)"""
    if not is_sym(x):
        return float(x)
    s = 0.0
    for m, c in x.p.items():
        t = float(c)
        for aid, e in m:
            t *= eval_atom(aid, env, cache)**e
        s += t
    return s


def eval_atom(aid, env, cache):
    v = cache.get(aid)
    if v is not None:
        return v
    a = STORE.atoms[aid]
    if aid in env:
        v = env[aid]
    elif a.kind == "in":
        v = env.get(aid)
        if v is None:
            v = default_value(a)
    else:
        A = [evalf(y, env, cache) if is_sym(y) else y for y in a.args]
        k = a.kind
        if k == "abs":
            v = abs(A[0])
        elif k == "max":
            v = max(A)
        elif k == "min":
            v = min(A)
        elif k == "inv":
            v = 1/A[0]
        elif k == "sqrt":
            v = math.sqrt(max(A[0], 0.0))
        elif k == "pow":
            v = A[0]**float(A[1])
        elif k == "powb":
            v = A[0]**A[1]
        else:
            v = _F1[k][0](A[0])
    cache[aid] = v
    return v


def default_value(a):
    if a.pin:
        return float(a.pin[0])
    lo, hi = a.lo, a.hi
    if lo > -INF and hi < INF:
        return 0.5*(lo + hi)
    if lo > -INF:
        return lo + 1.0
    if hi < INF:
        return hi - 1.0
    return 0.0


def eval_form(f, env, cache):
    if isinstance(f, bool):
        return f
    if f[0] == "rel":
        v = evalf(f[2], env, cache)
        return {"<": v < 0, "<=": v <= 0, "==": v == 0, "!=": v != 0}[f[1]]
    if f[0] == "and":
        return all(eval_form(g, env, cache) for g in f[1])
    return any(eval_form(g, env, cache) for g in f[1])


# --------------------------------------------------------------------------
# z3 encoding
def rat(c):
    return z3.RatVal(c.numerator, c.denominator)


class Enc:
    """one z3 context of constraints. linear=True: every nonlinear monomial is
    an interval-bounded variable; linear=False: true products."""

    def __init__(self, linear, pins=None):
        self.linear = linear
        self.pins = pins or {}
        self.vars = {}
        self.mvars = {}
        self.cons = []
        self.done = set()
        self.pows = {}

    def var(self, aid):
        v = self.vars.get(aid)
        if v is None:
            a = STORE.atoms[aid]
            if aid in self.pins:
                v = rat(frac(self.pins[aid]))
                self.vars[aid] = v
                return v
            if self.pins and a.kind in ("pow", "powb", "sqrt"):
                ids = closure(set([aid]))
                if all(i in self.pins or STORE.atoms[i].kind != "in"
                       for i in ids):
                    # search with fixed inputs: use the value
                    x = eval_atom(aid, {i: float(p) for i, p in
                                        self.pins.items()}, {})
                    v = self.vars[aid] = rat(frac(float(x)))
                    return v
            v = self.vars[aid] = z3.Real(f"x{aid}")
            self.bounds(v, a.lo, a.hi)
            self.define(a, v)
        return v

    def bounds(self, v, lo, hi):
        if lo > -INF:
            self.cons.append(v >= rat(frac(lo)))
        if hi < INF:
            self.cons.append(v <= rat(frac(hi)))

    def define(self, a, v):
        k = a.kind
        if k == "abs":
            e = self.poly(a.args[0].p)
            self.cons += [v >= e, v >= -e, z3.Or(v == e, v == -e)]
        elif k in ("max", "min"):
            e, g = self.poly(a.args[0].p), self.poly(a.args[1].p)
            if k == "max":
                self.cons += [v >= e, v >= g, z3.Or(v == e, v == g)]
            else:
                self.cons += [v <= e, v <= g, z3.Or(v == e, v == g)]
        elif k == "inv":
            d = a.args[0]
            me = SR({((a.id, 1),): Fraction(1)})
            self.cons.append(self.poly((me*d - 1).p) == 0)
        elif k == "sqrt":
            me = SR({((a.id, 1),): Fraction(1)})
            self.cons.append(self.poly((me*me - a.args[0]).p) == 0)
            self.cons.append(v >= 0)
            # sqrt(e) vs 1
            e = self.poly(a.args[0].p)
            self.cons += [z3.Implies(e < 1, v < 1), z3.Implies(e >= 1, v >= 1)]
        elif k == "pow":
            x, q = a.args
            e = self.poly(x.p)
            up = q > 0
            self.cons.append(v > 0)
            self.cons += [
                z3.Implies(e < 1, v < 1 if up else v > 1),
                z3.Implies(e > 1, v > 1 if up else v < 1),
                z3.Implies(e == 1, v == 1)]
            for (v2, e2) in self.pows.get(q, []):
                self.cons += [z3.Implies(e < e2, v < v2 if up else v > v2),
                              z3.Implies(e > e2, v > v2 if up else v < v2),
                              z3.Implies(e == e2, v == v2)]
            self.pows.setdefault(q, []).append((v, e))
            # rational powers with small numerator and denominator: exact
            if not self.linear and q.denominator <= 3 and abs(q.numerator) <= 3:
                lhs = SR({((a.id, int(q.denominator)),): Fraction(1)})
                rhs = _powint(x, abs(int(q.numerator)))
                d = lhs - rhs if q > 0 else lhs*rhs - 1
                self.cons.append(self.poly(d.p) == 0)
        elif k == "powb":
            self.cons.append(v > 0)

    def mono(self, m):
        if not m:
            return None
        if len(m) == 1 and m[0][1] == 1:
            return self.var(m[0][0])
        if self.linear:
            # pull out pinned variables
            v = self.mvars.get(m)
            if v is None:
                v = self.mvars[m] = z3.Real("m_" + "_".join(
                    f"{a}.{e}" for a, e in m).replace("-", "n"))
                self.bounds(v, *mono_interval(m))
                for a, _ in m:
                    self.var(a)
            return v
        r = None
        for aid, e in m:
            v = self.var(aid)
            if e < 0:
                iv = self.mvars.get(aid)
                if aid in self.pins:
                    iv = rat(1/frac(self.pins[aid]))
                elif iv is None:
                    iv = self.mvars[aid] = z3.Real(f"i{aid}")
                    self.cons.append(iv*v == 1)
                    a = STORE.atoms[aid]
                    self.bounds(iv, *_ipow((a.lo, a.hi), -1))
                v, e = iv, -e
            for _ in range(e):
                r = v if r is None else r*v
        return r

    def poly(self, p):
        terms = []
        for m, c in p.items():
            t = self.mono(m)
            if t is None:
                terms.append(rat(c))
            elif c == 1:
                terms.append(t)
            else:
                terms.append(rat(c)*t)
        if not terms:
            return z3.RealVal(0)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def form(self, f):
        if isinstance(f, bool):
            return z3.BoolVal(f)
        if f[0] == "rel":
            p = f[2].p
            # scale to a moderate size
            e = self.poly(p)
            return {"<": e < 0, "<=": e <= 0, "==": e == 0,
                    "!=": e != 0}[f[1]]
        if f[0] == "and":
            return z3.And([self.form(g) for g in f[1]])
        return z3.Or([self.form(g) for g in f[1]])


def form_atoms(f, acc):
    if isinstance(f, bool):
        return acc
    if f[0] == "rel":
        acc |= f[2].atoms()
    else:
        for g in f[1]:
            form_atoms(g, acc)
    return acc


def closure(aids):
    todo, seen = list(aids), set()
    while todo:
        a = todo.pop()
        if a in seen:
            continue
        seen.add(a)
        todo.extend(STORE.atoms[a].deps)
    return seen


class Stats:
    def __init__(self):
        self.queries = self.unsat = self.sat = self.unknown = 0
        self.time = 0.0
        self.linear = self.nonlinear = 0

    def add(self, r, t, linear):
        self.queries += 1
        self.time += t
        if linear:
            self.linear += 1
        else:
            self.nonlinear += 1
        if r == z3.unsat:
            self.unsat += 1
        elif r == z3.sat:
            self.sat += 1
        else:
            self.unknown += 1


def run_z3(forms, linear, timeout_ms, stats, pins=None, want_model=False,
           seed=1):
    enc = Enc(linear, pins)
    fs = [enc.form(f) for f in forms]
    if linear:
        s = z3.SimpleSolver()
        s.set("timeout", timeout_ms)
    else:
        s = z3.Solver() if pins else z3.SolverFor("QF_NRA")
        s.set("timeout", timeout_ms)
    s.set("random_seed", seed) if linear or pins else None
    for c in enc.cons:
        s.add(c)
    for f in fs:
        s.add(f)
    t = time.time()
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    stats.add(r, time.time() - t, linear)
    if want_model:
        m = None
        if r == z3.sat:
            mod = s.model()
            m = {}
            for aid, v in enc.vars.items():
                if STORE.atoms[aid].kind != "in":
                    continue
                if aid in (pins or {}):
                    m[aid] = float(pins[aid])
                    continue
                val = mod.eval(v, model_completion=True)
                m[aid] = z3float(val)
        return r, m
    return r


def z3float(val):
    try:
        if z3.is_algebraic_value(val):
            val = val.approx(30)
        f = val.as_fraction()
        return float(f)
    except Exception:
        return 0.0


# --------------------------------------------------------------------------
class Engine:
    """explores one harness"""

    def __init__(self, seed=1, max_paths=200, budget=60.0, branch_ms=400,
                 claim_ms=4000, div0="abort", sample=None, max_int=64,
                 nra_branch=True, stats=None, pins_tries=12, policy=None,
                 congr=False, fork_max=False, mix=0.5):
        self.seed, self.max_paths, self.budget = seed, max_paths, budget
        self.branch_ms, self.claim_ms = branch_ms, claim_ms
        self.div0, self.max_int = div0, max_int
        self.nra_branch = nra_branch
        self.stats = stats or Stats()
        self.sample = sample           # dict name -> value : concolic single path
        self.pins_tries = pins_tries
        self.rng = random.Random(seed)
        self.fork_max = fork_max
        self.mix = mix
        self.cands = []                # candidate violations
        self.obligations = 0
        self.discharged = 0
        self.inconclusive = []
        self.paths = 0
        self.aborted = {}
        self.truncated = False
        self.labels = {}
        self.notes = {}
        self.stop_on_cand = True

    # ---- per path state
    def _reset_path(self, prefix):
        reset_store()
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.pc = []                    # formulas
        self.known = {}
        self.inputs = {}
        self.calls = {}
        self._cache = {}
        self.order = []

    def explore(self, body):
        """body(engine) runs the harness once"""
        global ENGINE
        stack = [[]]
        t0 = time.time()
        while stack:
            if self.paths >= self.max_paths or time.time() - t0 > self.budget:
                self.truncated = True
                break
            if len(stack) > 1 and self.rng.random() < self.mix:
                # not only depth first: spread over the tree
                i = self.rng.randrange(len(stack))
                stack[i], stack[-1] = stack[-1], stack[i]
            prefix = stack.pop()
            self._reset_path(prefix)
            self.deadline = t0 + self.budget
            self.stack = stack
            ENGINE = self
            try:
                body(self)
                self.paths += 1
            except PathAbort as e:
                self.aborted[str(e)] = self.aborted.get(str(e), 0) + 1
            except Infeasible:
                pass
            finally:
                ENGINE = None
            if self.cands and self.stop_on_cand and len(self.cands) >= 6:
                break
        self.wall = time.time() - t0

    # ---- decisions
    def _key(self, f):
        if f[0] == "rel":
            d = f[2]
            c = abs(_content(d.p))
            neg = _content(d.p) < 0
            q = frozenset((m, v/c if not (f[1] in ("==", "!=") and neg)
                           else -v/c) for m, v in d.p.items())
            return (f[1], q)
        return None

    def _note(self, f, val):
        g = f if val else fnot(f)
        self.pc.append(g)
        if f[0] == "rel":
            tighten_rel(f[1], f[2], val)
        k = self._key(f)
        if k is not None:
            self.known[k] = val
            nk = self._key(fnot(f))
            self.known[nk] = not val
            if g[0] == "rel" and g[1] in ("<",):      # d<0 implies others
                d = g[2]
                self.known[self._key(("rel", "<=", d))] = True
                self.known[self._key(("rel", "<=", -d))] = False
                self.known[self._key(("rel", "<", -d))] = False
                self.known[self._key(("rel", "==", d))] = False
                self.known[self._key(("rel", "!=", d))] = True
            elif g[0] == "rel" and g[1] == "==":
                d = g[2]
                for dd in (d, -d):
                    self.known[self._key(("rel", "<=", dd))] = True
                    self.known[self._key(("rel", "<", dd))] = False

    def _interval_decide(self, f):
        if f[0] != "rel":
            return None
        lo, hi = f[2].interval()
        r = f[1]
        if r == "<":
            if hi < 0:
                return True
            if lo >= 0:
                return False
        elif r == "<=":
            if hi <= 0:
                return True
            if lo > 0:
                return False
        else:
            if lo > 0 or hi < 0:
                return r == "!="
        return None

    def decide(self, sb):
        v = self._decide(sb)
        if sb.also:
            for rel, d in sb.also:
                tighten_rel(rel, d, v)
        return v

    def _decide(self, sb):
        f = sb.f
        if isinstance(f, bool):
            return f
        k = self._key(f)
        if k is not None and k in self.known:
            return self.known[k]
        v = self._interval_decide(f)
        if v is not None:
            self._note(f, v)
            return v
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(v)
            self._note(f, v)
            return v
        if self.sample is not None:
            v = eval_form(f, self._sample_env(), self._cache)
            self.pos += 1
            self.decisions.append(v)
            self._note(f, v)
            return v
        if time.time() > self.deadline:
            self.truncated = True
            raise PathAbort("time budget")
        can_t = self.feasible(f)
        can_f = self.feasible(fnot(f)) if can_t else True
        if can_t and can_f:
            # the generic branch of an equality first
            v = not (f[0] == "rel" and f[1] == "==")
            self.stack.append(self.decisions + [not v])
        elif can_t:
            v = True
        else:
            v = False
        self.pos += 1
        self.decisions.append(v)
        self._note(f, v)
        return v

    def _sample_env(self):
        return {aid: self.sample[n] for n, aid in self.inputs.items()
                if n in self.sample}

    def _relevant(self, forms, target):
        """cone of influence of the target over shared atoms"""
        fa = [closure(form_atoms(f, set())) for f in forms]
        cone = closure(form_atoms(target, set()))
        used = [False]*len(forms)
        changed = True
        while changed:
            changed = False
            for i, s in enumerate(fa):
                if not used[i] and (s & cone):
                    used[i] = True
                    if not s <= cone:
                        cone |= s
                        changed = True
        return [f for f, u in zip(forms, used) if u]

    def feasible(self, f):
        v = self._interval_decide(f)
        if v is not None:
            return v
        if not self.branch_ms:
            return True
        forms = self._relevant(self.pc, f) + [f]
        r = run_z3(forms, True, self.branch_ms, self.stats, seed=self.seed)
        if r == z3.unsat:
            return False
        if self.nra_branch:
            r = run_z3(forms, False, self.branch_ms, self.stats)
            if r == z3.unsat:
                return False
        return True

    # ---- assumptions and claims
    def assume(self, cond):
        f = _form(cond)
        if f is True:
            return
        if f is False:
            raise Infeasible()
        k = self._key(f)
        if k is not None and k in self.known:
            if not self.known[k]:
                raise Infeasible()
            return
        if self.sample is not None and not eval_form(
                f, self._sample_env(), self._cache):
            raise Unsupported("sample violates an assumption")
        self._note(f, True)

    def claim(self, label, cond, strong=None, info=None):
        """cond must hold on this path. strong: optional negation with margin,
        searched first for a counterexample"""
        self.obligations += 1
        st = self.labels.setdefault(label, [0, 0])
        st[0] += 1
        f = _form(cond)
        neg = fnot(f)
        # from the bounds of the inputs alone, then with the path condition
        r = run_z3([neg], True, self.claim_ms, self.stats, seed=self.seed)
        if r != z3.unsat:
            forms = self._relevant(self.pc, neg) + [neg]
            r = run_z3(forms, True, self.claim_ms, self.stats,
                       seed=self.seed) if len(forms) > 1 else r
        if r == z3.unsat:
            self.discharged += 1
            st[1] += 1
            return True
        target = fnot(_form(strong)) if strong is not None else neg
        if self.sample is not None:
            # single path mode: the values that lead along this path
            try:
                bad = eval_form(target, self._sample_env(), {})
            except (ArithmeticError, ValueError, KeyError):
                bad = False
            if bad:
                self.cands.append({
                    "label": label, "values": dict(self.sample),
                    "decisions": [int(d) for d in self.decisions]})
                self.claim_ms = min(self.claim_ms, 1000)
                return False
        r, m = run_z3(forms, False, self.claim_ms, self.stats,
                      want_model=True)
        if r == z3.unsat:
            self.discharged += 1
            st[1] += 1
            return True
        found = []
        if m is not None:
            # m covers the cone of influence only; also with the margin
            ms = m
            if strong is not None:
                r2, ms = run_z3(forms[:-1] + [target], False, self.claim_ms,
                                self.stats, want_model=True)
            for b in (ms, m):
                if b is not None and not found:
                    found = self._complete(target if b is ms else neg, b)
        if not found:
            found = self._models(target, m if strong is None else None)
        elif len(self.cands) < 30:
            # also a point in general position
            found = found + self._models(target, None, 2)
        if strong is not None and m is not None:
            found.append(m)
        for mm in found:
            self.cands.append(self._candidate(label, mm))
        if not found:
            if self.reachable() is False:
                self.discharged += 1
                st[1] += 1
                return True
            self.inconclusive.append((label, "solver unknown"))
        return False

    def reachable(self):
        r = run_z3(list(self.pc), False, self.claim_ms, self.stats)
        return None if r == z3.unknown else r == z3.sat

    def _complete(self, target, base):
        """values for the inputs that the model leaves open"""
        forms = list(self.pc) + [target]
        ids = set()
        for f in forms:
            form_atoms(f, ids)
        rest = [a for a in closure(ids) if STORE.atoms[a].kind == "in"
                and a not in base]
        if not rest:
            return [base]
        for k in range(4):
            pins = dict(base)
            for a in rest:
                c = STORE.atoms[a].pin
                if k and c is not None and self.rng.random() < 0.25*k:
                    pins[a] = self.rng.choice(c)
            # pinned values are rounded, so decide the rest on its own
            fs = [f for f in forms if not {
                a for a in closure(form_atoms(f, set()))
                if STORE.atoms[a].kind == "in"} <= set(base)]
            r, m = run_z3(fs, False, max(1500, self.claim_ms//2), self.stats,
                          pins=pins, want_model=True, seed=self.seed + k)
            if r == z3.sat:
                m = dict(m)
                m.update(base)
                return [m]
            if time.time() > self.deadline + 20:
                break
        return []

    def _models(self, target, first, tries=None):
        out = [first] if first is not None else []
        forms = list(self.pc) + [target]
        ids = set()
        for f in forms:
            form_atoms(f, ids)
        ids = closure(ids)
        ins = [a for a in ids if STORE.atoms[a].kind == "in"]
        # which inputs occur in nonlinear monomials (directly or not)
        pinnable = [a for a in ins if STORE.atoms[a].pin is not None]
        if tries and not pinnable:
            # nothing decides the other inputs: their defaults are used
            return [{}] if not ids else []
        for k in range(tries or self.pins_tries):
            if len(out) >= 4 or time.time() > self.deadline + 20:
                break
            pins = {}
            for a in pinnable:
                c = STORE.atoms[a].pin
                if k == 0:
                    pins[a] = c[0]
                elif self.rng.random() < 0.9:
                    pins[a] = self.rng.choice(c)
            r, m = run_z3(forms, False, max(1500, self.claim_ms//2),
                          self.stats, pins=pins, want_model=True,
                          seed=self.seed + k)
            if r == z3.sat:
                out.append(m)
        return out

    def _candidate(self, label, model):
        vals = {}
        for n, aid in self.inputs.items():
            v = model.get(aid)
            if v is None:
                v = default_value(STORE.atoms[aid])
            vals[n] = v
        return {"label": label, "values": vals,
                "decisions": [int(d) for d in self.decisions]}

    # ---- inputs
    def real(self, name, lo=-INF, hi=INF, pin=None):
        x = STORE.new("in", name, (), float(lo), float(hi), name=name,
                      pin=pin)
        (m,) = x.p
        self.inputs[name] = m[0][0]
        return x
