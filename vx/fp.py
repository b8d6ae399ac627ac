"""Symbolic IEEE doubles: the stepping code runs on objects that carry a z3
Float64 term; branches fork, and queries go to cvc5 (bit-exact, QF_FP).
Sample values carried along with every term only tell which branches are
worth visiting; verdicts come from the solver."""
import math
import os
import subprocess
import tempfile
import time

import numpy as np
import z3

F64 = z3.Float64()
RNE = z3.RNE()
ENG = None


class Abort(BaseException):
    pass


def fpv(c):
    return z3.FPVal(float(c), F64)


def isfp(x):
    return isinstance(x, FPX)


class FPB:
    """boolean term; truth value forks"""

    def __init__(self, e, v):
        self.e, self.v = e, v

    def __bool__(self):
        return ENG.decide(self)

    def __and__(self, o):
        o = tob(o)
        return FPB(z3.And(self.e, o.e), self.v & o.v)

    def __or__(self, o):
        o = tob(o)
        return FPB(z3.Or(self.e, o.e), self.v | o.v)

    def __invert__(self):
        return FPB(z3.Not(self.e), ~self.v)


def tob(x):
    if isinstance(x, FPB):
        return x
    return FPB(z3.BoolVal(bool(x)), np.full(ENG.W, bool(x)))


class FPX:
    def __init__(self, e, v):
        self.e, self.v = e, v

    # ---- arithmetic
    def _b(self, o, zf, nf, swap=False):
        if isinstance(o, np.ndarray):
            if zf is z3.fpMul:
                return each(lambda q: self*q if not swap else q*self, o)
            if zf is z3.fpDiv and swap:
                return each(lambda q: q/self, o)
            return each(lambda q: self._b(q, zf, nf, swap), o)
        if isinstance(o, (int, float, np.floating, np.integer)):
            o = FPX(fpv(o), np.full(len(self.v), float(o)))
        if not isfp(o):
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        with np.errstate(all="ignore"):
            v = nf(a.v, b.v)
        return FPX(z3.simplify(zf(RNE, a.e, b.e)), v)

    def __add__(self, o):
        return self._b(o, z3.fpAdd, np.add)

    def __radd__(self, o):
        return self._b(o, z3.fpAdd, np.add, True)

    def __sub__(self, o):
        return self._b(o, z3.fpSub, np.subtract)

    def __rsub__(self, o):
        return self._b(o, z3.fpSub, np.subtract, True)

    def __mul__(self, o):
        z = self._zero(o)
        return z if z is not None else self._b(o, z3.fpMul, np.multiply)

    def __rmul__(self, o):
        z = self._zero(o)
        return z if z is not None else self._b(o, z3.fpMul, np.multiply, True)

    def _zero(self, o):
        if isinstance(o, np.ndarray):
            return None
        if isinstance(o, (int, float, np.number)):
            if o == 0:
                return 0.0              # operands are finite
            if o == 1:
                return self
            if o == -1:
                return -self
        return None

    def __truediv__(self, o):
        if not isinstance(o, np.ndarray) and not isfp(o) and o == 1:
            return self
        return self._b(o, z3.fpDiv, np.divide)

    def __rtruediv__(self, o):
        if not isinstance(o, np.ndarray) and not isfp(o) and o == 0:
            return 0.0
        return self._b(o, z3.fpDiv, np.divide, True)

    def __neg__(self):
        return FPX(z3.fpNeg(self.e), -self.v)

    def __pos__(self):
        return self

    def __abs__(self):
        return FPX(z3.fpAbs(self.e), np.abs(self.v))

    def __pow__(self, q):
        if q == 0:
            return 1.0
        if q == 1:
            return self
        if q == 2:
            return self*self
        with np.errstate(all="ignore"):
            v = self.v**q
        x = ENG.fresh("pow", v)
        ENG.assume_raw(z3.And(z3.fpGT(x.e, fpv(0)), z3.fpLT(x.e, fpv(2.0**60))))
        return x

    def __rpow__(self, b):
        return ENG.fresh("rpow", b**self.v)

    # ---- comparisons
    def _c(self, o, zf, nf, none=False):
        if o is None:
            return none
        if isinstance(o, np.ndarray):
            return each(lambda q: self._c(q, zf, nf, none), o)
        if isinstance(o, (int, float, np.floating, np.integer)):
            o = FPX(fpv(o), np.full(len(self.v), float(o)))
        with np.errstate(all="ignore"):
            v = nf(self.v, o.v)
        e = z3.simplify(zf(self.e, o.e))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return FPB(e, v)

    def __lt__(self, o):
        return self._c(o, z3.fpLT, np.less)

    def __le__(self, o):
        return self._c(o, z3.fpLEQ, np.less_equal)

    def __gt__(self, o):
        return self._c(o, z3.fpGT, np.greater)

    def __ge__(self, o):
        return self._c(o, z3.fpGEQ, np.greater_equal)

    def __eq__(self, o):
        return self._c(o, z3.fpEQ, np.equal)

    def __ne__(self, o):
        r = self._c(o, z3.fpEQ, np.equal)
        return ~r if isinstance(r, FPB) else not r

    __hash__ = None

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        if os.environ.get("VX_DEBUG"):
            import traceback
            traceback.print_stack(limit=5)
        raise Abort("float() of a symbolic double")

    def copy(self):
        return self

    def item(self):
        return self

    def sqrt(self):
        return FPX(z3.fpSqrt(RNE, self.e), np.sqrt(np.abs(self.v)))

    # ---- numpy
    def __array_ufunc__(self, uf, method, *a, **k):
        if method != "__call__":
            return NotImplemented
        k.pop("out", None)
        f = UF.get(uf.__name__)
        if f is None:
            raise Abort("ufunc " + uf.__name__)
        arrs = [x for x in a if isinstance(x, np.ndarray) and x.ndim]
        a = [x[()] if isinstance(x, np.ndarray) and x.ndim == 0 else x
             for x in a]
        a = [x.item() if isinstance(x, np.generic) else x for x in a]
        if not arrs:
            return f(*a)
        b = np.broadcast_arrays(*[box(x) for x in a])
        out = np.empty(b[0].shape, object)
        for i in np.ndindex(out.shape):
            out[i] = f(*[q[i] for q in b])
        return demote(out)


def box(x):
    if isinstance(x, np.ndarray):
        return x
    z = np.empty((), object)
    z[()] = x
    return z


def demote(o):
    if all(not isfp(x) and not isinstance(x, FPB) for x in o.ravel()):
        try:
            return o.astype(float)
        except (TypeError, ValueError):
            return o
    return o


def each(f, arr):
    out = np.empty(arr.shape, object)
    for i in np.ndindex(arr.shape):
        q = arr[i]
        out[i] = f(q.item() if isinstance(q, np.generic) else q)
    return demote(out)


def fmax(a, b):
    return a if bool(a >= b) else b


def fmin(a, b):
    return a if bool(a <= b) else b


def fsign(x):
    if not isfp(x):
        return float(np.sign(x))
    if x > 0:
        return 1.0
    return -1.0 if x < 0 else 0.0


UF = {"add": lambda a, b: a + b, "subtract": lambda a, b: a - b,
      "multiply": lambda a, b: a*b, "divide": lambda a, b: a/b,
      "true_divide": lambda a, b: a/b, "absolute": abs, "negative":
      lambda a: -a, "sign": fsign, "maximum": fmax, "minimum": fmin,
      "less": lambda a, b: a < b, "greater": lambda a, b: a > b,
      "less_equal": lambda a, b: a <= b, "greater_equal": lambda a, b: a >= b,
      "equal": lambda a, b: a == b, "not_equal": lambda a, b: a != b,
      "isnan": lambda a: False, "isinf": lambda a: False,
      "isfinite": lambda a: True, "power": lambda a, b: a**b,
      "conjugate": lambda a: a}


def copysign(a, b):
    if not isfp(a) and not isfp(b):
        return math.copysign(a, b)
    neg = bool(b < 0) if isfp(b) else math.copysign(1, b) < 0
    m = abs(a)
    return -m if neg else m


def fsqrt(x):
    return x.sqrt() if isfp(x) else math.sqrt(x)


class _M(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)


class Int(metaclass=_M):
    """int() that forks on the value of a symbolic double (0..20)"""
    def __new__(cls, x=0, *a):
        if not isfp(x):
            return int(x, *a)
        for k in range(20):
            if x < k + 1:
                return k
        raise Abort("int() out of range")


class Engine:
    def __init__(self, seed=1, W=3000, budget=60, claim_s=30, branch_s=3,
                 max_paths=200):
        self.rng = np.random.default_rng(seed)
        self.W, self.budget = W, budget
        self.claim_s, self.branch_s = claim_s, branch_s
        self.max_paths = max_paths
        self.q = dict(queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0)
        self.cands, self.open = [], []
        self.labels, self.aborted = {}, {}
        self.obligations = self.discharged = self.paths = 0
        self.truncated = False
        self.samples = {}
        self.cache = {}

    def explore(self, body):
        global ENG
        t0 = time.time()
        self.deadline = t0 + self.budget
        stack = [[]]
        while stack:
            if self.paths >= self.max_paths or time.time() > self.deadline:
                self.truncated = True
                break
            self.prefix = stack.pop()
            self.pos, self.dec, self.pc = 0, [], []
            self.inputs, self.nf = {}, 0
            self.mask = np.ones(self.W, bool)
            self.stack = stack
            self.known, self.proved = {}, {}
            ENG = self
            try:
                body(self)
                self.paths += 1
            except Abort as x:
                self.aborted[str(x)] = self.aborted.get(str(x), 0) + 1
            finally:
                ENG = None
            if self.cands:
                break

    def real(self, name, gen):
        if name not in self.samples:
            self.samples[name] = gen(self.rng, self.W)
        x = FPX(z3.FP(name, F64), self.samples[name])
        self.inputs[name] = x
        return x

    def fresh(self, name, v):
        self.nf += 1
        return FPX(z3.FP(f"{name}!{self.nf}", F64), v)

    def assume_raw(self, e):
        self.pc.append(e)

    def assume(self, b):
        b = tob(b)
        self.pc.append(b.e)
        self.mask &= b.v

    def decide(self, b):
        k = b.e.get_id()
        key = b.e.sexpr() if len(self.known) < 400 else k
        if key in self.known:
            return self.known[key]
        if self.pos < len(self.prefix):
            val = self.prefix[self.pos]
        else:
            t, f = (self.mask & b.v).any(), (self.mask & ~b.v).any()
            if not t and self.check([b.e], self.branch_s)[0] != "unsat":
                t = True
            if not f and self.check([z3.Not(b.e)],
                                    self.branch_s)[0] != "unsat":
                f = True
            if not t and not f:
                raise Abort("infeasible")
            val = bool(t)
            if t and f:
                self.stack.append(self.dec + [False])
        self.pos += 1
        self.dec.append(val)
        self.known[key] = val
        self.pc.append(b.e if val else z3.Not(b.e))
        self.mask &= b.v if val else ~b.v
        return val

    def claim(self, label, cond):
        b = tob(cond)
        lab = self.labels.setdefault(label, [0, 0])
        lab[0] += 1
        self.obligations += 1
        if z3.is_true(z3.simplify(b.e)) or b.e.get_id() in self.proved:
            self.discharged += 1
            lab[1] += 1
            return True
        neg = z3.Not(b.e)
        bad = self.mask & ~b.v
        r, m = "unknown", None
        if bad.any():
            # the solver is asked at one of these points first
            i = int(np.flatnonzero(bad)[0])
            pins = [z3.fpEQ(x.e, fpv(x.v[i])) for x in self.inputs.values()]
            r, m = self.check([neg] + pins, 10, True)
        if r != "sat":
            r, m = self.check([neg], self.claim_s, True)
        if r == "unsat":
            self.discharged += 1
            lab[1] += 1
            self.proved[b.e.get_id()] = b.e
            return True
        if r == "sat":
            self.cands.append({"label": label, "values": m})
        else:
            self.open.append((label, "solver unknown"))
        return False

    def check(self, extra, timeout, model=False):
        fs = self.pc + extra
        key = tuple(sorted(f.get_id() for f in fs))
        if key in self.cache and not model:
            return self.cache[key]
        s = z3.Solver()
        s.add(*fs)
        txt = s.to_smt2()
        left = max(1.0, min(timeout, self.deadline - time.time() + timeout))
        names = [n for n, x in self.inputs.items()
                 if f"|{n}|" in txt or f" {n} " in txt or f"{n})" in txt]
        txt = "(set-logic QF_FP)\n(set-option :produce-models true)\n" + txt
        for n in names:
            txt += f"(get-value ({n}))\n"
        t0 = time.time()
        r, out = "unknown", ""
        with tempfile.NamedTemporaryFile("w", suffix=".smt2",
                                         delete=False) as fh:
            fh.write(txt)
        try:
            p = subprocess.run(["cvc5", "--tlimit", str(int(left*1000)),
                                fh.name], capture_output=True, text=True,
                               timeout=left + 5)
            out = p.stdout
            w = out.split()
            if w and w[0] in ("sat", "unsat"):
                r = w[0]
        except subprocess.TimeoutExpired:
            pass
        finally:
            os.unlink(fh.name)
        self.q["queries"] += 1
        self.q[r] += 1
        self.q["solver_s"] += time.time() - t0
        m = None
        if r == "sat":
            m = parse_model(out)
            for n, x in self.inputs.items():
                m.setdefault(n, float(x.v[0]))
        self.cache[key] = (r, m)
        return r, m


def parse_model(out):
    import re
    m = {}
    for n, s, e, f in re.findall(
            r"\(\((\S+) \(fp #b([01]) #b([01]+) #b([01]+)\)\)\)", out):
        bits = int(s + e + f, 2)
        m[n.strip("|")] = float(np.array([bits], np.uint64).view(np.float64)[0])
    for n, w in re.findall(r"\(\((\S+) \(_ ([+-])zero", out):
        m[n.strip("|")] = 0.0 if w == "+" else -0.0
    return m
