"""Model problems with known Taylor series, used by several properties."""
from fractions import Fraction

import numpy as np

from . import methods as M
from .sr import is_sym


class TreeODE:
    """one component per rooted tree (twice: leaves y and leaves t), plus one
    component with an arbitrary initial value"""

    def __init__(self, env, p, t0, tleaf=True):
        self.env = env
        self.t0 = t0
        tr = M.trees(p)
        comps = []                    # (order, children comps | 't', coef)
        for n, ch, g in tr:
            comps.append((n, list(ch), Fraction(1, g)))
        if tleaf:
            off = len(comps)
            # map tree index -> component of the t-leaf version
            tmap = {}
            for i, (n, ch, g) in enumerate(tr):
                if i == 0:
                    continue
                cc = [("t" if c == 0 else tmap[c]) for c in ch]
                tmap[i] = len(comps)
                comps.append((n, cc, None))
            # exact coefficients of the t-leaf versions
            for j in range(off, len(comps)):
                n, cc, _ = comps[j]
                c = Fraction(1, n)
                for k in cc:
                    if k != "t":
                        c *= comps[k][2]
                comps[j] = (n, cc, c)
        self.comps = comps
        N = len(comps)
        self.a = [env.real(f"a{i}", -1, 1) for i in range(N)]
        self.u0 = env.real("u0", -1, 1)
        self.ua = env.real("ua", -1, 1)
        self.N = N
        self.n = N + 1
        # products of the parameters
        self.pa = []
        for i, (n, cc, c) in enumerate(comps):
            p_ = self.a[i]
            for k in cc:
                if k != "t":
                    p_ = p_*self.pa[k]
            self.pa.append(p_)

    def y0(self):
        return self.env.arr([0.0]*self.N + [self.u0])

    def rates(self, t, get):
        """right-hand side, get(i): value of component i"""
        out = []
        for i, (n, cc, c) in enumerate(self.comps):
            r = self.a[i]
            for k in cc:
                r = r*((t - self.t0) if k == "t" else get(k))
            out.append(r)
        out.append(self.ua)
        return out

    def fun(self, t, y):
        return self.env.arr(self.rates(t, lambda k: y[k]))

    def fun_implicit(self, t, psi, hd):
        """rates with y = psi + hd*rates (triangular system)"""
        out = []

        def get(k):
            return psi[k] + hd*out[k]
        for i, (n, cc, c) in enumerate(self.comps):
            r = self.a[i]
            for k in cc:
                r = r*((t - self.t0) if k == "t" else get(k))
            out.append(r)
        out.append(self.ua)
        return self.env.arr(out)

    def exact(self, s):
        """solution after a time s"""
        pw = [1]
        for _ in range(12):
            pw.append(pw[-1]*s)
        out = []
        for i, (n, cc, c) in enumerate(self.comps):
            cf = c if is_sym(self.pa[i]) else float(c)
            out.append(self.pa[i]*pw[n]*cf)
        out.append(self.u0 + self.ua*s)
        return out

    def degree(self, i):
        return self.comps[i][0] if i < self.N else 1


class NystromODE:
    def __init__(self, env, p, t0, velocity=True):
        self.env, self.t0 = env, t0
        self.tr = M.nystrom_trees(p, velocity)
        N = len(self.tr)
        self.a = [env.real(f"a{i}", -1, 1) for i in range(N)]
        self.w = env.real("w", -1, 1)
        self.u0 = env.real("u0", -1, 1)
        self.v0 = env.real("v0", -1, 1)
        self.ua = env.real("ua", -1, 1)
        self.N = N
        # extra components: w-line, general start
        self.h = N + 2
        self.n = 2*self.h
        self.pa = []
        for i, (m, fs, c) in enumerate(self.tr):
            p_ = self.a[i]
            for f in fs:
                if f[0] in "qv":
                    p_ = p_*self.pa[f[1]]
                elif f[0] == "w":
                    p_ = p_*self.w
            self.pa.append(p_)

    def y0(self):
        z = [0.0]*self.N
        return self.env.arr(z + [0.0, self.u0] + z + [self.w, self.v0])

    def fun(self, t, y):
        N, H = self.N, self.h
        acc = []
        for i, (m, fs, c) in enumerate(self.tr):
            r = self.a[i]
            for f in fs:
                if f[0] == "q":
                    r = r*y[f[1]]
                elif f[0] == "v":
                    r = r*y[H + f[1]]
                elif f[0] == "w":
                    r = r*y[N]
                else:
                    r = r*(t - self.t0)
            acc.append(r)
        acc += [0.0, self.ua]
        return self.env.arr(list(y[H:]) + acc)

    def exact(self, s):
        pw = [1]
        for _ in range(12):
            pw.append(pw[-1]*s)
        q, v = [], []
        for i, (m, fs, c) in enumerate(self.tr):
            c1, c2 = c/(m + 1), c/((m + 1)*(m + 2))
            if not is_sym(self.pa[i]):
                c1, c2 = float(c1), float(c2)
            v.append(self.pa[i]*pw[m + 1]*c1)
            q.append(self.pa[i]*pw[m + 2]*c2)
        q += [self.w*s, self.u0 + self.v0*s + self.ua*pw[2]*0.5]
        v += [self.w, self.v0 + self.ua*s]
        return q + v

    def degree(self, i):
        """power of h of component i of the state"""
        N, H = self.N, self.h
        if i < H:
            return self.tr[i][0] + 2 if i < N else (1 if i == N else 2)
        i -= H
        return self.tr[i][0] + 1 if i < N else (0 if i == N else 1)


def step_once(s):
    """one step call; returns 'failed'/'running'/'finished'"""
    s.step()
    return s.status
