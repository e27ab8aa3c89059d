"""Axioms of opaque functions instantiated on a box of one input: every value computed on a path becomes a polynomial
of the position in the box plus a bounded error (Taylor form with rigorous remainder, rounding of the coefficients
included).  The relation that remains to be decided - a polynomial inequality over the position and the error - goes
to the solver."""
import math
from fractions import Fraction as F

import numpy as np
import z3

import symeng as E

N = 8
U = 1.2e-19         # rounding of the extended-precision coefficients (unit 5.5e-20)
UM = 1.2e-18        # products: up to nine terms per coefficient
UF = 6e-19          # library functions
L = np.longdouble


class NoEnclosure(Exception):
    pass


class TM:
    __slots__ = ('c', 'r')

    def __init__(self, c, r):
        self.c, self.r = c, r

    def mag(self):
        return float(np.abs(self.c).sum()) + self.r

    def bounds(self):
        d = float(np.abs(self.c[1:]).sum()) + self.r
        d += U * abs(self.c[0])
        return self.c[0] - d, self.c[0] + d


def const(x):
    c = np.zeros(N + 1, L)
    if isinstance(x, F):
        c[0] = L(x.numerator) / L(x.denominator) if abs(x.numerator) < 2 ** 63 and x.denominator < 2 ** 63 else L(float(x)) + L(float(x - F(float(x))))
    else:
        c[0] = x
    return TM(c, U * abs(float(x)))


def add(a, b):
    c = a.c + b.c
    return TM(c, a.r + b.r + U * float(np.abs(c).sum()))


def scale(a, k):
    k = L(k)
    c = a.c * k
    return TM(c, float(abs(k)) * a.r + U * float(np.abs(c).sum()))


def mul(a, b):
    f = np.convolve(a.c, b.c)
    A, B = float(np.abs(a.c).sum()), float(np.abs(b.c).sum())
    r = float(np.abs(f[N + 1:]).sum()) + A * b.r + B * a.r + a.r * b.r + UM * A * B
    if not r < 1e300:
        raise NoEnclosure('overflow')
    return TM(f[:N + 1], r)


def compose(x, co, rem):
    """sum co_k (x - x0)^k + [-rem, rem]"""
    d = TM(x.c.copy(), x.r)
    d.c[0] = 0.0
    s = const(co[-1])
    for k in co[-2::-1]:
        s = mul(s, d)
        s = add(s, const(k))
    return TM(s.c, s.r + rem)


def between(lo, hi):
    if not (math.isfinite(lo) and math.isfinite(hi)):
        raise NoEnclosure('unbounded')
    return TM(const((lo + hi) / 2).c, float((hi - lo) / 2) * (1 + 1e-12) + U * max(abs(lo), abs(hi)))


def dev(x):
    return float(np.abs(x.c[1:]).sum()) + x.r


def t_exp(x):
    lo, hi = x.bounds()
    if hi > 600:
        raise NoEnclosure('exp overflow')
    D = dev(x)
    if D > 1:
        return between(np.exp(lo) * (1 - L(1e-17)), np.exp(hi) * (1 + L(1e-17)))
    e = np.exp(x.c[0])
    co = [e / math.factorial(k) for k in range(N + 1)]
    return compose(x, co, float(e * np.exp(D) * D ** (N + 1) / math.factorial(N + 1) + UF * e))


def t_tanh(x):
    lo, hi = x.bounds()
    D = dev(x)
    if D > 0.6:
        return between(np.tanh(lo) - 1e-18, np.tanh(hi) + 1e-18)
    y = [np.tanh(x.c[0])]
    for k in range(N):
        y.append((L(1.0 if k == 0 else 0.0) - sum(y[i] * y[k - i] for i in range(k + 1))) / (k + 1))
    # Cauchy: |tanh| <= tan(1) on the strip |Im| <= 1
    a = TM(*(lambda t: (t.c, t.r))(compose(x, y, math.tan(1.0) * D ** (N + 1) / (1 - D) + UF)))
    if lo > 3 or hi < -3:
        b = between(np.tanh(lo) - 1e-18, np.tanh(hi) + 1e-18)
        if b.r < a.r:
            return b
    return a


def t_pow(x, al):
    lo, hi = x.bounds()
    if lo <= 0:
        raise NoEnclosure('power of a value that may be zero')
    x0, D, al = x.c[0], dev(x), (L(al.numerator) / L(al.denominator) if isinstance(al, F) else L(al))
    if D > 0.5 * x0:
        p, q = sorted((lo ** al, hi ** al))
        return between(p * (1 - L(1e-17)), q * (1 + L(1e-17)))
    co, b = [], L(1)
    for k in range(N + 1):
        co.append(b * x0 ** (al - k))
        b *= (al - k) / (k + 1)
    rem = abs(b) * max((x0 - D) ** (al - N - 1), (x0 + D) ** (al - N - 1)) * D ** (N + 1)
    return compose(x, co, float(rem + UF * abs(co[0])))


def t_recip(x):
    lo, hi = x.bounds()
    if lo > 0:
        return t_pow(x, -1.0)
    if hi < 0:
        return scale(t_pow(scale(x, -1.0), -1.0), -1.0)
    raise NoEnclosure('denominator that may be zero')


def t_abs(x):
    lo, hi = x.bounds()
    if lo >= 0:
        return x
    if hi <= 0:
        return scale(x, -1.0)
    return between(0.0, max(-lo, hi))


INTERN = {}


def intern(t):
    return INTERN.setdefault(t, len(INTERN))


class Names:
    """path-independent identities of the atoms of a path"""

    def __init__(self, p):
        self.p, self.m = p, {}

    def atom(self, i):
        if i not in self.m:
            a = self.p.atoms[i]
            d = a.data
            if a.kind == 'var':
                k = ('var', a.name)
            elif isinstance(d, dict):
                k = (a.kind, self.poly(d), a.sign if a.kind == 'den' else '')
            elif isinstance(d, tuple):
                k = (a.kind,) + tuple(self.poly(x) if isinstance(x, dict) else x for x in d)
            else:
                raise NoEnclosure('value of kind ' + a.kind)
            self.m[i] = intern(k)
        return self.m[i]

    def poly(self, q):
        return intern(tuple(sorted((tuple(sorted((self.atom(i), e) for i, e in m)), c) for m, c in q.items())))


class Box:
    """enclosures of the values of a path on lo <= var <= hi"""

    def __init__(self, var, lo, hi):
        self.var, self.lo, self.hi, self.t = var, lo, hi, {}

    def get(self, key, f):
        if key not in self.t:
            try:
                self.t[key] = f()
            except (NoEnclosure, OverflowError, ZeroDivisionError) as e:
                self.t[key] = NoEnclosure(str(e))
        r = self.t[key]
        if isinstance(r, NoEnclosure):
            raise r
        return r

    def atom(self, nm, i):
        return self.get(('a', nm.atom(i)), lambda: self._atom(nm, i))

    def power(self, nm, i, e):
        def f():
            if e < 0:
                return t_recip(self.power(nm, i, -e))
            if e == 1:
                return self.atom(nm, i)
            return mul(self.power(nm, i, e // 2), self.power(nm, i, e - e // 2))
        return self.get(('p', nm.atom(i), e), f)

    def poly(self, nm, q):
        def f():
            s = None
            for m, c in sorted(q.items()):
                t = const(c)
                for i, e in m:
                    t = mul(t, self.power(nm, i, e))
                s = t if s is None else add(s, t)
            return s if s is not None else const(0)
        return self.get(('q', nm.poly(q)), f)

    def _atom(self, nm, i):
        a = nm.p.atoms[i]
        d = a.data
        if a.kind == 'var':
            if a.name != self.var:
                raise NoEnclosure('second input')
            c = np.zeros(N + 1, L)
            c[0], c[1] = (L(self.lo) + L(self.hi)) / 2, (L(self.hi) - L(self.lo)) / 2
            return TM(c, U * max(abs(self.lo), abs(self.hi)))
        if a.kind in ('den', 'def'):
            return self.poly(nm, d)
        if a.kind == 'sqrt':
            return t_pow(self.poly(nm, d), 0.5)
        if a.kind == 'nroot':
            return t_pow(self.poly(nm, d[1]), F(1, d[0]))
        if a.kind == 'fn':
            f = {'exp': t_exp, 'tanh': t_tanh, 'abs': t_abs}.get(d[0])
            if f:
                return f(self.poly(nm, d[1]))
            if d[0] == 'pow' and E.p_is_const(d[2]):
                return t_pow(self.poly(nm, d[1]), E.p_cval(d[2]))
        raise NoEnclosure('value of kind ' + a.kind)

    def refuted(self, nm, conds):
        """True when some branch decision of the path is impossible everywhere in the box"""
        for q, op, v in conds:
            try:
                l, h = self.poly(nm, q).bounds()
            except NoEnclosure:
                continue
            if op == '<':
                if (v and l >= 0) or (not v and h < 0):
                    return True
            elif v and (l > 0 or h < 0):
                return True
        return False

    def split(self):
        m = math.sqrt(self.lo * self.hi) if self.lo > 0 else (self.lo + self.hi) / 2
        return Box(self.var, self.lo, m), Box(self.var, m, self.hi)


def rat(x):
    h = float(x)
    x = F(h) + (F(float(x - L(h))) if isinstance(x, np.floating) else 0)
    return z3.RealVal(f'{x.numerator}/{x.denominator}')


def linear_ok(tms, stats):
    """one query: could any of the values be negative?  powers of the position are variables in [-1,1]"""
    s = z3.SolverFor('QF_LRA')
    dis = []
    for k, t in enumerate(tms):
        v = [z3.Real(f'd{k}_{j}') for j in range(1, N + 1)]
        e = z3.Real(f'e{k}')
        for j, x in enumerate(v, 1):
            s.add(x <= 1, x >= (-1 if j % 2 else 0))
        s.add(e >= -rat(t.r), e <= rat(t.r))
        dis.append(z3.Sum([rat(t.c[0])] + [rat(c) * x for c, x in zip(t.c[1:], v) if c] + [e]) < 0)
    s.add(z3.Or(*dis))
    s.set('timeout', 20000)
    r = s.check()
    stats.q += 1
    return r == z3.unsat


def poly_query(t, stats):
    """(verdict, position) of  exists d in [-1,1], |e| <= r:  t(d) + e < 0"""
    s = z3.Solver()
    d, e = z3.Reals('d e')
    s.add(d >= -1, d <= 1, e >= -rat(t.r), e <= rat(t.r))
    x, tm = z3.RealVal(1), []
    for c in t.c:
        tm.append(rat(c) * x)
        x = x * d
    s.add(z3.Sum(tm) + e < 0)
    s.set('timeout', 3000)
    r = s.check()
    stats.q += 1
    pos = None
    if r == z3.sat:
        v = s.model().eval(d, model_completion=True)
        if z3.is_algebraic_value(v):
            v = v.approx(20)
        pos = float(F(v.numerator_as_long(), v.denominator_as_long()))
    return r, pos
