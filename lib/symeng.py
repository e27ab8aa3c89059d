"""Symbolic values (exact real arithmetic) and exhaustive path exploration for Python code.

Values are Laurent polynomials with rational coefficients over *atoms*.  Atoms are input variables and
named subterms: a positive denominator (defined by a polynomial), a square root, a transcendental
function application, an integer part.  Every comparison of symbolic values is decided on the current
path by z3; when both outcomes are possible, the path is explored with both (DFS, replayed decisions).
"""
import struct, sys
if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import math, numbers, time, itertools
from fractions import Fraction as F
import z3


class EngineLimit(BaseException):
    """The engine cannot encode what the code does (never a verdict)."""


class PathAbort(BaseException):
    """Path is infeasible / rejected by an assumption."""


class ViolationFound(BaseException):
    def __init__(self, label, inputs, info=''):
        self.label, self.inputs, self.info = label, inputs, info


_CUR = None  # current Path


def cur():
    if _CUR is None:
        raise EngineLimit('symbolic value used outside a path')
    return _CUR


def set_cur(p):
    global _CUR
    _CUR = p


# --------------------------------------------------------------------------------------------- polynomials
# poly: dict {mono: Fraction}; mono: tuple of (atom index, exponent), sorted, exponents non-zero ints

def p_const(c):
    return {(): c} if c else {}


def p_add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c if s == 1 else -c
        else:
            v = v + c if s == 1 else v - c
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def m_mul(m, n):
    if not m:
        return n
    if not n:
        return m
    i = j = 0
    r = []
    while i < len(m) and j < len(n):
        a, b = m[i], n[j]
        if a[0] == b[0]:
            e = a[1] + b[1]
            if e:
                r.append((a[0], e))
            i += 1
            j += 1
        elif a[0] < b[0]:
            r.append(a)
            i += 1
        else:
            r.append(b)
            j += 1
    r.extend(m[i:])
    r.extend(n[j:])
    return tuple(r)


MAXTERMS = 6000


def p_mul_raw(a, b):
    if len(a) > len(b):
        a, b = b, a
    if len(a) * len(b) > 4000000:
        raise EngineLimit('polynomial too large')
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = m_mul(m, n)
            v = r.get(k)
            if v is None:
                r[k] = c * d
            else:
                v += c * d
                if v:
                    r[k] = v
                else:
                    del r[k]
    if len(r) > MAXTERMS:
        raise EngineLimit('polynomial too large')
    return r


def p_scale(a, c):
    return {m: v * c for m, v in a.items()} if c else {}


def p_is_const(a):
    return not a or (len(a) == 1 and () in a)


def p_cval(a):
    return a.get((), F(0))


def p_key(a):
    return tuple(sorted(a.items()))


class Atom:
    __slots__ = ('idx', 'name', 'kind', 'sign', 'isint', 'lo', 'hi', 'data', 'z')

    def __init__(self, idx, name, kind, sign, isint, lo, hi, data):
        self.idx, self.name, self.kind, self.sign, self.isint = idx, name, kind, sign, isint
        self.lo, self.hi, self.data = lo, hi, data
        self.z = z3.ToReal(z3.Int(name)) if isint else z3.Real(name)


class Stats:
    def __init__(self):
        self.q = 0          # solver queries
        self.t = 0.0        # solver seconds
        self.unknown = 0
        self.branches = 0
        self.obl = 0
        self.how = {}

    def add(self, o):
        self.q += o.q; self.t += o.t; self.unknown += o.unknown; self.branches += o.branches; self.obl += o.obl
        for k, v in o.how.items():
            self.how[k] = self.how.get(k, 0) + v


STATS = Stats()
BRANCH_TO = 4000
PROVE_TO = 20000


class Path:
    """One execution; replays `prefix`, then explores."""

    def __init__(self, prefix, worklist):
        self.prefix, self.worklist = prefix, worklist
        self.log = []
        self.atoms = []
        self.tables = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', BRANCH_TO)
        self.pc = []            # z3 constraints
        self.inputs = {}        # name -> atom / ('bv'..)
        self.fp_inputs = {}
        self.model = None
        self.known = {}
        self.notes = []
        self.nfresh = 0
        self.signs = {}
        self.weak = False       # some branch feasibility was unknown

    # ---------------------------------------------------------------- atoms
    def atom(self, name, kind='var', sign='?', isint=False, lo=None, hi=None, data=None):
        a = Atom(len(self.atoms), name, kind, sign, isint, lo, hi, data)
        self.atoms.append(a)
        return a

    def fresh(self, base):
        self.nfresh += 1
        return f'{base}!{self.nfresh}'

    def add(self, zc):
        self.pc.append(zc)
        self.solver.add(zc)
        self.model = None

    def axiom(self, zc):
        """fact about an opaque function; left out in lazy mode (an over-approximation)"""
        if not self.tables.get('lazy'):
            self.add(zc())

    def opaque(self, p):
        return any(self.atoms[i].kind in ('fn', 'nroot', 'sqrt', 'den', 'def') for m in p for i, _ in m)

    def lazy_sign(self, p):
        """sign of  c0 + k f(x)  for f = exp, tanh from the sign of x"""
        if len(p) != 2 or () not in p:
            return self.factor_sign(p)
        (m, k), = [x for x in p.items() if x[0]]
        if len(m) == 1 and m[0][1] == 2 and abs(p[()]) >= abs(k) and p[()] * k < 0:
            d = self.atoms[m[0][0]].data
            return ('>' if p[()] > 0 else '<') if isinstance(d, tuple) and d[0] == 'tanh' else None
        if len(m) != 1 or m[0][1] != 1:
            return None
        d = self.atoms[m[0][0]].data
        if not (isinstance(d, tuple) and d[0] in ('exp', 'tanh')):
            return None
        r = -p[()] / k               # p = k (f - r)
        if d[0] == 'exp' and r == 1:
            g = self.p_sign(d[1])
        elif d[0] == 'tanh' and abs(r) >= 1:
            g = '<' if r > 0 else '>'
        else:
            return None
        if g not in '<>':
            return None
        return g if k > 0 else ('>' if g == '<' else '<')

    def factor_sign(self, p):
        """sign of  A + B (1 - tanh^2)  for monomials A, B"""
        if len(p) != 3:
            return None
        for t in {i for m in p for i, _ in m}:
            d = self.atoms[t].data
            if not (isinstance(d, tuple) and d[0] == 'tanh'):
                continue
            for m, k in p.items():
                e = dict(m).get(t, 0)
                r = m_mul(m, ((t, -2),))
                if e >= 2 and p.get(r) == -k:
                    A = {n: v for n, v in p.items() if n not in (m, r)}
                    a, b = self.p_sign(A), self.p_sign({r: -k})
                    if a in '<>' and b and b[0] == a:
                        return a
        return None

    def lazy_fork(self, q, op):
        self.weak = True
        flip = q[max(q)] < 0
        k = p_key(p_scale(q, F(-1)) if flip else q)
        t = self.table('lazy_signs')
        poss = t.get(k, frozenset('<=>'))
        g = self.p_sign(q)
        if g in ('<=', '>='):
            poss = poss & (frozenset('<=' if (g == '<=') != flip else '=>'))
        yes = frozenset('=' if op == '==' else '>' if flip else '<')
        if not poss & yes:
            return False
        if not poss - yes:
            return True
        r = self.fork()
        t[k] = poss & yes if r else poss - yes
        return r

    def fork(self):
        """both outcomes, no constraint"""
        pos = len(self.log)
        if pos < len(self.prefix):
            e = self.prefix[pos]
            if e[0] != 'b':
                raise EngineLimit('non-deterministic replay')
            self.log.append(e)
            return e[1]
        STATS.branches += 1
        self.worklist.append(self.log + [('b', False, True)])
        self.log.append(('b', True, True))
        return True

    def check(self, *assum, to=None):
        t = time.time()
        if to:
            self.solver.set('timeout', to)
        r = self.solver.check(*assum)
        if to:
            self.solver.set('timeout', BRANCH_TO)
        STATS.q += 1
        STATS.t += time.time() - t
        if r == z3.unknown:
            STATS.unknown += 1
        return r

    # ---------------------------------------------------------------- polynomials with atom knowledge
    def mul(self, a, b):
        r = p_mul_raw(a, b)
        return self.reduce(r)

    def reduce(self, r):
        """rewrite squares of root atoms / sines"""
        sp = self.tables.get('special')
        if not sp:
            return r
        again = True
        guard = 0
        while again:
            again = False
            guard += 1
            if guard > 2000:
                raise EngineLimit('reduction does not terminate')
            out = None
            for m, c in r.items():
                for (i, e) in m:
                    if e >= 2 and i in sp:
                        if out is None:
                            out = dict(r)
                        del out[m]
                        rest = tuple((j, f) for j, f in m if j != i)
                        if e - 2:
                            rest = m_mul(rest, ((i, e - 2),))
                        out = p_add(out, p_mul_raw({rest: c}, sp[i]))
                        again = True
                        break
                    if e <= -2 and i in sp and self.atoms[i].kind == 'sqrt' and len(sp[i]) == 1:
                        (rm, rc), = sp[i].items()
                        if out is None:
                            out = dict(r)
                        del out[m]
                        rest = tuple((j, f) for j, f in m if j != i)
                        if e + 2:
                            rest = m_mul(rest, ((i, e + 2),))
                        inv = tuple((j, -f) for j, f in rm)
                        out = p_add(out, {m_mul(rest, inv): c / rc})
                        again = True
                        break
                if again:
                    break
            if out is not None:
                r = out
        return r

    def asign(self, i):
        return self.signs.get(i, self.atoms[i].sign)

    def m_sign(self, m):
        """'>' '>=' '<' '<=' or '?' of a monomial"""
        s, strict = 1, True
        for i, e in m:
            g = self.asign(i)
            if e % 2 == 0:
                if g not in '><':
                    strict = False
                continue
            if g == '?':
                return '?'
            if g[0] == '<':
                s = -s
            if len(g) > 1:
                strict = False
        return ('>' if s > 0 else '<') + ('' if strict else '=')

    def p_sign(self, p):
        pos = neg = strict = False
        for m, c in p.items():
            g = self.m_sign(m)
            if g == '?':
                return '?'
            up = (g[0] == '>') == (c > 0)
            if up:
                pos = True
            else:
                neg = True
            if len(g) == 1:
                strict = True
            if pos and neg:
                return '?'
        if not pos and not neg:
            return '0'
        return ('>' if pos else '<') + ('' if strict else '=')

    def abounds(self, i):
        """interval of an atom from the ranges of the inputs, None if unknown"""
        t = self.tables.setdefault('abounds', {})
        if i in t:
            return t[i]
        a = self.atoms[i]
        r = None
        if a.kind == 'var' and a.lo is not None and a.hi is not None:
            r = (float(a.lo), float(a.hi))
        elif a.kind == 'sqrt' and isinstance(a.data, dict):
            b = self.p_bounds(a.data)
            if b is not None and b[1] >= 0:
                r = (math.sqrt(max(b[0], 0.0)) * (1 - 1e-14), math.sqrt(b[1]) * (1 + 1e-14))
        t[i] = r
        return r

    def p_bounds(self, p, limit=64):
        """interval of a polynomial (monomial by monomial, rounding bounded), None if an atom has no interval"""
        if len(p) > limit:
            return None
        lo = hi = mag = 0.0
        for m, c in p.items():
            a = b = float(c)
            for i, e in m:
                if e < 0:
                    return None
                r = self.abounds(i)
                if r is None:
                    return None
                u, v = r
                if e > 1:
                    if e % 2 == 0 and u < 0 < v:
                        u, v = 0.0, max(-u, v) ** e
                    else:
                        u, v = sorted((u ** e, v ** e))
                w = (a * u, a * v, b * u, b * v)
                a, b = min(w), max(w)
            lo += a
            hi += b
            mag += max(abs(a), abs(b))
        if not mag < 1e300:
            return None
        d = mag * 1e-13 + 1e-290
        return lo - d, hi + d

    def clear(self, p, expand=True):
        """multiply by a positive/known-sign factor so that no negative exponents remain;
        returns (poly, flip)"""
        neg = {}
        for m in p:
            for i, e in m:
                if e < 0 and -e > neg.get(i, 0):
                    neg[i] = -e
        flip = False
        if neg:
            fac = []
            for i, e in sorted(neg.items()):
                if e % 2:
                    s = self.asign(i)
                    if s == '<':
                        flip = not flip
                    elif s != '>':
                        if not self.tables.get('lazy'):
                            raise EngineLimit('denominator of unknown sign')
                        e += 1
                fac.append((i, e))
            p = self.reduce(p_mul_raw(p, {tuple(fac): F(1)}))
        if expand:
            p = self.expand(p)
        return p, flip

    def expand(self, p):
        """replace named denominators by their polynomials (positive exponents only)"""
        dens = self.tables.get('den_by_idx')
        if not dens:
            return p
        guard = 0
        while True:
            guard += 1
            hit = None
            for m in p:
                for i, e in m:
                    if i in dens and e > 0:
                        hit = i
                        break
                if hit is not None:
                    break
            if hit is None or guard > 2000:
                return p
            d = dens[hit]
            out = {}
            for m, c in p.items():
                e = dict(m).get(hit, 0)
                if e > 0:
                    rest = tuple((j, f) for j, f in m if j != hit)
                    q = {rest: c}
                    for _ in range(e):
                        q = p_mul_raw(q, d)
                    out = p_add(out, q)
                else:
                    out = p_add(out, {m: c})
            out = self.reduce(out)
            # definitions of denominators may themselves contain negative exponents
            neg = any(e < 0 for m in out for _, e in m)
            p = out
            if neg:
                q, flip = self.clear(p, expand=False)
                if flip:
                    q = p_scale(q, F(-1))
                p = q

    def z(self, p):
        ts = []
        for m, c in p.items():
            fs = []
            for i, e in m:
                if e < 0:
                    raise EngineLimit('negative exponent reached the solver')
                fs.extend([self.atoms[i].z] * e)
            k = z3.RealVal(str(c.numerator) if c.denominator == 1 else f'{c.numerator}/{c.denominator}')
            if not fs:
                ts.append(k)
            else:
                t = fs[0] if len(fs) == 1 else z3.Product(*fs)
                ts.append(t if c == 1 else k * t)
        if not ts:
            return z3.RealVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(*ts)

    def rel(self, p, op):
        """z3 Bool for  p op 0"""
        q, flip = self.clear(p)
        if q:
            # scale for readable/cacheable constraints
            lead = max(abs(c) for c in q.values())
            q = p_scale(q, 1 / lead)
        if flip:
            op = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}[op]
        if p_is_const(q):
            v = p_cval(q)
            return z3.BoolVal({'<': v < 0, '<=': v <= 0, '>': v > 0, '>=': v >= 0, '==': v == 0, '!=': v != 0}[op])
        e = self.z(q)
        zero = z3.RealVal(0)
        return {'<': e < zero, '<=': e <= zero, '>': e > zero, '>=': e >= zero, '==': e == zero, '!=': e != zero}[op]

    # ---------------------------------------------------------------- branching
    def decide_rel(self, p, op):
        """Python bool for p op 0 on this path (may fork)."""
        if p_is_const(p):
            v = p_cval(p)
            return {'<': v < 0, '<=': v <= 0, '>': v > 0, '>=': v >= 0, '==': v == 0, '!=': v != 0}[op]
        if op == '!=':
            return not self.decide_rel(p, '==')
        if op == '>':
            return self.decide_rel(p_scale(p, F(-1)), '<')
        if op == '>=':
            return not self.decide_rel(p, '<')
        if op == '<=':
            return not self.decide_rel(p_scale(p, F(-1)), '<')
        s = self.p_sign(p)
        if s != '?':
            if op == '<':
                if s == '<':
                    return True
                if s[0] == '>' or s == '0':
                    return False
            else:
                if s == '0':
                    return True
                if s in '<>':
                    return False
        # canonical key
        lead = p[max(p)]
        q = p_scale(p, 1 / abs(lead))
        if op == '==' and lead < 0:
            q = p_scale(q, F(-1))
        key = (p_key(q), op)
        if key in self.known:
            return self.known[key]
        if op == '<':
            nk = (p_key(p_scale(q, F(-1))), '<')
            if self.known.get(nk) is True:
                return False
        b = self.p_bounds(q)
        if b is not None and (b[0] > 0 or b[1] < 0):
            STATS.how['branch-interval'] = STATS.how.get('branch-interval', 0) + 1
            r = op == '<' and b[1] < 0
            self.known[key] = r
            return r
        if self.tables.get('lazy') and self.opaque(q):
            g = self.lazy_sign(q)
            if g:
                r = op == '<' and g == '<'
            else:
                r = self.lazy_fork(q, op)
        else:
            r = self.branch(self.rel(q, op))
        self.known[key] = r
        if len(q) == 1 or True:
            self.learn(q, op, r)
        return r

    def learn(self, q, op, r):
        if len(q) != 1:
            return
        (m, c), = q.items()
        if len(m) != 1 or abs(m[0][1]) != 1:
            return
        i = m[0][0]
        if op == '<':
            if r:
                self.signs[i] = '<' if c > 0 else '>'
            else:
                new = '>=' if c > 0 else '<='
                old = self.asign(i)
                if old == '?':
                    self.signs[i] = new
        elif op == '==':
            old = self.asign(i)
            if not r and old in ('>=', '<='):
                self.signs[i] = old[0]

    def branch(self, zc):
        zc = z3.simplify(zc)
        if z3.is_true(zc):
            return True
        if z3.is_false(zc):
            return False
        pos = len(self.log)
        if pos < len(self.prefix):
            e = self.prefix[pos]
            if e[0] != 'b':
                raise EngineLimit('non-deterministic replay')
            self.log.append(e)
            d, forced = e[1], e[2]
            if not forced:
                self.add(zc if d else z3.Not(zc))
            return d
        STATS.branches += 1
        can_t = can_f = None
        if self.model is not None:
            v = self.model.eval(zc, model_completion=True)
            if z3.is_true(v):
                can_t = True
            elif z3.is_false(v):
                can_f = True
        mt = mf = None
        if can_t is None:
            r = self.check(zc)
            can_t = r != z3.unsat
            if r == z3.sat:
                mt = self.solver.model()
            if r == z3.unknown:
                self.weak = True
        else:
            mt = self.model
        if not can_t:
            self.log.append(('b', False, True))
            return False
        if can_f is None:
            r = self.check(z3.Not(zc))
            can_f = r != z3.unsat
            if r == z3.sat:
                mf = self.solver.model()
            if r == z3.unknown:
                self.weak = True
        else:
            mf = self.model
        if not can_f:
            self.log.append(('b', True, True))
            if self.model is None:
                self.model = mt
            return True
        self.worklist.append(self.log + [('b', False, False)])
        self.log.append(('b', True, False))
        self.add(zc)
        self.model = mt
        return True

    def concretize(self, p, what='integer'):
        """value of an integer-valued polynomial, forking over all feasible values"""
        if p_is_const(p):
            v = p_cval(p)
            if v.denominator != 1:
                raise EngineLimit('not an integer')
            return int(v)
        for _ in range(400):
            pos = len(self.log)
            if pos < len(self.prefix):
                e = self.prefix[pos]
                if e[0] != 'v':
                    raise EngineLimit('non-deterministic replay (value)')
                v, d, forced = e[1], e[2], e[3]
                zc = self.rel(p_add(p, p_const(F(v)), -1), '==')
                self.log.append(e)
                if not forced:
                    self.add(zc if d else z3.Not(zc))
                if d:
                    return v
                continue
            STATS.branches += 1
            m = self.model
            if m is None:
                r = self.check(to=PROVE_TO)
                if r == z3.unsat:
                    raise PathAbort('infeasible')
                if r == z3.unknown:
                    raise EngineLimit('solver unknown while enumerating a value')
                m = self.solver.model()
                self.model = m
            q, flip = self.clear(p)
            # p = q/factor is only integral when no denominators were cleared
            val = m.eval(self.z(q), model_completion=True) if not any(e < 0 for mm in p for _, e in mm) else None
            if val is None:
                raise EngineLimit('enumeration of a rational function')
            fr = F(val.numerator_as_long(), val.denominator_as_long()) if z3.is_rational_value(val) else None
            if fr is None or fr.denominator != 1:
                raise EngineLimit('enumeration of a non-integer')
            v = int(fr)
            zc = self.rel(p_add(p, p_const(F(v)), -1), '==')
            r = self.check(z3.Not(zc))
            if r == z3.unsat:
                self.log.append(('v', v, True, True))
                return v
            if r == z3.unknown:
                self.weak = True
            self.worklist.append(self.log + [('v', v, False, False)])
            self.log.append(('v', v, True, False))
            self.add(zc)
            self.model = m
            return v
        raise EngineLimit('too many values to enumerate')

    def choose(self, n):
        """fork over range(n)"""
        a = self.atom(self.fresh('choice'), isint=True, lo=0, hi=n - 1)
        self.add(z3.And(a.z >= 0, a.z <= n - 1))
        return self.concretize({((a.idx, 1),): F(1)})

    # ---------------------------------------------------------------- table constraints of special atoms
    def table(self, name):
        return self.tables.setdefault(name, {})


def explore(run, max_paths=200000, deadline=None, on_path=None):
    """run(path) executes the code once.  Returns (paths, exhausted)."""
    work = [[]]
    n = 0
    while work:
        if n >= max_paths or (deadline and time.time() > deadline):
            return n, False
        prefix = work.pop()
        p = Path(prefix, work)
        set_cur(p)
        try:
            run(p)
            n += 1
        except PathAbort:
            pass
        finally:
            set_cur(None)
    return n, True


# --------------------------------------------------------------------------------------------- scalars

def _frac(x):
    if isinstance(x, F):
        return x
    if isinstance(x, bool):
        return F(int(x))
    return F(x) if isinstance(x, int) else F(float(x))


def is_sym(x):
    return isinstance(x, (SymReal, SymComplex, SymFP))


def _special(x):
    return isinstance(x, float) and (x != x or x in (math.inf, -math.inf))


def as_num(x):
    """concrete scalar -> python float/int/complex"""
    import numpy as _np
    if isinstance(x, _np.generic):
        return x.item()
    return x


def lift(x):
    """to poly; x is a concrete finite real or SymReal"""
    if isinstance(x, SymReal):
        return x.p
    return p_const(_frac(x))


def mk(p, kind='f'):
    if p_is_const(p):
        c = p_cval(p)
        if kind == 'i' and c.denominator == 1:
            return int(c)
        try:
            f = float(c)
            if F(f) == c or _CUR is not None and _CUR.tables.get('round'):
                return f
        except OverflowError:
            pass
    elif len(p) >= 2 and kind == 'f' and _CUR is not None and _CUR.tables.get('names') and _CUR.opaque(p):
        lead = p[max(p)]
        q = p_scale(p, 1 / lead)
        t = _CUR.table('def')
        k = p_key(q)
        if k not in t:
            g = _CUR.p_sign(q)
            if g in '0?':
                g = _CUR.lazy_sign(q) or '?'
            t[k] = _CUR.atom(_CUR.fresh('def'), kind='def', sign=g, data=q).idx
        return SymReal({((t[k], 1),): lead})
    return (SymInt if kind == 'i' else SymReal)(p)


def _num(x):
    """None if x is not a real scalar we understand"""
    import numpy as _np
    if isinstance(x, SymReal):
        return x
    if isinstance(x, (bool, int, float)):
        return x
    if isinstance(x, (_np.floating, _np.integer, _np.bool_)):
        return x.item()
    if isinstance(x, F):
        return SymReal(p_const(x))
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return _num(x.item())
    return None


def kind_of(x):
    import numpy as _np
    if isinstance(x, SymInt) or isinstance(x, (bool, int, _np.integer, _np.bool_)):
        return 'i'
    if isinstance(x, SymComplex) or isinstance(x, (complex, _np.complexfloating)):
        return 'c'
    return 'f'


def r_add(a, b, s=1):
    if _special(a) or _special(b):
        fa = a if _special(a) else 0.0
        fb = b if _special(b) else 0.0
        return fa + fb if s == 1 else fa - fb
    k = 'i' if kind_of(a) == 'i' and kind_of(b) == 'i' else 'f'
    if not isinstance(a, SymReal) and not isinstance(b, SymReal):
        return a + b if s == 1 else a - b
    return mk(p_add(lift(a), lift(b), s), k)


def r_mul(a, b):
    if _special(a) or _special(b):
        sa = sgn(a)
        sb = sgn(b)
        if sa != sa or sb != sb or sa == 0 or sb == 0:
            return math.nan
        return math.inf * sa * sb
    if not isinstance(a, SymReal) and not isinstance(b, SymReal):
        return a * b
    k = 'i' if kind_of(a) == 'i' and kind_of(b) == 'i' else 'f'
    if not isinstance(a, SymReal):
        return mk(p_scale(b.p, _frac(a)), k)
    if not isinstance(b, SymReal):
        return mk(p_scale(a.p, _frac(b)), k)
    return mk(cur().mul(a.p, b.p), k)


def sgn(a):
    """-1,0,1 (forks), nan for nan"""
    if isinstance(a, SymReal):
        c = cur()
        if c.decide_rel(a.p, '<'):
            return -1
        return 0 if c.decide_rel(a.p, '==') else 1
    if a != a:
        return math.nan
    return (a > 0) - (a < 0)


def r_div(a, b):
    """numpy division (floats)"""
    if _special(a) or _special(b):
        if a != a or b != b or (_special(a) and _special(b)):
            return math.nan
        if _special(b):
            return 0.0
        s = sgn(b)
        return math.copysign(math.inf, a) * (s if s else 1)
    if not isinstance(b, SymReal):
        if b == 0:
            s = sgn(a)
            if s != s or s == 0:
                return math.nan
            return math.copysign(math.inf, s) * math.copysign(1.0, float(b))
        if not isinstance(a, SymReal):
            return a / b
        return mk(p_scale(a.p, 1 / _frac(b)))
    c = cur()
    if c.tables.get('lazy') and c.opaque(b.p) and c.p_sign(b.p) not in '<>':
        s = 0 if c.decide_rel(b.p, '==') else None
    else:
        s = sgn(b)
    if s == 0:
        s = sgn(a)
        return math.nan if (s != s or s == 0) else math.copysign(math.inf, s)
    den = b.p
    return mk(c.mul(lift(a), inv_poly(c, den, s)))


def common_monomial(c, p):
    g = None
    for m in p:
        d = {i: e for i, e in m if c.asign(i) in ('>', '<')}
        if g is None:
            g = d
        else:
            # negative exponents are always pulled out
            n = {}
            for i in set(g) | set(d):
                e = min(g.get(i, 0), d.get(i, 0))
                if e:
                    n[i] = e
            g = n
    return tuple(sorted(g.items()))


def inv_poly(c, den, s):
    """1/den as a Laurent polynomial; s the sign of den on this path"""
    if len(den) == 1:
        (m, k), = den.items()
        for i, e in m:
            if c.asign(i) not in ('>', '<') and s is not None:
                # sign of the whole monomial is known; decide the atoms'
                if e % 2 or True:
                    x = {((i, 1),): F(1)}
                    if c.decide_rel(x, '<'):
                        c.signs[i] = '<'
                    else:
                        if c.decide_rel(x, '=='):
                            raise PathAbort('zero denominator excluded')
                        c.signs[i] = '>'
        return c.reduce({tuple((i, -e) for i, e in m): 1 / k})
    # canonical positive scale
    lead = den[max(den)]
    q = p_scale(den, 1 / lead)        # monic
    if s is None:
        t = c.table('den?')
        key = p_key(q)
        if key not in t:
            t[key] = c.atom(c.fresh('den'), kind='den', sign='?', data=q).idx
            c.table('den_by_idx')[t[key]] = q
        return {((t[key], -1),): 1 / lead}
    sq = s if lead > 0 else -s        # sign of q
    # pull out common monomial factors of known sign
    g = common_monomial(c, den)
    if g:
        inv = {tuple((i, -e) for i, e in g): F(1)}
        flip = sum(1 for i, e in g if e % 2 and c.asign(i) == '<') % 2
        rest = inv_poly(c, c.reduce(p_mul_raw(den, inv)), -s if flip else s)
        return c.reduce(p_mul_raw(rest, inv))
    t = c.table('den')
    key = p_key(q)
    if key not in t:
        d = q if sq > 0 else p_scale(q, F(-1))
        a = c.atom(c.fresh('den'), kind='den', sign='>', data=d)
        t[key] = (a.idx, sq)
        fac = c.clear_factor(d)
        c.axiom(lambda: a.z > 0)
        c.axiom(lambda: c.z(p_mul_raw({((a.idx, 1),): F(1)}, fac)) == c.z(c.reduce(p_mul_raw(d, fac))))
        c.table('den_by_idx')[a.idx] = d
    idx, sq = t[key]
    return {((idx, -1),): (1 / lead) * sq}


def r_cmp(a, b, op):
    if not isinstance(a, SymReal) and not isinstance(b, SymReal):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
    if _special(a) or _special(b):
        x = a if _special(a) else 0.0
        y = b if _special(b) else 0.0
        return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y, '!=': x != y}[op]
    return cur().decide_rel(p_add(lift(a), lift(b), -1), op)


def r_abs(a):
    if not isinstance(a, SymReal):
        return abs(a)
    c = cur()
    if c.tables.get('lazy') and c.opaque(a.p) and c.p_sign(a.p) == '?':
        q = p_scale(a.p, 1 / a.p[max(a.p)])
        t = c.table('absfn')
        k = p_key(q)
        if k not in t:
            t[k] = c.atom(c.fresh('abs'), kind='fn', sign='>=', data=('abs', q)).idx
        return mk({((t[k], 1),): abs(a.p[max(a.p)])})
    return -a if sgn(a) < 0 else a


def r_sqrt(a):
    if not isinstance(a, SymReal):
        if isinstance(a, float) and a != a:
            return math.nan
        return math.nan if a < 0 else math.sqrt(a)
    c = cur()
    s = sgn(a)
    if s < 0:
        return math.nan
    if s == 0:
        return 0.0
    p = a.p
    if p_is_const(p):
        v = p_cval(p)
        n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if n * n == v.numerator and d * d == v.denominator:
            return mk(p_const(F(n, d)))
        return math.sqrt(v)
    # single monomial perfect square
    if len(p) == 1:
        (m, k), = p.items()
        n, d = math.isqrt(k.numerator), math.isqrt(k.denominator)
        if all(e % 2 == 0 for _, e in m):
            k = F(n, d) if n * n == k.numerator and d * d == k.denominator else F(math.sqrt(k))
            r = mk({tuple((i, e // 2) for i, e in m): k})
            return -r if isinstance(r, SymReal) and sgn(r) < 0 else r
    g = common_monomial(c, p)
    g2 = tuple((i, e - e % 2) for i, e in g if e - e % 2)
    if g2:
        rest = r_sqrt(mk(c.reduce(p_mul_raw(p, {tuple((i, -e) for i, e in g2): F(1)}))))
        out = mul(rest, mk({tuple((i, e // 2) for i, e in g2): F(1)}))
        if sum(1 for i, e in g2 if (e // 2) % 2 and c.asign(i) == '<') % 2:
            out = mul(out, -1.0)
        return out
    r = perfect_root(p)
    if r is not None:
        r = mk(r)
        return -r if isinstance(r, SymReal) and sgn(r) < 0 else r
    lead = p[max(p)]
    q = p_scale(p, 1 / abs(lead))
    key = p_key(q)
    t = c.table('sqrt')
    if key not in t:
        r = c.atom(c.fresh('root'), kind='sqrt', sign='>', data=q)
        t[key] = r.idx
        c.table('special')[r.idx] = q
        fac = c.clear_factor(q)
        c.axiom(lambda: c.z(p_mul_raw({((r.idx, 2),): F(1)}, fac)) == c.z(c.expand(c.reduce(p_mul_raw(q, fac)))))
        c.axiom(lambda: r.z > 0)
    res = {((t[key], 1),): F(1)}
    sc = abs(lead)
    n, d = math.isqrt(sc.numerator), math.isqrt(sc.denominator)
    if n * n == sc.numerator and d * d == sc.denominator:
        k = F(n, d)
    else:
        k = F(math.sqrt(sc))
    return mk(p_scale(res, k))


def _fsqrt(k):
    if k < 0:
        return None
    n, d = math.isqrt(k.numerator), math.isqrt(k.denominator)
    return F(n, d) if n * n == k.numerator and d * d == k.denominator else None


def perfect_root(p):
    """r with r*r == p, or None"""
    if not 3 <= len(p) <= 80 or any(e < 0 for m in p for _, e in m):
        return None
    ats = sorted({i for m in p for i, _ in m})

    def vec(m):
        d = dict(m)
        return tuple(d.get(i, 0) for i in ats)
    q = {vec(m): k for m, k in p.items()}
    lt = max(q)
    k = _fsqrt(q[lt])
    if k is None or any(e % 2 for e in lt):
        return None
    l0 = tuple(e // 2 for e in lt)
    r = {l0: k}
    rem = dict(q)
    del rem[lt]
    while rem:
        if len(r) > 20:
            return None
        m = max(rem)
        t = tuple(a - b for a, b in zip(m, l0))
        if any(e < 0 for e in t) or t in r:
            return None
        co = rem[m] / (2 * k)
        for x, y in list(r.items()) + [(t, co / 2)]:
            z = tuple(a + b for a, b in zip(x, t))
            v = rem.get(z, 0) - 2 * y * co
            if v:
                rem[z] = v
            else:
                rem.pop(z, None)
        r[t] = co
    return {tuple((i, e) for i, e in zip(ats, v) if e): co for v, co in r.items()}


def _clear_factor(self, p):
    neg = {}
    for m in p:
        for i, e in m:
            if e < 0 and -e > neg.get(i, 0):
                neg[i] = -e
    return {tuple(sorted(neg.items())): F(1)} if neg else {(): F(1)}


Path.clear_factor = _clear_factor


FN_MONO = {'exp': 1, 'tanh': 1, 'log': 1, 'arctan': 1, 'sinh': 1}


def r_reduce(a, bits):
    """a rounded to a float with that many significand bits (relative error at most 2**-bits)"""
    c = cur()
    t = c.table('fn')
    key = (f'reduce{bits}', p_key(a.p))
    if key in t:
        return t[key][1]
    at = c.atom(c.fresh('rnd'), kind='fn', sign='?', data=('reduce', a.p))
    d = SymReal({((at.idx, 1),): F(1)})
    eps = F(1, 2 ** bits)
    lo, hi = p_add(d.p, a.p, -eps), p_add(d.p, a.p, eps)
    c.add(z3.Or(z3.And(c.rel(a.p, '>='), c.rel(lo, '<='), c.rel(hi, '>=')), z3.And(c.rel(a.p, '<'), c.rel(lo, '>='), c.rel(hi, '<='))))
    c.tables['reduced'] = True
    v = add(a, d)
    t[key] = (a.p, v)
    return v


def r_fn(name, a, extra=None):
    """monotone transcendental functions as axiomatised atoms"""
    import numpy as _np
    if not isinstance(a, SymReal):
        with _np.errstate(all='ignore'):
            return float(getattr(_np, name)(a))
    c = cur()
    hook = c.tables.get('fn_hook')
    if hook:
        r = hook(name, a)
        if r is not None:
            return r
    if name == 'log':
        s = sgn(a)
        if s == 0:
            return -math.inf
        if s < 0:
            return math.nan
    key = (name, p_key(a.p))
    t = c.table('fn')
    if key in t:
        return t[key][1]
    sign = '>' if name in ('exp', 'cosh') else '?'
    at = c.atom(c.fresh(name), kind='fn', sign=sign, data=(name, a.p))
    v = SymReal({((at.idx, 1),): F(1)})
    p = a.p
    if c.tables.get('lazy'):
        if name in ('tanh', 'sinh', 'arctan'):
            g = c.p_sign(p)
            if g in ('<', '>', '<=', '>='):
                at.sign = g
        t[key] = (p, v)
        return v
    if name == 'exp':
        c.add(at.z > 0)
        c.add(z3.Implies(c.rel(p, '>'), at.z > 1))
        c.add(z3.Implies(c.rel(p, '<'), at.z < 1))
        c.add(z3.Implies(c.rel(p, '=='), at.z == 1))
    elif name == 'tanh':
        c.add(z3.And(at.z > -1, at.z < 1))
        c.add(z3.Implies(c.rel(p, '>'), at.z > 0))
        c.add(z3.Implies(c.rel(p, '<'), at.z < 0))
        c.add(z3.Implies(c.rel(p, '=='), at.z == 0))
    elif name == 'log':
        c.add(z3.Implies(c.rel(p_add(p, p_const(F(1)), -1), '>'), at.z > 0))
        c.add(z3.Implies(c.rel(p_add(p, p_const(F(1)), -1), '<'), at.z < 0))
        c.add(z3.Implies(c.rel(p_add(p, p_const(F(1)), -1), '=='), at.z == 0))
    for (n2, _), (p2, v2) in t.items():
        if n2 != name:
            continue
        d = p_add(p, p2, -1)
        z2 = c.atoms[next(iter(v2.p))[0][0]].z
        c.add(z3.Implies(c.rel(d, '=='), at.z == z2))
        if name in FN_MONO:
            c.add(z3.Implies(c.rel(d, '<'), at.z < z2))
            c.add(z3.Implies(c.rel(d, '>'), at.z > z2))
    if p_is_const(p):
        x = float(getattr(_np, name)(float(p_cval(p))))
        w = F(abs(x)) * F(1, 10 ** 12) + F(1, 10 ** 300)
        c.add(z3.And(at.z >= z3.RealVal(str(F(x) - w)), at.z <= z3.RealVal(str(F(x) + w))))
    t[key] = (p, v)
    return v


def r_pow(a, b):
    """a ** b, numpy semantics for floats"""
    a_s, b_s = isinstance(a, SymReal), isinstance(b, SymReal)
    if not a_s and not b_s:
        import numpy as _np
        with _np.errstate(all='ignore'):
            if isinstance(a, int) and isinstance(b, int) and b >= 0:
                return a ** b
            return float(_np.float64(a) ** _np.float64(b))
    if not b_s:
        if _special(b):
            raise EngineLimit('power with infinite exponent')
        fb = F(b) if not isinstance(b, int) else F(b)
        if fb.denominator == 1:
            n = int(fb)
            if abs(n) > 40:
                raise EngineLimit('large power')
            ki = kind_of(a) == 'i' and isinstance(b, int)
            if n == 0:
                return 1 if ki else 1.0
            r = a.p
            if n < 0:
                if ki:
                    raise ValueError('Integers to negative integer powers are not allowed.')
                s = sgn(a)
                if s == 0:
                    return math.inf
                r = inv_poly(cur(), a.p, s)
            base = r
            for _ in range(abs(n) - 1):
                r = cur().mul(r, base)
            return mk(r, 'i' if ki else 'f')
        if fb == F(1, 2):
            return r_sqrt(a)
        if fb.denominator == 2 and abs(fb) < 10:
            r = r_pow(a, int(math.floor(fb)))
            return mul(r_sqrt(a), r)
    # general: positive base
    c = cur()
    if a_s:
        s = sgn(a)
        if s < 0:
            return math.nan
        if s == 0:
            sb = sgn(b)
            return 1.0 if sb == 0 else (0.0 if sb > 0 else math.inf)
    else:
        if a < 0:
            raise EngineLimit('negative base')
        if a == 0:
            sb = sgn(b)
            return 1.0 if sb == 0 else (0.0 if sb > 0 else math.inf)
        if a == 1:
            return 1.0
    hook = c.tables.get('pow_hook')
    if hook:
        r = hook(a, b)
        if r is not None:
            return r
    # rational exponent n/d with small d: root atom   r^d = a^n
    if not b_s:
        fb = F(b).limit_denominator(64)
        if abs(float(fb) - float(b)) < 1e-15 * max(1, abs(float(b))) and fb.denominator <= 12 and abs(fb.numerator) <= 24:
            root = nth_root(c, a, fb.denominator)
            return r_pow(root, int(fb.numerator))
    t = c.table('pow')
    key = (p_key(lift(a)), p_key(lift(b)))
    if key in t:
        return t[key]
    at = c.atom(c.fresh('pow'), kind='fn', sign='>', data=('pow', lift(a), lift(b)))
    v = SymReal({((at.idx, 1),): F(1)})
    if c.tables.get('lazy'):
        t[key] = v
        return v
    c.add(at.z > 0)
    pa, pb = lift(a), lift(b)
    pa1 = p_add(pa, p_const(F(1)), -1)
    # a^b vs 1
    c.add(z3.Implies(z3.Or(c.rel(pa1, '=='), c.rel(pb, '==')), at.z == 1))
    c.add(z3.Implies(z3.And(c.rel(pa1, '>'), c.rel(pb, '>')), at.z > 1))
    c.add(z3.Implies(z3.And(c.rel(pa1, '>'), c.rel(pb, '<')), at.z < 1))
    c.add(z3.Implies(z3.And(c.rel(pa1, '<'), c.rel(pb, '>')), at.z < 1))
    c.add(z3.Implies(z3.And(c.rel(pa1, '<'), c.rel(pb, '<')), at.z > 1))
    c.add(z3.Implies(c.rel(p_add(pb, p_const(F(1)), -1), '=='), c.rel(p_add(v.p, pa, -1), '==')))
    for (ka, kb), v2 in t.items():
        da = p_add(pa, dict(ka), -1)
        db = p_add(pb, dict(kb), -1)
        z2 = c.atoms[next(iter(v2.p))[0][0]].z
        c.add(z3.Implies(z3.And(c.rel(da, '=='), c.rel(db, '==')), at.z == z2))
    t[key] = v
    return v


def nth_root(c, a, d):
    """positive d-th root of positive a"""
    if d == 1:
        return a
    if not isinstance(a, SymReal):
        return float(a) ** (1.0 / d)
    if d == 2:
        return r_sqrt(a)
    p = a.p
    if len(p) == 1:
        (m, k), = p.items()
        if k == 1 and all(e % d == 0 for _, e in m) and all(c.asign(i) == '>' for i, _ in m):
            return mk({tuple((i, e // d) for i, e in m): F(1)})
    t = c.table('nroot')
    key = (d, p_key(p))
    if key not in t:
        r = c.atom(c.fresh(f'root{d}_'), kind='nroot', sign='>', data=(d, p))
        if c.tables.get('lazy'):
            t[key] = r.idx
            return SymReal({((r.idx, 1),): F(1)})
        c.add(r.z > 0)
        fac = c.clear_factor(p)
        c.add(c.z(p_mul_raw({((r.idx, d),): F(1)}, fac)) == c.z(c.expand(c.reduce(p_mul_raw(p, fac)))))
        # monotone w.r.t. the other roots of the same degree
        for (d2, k2), i2 in t.items():
            if d2 == d:
                diff = p_add(p, dict(k2), -1)
                c.add(z3.Implies(c.rel(diff, '=='), r.z == c.atoms[i2].z))
                c.add(z3.Implies(c.rel(diff, '<'), r.z < c.atoms[i2].z))
                c.add(z3.Implies(c.rel(diff, '>'), r.z > c.atoms[i2].z))
        t[key] = r.idx
    return SymReal({((t[key], 1),): F(1)})


def r_intpart(a, mode):
    """floor / ceil / rint / trunc as an integer-valued value of float type"""
    if not isinstance(a, SymReal):
        if _special(a):
            return a
        return float({'floor': math.floor, 'ceil': math.ceil, 'rint': round, 'trunc': math.trunc}[mode](a))
    c = cur()
    if isinstance(a, SymInt):
        return SymReal(a.p)
    if p_is_const(a.p):
        v = p_cval(a.p)
        return float({'floor': math.floor, 'ceil': math.ceil, 'rint': round, 'trunc': math.trunc}[mode](v))
    if mode == 'trunc':
        return r_intpart(a, 'floor' if sgn(a) >= 0 else 'ceil')
    if mode == 'ceil':
        return -r_intpart(-a, 'floor')
    t = c.table('int')
    key = (mode, p_key(a.p))
    if key not in t:
        k = c.atom(c.fresh(mode), kind='int', isint=True, data=(mode, a.p))
        kp = {((k.idx, 1),): F(1)}
        d = p_add(a.p, kp, -1)            # a - k
        if mode == 'floor':
            c.add(c.rel(d, '>='))
            c.add(c.rel(p_add(d, p_const(F(1)), -1), '<'))
        else:
            half = p_const(F(1, 2))
            lo = c.rel(p_add(d, half), '>=')
            hi = c.rel(p_add(d, half, -1), '<=')
            tie = z3.Or(c.rel(p_add(d, half), '=='), c.rel(p_add(d, half, -1), '=='))
            h = z3.Int(c.fresh('half'))
            c.add(z3.And(lo, hi))
            c.add(z3.Implies(tie, k.z == 2 * z3.ToReal(h)))
        t[key] = k.idx
    return SymReal({((t[key], 1),): F(1)})


# cos/sin of a symbolic angle: pair of atoms on the unit circle; integer multiples are expanded
def cos_sin(a):
    if not isinstance(a, SymReal):
        return math.cos(a), math.sin(a)
    c = cur()
    t = c.table('angle')
    p = a.p
    lead = p[max(p)]
    q = p_scale(p, 1 / lead)
    key = p_key(q)
    if key not in t:
        t[key] = []
    lst = t[key]
    for (sc, cs) in lst:
        r = lead / sc
        rr = r.limit_denominator(1000)
        if abs(rr - r) < F(1, 10 ** 12) * max(1, abs(r)) and rr.denominator == 1 and abs(rr) <= 12:
            return _multi(cs, int(rr))
    # does an existing base become a multiple of the new one?
    idx = len(lst)
    ca = c.atom(c.fresh('cos'), kind='cos', sign='?', lo=-1, hi=1, data=p)
    sa = c.atom(c.fresh('sin'), kind='sin', sign='?', lo=-1, hi=1, data=p)
    c.table('special')[sa.idx] = {(): F(1), ((ca.idx, 2),): F(-1)}
    c.add(ca.z * ca.z + sa.z * sa.z == 1)
    cs = (SymReal({((ca.idx, 1),): F(1)}), SymReal({((sa.idx, 1),): F(1)}))
    for (sc, old) in lst:
        r = sc / lead
        rr = r.limit_denominator(1000)
        if abs(rr - r) < F(1, 10 ** 12) * max(1, abs(r)) and rr.denominator == 1 and 1 < abs(rr) <= 12:
            m = _multi(cs, int(rr))
            for u, v in zip(old, m):
                c.add(c.rel(p_add(lift(u), lift(v), -1), '=='))
    lst.insert(0, (lead, cs))
    return cs


def _multi(cs, n):
    if n == 0:
        return 1.0, 0.0
    c0, s0 = cs
    if n < 0:
        a, b = _multi(cs, -n)
        return a, -b
    a, b = c0, s0
    for _ in range(n - 1):
        a, b = r_add(mul(a, c0), mul(b, s0), -1), r_add(mul(a, s0), mul(b, c0))
    return a, b


class SymReal:
    __slots__ = ('p',)
    __array_priority__ = 1000
    ndim = 0
    shape = ()
    size = 1
    nbytes = 8

    def __init__(self, p):
        self.p = p

    # arithmetic ---------------------------------------------------------------
    def __add__(self, o):
        return _op(self, o, add)

    def __radd__(self, o):
        return _op(o, self, add)

    def __sub__(self, o):
        return _op(self, o, sub)

    def __rsub__(self, o):
        return _op(o, self, sub)

    def __mul__(self, o):
        return _op(self, o, mul)

    def __rmul__(self, o):
        return _op(o, self, mul)

    def __truediv__(self, o):
        return _op(self, o, div)

    def __rtruediv__(self, o):
        return _op(o, self, div)

    def __pow__(self, o):
        return _op(self, o, power)

    def __rpow__(self, o):
        return _op(o, self, power)

    def __floordiv__(self, o):
        return _op(self, o, floordiv)

    def __rfloordiv__(self, o):
        return _op(o, self, floordiv)

    def __mod__(self, o):
        return _op(self, o, mod)

    def __rmod__(self, o):
        return _op(o, self, mod)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __neg__(self):
        return mk(p_scale(self.p, F(-1)), kind_of(self))

    def __pos__(self):
        return self

    def __abs__(self):
        return r_abs(self)

    # comparisons: decided at once (may fork)
    def __lt__(self, o):
        return _cmp(self, o, '<')

    def __le__(self, o):
        return _cmp(self, o, '<=')

    def __gt__(self, o):
        return _cmp(self, o, '>')

    def __ge__(self, o):
        return _cmp(self, o, '>=')

    def __eq__(self, o):
        return _cmp(self, o, '==')

    def __ne__(self, o):
        return _cmp(self, o, '!=')

    def __hash__(self):
        # equal values must meet in one bucket of a table; == decides
        return 0x5eed

    def __bool__(self):
        return not cur().decide_rel(self.p, '==')

    def __int__(self):
        t = r_intpart(self, 'trunc')
        return cur().concretize(lift(t)) if isinstance(t, SymReal) else int(t)

    __trunc__ = __int__

    def __floor__(self):
        t = r_intpart(self, 'floor')
        return cur().concretize(lift(t)) if isinstance(t, SymReal) else int(t)

    def __ceil__(self):
        t = r_intpart(self, 'ceil')
        return cur().concretize(lift(t)) if isinstance(t, SymReal) else int(t)

    def __round__(self, nd=None):
        if nd is None:
            t = r_intpart(self, 'rint')
            return cur().concretize(lift(t)) if isinstance(t, SymReal) else int(t)
        s = 10 ** nd
        return div(r_intpart(mul(self, s), 'rint'), s)

    def __float__(self):
        if p_is_const(self.p):
            return float(p_cval(self.p))
        raise EngineLimit('a symbolic value reached code that needs a machine float')

    def __complex__(self):
        raise EngineLimit('a symbolic value reached code that needs a machine complex')

    def __repr__(self):
        return f'Sym({len(self.p)} terms)'

    def __format__(self, spec):
        return repr(self)

    # numpy scalar look-alike -----------------------------------------------------
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    @property
    def T(self):
        return self

    @property
    def dtype(self):
        import numpy as _np
        return _np.dtype('float64')

    def conjugate(self):
        return self

    conj = conjugate

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def squeeze(self):
        return self

    def is_integer(self):
        raise EngineLimit('is_integer')

    def astype(self, dt, **kw):
        from symnp import dt_kind
        k = dt_kind(dt)
        if k == 'i':
            t = r_intpart(self, 'trunc')
            return int(t) if not isinstance(t, SymReal) else SymInt(t.p)
        return self

    def round(self, decimals=0):
        if decimals == 0:
            return r_intpart(self, 'rint')
        s = 10 ** decimals
        return div(r_intpart(mul(self, s), 'rint'), s)

    def sum(self, *a, **k):
        return self

    mean = max = min = sum

    def flatten(self):
        import symnp
        return symnp.asarray([self])

    ravel = flatten

    def reshape(self, *a):
        import symnp
        return symnp.asarray([self]).reshape(*a)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        import symnp
        return symnp.handle_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        import symnp
        return symnp.handle_function(func, types, args, kwargs)

    def __array__(self, dtype=None, copy=None):
        import numpy as _np
        a = _np.empty((), dtype=object)
        a[()] = self
        return a

    # hooks used by numpy object loops
    def sqrt(self):
        return r_sqrt(self)

    def exp(self):
        return r_fn('exp', self)

    def log(self):
        return r_fn('log', self)

    def tanh(self):
        return r_fn('tanh', self)

    def cos(self):
        return cos_sin(self)[0]

    def sin(self):
        return cos_sin(self)[1]

    def rint(self):
        return r_intpart(self, 'rint')

    def floor(self):
        return r_intpart(self, 'floor')

    def ceil(self):
        return r_intpart(self, 'ceil')


class SymInt(SymReal):
    __slots__ = ()

    @property
    def dtype(self):
        import numpy as _np
        return _np.dtype('int64')

    def __index__(self):
        return cur().concretize(self.p)

    def __int__(self):
        return cur().concretize(self.p)

    def is_integer(self):
        return True


numbers.Real.register(SymReal)
numbers.Integral.register(SymInt)


def cparts(x):
    if isinstance(x, SymComplex):
        return x.re, x.im
    if isinstance(x, complex) or (hasattr(x, 'imag') and type(x).__name__.startswith('complex')):
        return float(x.real), float(x.imag)
    return x, 0.0


def mkc(re, im):
    if not isinstance(re, SymReal) and not isinstance(im, SymReal):
        return complex(re, im)
    return SymComplex(re, im)


class SymComplex:
    __slots__ = ('re', 'im')
    __array_priority__ = 1000
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __add__(self, o):
        return _op(self, o, add)

    def __radd__(self, o):
        return _op(o, self, add)

    def __sub__(self, o):
        return _op(self, o, sub)

    def __rsub__(self, o):
        return _op(o, self, sub)

    def __mul__(self, o):
        return _op(self, o, mul)

    def __rmul__(self, o):
        return _op(o, self, mul)

    def __truediv__(self, o):
        return _op(self, o, div)

    def __rtruediv__(self, o):
        return _op(o, self, div)

    def __pow__(self, o):
        return _op(self, o, power)

    def __neg__(self):
        return mkc(-self.re, -self.im)

    def __pos__(self):
        return self

    def __abs__(self):
        s = r_add(mul(self.re, self.re), mul(self.im, self.im))
        if not isinstance(s, SymReal):
            return math.sqrt(s)
        if not isinstance(self.im, SymReal) and self.im == 0:
            return r_abs(self.re)
        if not isinstance(self.re, SymReal) and self.re == 0:
            return r_abs(self.im)
        return r_sqrt(s)

    def __eq__(self, o):
        a, b = cparts(o)
        return bool(r_cmp(self.re, a, '==')) and bool(r_cmp(self.im, b, '=='))

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return 0x5eee

    def __bool__(self):
        return bool(self.re) or bool(self.im)

    def __complex__(self):
        raise EngineLimit('a symbolic value reached code that needs a machine complex')

    __float__ = __complex__

    def __repr__(self):
        return 'SymC'

    def __format__(self, s):
        return 'SymC'

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    @property
    def dtype(self):
        import numpy as _np
        return _np.dtype('complex128')

    def conjugate(self):
        return mkc(self.re, -self.im)

    conj = conjugate

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def astype(self, dt, **kw):
        from symnp import dt_kind
        return self.re if dt_kind(dt) in 'fi' else self

    def exp(self):
        return c_exp(self)

    __array_ufunc__ = SymReal.__array_ufunc__
    __array_function__ = SymReal.__array_function__
    __array__ = SymReal.__array__


numbers.Complex.register(SymComplex)


def c_exp(z):
    re, im = cparts(z)
    m = r_fn('exp', re) if isinstance(re, SymReal) else math.exp(re)
    c, s = cos_sin(im)
    return mkc(mul(m, c), mul(m, s))


def _is_c(x):
    return isinstance(x, (complex, SymComplex)) or type(x).__name__.startswith('complex')


def _op(a, b, f):
    import numpy as _np
    if isinstance(a, _np.ndarray) and a.ndim > 0 or isinstance(b, _np.ndarray) and b.ndim > 0:
        import symnp
        return symnp.elementwise(f, a, b)
    if isinstance(a, SymFP) or isinstance(b, SymFP):
        return NotImplemented
    na = a if _is_c(a) else _num(a)
    nb = b if _is_c(b) else _num(b)
    if na is None or nb is None:
        return NotImplemented
    return f(na, nb)


def _cmp(a, b, op):
    import numpy as _np
    if isinstance(b, _np.ndarray) and b.ndim > 0:
        import symnp
        return symnp.handle_ufunc({'<': _np.less, '<=': _np.less_equal, '>': _np.greater, '>=': _np.greater_equal,
                                   '==': _np.equal, '!=': _np.not_equal}[op], '__call__', (a, b), {})
    if _is_c(b):
        if op in ('==', '!='):
            re, im = cparts(b)
            r = bool(r_cmp(a, re, '==')) and bool(r_cmp(0.0, im, '=='))
            return r if op == '==' else not r
        return NotImplemented
    n = _num(b)
    if n is None:
        if op == '==':
            return False
        if op == '!=':
            return True
        return NotImplemented
    return r_cmp(a, n, op)


def add(a, b):
    if _is_c(a) or _is_c(b):
        ar, ai = cparts(a)
        br, bi = cparts(b)
        return mkc(r_add(ar, br), r_add(ai, bi))
    return r_add(a, b)


def sub(a, b):
    if _is_c(a) or _is_c(b):
        ar, ai = cparts(a)
        br, bi = cparts(b)
        return mkc(r_add(ar, br, -1), r_add(ai, bi, -1))
    return r_add(a, b, -1)


def _zero(x):
    return not isinstance(x, SymReal) and x == 0


def mul(a, b):
    if _is_c(a) or _is_c(b):
        ar, ai = cparts(a)
        br, bi = cparts(b)

        def mz(x, y):
            if (_zero(x) and not _special(y)) or (_zero(y) and not _special(x)):
                return 0.0
            return r_mul(x, y)
        return mkc(r_add(mz(ar, br), mz(ai, bi), -1), r_add(mz(ar, bi), mz(ai, br)))
    return r_mul(a, b)


def div(a, b):
    if _is_c(a) or _is_c(b):
        ar, ai = cparts(a)
        br, bi = cparts(b)
        if _zero(bi):
            return mkc(r_div(ar, br), r_div(ai, br))
        n = r_add(mul(br, br), mul(bi, bi))
        x = mul(mkc(ar, ai), mkc(br, -bi))
        xr, xi = cparts(x)
        return mkc(r_div(xr, n), r_div(xi, n))
    return r_div(a, b)


def power(a, b):
    if _is_c(a) or _is_c(b):
        nb = _num(b) if not _is_c(b) else None
        if nb is not None and not isinstance(nb, SymReal) and float(nb) == int(nb) and 0 <= int(nb) <= 20:
            r = complex(1.0)
            for _ in range(int(nb)):
                r = mul(r, a)
            return r
        raise EngineLimit('complex power')
    return r_pow(a, b)


def floordiv(a, b):
    return r_intpart(r_div(a, b), 'floor')


def mod(a, b):
    return r_add(a, mul(b, floordiv(a, b)), -1)


# --------------------------------------------------------------------------------------------- IEEE doubles
def _ford(x):
    """order-preserving integer of a double"""
    n = struct.unpack('<q', struct.pack('<d', x))[0]
    return n if n >= 0 else -(n & 0x7fffffffffffffff)


def _fundo(n):
    return struct.unpack('<d', struct.pack('<q', n if n >= 0 else (-n) | -0x8000000000000000))[0]


class SymFP:
    """IEEE double (z3 FP theory), round-to-nearest-even; for the few places where float rounding decides.
    An expression that is a chain of correctly rounded operations of one variable with constants is monotone in
    that variable; its comparison with a constant is then exactly a comparison of the variable with a threshold
    double (found by bisection), which keeps multiplications and divisions out of the solver."""
    __slots__ = ('e', 'mono')
    SORT = z3.Float64()
    __array_priority__ = 1000
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, e, mono=None):
        self.e = e
        self.mono = mono        # (variable term, lo, hi, [python functions], direction)

    @classmethod
    def of(cls, x):
        if isinstance(x, SymFP):
            return x.e
        n = _num(x)
        if n is None or isinstance(n, SymReal):
            raise EngineLimit('mixing IEEE and exact symbolic values')
        return z3.FPVal(float(n), cls.SORT)

    @staticmethod
    def app(mono, x):
        for f in mono[3]:
            x = f(x)
        return x

    def _ext(self, g, d):
        if self.mono is None:
            return None
        v, lo, hi, fs, dr = self.mono
        m = (v, lo, hi, fs + [g], dr * d)
        try:
            if not (math.isfinite(self.app(m, lo)) and math.isfinite(self.app(m, hi))):
                return None
        except (OverflowError, ZeroDivisionError):
            return None
        return m

    def _b(self, o, f, rev=False):
        if _num(o) is None and not isinstance(o, SymFP):
            return NotImplemented
        a, b = (self.of(o), self.e) if rev else (self.e, self.of(o))
        m = None
        if self.mono is not None and not isinstance(o, SymFP):
            c = float(_num(o))
            if f is z3.fpAdd:
                m = self._ext(lambda x: x + c, 1)
            elif f is z3.fpSub:
                m = self._ext((lambda x: c - x), -1) if rev else self._ext((lambda x: x - c), 1)
            elif f is z3.fpMul and c != 0:
                m = self._ext(lambda x: x * c, 1 if c > 0 else -1)
            elif f is z3.fpDiv and c != 0 and not rev:
                m = self._ext(lambda x: x / c, 1 if c > 0 else -1)
        return SymFP(z3.simplify(f(z3.RNE(), a, b)), m)

    def __add__(self, o): return self._b(o, z3.fpAdd)
    def __radd__(self, o): return self._b(o, z3.fpAdd, True)
    def __sub__(self, o): return self._b(o, z3.fpSub)
    def __rsub__(self, o): return self._b(o, z3.fpSub, True)
    def __mul__(self, o): return self._b(o, z3.fpMul)
    def __rmul__(self, o): return self._b(o, z3.fpMul, True)
    def __truediv__(self, o): return self._b(o, z3.fpDiv)
    def __rtruediv__(self, o): return self._b(o, z3.fpDiv, True)
    def __neg__(self): return SymFP(z3.fpNeg(self.e), self._ext(lambda x: -x, -1))
    def __abs__(self): return SymFP(z3.fpAbs(self.e))

    def thr(self, c, strict):
        """term equivalent to f(v) <= c (strict: < c) for monotone f"""
        v, lo, hi, fs, dr = self.mono
        ok = (lambda x: self.app(self.mono, x) < c) if strict else (lambda x: self.app(self.mono, x) <= c)
        a, b = _ford(lo), _ford(hi)
        if dr > 0:
            if not ok(lo):
                return z3.BoolVal(False)
            if ok(hi):
                return z3.BoolVal(True)
            while b - a > 1:
                m = (a + b) // 2
                a, b = (m, b) if ok(_fundo(m)) else (a, m)
            return z3.fpLEQ(v, z3.FPVal(_fundo(a), self.SORT))
        if not ok(hi):
            return z3.BoolVal(False)
        if ok(lo):
            return z3.BoolVal(True)
        while b - a > 1:
            m = (a + b) // 2
            a, b = (a, m) if ok(_fundo(m)) else (m, b)
        return z3.fpGEQ(v, z3.FPVal(_fundo(b), self.SORT))

    def rel(self, o, f):
        """z3 term of the comparison"""
        if self.mono is not None and not isinstance(o, SymFP):
            c = float(_num(o))
            if c == c:
                if f is z3.fpLEQ:
                    return self.thr(c, False)
                if f is z3.fpLT:
                    return self.thr(c, True)
                if f is z3.fpGT:
                    return z3.Not(self.thr(c, False))
                if f is z3.fpGEQ:
                    return z3.Not(self.thr(c, True))
                return z3.And(self.thr(c, False), z3.Not(self.thr(c, True)))
        return f(self.e, self.of(o))

    def _c(self, o, f):
        if _num(o) is None and not isinstance(o, SymFP):
            return NotImplemented
        if isinstance(_num(o), SymReal):
            raise EngineLimit('mixing IEEE and exact symbolic values')
        return cur().branch(z3.simplify(self.rel(o, f)))

    def __lt__(self, o): return self._c(o, z3.fpLT)
    def __le__(self, o): return self._c(o, z3.fpLEQ)
    def __gt__(self, o): return self._c(o, z3.fpGT)
    def __ge__(self, o): return self._c(o, z3.fpGEQ)
    def __eq__(self, o): return self._c(o, z3.fpEQ)
    def __ne__(self, o): return not self._c(o, z3.fpEQ)
    def __hash__(self): return 0x5eef
    def __bool__(self): return not (self == 0.0)

    def _round(self, rm, g):
        return SymFP(z3.fpRoundToIntegral(rm, self.e), self._ext(g, 1))

    def floor(self): return self._round(z3.RTN(), lambda x: float(math.floor(x)))
    def ceil(self): return self._round(z3.RTP(), lambda x: float(math.ceil(x)))
    def rint(self): return self._round(z3.RNE(), lambda x: float(round(x)))
    def trunc(self): return self._round(z3.RTZ(), lambda x: float(math.trunc(x)))

    def __int__(self):
        t = self.trunc()
        c = cur()
        if t.mono is not None:
            a, b = sorted((self.app(t.mono, t.mono[1]), self.app(t.mono, t.mono[2])))
            if b - a > 4000:
                raise EngineLimit('int of a wide range of doubles')
            for k in range(int(a), int(b)):
                if c.branch(z3.simplify(t.rel(float(k), z3.fpLEQ))):
                    return k
            return int(b)
        # enumerate feasible values by comparisons from a model
        for k in range(0, 400):
            kk = (k + 1) // 2 * (1 if k % 2 else -1)
            if c.branch(z3.fpEQ(t.e, z3.FPVal(float(kk), self.SORT))):
                return kk
        raise EngineLimit('int of an unbounded double')

    __trunc__ = __int__

    def __floor__(self): return int(self.floor())
    def __ceil__(self): return int(self.ceil())
    def __round__(self, nd=None): return int(self.rint())

    def __float__(self):
        raise EngineLimit('symbolic double reached native code')

    @property
    def real(self): return self

    @property
    def imag(self): return 0.0

    @property
    def dtype(self):
        import numpy as _np
        return _np.dtype('float64')

    def item(self): return self
    def astype(self, dt, **k):
        from symnp import dt_kind
        return int(self) if dt_kind(dt) == 'i' else self

    def __repr__(self): return 'SymFP'
    def __format__(self, s): return 'SymFP'
    __array_ufunc__ = SymReal.__array_ufunc__
    __array_function__ = SymReal.__array_function__
    __array__ = SymReal.__array__


numbers.Real.register(SymFP)

