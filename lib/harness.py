"""Harness context: the same case body runs symbolically (on the twin, all inputs symbolic) and concretely
(on the real package, inputs from a solver model).  Assertions are discharged by the solver in the first
mode and evaluated with a small tolerance in the second."""
import sys, os, json, math, time, signal, traceback, types
from fractions import Fraction as F
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import symeng as E
import symnp as S
import loader
import taylor as T
z3 = E.z3

SYM_TOL = F(1, 10 ** 8)
REAL_TOL = 1e-9
WITNESS = {'quick': 6, 'thorough': 16}


class AssertFail(BaseException):
    def __init__(self, label, info=''):
        self.label, self.info = label, info


class Reject(BaseException):
    """replay inputs violate an assumption of the case"""


class Case:
    def __init__(self, name, fn, bound='', budget=60, stubs=(), witness=True, replay=None):
        self.name, self.fn, self.bound, self.budget, self.stubs, self.witness = name, fn, bound, budget, stubs, witness
        self.replay = replay


class Candidate(BaseException):
    """a failed obligation with model(s) to be replayed"""
    def __init__(self, label, info, models):
        self.label, self.info, self.models = label, info, models


class Undecided(Exception):
    pass


# ------------------------------------------------------------------------------------------- intervals
def atom_iv(p, i, depth=0):
    """(lo, hi) floats (outward safe by slack) for atom i, None = unbounded"""
    a = p.atoms[i]
    t = p.tables.setdefault('iv', {})
    if i in t:
        return t[i]
    lo = -math.inf if a.lo is None else float(a.lo)
    hi = math.inf if a.hi is None else float(a.hi)
    t[i] = (lo, hi)
    if depth < 20:
        if a.kind in ('den', 'sqrt') and isinstance(a.data, dict):
            l, h = poly_iv(p, a.data, depth + 1)
            if a.kind == 'den':
                lo, hi = max(l, 0.0), h
            else:
                lo, hi = math.sqrt(max(l, 0.0)) * (1 - 1e-12), math.sqrt(max(h, 0.0)) * (1 + 1e-12)
        elif a.kind == 'fn' and a.data[0] == 'tanh':
            lo, hi = -1.0, 1.0
        elif a.kind == 'fn' and a.data[0] == 'exp':
            l, h = poly_iv(p, a.data[1], depth + 1)
            lo = max(0.0, math.exp(l) * (1 - 1e-9) if l > -700 else 0.0)
            hi = math.exp(h) * (1 + 1e-9) if h < 700 else math.inf
        elif a.kind in ('cos', 'sin'):
            lo, hi = -1.0, 1.0
        elif a.kind == 'nroot':
            d, q = a.data
            l, h = poly_iv(p, q, depth + 1)
            lo, hi = max(l, 0.0) ** (1 / d) * (1 - 1e-9), (h ** (1 / d) * (1 + 1e-9) if h < math.inf else h)
    if a.kind in ('den', 'sqrt') and isinstance(a.data, dict):
        lb = p.tables.get('lb', {}).get(E.p_key(E.p_scale(a.data, 1 / abs(a.data[max(a.data)]))))
        if lb is not None:
            lb = lb * float(abs(a.data[max(a.data)])) * (1 - 1e-12)
            lo = max(lo, lb if a.kind == 'den' else math.sqrt(lb))
    s = p.asign(i)
    if s in ('>', '>='):
        lo = max(lo, 0.0)
    elif s in ('<', '<='):
        hi = min(hi, 0.0)
    t[i] = (lo, hi)
    return lo, hi


def _im(a, b):
    ps = []
    for x in a:
        for y in b:
            ps.append(0.0 if x == 0 or y == 0 else x * y)
    return min(ps), max(ps)


def _ipow(iv, e):
    lo, hi = iv
    if e < 0:
        if lo > 0:
            lo, hi = (1 / hi if hi else math.inf), 1 / lo
        elif hi < 0:
            lo, hi = 1 / hi, 1 / lo
        elif lo == 0 and hi >= 0:
            lo, hi = (1 / hi if hi else math.inf), math.inf
        else:
            return -math.inf, math.inf
        e = -e
    try:
        if e % 2 == 0:
            m = 0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi))
            return m ** e, max(abs(lo), abs(hi)) ** e
        return lo ** e, hi ** e
    except OverflowError:
        return -math.inf, math.inf


def poly_iv(p, q, depth=0):
    lo = hi = 0.0
    for m, c in q.items():
        iv = (1.0, 1.0)
        for i, e in m:
            iv = _im(iv, _ipow(atom_iv(p, i, depth), e))
        c = float(c)
        l, h = _im(iv, (c, c))
        lo += l
        hi += h
    if lo != lo:
        lo = -math.inf
    if hi != hi:
        hi = math.inf
    s = 1e-12 * (abs(lo) if abs(lo) < math.inf else 0) + 1e-12 * (abs(hi) if abs(hi) < math.inf else 0)
    return lo - s, hi + s


def poly_mag(p, q):
    """upper bound of |q| by monomials"""
    t = 0.0
    for m, c in q.items():
        v = abs(float(c))
        for i, e in m:
            lo, hi = _ipow(atom_iv(p, i), e)
            v *= max(abs(lo), abs(hi))
        t += v
    return t if t == t else math.inf


# ------------------------------------------------------------------------------------------- context
def _isarr(x):
    return isinstance(x, (list, tuple)) or isinstance(x, np.ndarray) and x.ndim > 0


def _flat(x):
    if isinstance(x, np.ndarray):
        return [x.item()] if x.ndim == 0 and not isinstance(x, S.SymArray) else list(S.raw(x).flat if isinstance(x, S.SymArray) else x.flat)
    if isinstance(x, (list, tuple)):
        r = []
        for v in x:
            r.extend(_flat(v))
        return r
    return [x]


def shape_of(x):
    if isinstance(x, np.ndarray):
        return tuple(x.shape)
    if isinstance(x, (list, tuple)):
        return (len(x),)
    return ()


class Ctx:
    """common part"""
    sym = False

    def real_list(self, name, n, lo=-16, hi=16):
        return [self.real(f'{name}{i}', lo, hi) for i in range(n)]

    def lazy(self, names=False):
        """comparisons over opaque functions take both outcomes without asking the solver"""
        if self.sym:
            self.p.tables['lazy'] = True
            self.p.tables['names'] = names

    def rounding(self):
        """constants that are no doubles are rounded to the nearest double, as the code itself does"""
        if self.sym:
            self.p.tables['round'] = True

    # vectors ----------------------------------------------------------------------------------
    def lst(self, x):
        """python list of the elements of an array result"""
        return _flat(x)

    def drawn(self, fig, label):
        """what a figure shows: lines [(label, xs, ys)], hists [values] (replays: bars), ticks, xlim, scales"""
        self.asserts += 1
        if self.sym:
            import symnp
            if not isinstance(fig, symnp.Fig):
                self.fail(label, f'{type(fig).__name__} returned instead of a figure')
            ax = fig.gca()
            return Drawn(ax.lines_, ax.hists, ax.ticks, ax.xlim_, ax.xscale, ax.yscale, fig.saved)
        from matplotlib.figure import Figure
        if not isinstance(fig, Figure):
            self.fail(label, f'{type(fig).__name__} returned instead of a figure')
        ax = fig.gca()
        ticks = (list(ax.get_xticks()), [t.get_text() for t in ax.get_xticklabels()])
        return Drawn([(l.get_label(), [float(v) for v in l.get_xdata(orig=True)], [float(v) for v in l.get_ydata(orig=True)]) for l in ax.lines],
                     [Bars(ax.patches)] if ax.patches else [], ticks, tuple(ax.get_xlim()), ax.get_xscale(), ax.get_yscale(), list(getattr(fig, '_saved', [])))

    def eq(self, a, b, label, tol=None):
        self.asserts += 1
        if _isarr(a) or _isarr(b):
            sa, sb = shape_of(a), shape_of(b)
            fa, fb = _flat(a), _flat(b)
            if len(fa) != len(fb) or (isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and sa != sb):
                self.fail(label, f'shape {sa} instead of {sb}')
            for i, (x, y) in enumerate(zip(fa, fb)):
                self._eq1(x, y, f'{label}[{i}]', tol)
            return
        self._eq1(a, b, label, tol)

    def _eq1(self, a, b, label, tol):
        if isinstance(a, np.ndarray):
            a = a.item()
        if isinstance(b, np.ndarray):
            b = b.item()
        if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)) or isinstance(a, str) or isinstance(b, str):
            if a != b:
                self.fail(label, f'{a!r} instead of {b!r}')
            return
        if a is None or b is None:
            if a is not b:
                self.fail(label, f'{a!r} instead of {b!r}')
            return
        if E._is_c(a) or E._is_c(b):
            ar, ai = E.cparts(a)
            br, bi = E.cparts(b)
            self._eqr(ar, br, label + '.re', tol)
            self._eqr(ai, bi, label + '.im', tol)
            return
        self._eqr(a, b, label, tol)

    def _eqr(self, a, b, label, tol):
        sa = not isinstance(a, (E.SymReal, E.SymFP)) and not math.isfinite(a)
        sb = not isinstance(b, (E.SymReal, E.SymFP)) and not math.isfinite(b)
        if sa or sb:
            if sa and sb and (a == b or (a != a and b != b)):
                return
            self.fail(label, f'{a!r} instead of {b!r}')
            return
        self._eqnum(a, b, label, tol)

    def ok(self, cond, label, info=''):
        self.asserts += 1
        if not bool(cond):
            self.fail(label, info)

    def raises(self, fn, label, exc=Exception):
        """fn must raise an exception of type exc (never return)"""
        self.asserts += 1
        try:
            r = fn()
        except exc:
            return
        except Exception as e:
            self.fail(label, f'raised {type(e).__name__}: {e}')
            return
        self.fail(label, f'returned {_short(r)}')


def _short(r):
    s = repr(r)
    return s if len(s) < 120 else s[:120] + '...'


GRAN = 2 ** 56
BOXES = {}
DBG = None


class Drawn:
    def __init__(self, lines, hists, ticks, xlim, xscale, yscale, saved):
        self.lines, self.hists, self.ticks, self.xlim, self.xscale, self.yscale, self.saved = lines, hists, ticks, xlim, xscale, yscale, saved


class Bars:
    """bars of a drawn histogram"""

    def __init__(self, patches):
        self.count = sum(p.get_height() for p in patches)
        self.lo, self.hi = min(p.get_x() for p in patches), max(p.get_x() + p.get_width() for p in patches)


class SymCtx(Ctx):
    sym = True
    try_models = staticmethod(lambda label, info, ms: False)

    def __init__(self, path, stats, mods):
        self.p, self.st, self.m = path, stats, mods
        self.asserts = 0
        self.inputs = []      # (name, type, z3 term)
        self.und = []
        self.hints = []
        self.pend = []
        loader._dummy('matplotlib.pyplot').reset()

    def fresh(self):
        """another instance of the package that has seen no call"""
        return loader.twin('_b')

    # inputs -----------------------------------------------------------------------------------
    def real(self, name, lo=-16, hi=16, strict=False):
        sign = '?'
        if lo is not None and (lo > 0 or lo == 0 and strict):
            sign = '>'
        elif lo == 0:
            sign = '>='
        elif hi is not None and hi < 0:
            sign = '<'
        a = self.p.atom(name, sign=sign, lo=lo, hi=hi)
        if lo is not None:
            lz = z3.RealVal(str(F(lo)))
            self.p.add(a.z > lz if strict else a.z >= lz)
        if hi is not None:
            self.p.add(a.z <= z3.RealVal(str(F(hi))))
        self.inputs.append((name, 'real', a.z))
        return E.SymReal({((a.idx, 1),): F(1)})

    def int(self, name, lo, hi):
        a = self.p.atom(name, isint=True, lo=lo, hi=hi, sign='>' if lo > 0 else '>=' if lo == 0 else '?')
        self.p.add(z3.And(a.z >= lo, a.z <= hi))
        self.inputs.append((name, 'int', a.z))
        return E.SymInt({((a.idx, 1),): F(1)})

    def fp(self, name, lo, hi):
        v = z3.FP(name, E.SymFP.SORT)
        self.p.add(z3.And(z3.fpLEQ(z3.FPVal(lo, E.SymFP.SORT), v), z3.fpLEQ(v, z3.FPVal(hi, E.SymFP.SORT))))
        self.inputs.append((name, 'fp', v))
        return E.SymFP(v, (v, float(lo), float(hi), [], 1))

    def choice(self, name, opts):
        i = self.p.choose(len(opts))
        self.inputs.append((name, 'choice', i))
        return opts[i]

    def vec(self, x):
        return S.asarray(list(x))

    def arr(self, x):
        return S.asarray(x)

    def ivec(self, x):
        """integer array"""
        return S.sh_array(list(x), dtype=int) if not any(E.is_sym(v) for v in x) else S.wrap(S.as_obj(S.asarray(list(x))), 'i')

    def cplx(self, re, im):
        return E.mkc(re, im)

    # assumptions ------------------------------------------------------------------------------
    def assume(self, cond):
        if not bool(cond):
            raise E.PathAbort('assumption')

    def assume_rel(self, a, op, b):
        """constraint added without forking"""
        d = E.sub(a, b)
        if isinstance(d, E.SymReal):
            s = self.p.p_sign(d.p)
            self.p.add(self.p.rel(d.p, op))
            if op in ('<', '>') and len(d.p) == 1:
                (m, c), = d.p.items()
                if len(m) == 1 and m[0][1] == 1:
                    self.p.signs[m[0][0]] = op if c > 0 else {'<': '>', '>': '<'}[op]
            q = E.p_scale(d.p, 1 / abs(d.p[max(d.p)]))
            if op in ('<', '>'):
                k = q if op == '<' else E.p_scale(q, F(-1))
                self.p.known[E.p_key(k), '<'] = True
                self.p.known[E.p_key(E.p_scale(k, F(-1))), '<'] = False
                e = q if q[max(q)] > 0 else E.p_scale(q, F(-1))
                self.p.known[E.p_key(e), '=='] = False
            elif op in ('<=', '>='):
                k = E.p_scale(q, F(-1)) if op == '<=' else q
                self.p.known[E.p_key(k), '<'] = False
        elif not {'<': d < 0, '<=': d <= 0, '>': d > 0, '>=': d >= 0, '==': d == 0, '!=': d != 0}[op]:
            raise E.PathAbort('assumption')

    def lower_bound(self, v, lb):
        """assume v >= lb > 0 and remember it for interval bounds of 1/v and sqrt(v)"""
        self.assume_rel(v, '>=', lb)
        if isinstance(v, E.SymReal):
            lead = abs(v.p[max(v.p)])
            k = E.p_key(E.p_scale(v.p, 1 / lead))
            self.p.tables.setdefault('lb', {})[k] = float(F(lb) / lead)
            self.p.known[k, '<'] = False
            self.p.known[E.p_key(E.p_scale(v.p, -1 / lead)), '<'] = True
            q = v.p if v.p[max(v.p)] > 0 else E.p_scale(v.p, F(-1))
            self.p.known[E.p_key(E.p_scale(q, 1 / lead)), '=='] = False

    def ident(self, a, b):
        """a and b are the same value by canonical form (no solver)"""
        if isinstance(a, E.SymReal) or isinstance(b, E.SymReal):
            if not isinstance(a, (E.SymReal, int, float)) or not isinstance(b, (E.SymReal, int, float)):
                return False
            return E.lift(a) == E.lift(b)
        return a == b

    def same(self, a, b):
        """a and b are equal in value (branches)"""
        if self.ident(a, b):
            return True
        if isinstance(a, E.SymReal) or isinstance(b, E.SymReal):
            if not isinstance(a, (E.SymReal, int, float)) or not isinstance(b, (E.SymReal, int, float)):
                return False
            return bool(E.r_cmp(a, b, '=='))
        return False

    def feasible(self):
        """cut the path if the assumptions contradict (used after assume_rel)"""
        if self.p.check(to=E.PROVE_TO) == z3.unsat:
            raise E.PathAbort('infeasible')

    def hint_nonneg(self, v):
        """adds v >= 0 for a value that is non-negative by construction (sum of squares)"""
        if isinstance(v, E.SymReal):
            self.hints.append(self.p.rel(v.p, '>='))

    # values -----------------------------------------------------------------------------------
    def sqrt(self, x):
        return E.r_sqrt(x)

    def fn(self, name, x):
        return E.r_fn(name, x)

    def pow(self, a, b):
        return E.r_pow(a, b)

    def val(self, x):
        """single value of a 0-d / length-1 result"""
        f = _flat(x)
        if len(f) != 1:
            self.fail('scalar expected', f'{len(f)} values')
        return f[0]

    # assertions -------------------------------------------------------------------------------
    def fail(self, label, info=''):
        """the current path reaches a failure"""
        self.st.obl += 1
        ms = self.models([])
        if ms is None:
            self.und.append(label)
            self.st.how['undecided'] = self.st.how.get('undecided', 0) + 1
            raise E.PathAbort('undecided')
        if not ms:
            raise E.PathAbort('infeasible')
        raise Candidate(label, info, ms)

    def ok(self, cond, label, info=''):
        self.asserts += 1
        if bool(cond):
            # true on this path: the path condition excludes the violation
            self.st.obl += 1
            self._h('path')
        else:
            self.fail(label, info)

    def _h(self, k):
        self.st.how[k] = self.st.how.get(k, 0) + 1

    def _eqnum(self, a, b, label, tol):
        self.st.obl += 1
        tol = SYM_TOL if tol is None else F(tol)
        if isinstance(a, E.SymFP) or isinstance(b, E.SymFP):
            t = z3.Not(a.rel(b, z3.fpEQ) if isinstance(a, E.SymFP) else b.rel(a, z3.fpEQ))
            r = self.p.check(t, to=E.PROVE_TO)
            if r == z3.unsat:
                return self._h('solver')
            self._refute([t], r, label, '')
            return
        if not isinstance(a, E.SymReal) and not isinstance(b, E.SymReal):
            if abs(a - b) <= float(tol) * max(1.0, abs(a), abs(b)):
                return self._h('concrete')
            self.st.obl -= 1
            return self.fail(label, f'{a!r} instead of {b!r}')
        d = E.sub(a, b)
        if not isinstance(d, E.SymReal):
            if abs(d) <= tol:
                return self._h('identity')
            self.st.obl -= 1
            return self.fail(label, f'differs by {d!r}')
        if not d.p:
            return self._h('identity')
        if poly_mag(self.p, d.p) <= tol:
            return self._batch(d.p, tol, label, True)
        q, _ = self.p.clear(d.p)
        if not q:
            return self._h('identity')
        t = E.p_const(tol)
        # relative tolerance for large values: the symbolic tolerance is absolute
        up = E.p_add(d.p, t, -1)
        dn = E.p_add(E.p_scale(d.p, F(-1)), t, -1)
        self._prove_none([('>', up), ('>', dn)], label, d.p, tol)

    def _batch(self, q, tol, label, both):
        """obligation whose residual is small by its monomial bounds: decided by the solver in one linear query per
        batch, every monomial a real variable within its bounds"""
        self.pend.append((q, tol, label, both))
        if len(self.pend) >= 400:
            self.flush()

    def flush(self):
        if not self.pend:
            return
        pend, self.pend = self.pend, []
        mono, dis = {}, []
        s = z3.SolverFor('QF_LRA')
        for q, tol, label, both in pend:
            t = []
            slack = F(0)
            for m, c in q.items():
                if c.denominator > GRAN:
                    # coarser coefficient, the difference goes into the tolerance
                    mag = 1.0
                    for i, e in m:
                        lo, hi = _ipow(atom_iv(self.p, i), e)
                        mag *= max(abs(lo), abs(hi))
                    if mag < 1e6:
                        c = F(round(c * GRAN), GRAN)
                        slack += F(mag) * F(1, GRAN)
                        if not c:
                            continue
                if not m:
                    t.append(z3.RealVal(str(c)))
                    continue
                if m not in mono:
                    v = mono[m] = z3.Real(f'mono!{len(mono)}')
                    iv = (1.0, 1.0)
                    for i, e in m:
                        iv = _im(iv, _ipow(atom_iv(self.p, i), e))
                    if iv[0] > -math.inf:
                        s.add(v >= z3.RealVal(str(F(iv[0]))))
                    if iv[1] < math.inf:
                        s.add(v <= z3.RealVal(str(F(iv[1]))))
                t.append(z3.RealVal(str(c)) * mono[m])
            e = z3.Sum(t) if len(t) > 1 else t[0] if t else z3.RealVal(0)
            tz = z3.RealVal(str(F(round(F(tol) * (1 + F(1, 10 ** 6)) * 2 ** 80 - slack * 2 ** 80 - 1), 2 ** 80)))
            dis.append(z3.Or(e > tz, e < -tz) if both else e > tz)
        s.add(z3.Or(*dis))
        s.set('timeout', 30000)
        t0 = time.time()
        r = s.check()
        E.STATS.q += 1
        E.STATS.t += time.time() - t0
        if r == z3.unsat:
            self.st.how['solver-linear'] = self.st.how.get('solver-linear', 0) + len(pend)
        else:
            self.und.append(pend[0][2])
            self._h('undecided')

    def _prove_none(self, viol, label, dpoly, tol):
        """no violation disjunct is satisfiable on this path"""
        zs = [self.p.rel(q, op) for op, q in viol]
        r = self.p.check(z3.Or(*zs), *self.hints, to=3000)
        if r == z3.unknown:
            rs = [self._nl([z]) for z in zs]
            if all(x == z3.unsat for x in rs):
                r = z3.unsat
            elif any(x == z3.sat for x in rs):
                r = z3.sat
        if r == z3.unsat:
            return self._h('solver')
        big = []
        for mg in (F(1, 10), F(1, 1000), F(1, 10 ** 5)):
            if mg > tol:
                big.append(z3.Or(*[self.p.rel(E.p_add(q, E.p_const(mg - tol), -1), op) for op, q in viol]))
        self._refute([z3.Or(*zs)], r, label, '', big)

    def _nl(self, zs, to=12000):
        t = time.time()
        r = z3.unknown
        for tac in ('qfnra-nlsat', 'nlqsat'):
            try:
                s = z3.Tactic(tac).solver()
                s.set('timeout', to)
                s.add(*self.p.pc, *self.hints, *zs)
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            E.STATS.q += 1
            if r != z3.unknown:
                break
        E.STATS.t += time.time() - t
        return r

    def _refute(self, zs, r, label, info, stronger=()):
        ms = []
        for b in stronger:
            m = self.models([b], limit=2)
            if m:
                ms.extend(m)
        if len(ms) < 2:
            m = self.models(zs)
            if m:
                ms.extend(m)
        if not ms:
            if r == z3.unsat:
                return
            self.und.append(label)
            return self._h('undecided')
        raise Candidate(label, info, ms)

    def le(self, a, b, label, tol=None):
        """a <= b (up to the rounding tolerance)"""
        self.asserts += 1
        if isinstance(a, E.SymFP) or isinstance(b, E.SymFP):
            self.st.obl += 1
            c = z3.Not(a.rel(b, z3.fpLEQ) if isinstance(a, E.SymFP) else b.rel(a, z3.fpGEQ))
            r = self.p.check(c, to=E.PROVE_TO)
            if r == z3.unsat:
                return self._h('solver')
            return self._refute([c], r, label, '')
        self.st.obl += 1
        tol = SYM_TOL if tol is None else F(tol)
        d = E.sub(a, b)
        if not isinstance(d, E.SymReal):
            if d != d:
                self.fail(label, 'nan')
            if d <= tol * max(1, abs(a) if not E.is_sym(a) else 1):
                return self._h('concrete')
            self.st.obl -= 1
            return self.fail(label, f'{a!r} > {b!r}')
        lo, hi = poly_iv(self.p, d.p)
        if hi <= tol:
            return self._batch(d.p, tol, label, False)
        if self.p.p_sign(d.p) in ('<', '<=', '0'):
            return self._h('sign')
        q, flip = self.p.clear(E.p_add(d.p, E.p_const(tol), -1))
        if flip:
            q = E.p_scale(q, F(-1))
        if poly_iv(self.p, q)[1] <= 0:
            return self._batch(q, F(0), label, False)
        if self.p.p_sign(q) in ('<', '<=', '0'):
            return self._h('sign')
        self._prove_none([('>', E.p_add(d.p, E.p_const(tol), -1))], label, d.p, tol)

    def boxes(self, var, lo, hi, ratio):
        """the domain of the single real input in boxes (geometric when positive)"""
        key = (var, lo, hi, ratio)
        if key not in BOXES:
            b, x = [], lo
            while x < hi:
                y = min(x * ratio, hi) if lo > 0 else min(x + ratio, hi)
                b.append(T.Box(var, x, y))
                x = y
            BOXES[key] = b
        self.bx = BOXES[key]

    def le_boxes(self, a, b, label, depth=40):
        """a <= b for every value of the input, box by box with the axioms of the opaque functions instantiated"""
        self.asserts += 1
        d = E.sub(b, a)
        p = self.p
        nm = T.Names(p)
        conds = [(dict(k), op, v) for (k, op), v in p.known.items()]
        work = [(x, 0) for x in self.bx]
        good = []
        while work:
            x, n = work.pop()
            if x.refuted(nm, conds):
                self.st.obl += 1
                self._h('box-path-refuted')
                continue
            pos = None
            bad = None
            if isinstance(d, E.SymReal):
                try:
                    t = x.poly(nm, d.p)
                    if t.bounds()[0] >= 0:
                        good.append(t)
                        continue
                    if t.r < 1e-3 * max(abs(t.c)):
                        r, pos = T.poly_query(t, self.st)
                        if r == z3.unsat:
                            self.st.obl += 1
                            self._h('box-solver')
                            continue
                        if pos is not None:
                            pos = (x.lo + x.hi) / 2 + pos * (x.hi - x.lo) / 2
                except T.NoEnclosure as e:
                    bad = e
            elif d >= 0:
                self.st.obl += 1
                self._h('concrete')
                continue
            if pos is not None or n in (0, depth):
                ms = []
                for v in ([pos] if pos is not None else []) + [(x.lo + x.hi) / 2, x.lo, x.hi]:
                    ms.append({name: (vv if ty == 'choice' else v) for name, ty, vv in self.inputs})
                if self.try_models(label, f'{bad or "relation"} on [{x.lo}, {x.hi}]', ms):
                    continue
            if n >= depth or x.hi - x.lo < 1e-13 * abs(x.hi):
                self.st.obl += 1
                if DBG:
                    DBG(self, x, bad, d)
                self.und.append(f'{label} on [{x.lo}, {x.hi}]')
                self._h('undecided')
                if len(self.und) > 50:
                    return
                continue
            if not hasattr(x, 'sub'):
                x.sub = x.split()
            work.extend((y, n + 1) for y in x.sub)
        for i in range(0, len(good), 200):
            self.st.obl += len(good[i:i + 200])
            if T.linear_ok(good[i:i + 200], self.st):
                self.st.how['box-solver'] = self.st.how.get('box-solver', 0) + len(good[i:i + 200])
            else:
                self.und.append(label)

    def lt(self, a, b, label):
        """a < b strictly"""
        self.asserts += 1
        self.st.obl += 1
        d = E.sub(a, b)
        if not isinstance(d, E.SymReal):
            if d < 0:
                return self._h('concrete')
            self.st.obl -= 1
            return self.fail(label, f'{a!r} >= {b!r}')
        if self.p.p_sign(d.p) == '<':
            return self._h('sign')
        self._prove_none([('>=', d.p)], label, d.p, F(0))

    # models -----------------------------------------------------------------------------------
    def models(self, extra, limit=4):
        """list of input assignments satisfying pc & extra; [] = none exists; None = unknown"""
        out = []
        s = self.p.solver
        reals = [v for (_, ty, v) in self.inputs if ty == 'real']
        unk = False
        distinct = [z3.Distinct(*reals), *(v != 0 for v in reals)] if 1 < len(reals) <= 12 else None
        for den in ((0,) if distinct else ()) + (8, 64, 4096, None):
            if den == 0 and limit < 2:
                continue
            s.push()
            s.set('timeout', 2500 if den or den == 0 else 8000)
            s.add(*extra)
            generic = den == 0
            if generic:
                s.add(*distinct)
                den = 64
            if den:
                for k, v in enumerate(reals):
                    s.add(v * den == z3.ToReal(z3.Int(f'dy!{k}')))
            t = time.time()
            r = s.check()
            E.STATS.q += 1
            E.STATS.t += time.time() - t
            if r == z3.sat:
                out.append(self.extract(s.model()))
            elif r == z3.unknown and den is None:
                m = self._nlmodel(extra)
                if m is None:
                    unk = True
                elif m is not False:
                    out.append(m)
            s.pop()
            if len(out) >= limit or (out and den == 64 and not generic):
                break
        s.set('timeout', E.BRANCH_TO)
        if out:
            return out
        return None if unk else []

    def _nlmodel(self, extra):
        try:
            s = z3.Tactic('qfnra-nlsat').solver()
            s.set('timeout', 10000)
            s.add(*self.p.pc, *extra)
            r = s.check()
        except z3.Z3Exception:
            return None
        E.STATS.q += 1
        if r == z3.sat:
            return self.extract(s.model())
        return False if r == z3.unsat else None

    def extract(self, m):
        d = {}
        for name, ty, v in self.inputs:
            if ty == 'choice':
                d[name] = v
                continue
            e = m.eval(v, model_completion=True)
            if ty == 'fp':
                d[name] = fp_val(e)
            elif ty == 'int':
                d[name] = int(frac_val(e))
            else:
                d[name] = float(frac_val(e))
        return d


def frac_val(e):
    if z3.is_algebraic_value(e):
        e = e.approx(25)
    if z3.is_int_value(e):
        return F(e.as_long())
    return F(e.numerator_as_long(), e.denominator_as_long())


def fp_val(e):
    if z3.is_fp_value(e):
        if e.isNaN():
            return math.nan
        if e.isInf():
            return -math.inf if e.isNegative() else math.inf
        if e.isZero():
            return -0.0 if e.isNegative() else 0.0
        s = z3.simplify(z3.fpToReal(e))
        return float(F(s.numerator_as_long(), s.denominator_as_long()))
    s = z3.simplify(e)
    return fp_val(s)


def _no_files():
    """replays: figures are never written, the path and what was drawn at that moment are recorded on the figure"""
    from matplotlib.figure import Figure

    def savefig(self, fname, *a, **k):
        ax = self.axes[0] if self.axes else None
        if not hasattr(self, '_saved'):
            self._saved = []
        self._saved.append((fname, (len(ax.lines), 1 if ax.patches else 0) if ax else (0, 0)))
    Figure.savefig = savefig


class RealCtx(Ctx):
    def __init__(self, inputs, mods):
        self.inp, self.m = inputs, mods
        self.asserts = 0
        _no_files()

    def fresh(self):
        return loader.real('_b')

    def _in(self, name):
        if name not in self.inp:
            raise Reject()  # the path ended before this input was drawn
        return self.inp[name]

    def real(self, name, lo=-16, hi=16, strict=False):
        v = float(self._in(name))
        if (lo is not None and v < lo - 1e-9) or (hi is not None and v > hi + 1e-9):
            raise Reject()
        return v

    def int(self, name, lo, hi):
        return int(self._in(name))

    def fp(self, name, lo, hi):
        return float(self._in(name))

    def choice(self, name, opts):
        return opts[self._in(name)]

    def vec(self, x):
        return np.array(list(x))

    def arr(self, x):
        return np.array(x)

    def ivec(self, x):
        return np.array([int(v) for v in x])

    def cplx(self, re, im):
        return complex(re, im)

    def assume(self, cond):
        if not bool(cond):
            raise Reject()

    def assume_rel(self, a, op, b):
        d = a - b
        if not {'<': d < 0, '<=': d <= 0, '>': d > 0, '>=': d >= 0, '==': d == 0, '!=': d != 0}[op]:
            raise Reject()

    def feasible(self):
        pass

    def lower_bound(self, v, lb):
        self.assume_rel(v, '>=', lb)

    def ident(self, a, b):
        return a == b

    same = ident

    def hint_nonneg(self, v):
        pass

    def sqrt(self, x):
        return math.sqrt(x) if x >= 0 else math.nan

    def fn(self, name, x):
        return float(getattr(np, name)(x))

    def pow(self, a, b):
        return a ** b

    def val(self, x):
        f = _flat(x)
        if len(f) != 1:
            self.fail('scalar expected', f'{len(f)} values')
        return f[0]

    def fail(self, label, info=''):
        raise AssertFail(label, info)

    def _eqnum(self, a, b, label, tol):
        t = REAL_TOL if tol is None else max(REAL_TOL, 10 * float(tol))
        a, b = float(a), float(b)
        if abs(a - b) > t * max(1.0, abs(a), abs(b)):
            self.fail(label, f'{a!r} instead of {b!r}')

    def le(self, a, b, label, tol=None):
        self.asserts += 1
        t = 1e-9 if tol is None else max(1e-9, 10 * float(tol))
        a, b = float(a), float(b)
        if not a - b <= t * max(1.0, abs(a), abs(b)):
            self.fail(label, f'{a!r} > {b!r}')

    def boxes(self, *a):
        pass

    def le_boxes(self, a, b, label):
        self.le(a, b, label, 1e-15)

    def lt(self, a, b, label):
        self.asserts += 1
        if not a < b:
            self.fail(label, f'{a!r} >= {b!r}')


# ------------------------------------------------------------------------------------------- replay
def replay(case, inputs):
    """run the case on the real code; returns (status, label, info)"""
    import warnings
    E.set_cur(None)
    m = loader.real()
    c = RealCtx(inputs, m)
    try:
        with np.errstate(all='ignore'), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            case.fn(c)
    except AssertFail as e:
        return 'fail', e.label, e.info
    except Reject:
        return 'reject', '', ''
    except Exception as e:
        return 'fail', 'exception', f'{type(e).__name__}: {e} @ {where(e)}'
    except (E.EngineLimit, E.PathAbort) as e:
        return 'error', 'engine', repr(e)
    finally:
        try:
            import matplotlib.pyplot as plt
            plt.close('all')
        except Exception:
            pass
    return 'pass', '', ''


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    for f in reversed(tb):
        if f.filename.startswith(loader.REPO + '/'):
            return f'{os.path.relpath(f.filename, loader.REPO)}:{f.lineno}'
    return f'{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}' if tb else '?'


# ------------------------------------------------------------------------------------------- running a case
class Hard(BaseException):
    pass


def nudge(m, k):
    d = {}
    for i, (n, v) in enumerate(m.items()):
        d[n] = v * (1 - 1e-3 * ((0.6180339887 * (i * 7 + k * 13)) % 1)) if isinstance(v, float) and math.isfinite(v) else v
    return d


def run_case(case, tier, prop, verbose=False):
    t0 = time.time()
    E.STATS = E.Stats()
    st = E.STATS
    res = dict(case=case.name, bound=case.bound, paths=0, complete=False, asserts=0, witnesses=0, witness_rejected=0,
               undecided=[], limits=[], notes=[], violation=None, samples=[], functions=[], aborted=0)
    nwit = WITNESS[tier] if case.witness else 0
    funcs = set()
    wcount = [0]
    deadline = t0 + case.budget

    def prof(frame, ev, arg):
        if ev == 'call':
            f = frame.f_code.co_filename
            if f.startswith(loader.REPO + '/'):
                funcs.add(os.path.basename(f)[:-3] + '.' + frame.f_code.co_qualname)

    def violate(label, info, inputs):
        res['violation'] = dict(property=prop, case=case.name, label=label, info=str(info)[:600], inputs=inputs)
        raise E.ViolationFound(label, inputs)

    def replay_models(label, info, models, kind):
        last = None
        if E._CUR is not None and E._CUR.tables.get('reduced'):
            # rounding to a reduced precision is bounded, not computed: try neighbours of the counterexample
            models = models + [nudge(m, k) for m in models[:2] for k in range(1, 9)]
        for m in models:
            cur = E._CUR
            s, l, i = replay(case, m)
            E.set_cur(cur)
            res['witnesses'] += 1
            if s == 'fail':
                violate(l, i, m)
            last = (s, l, i)
        res['limits'].append(f'{kind}: {label} ({str(info)[:200]}) does not reproduce on the real code ({last}), e.g. {json.dumps(models[0])[:300] if models else None}')

    def try_models(label, info, models):
        for m in models:
            cur = E._CUR
            s, l, i = replay(case, m)
            E.set_cur(cur)
            res['witnesses'] += 1
            if s == 'fail':
                violate(l, i, m)
        return False

    def witness(ctx, force=False):
        """replay a model of the current path"""
        if not force and wcount[0] >= nwit and (res['paths'] & (res['paths'] - 1)):
            return
        wcount[0] += 1
        ms = ctx.models([], limit=1)
        if not ms:
            return
        cur = E._CUR
        s, l, i = replay(case, ms[0])
        if s == 'fail':
            # boundary rounding can make a single witness misleading: it must fail for a second model as well
            ms2 = ctx.models([], limit=3)
            bad = [(m,) + replay(case, m)[1:] for m in (ms2 or []) if replay(case, m)[0] == 'fail']
            E.set_cur(cur)
            if len(bad) >= 2 or (bad and len(ms2) == 1):
                violate(bad[0][1], 'witness: ' + str(bad[0][2]), bad[0][0])
            res['notes'].append(f'witness mismatch: {l} {i} {json.dumps(ms[0])[:300]}')
        elif s == 'reject':
            res['witness_rejected'] += 1
        else:
            res['witnesses'] += 1
            if len(res['samples']) < 2:
                res['samples'].append(dict(case=case.name, inputs=ms[0]))
        E.set_cur(cur)

    def one(p):
        ctx = SymCtx(p, st, loader.twin())
        ctx.try_models = try_models
        first = res['paths'] == 0
        if first:
            sys.setprofile(prof)
        try:
            case.fn(ctx)
            sys.setprofile(None)
            ctx.flush()
            res['asserts'] += ctx.asserts
            res['undecided'] += ctx.und
            witness(ctx)
            res['paths'] += 1
        except Candidate as c:
            sys.setprofile(None)
            replay_models(c.label, c.info, c.models, 'candidate')
        except E.EngineLimit as e:
            sys.setprofile(None)
            if verbose:
                traceback.print_exc()
            if len(res['limits']) < 40:
                res['limits'].append(f'engine: {e} @ {where_any(e)}')
            try:
                witness(ctx, force=len(res['limits']) < 8)
            except E.EngineLimit:
                pass
        except E.PathAbort:
            sys.setprofile(None)
            res['undecided'] += ctx.und
            res['aborted'] += 1
            raise
        except (Hard, E.ViolationFound):
            sys.setprofile(None)
            raise
        except RecursionError as e:
            sys.setprofile(None)
            res['limits'].append('engine: recursion')
        except Exception as e:
            sys.setprofile(None)
            if verbose:
                traceback.print_exc()
            ms = ctx.models([])
            info = f'{type(e).__name__}: {e} @ {where_any(e)}'
            if ms == []:
                raise E.PathAbort('infeasible')
            if ms is None:
                res['undecided'].append('exception ' + info)
            else:
                replay_models('exception', info, ms, 'exception')
        finally:
            sys.setprofile(None)

    def alarm(*a):
        raise Hard()
    try:
        signal.signal(signal.SIGALRM, alarm)
        signal.alarm(int(case.budget) + 25)
        n, res['complete'] = E.explore(one, deadline=deadline)
    except E.ViolationFound:
        pass
    except Hard:
        res['limits'].append('case time limit')
    except MemoryError:
        res['limits'].append('memory')
    finally:
        signal.alarm(0)
        E.set_cur(None)
    res.update(queries=st.q, solver_s=round(st.t, 2), branches=st.branches, obligations=st.obl, how=st.how,
               unknown=st.unknown, wall_s=round(time.time() - t0, 2), functions=sorted(funcs))
    return res


def where_any(e):
    tb = traceback.extract_tb(e.__traceback__)
    r = where(e)
    return r + (f' / {os.path.basename(tb[-1].filename)}:{tb[-1].lineno}' if tb else '')
