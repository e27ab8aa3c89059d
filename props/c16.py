from .common import *
from .units import unit_cases
NOTE = '''Per case: every positive spectrum, limit and cut-off within the stated ranges on concrete axes of at most 100 frequencies. Exact real arithmetic.'''
ASSUME = ['densities, limits, cut-offs and g in exact real arithmetic; frequency axes are concrete doubles', 'Hm0 of at least 1e-6 m']
GET = ('get_Hm0', 'get_Tp', 'get_Tps', 'get_Tmm10', 'get_Tm01', 'get_Tm02')


def spec(c, fr, sym, k, lo=0.0078125, hi=8):
    S = [abs(v) + 0.25 for v in pseudo(len(fr), k)]
    for j in range(len(fr)) if sym is None else sym:
        S[j] = c.real(f's{j}', lo, hi)
    if fr[0] == 0:
        S[0] = 0.0
    return S


def obj(c, fr, S):
    return c.m.spectrum.Spectrum(c.vec(fr), c.vec(S))


def clear(c, fr, v):
    """limit away from frequencies and mid-points, where rounding decides"""
    df = fr[1] - fr[0]
    for x in fr:
        for y in (x, x + df / 2):
            c.assume(v < y - 1e-9 or v > y + 1e-9)


def near(c, fr, v, clear=1e-9):
    df = fr[1] - fr[0]
    for i in range(len(fr) - 1):
        if v < fr[i] + df / 2 - clear:
            return i
        c.assume(v > fr[i] + df / 2 + clear)
    return len(fr) - 1


def same(fr, sym, lims, k=0, one=None):
    def f(c):
        S = spec(c, fr, sym, k)
        lim = c.choice('lim', lims)
        fn = [c.val(x) for x in c.m.wf.compute_spectrum_params(c.vec(fr), c.vec(S), *lim)]
        kw = dict(fmin=lim[0], fmax=lim[1])
        for g, w in zip(GET, fn):
            c.eq(c.val(getattr(obj(c, fr, S), g)(*lim)), w, g)
            c.eq(c.val(getattr(obj(c, fr, S), g)(**kw)), w, g + ' by keyword')
    return f


def same_default(fr, sym, k=0):
    """limits left out, one at a time"""
    def f(c):
        S = spec(c, fr, sym, k)
        a, b = fr[1], fr[-2]
        for kw, lim in ((dict(), (-1.0, -1.0)), (dict(fmin=a), (a, -1.0)), (dict(fmax=b), (-1.0, b)), (dict(), (fr[0], fr[-1])), (dict(fmin=a), (a, fr[-1])), (dict(fmax=b), (fr[0], b))):
            fn = [c.val(x) for x in c.m.wf.compute_spectrum_params(c.vec(fr), c.vec(S), *lim)]
            for g, w in zip(GET, fn):
                c.eq(c.val(getattr(obj(c, fr, S), g)(**kw)), w, f'{g} {sorted(kw)}')
    return f


def same_limits(fr, which, k=0):
    """limits symbolic, spectrum concrete with two peaks"""
    def f(c):
        S = [abs(v) + 0.25 for v in pseudo(len(fr), k)]
        if fr[0] == 0:
            S[0] = 0.0
        lo = c.real('fmin', fr[0], fr[-2]) if 'min' in which else -1.0
        hi = c.real('fmax', fr[1], fr[-1]) if 'max' in which else -1.0
        for v, w in ((lo, 'min'), (hi, 'max')):
            if w in which:
                clear(c, fr, v)
        i = near(c, fr, lo) if 'min' in which else 0
        j = near(c, fr, hi) if 'max' in which else len(fr) - 1
        c.assume(j - i >= 1)
        inside = [x for x in fr if ('min' not in which or x >= lo) and ('max' not in which or x <= hi)]
        c.assume(len(inside) >= 1)
        fn = [c.val(x) for x in c.m.wf.compute_spectrum_params(c.vec(fr), c.vec(S), lo, hi)]
        for g, w in zip(GET, fn):
            c.eq(c.val(getattr(obj(c, fr, S), g)(lo, hi)), w, g)
    return f


def steep(fr, sym, lims, k=0, gsym=True):
    def f(c):
        S = spec(c, fr, sym, k)
        lim = c.choice('lim', lims)
        g = c.real('g', 1, 16) if gsym else 9.81
        kw = dict(g=g) if gsym else {}
        H = c.val(obj(c, fr, S).get_Hm0(*lim))
        for nm, per in (('get_s0p', 'get_Tps'), ('get_smm10', 'get_Tmm10')):
            T = c.val(getattr(obj(c, fr, S), per)(*lim))
            s = c.val(getattr(obj(c, fr, S), nm)(*lim, **kw))
            c.eq(s * g * T * T, 2 * math.pi * H, nm)
    return f


def high(fr, sym, mode, k=0, rng=None):
    """HF/LF parameters against the ordinary ones over the band"""
    def f(c):
        S = spec(c, fr, sym, k)
        n = len(fr)
        if mode == 'given':
            fc = c.real('cut', *(rng or (fr[0], fr[-1])))
            given = fc
            near(c, fr, fc)
        else:
            fc = 0.45 / c.val(obj(c, fr, S).get_Tmm10())
            given = -1.0
            near(c, fr, fc)
        up = c.choice('fmax', [-1.0, fr[-2], fr[-1] * 2])
        lo = c.choice('fmin', [-1.0, fr[1]])
        i = near(c, fr, fc)
        j = n - 1 if up == -1.0 or up > fr[-1] else n - 2
        if i < j:
            H, T = c.val(obj(c, fr, S).get_Hm0(fc, up)), c.val(obj(c, fr, S).get_Tmm10(fc, up))
            c.eq(c.val(obj(c, fr, S).get_Hm0_HF(given, up)), H, 'Hm0_HF')
            c.eq(c.val(obj(c, fr, S).get_Tmm10_HF(given, up)), T, 'Tmm10_HF')
            s = c.val(obj(c, fr, S).get_smm10_HF(given, up))
            c.eq(s * 9.81 * T * T, 2 * math.pi * H, 'smm10_HF')
            g = c.choice('g', [4.0, 9.81])
            s = c.val(obj(c, fr, S).get_smm10_HF(given, up, g))
            c.eq(s * g * T * T, 2 * math.pi * H, 'smm10_HF, g')
        if i > (1 if lo == fr[1] else 0):
            H, T = c.val(obj(c, fr, S).get_Hm0(lo, fc)), c.val(obj(c, fr, S).get_Tmm10(lo, fc))
            c.eq(c.val(obj(c, fr, S).get_Hm0_LF(lo, given)), H, 'Hm0_LF')
            c.eq(c.val(obj(c, fr, S).get_Tmm10_LF(lo, given)), T, 'Tmm10_LF')
    return f


def cases(tier):
    th = tier == 'thorough'
    r = []
    d = [(-1.0, -1.0)]
    A = lambda n, z=0, df=0.125: [df * (i + 1 - z) for i in range(n)]
    for n in (3, 4, 5) + ((6,) if th else ()):
        fr = A(n)
        r.append(Case(f'same-n{n}', same(fr, None, d), f'all {n} densities symbolic', 200))
    for n in (4, 5):
        fr = A(n, 1)
        r.append(Case(f'same-zero-n{n}', same(fr, None, d + [(0.0, fr[-1])]), f'axis from 0, {n} densities symbolic', 200))
    fr = A(6)
    B = [(fr[1], -1.0), (-1.0, fr[4]), (fr[1], fr[4]), (fr[2], fr[3]), (fr[1] + 0.03125, fr[4] + 0.03125), (fr[1] - 0.03125, fr[3] - 0.03125), (-1.0, 2.0), (fr[2], 3.0)]
    r.append(Case('same-bands', same(fr, (1, 3), B), '2 of 6 densities symbolic, eight bands', 200))
    r.append(Case('same-default', same_default(fr, (2, 4), 1), '2 of 6 densities symbolic, limits left out one at a time', 200))
    r.append(Case('same-default-zero', same_default(A(7, 1), (2, 3), 2), 'axis from 0', 200))
    for which in ('min', 'max', 'min+max'):
        r.append(Case(f'limits-{which}', same_limits(A(7), which, 1), 'limits anywhere on the axis', 200))
        r.append(Case(f'limits-{which}-zero', same_limits(A(6, 1), which, 2), 'limits anywhere on an axis from 0', 200))
    for k, (n, sym) in enumerate([(40, (3, 39)), (64, (50, 63)), (33, (0, 16)), (1100, (1000,))]):
        r.append(Case(f'same-wide{n}', same(A(n, 0, 0.015625), sym, d + [(0.125, 0.5), (-1.0, 4.0)], k), f'{n} densities, those at {sym} symbolic', 200))
        if n < 1000:
            r.append(Case(f'limits-wide{n}', same_limits(A(n, 0, 0.015625), 'min', k), f'{n} densities, lower limit anywhere', 200))
    for n in (3, 4, 5):
        r.append(Case(f'steep-n{n}', steep(A(n), None, d), f'{n} densities and g symbolic', 200))
    r.append(Case('steep-bands', steep(A(6), (1, 3), B, 0), '2 of 6 densities and g symbolic, eight bands', 200))
    r.append(Case('steep-default-g', steep(A(6), (1, 3), d + B[:2], 0, False), 'g left out', 200))
    r.append(Case('steep-wide', steep(A(60, 0, 0.015625), (10, 59), d + [(0.125, 0.5)], 4), '60 densities, two symbolic', 200))
    for mode in ('given', 'default'):
        for n, sym, k in ((5, (1, 3), 0), (7, (2, 5), 1)):
            r.append(Case(f'split-{mode}-n{n}', high(A(n), sym, mode, k), f'{n} densities, those at {sym} symbolic' + (', cut-off anywhere on the axis' if mode == 'given' else ''), 200))
            r.append(Case(f'split-{mode}-zero-n{n}', high(A(n + 1, 1), sym, mode, k), f'{n + 1} densities from f=0, those at {sym} symbolic', 200))
        r.append(Case(f'split-{mode}-wide', high(A(50, 0, 0.015625), (10,), mode, 3, (0.125, 0.21875)), '50 densities, one symbolic', 200))
    for k in (0, 1):
        r.append(Case(f'same-n2-{k}', same([0.25, 0.5] if k else [0.0, 0.25], (1,) if not k else None, [(-1.0, -1.0), (0.25, 1.0) if k else (0.0, 0.25), (-1.0, 2.0), (-1.0, math.inf)]), 'two frequencies', 120))
    r.append(Case('sizes', over('n', range(3, 31), lambda n: same(A(n, 0, 0.03125), (n // 2,), d, n)), 'every number of frequencies from 3 to 30, one density symbolic', 120))
    r.append(Case('far', over('axis', [(4.0, 1.0), (1.0, 2.0), (2.0 ** -8, 2.0 ** -8), (16.0, 0.25)], lambda v: same([v[0] + v[1] * i for i in range(6)], (1, 4), d + [(v[0] + v[1], -1.0), (-1.0, v[0] + 4 * v[1]), (-1.0, v[0] + 12 * v[1])], 3)), 'four axes, four bands', 120))
    r += unit_cases('C16')
    return r
