from .common import *
from .units import unit_cases
NOTE = '''Per case: every spectrum/parabola and every limit within the stated ranges on axes of at most 64 points; exact real arithmetic.'''
ASSUME = ['densities, parabola coefficients, limits and symbolic axes in exact real arithmetic',
          'scipy.integrate.simpson modelled from its definition (composite Simpson, Cartwright correction for an even number of points)',
          'limits exactly half-way between two frequencies are left to C30']

INF = float('inf')


def I(m, a, b):
    """integral of f^m from a to b, exact"""
    from fractions import Fraction as F
    a, b = F(a), F(b)
    return (b ** (m + 1) - a ** (m + 1)) / (m + 1)


def parint(co, a, b):
    """integral of the parabola co from a to b"""
    return total(v * (b ** (k + 1) - a ** (k + 1)) / (k + 1) for k, v in enumerate(co))


def coefs(c):
    return [c.real('p0', -4, 4), c.real('p1', -4, 4), c.real('p2', -4, 4)]


def dens(co, fr, m):
    return [(co[0] + co[1] * f + co[2] * f * f) / f ** m if m >= 0 else (co[0] + co[1] * f + co[2] * f * f) * f ** -m for f in fr]


def exact(n, f0, df, m):
    """f^m S is a parabola"""
    def f(c):
        co = coefs(c)
        fr = [f0 + df * i for i in range(n)]
        S = dens(co, fr, m)
        v = c.val(c.m.wf.compute_moment(c.vec(fr), c.vec(S), m))
        c.eq(v, parint(co, fr[0], fr[-1]), 'exact integral')
        v = c.val(c.m.wf.compute_moment(c.vec(fr), c.vec(S), m, fr[0], fr[-1]))
        c.eq(v, parint(co, fr[0], fr[-1]), 'exact integral with explicit limits')
    return f


def axis_sym(n):
    """axis symbolic too (m=0)"""
    def f(c):
        co = coefs(c)
        f0, df = c.real('f0', 0, 4), c.real('df', 0.0625, 2)
        fr = [f0 + df * i for i in range(n)]
        S = dens(co, fr, 0)
        v = c.val(c.m.wf.compute_moment(c.vec(fr), c.vec(S), 0))
        c.eq(v, parint(co, fr[0], fr[-1]), 'exact integral', 1e-6)
    return f


def zero_axis(n, df, m):
    """axis starting at 0: the value at f=0 is ignored by negative moments"""
    def f(c):
        co = [0.0, c.real('p1', -4, 4), c.real('p2', -4, 4)]
        fr = [df * i for i in range(n)]
        S = [c.real('s0', -4, 4)] + [(co[1] * x + co[2] * x * x) * x ** -m for x in fr[1:]]
        v = c.val(c.m.wf.compute_moment(c.vec(fr), c.vec(S), m))
        c.eq(v, parint(co, 0.0, fr[-1]), 'negative moment ignores f=0')
        v = c.val(c.m.wf.compute_moment(c.vec(fr), c.vec(S), m, -1.0, fr[-1]))
        c.eq(v, parint(co, 0.0, fr[-1]), 'negative moment ignores f=0, upper limit given')
    return f


def near(c, fr, v, clear=1e-9):
    """nearest frequency; ties are left out"""
    df = fr[1] - fr[0]
    for i in range(len(fr) - 1):
        if v < fr[i] + df / 2 - clear:
            return i
        c.assume(v > fr[i] + df / 2 + clear)
    return len(fr) - 1


def limits(n, f0, df, m, which, span=None):
    """moment over the nearest frequencies of the limits, checked against the exact integral (m: parabola)"""
    def f(c):
        co = coefs(c)
        fr = [f0 + df * i for i in range(n)]
        S = dens(co, fr, m)
        a, b = span or (fr[0] - 1.5 * df, fr[-1])
        lo = c.real('fmin', max(a, -0.9), b) if 'min' in which else -1.0
        hi = c.real('fmax', max(a, -0.9), b) if 'max' in which else -1.0
        i = near(c, fr, lo) if 'min' in which else 0
        j = near(c, fr, hi) if 'max' in which else n - 1
        c.assume(j - i >= 2)
        v = c.val(c.m.wf.compute_moment(c.vec(fr), c.vec(S), m, lo, hi))
        c.eq(v, parint(co, fr[i], fr[j]), 'exact integral over the requested band')
    return f


def tail(n, f0, df, m, form):
    """upper limit beyond the axis"""
    def f(c):
        co = coefs(c)
        fr = [f0 + df * i for i in range(n)]
        S = dens(co, fr, m)
        fl = fr[-1]
        low = c.choice('low', [-1.0, fr[0], fr[1] + 0.25 * df, fr[n - 3]])
        i = 0 if low == -1.0 else near(c, fr, low)
        c.assume(n - 1 - i >= 2)
        C = S[-1] * fl ** 5
        base = parint(co, fr[i], fl)
        if m > 4:
            hi = c.real('fmax', fl * 1.0009765625, fl * 4)
            p = hi
            for _ in range(m - 5):
                p = p * hi
            t = C * (p - fl ** (m - 4)) / (m - 4)
        elif form == 'inf':
            hi = INF
            t = C * fl ** (m - 4) / (4 - m)
        elif form == 'sym':
            hi = c.real('fmax', fl * 1.0009765625, fl * 16)
            if m == 4:
                hi = c.choice('fmax4', [fl * 1.5, fl * 4])
                t = C * math.log(hi / fl)
            else:
                k = 4 - m
                p = hi
                for _ in range(k - 1):
                    p = p * hi
                t = C * (fl ** -k - 1 / p) / k
        v = c.val(c.m.wf.compute_moment(c.vec(fr), c.vec(S), m, low, hi))
        c.eq(v, base + t, 'f^-5 tail added', 1e-7)
    return f


def linear(n, f0, df, m, ext=False):
    def f(c):
        fr = [f0 + df * i for i in range(n)]
        S, R = c.real_list('s', n, -4, 4), c.real_list('r', n, -4, 4)
        a = c.real('a', -4, 4)
        lim = c.choice('lim', [(-1.0, -1.0), (fr[0], fr[-1]), (fr[1], -1.0), (-1.0, fr[n - 2]), (fr[n // 3], fr[(2 * n) // 3]), (-1.0, 2 * fr[-1]), (fr[1], INF)])
        M = lambda v: c.val(c.m.wf.compute_moment(c.vec(fr), c.vec(v), m, *lim))
        if m >= 3 and lim[1] == INF and m > 3:
            return
        c.eq(M([a * s + r for s, r in zip(S, R)]), a * M(S) + M(R), 'linear in the spectrum')
    return f


def nonneg(n, f0, df, ms):
    def f(c):
        fr = [f0 + df * i for i in range(n)]
        S = c.real_list('s', n, 0, 64)
        i = c.choice('i', list(range(min(n, 6))))
        j = c.choice('j', list(range(max(i, n - 6), n)))
        m = c.choice('m', ms)
        hi = c.choice('hi', [fr[j], fr[-1] + 1.0]) if j == n - 1 else fr[j]
        v = c.val(c.m.wf.compute_moment(c.vec(fr), c.vec(S), m, fr[i], hi))
        c.le(0.0, v, 'non-negative')
        if i == 0 and j == n - 1 and hi == fr[j]:
            c.le(0.0, c.val(c.m.wf.compute_moment(c.vec(fr), c.vec(S), m)), 'non-negative, whole axis')
    return f


def repeat_limits(n, f0, df):
    """band moments are the same with limits given by any value that selects the same frequencies"""
    def f(c):
        fr = [f0 + df * i for i in range(n)]
        S = c.real_list('s', n, 0, 8)
        lo, hi = c.real('fmin', max(fr[0] - df, -0.9), fr[-1]), c.real('fmax', max(fr[0] - df, -0.9), fr[-1])
        i, j = near(c, fr, lo), near(c, fr, hi)
        c.assume(i < j)
        for m in (-1, 0, 1, 2):
            a = c.val(c.m.wf.compute_moment(c.vec(fr), c.vec(S), m, lo, hi))
            b = c.val(c.m.wf.compute_moment(c.vec(fr), c.vec(S), m, fr[i], fr[j]))
            d = c.val(c.m.wf.compute_moment(c.vec(fr[i:j + 1]), c.vec(S[i:j + 1]), m)) if j - i >= 1 and not (m < 0 and fr[0] == 0.0 and i == 0) else a
            c.eq(a, b, f'nearest frequencies m={m}')
            c.eq(a, d, f'only the band counts m={m}')
    return f


def anywhere(n, f0, df, which):
    """limits far outside the axis, zero and negative ones (-1 means omitted)"""
    def f(c):
        fr = [f0 + df * i for i in range(n)]
        S = c.real_list('s', n, 0, 8)
        lo, hi, i, j = -1.0, -1.0, 0, n - 1
        if 'min' in which:
            lo = c.real('fmin', -6, 20)
            c.assume(lo < -1.0009765625 or lo > -0.9990234375)
            i = near(c, fr, lo)
        if 'max' in which:
            hi = c.real('fmax', -6, fr[-1])
            c.assume(hi < -1.0009765625 or hi > -0.9990234375)
            j = near(c, fr, hi)
        c.assume(i <= j)
        for m in (-1, 0, 1, 2):
            a = c.val(c.m.wf.compute_moment(c.vec(fr), c.vec(S), m, lo, hi))
            if i == j:
                c.eq(a, 0.0, f'a single frequency m={m}')
            elif not (m < 0 and fr[0] == 0.0 and i == 0):
                c.eq(a, c.val(c.m.wf.compute_moment(c.vec(fr[i:j + 1]), c.vec(S[i:j + 1]), m)), f'only the band counts m={m}')
    return f


def cases(tier):
    th = tier == 'thorough'
    r = []
    for m in (-3, -2, -1, 0, 1, 2, 3, 4):
        for n in (3, 4, 5, 6, 11, 12) + ((32, 33, 101, 256) if th else (33, 64)):
            r.append(Case(f'exact-m{m}-n{n}', exact(n, 0.25, 0.25, m), f'all parabolas with coefficients in [-4,4], {n} frequencies', 60))
    for m in (-1, 0, 1, 2):
        r.append(Case(f'exact-m{m}-n8-b', exact(8, 0.05, 0.01, m), 'all parabolas, axis 0.05 + 0.01 i', 60))
        r.append(Case(f'exact-m{m}-n9-c', exact(9, 3.0, 1.5, m), 'all parabolas, axis 3 + 1.5 i', 60))
    for n in (3, 4, 5, 6, 7, 8):
        r.append(Case(f'axis-n{n}', axis_sym(n), f'all parabolas, f0 in [0,4], df in [1/16,2], {n} frequencies', 100))
    for m in (-1, -2, -3):
        for n in (3, 4, 9, 16):
            r.append(Case(f'zero-m{m}-n{n}', zero_axis(n, 0.25, m), f'{n} frequencies from 0', 60))
    for m in (-1, 0, 1, 2):
        for which in ('min', 'max', 'min+max'):
            for n, f0, df in ((7, 0.25, 0.25), (8, 0.5, 0.125)):
                r.append(Case(f'limits-{which}-m{m}-n{n}', limits(n, f0, df, m, which), f'all parabolas, {which} anywhere on the axis', 100))
    r.append(Case('limits-zero-axis', limits(9, 0.0, 0.25, 0, 'min+max'), 'axis from 0', 100))
    for k, (n, sp) in enumerate([(40, (0.3, 1.2)), (101, (0.5, 0.8)), (1100, (40.0, 40.12))]):
        for which in ('min', 'max'):
            r.append(Case(f'limits-{which}-wide{n}', limits(n, 0.05 if k else 0.25, 0.05, 0, which, sp), f'{n} frequencies, limit anywhere in {sp}', 100))
    for m, n in ((-1, 3), (-1, 6), (-2, 5), (0, 5), (1, 4)):
        for f0, df in ((0.01, 0.1), (0.0078125, 0.25), (0.001, 1.0)):
            r.append(Case(f'exact-low-{f0}-m{m}-n{n}', exact(n, f0, df, m), f'all parabolas, axis {f0} + {df} i', 60))
    for m in (-1, 0, 1, 2, 3, 4, 5, 6):
        for form in ('sym', 'inf'):
            if m > 3 and form == "inf":
                continue
            for n in (3, 8):
                r.append(Case(f'tail-{form}-m{m}-n{n}', tail(n, 0.25, 0.25, m, form), f'{n} frequencies, limit above the axis up to 16 times the last frequency' if form == 'sym' else f'{n} frequencies, limit infinite', 100))
    for m in (-1, 0, 1, 2, 4):
        for n in (4, 9):
            r.append(Case(f'linear-m{m}-n{n}', linear(n, 0.25, 0.25, m), 'two spectra and a factor, seven choices of limits', 60))
    for n in (2, 3, 4, 5, 6, 7, 12, 15) + ((40, 101) if th else (40,)):
        r.append(Case(f'nonneg-n{n}', nonneg(n, 0.25, 0.25, [-1, 0, 1, 2, 3, 4]), 'non-negative spectra, every band', 100))
    for n, f0 in ((5, 0.25), (6, 0.0), (9, 0.5)):
        r.append(Case(f'band-n{n}', repeat_limits(n, f0, 0.25), f'{n} densities and both limits symbolic', 100))
    for which in ('min', 'max', 'min+max'):
        for n, f0 in ((5, 0.25), (6, 0.0)):
            r.append(Case(f'anywhere-{which}-n{n}', anywhere(n, f0, 0.25, which), f'{n} densities symbolic, limits from -6 to 20', 100))
    r.append(Case('sizes', over('n', [(n, m) for n in range(3, 41) for m in (-1, 0, 2)], lambda v: exact(v[0], 0.25, 0.25, v[1])), 'all parabolas, every number of frequencies from 3 to 40, three moments', 100))
    r.append(Case('far', over('axis', [(f0, df, m) for f0, df in ((100.0, 8.0), (4.0, 2.0 ** -8), (64.0, 0.25), (2.0 ** -8, 2.0 ** -10), (8.0, 64.0)) for m in (-1, 0, 1, 2)], lambda v: exact(6, v[0], v[1], v[2])), 'all parabolas, five axes far from the usual ones, four moments', 100))
    r.append(Case('sizes-nonneg', over('n', [16, 17, 21, 24, 27, 32, 35, 50], lambda n: nonneg(n, 0.25, 0.25, [0, 2])), 'non-negative spectra of eight more sizes', 100))
    r += unit_cases('C14')
    return r
