from .common import *
from .units import unit_cases
NOTE = '''Per case: every wave height, peak frequency and peak factor within the stated ranges on concrete axes of at most 200 frequencies; exp and powers as opaque axiomatised functions.'''
ASSUME = ['exact real arithmetic; exp(x) and gamma^x of symbolic arguments are opaque positive monotone functions',
          'the spectrum has energy on the axis (no underflow of the exponential everywhere)']
FN = ('create_spectrum_jonswap', 'create_spectrum_piersonmoskowitz', 'create_spectrum_object_jonswap', 'create_spectrum_object_piersonmoskowitz')


def shape(c, f, fp, g):
    """JONSWAP shape without scale"""
    if not f > 1e-12:
        return 0.0
    nu = f / fp
    s = 0.07 if f < fp else 0.09
    e = c.fn('exp', -1.25 / (nu * nu * nu * nu))
    A = c.fn('exp', -(nu - 1) * (nu - 1) / (2 * s * s))
    return f ** -5.0 * e * c.pow(g, A)


def make(c, which, fr, *a, **k):
    """densities and, for objects, the axis of the object"""
    r = getattr(c.m.wf, which)(c.vec(fr), *a, **k)
    if 'object' in which:
        c.eq(c.lst(r.f), fr, 'axis of the object')
        c.ok(type(r) is c.m.spectrum.Spectrum, 'a spectrum object')
        return c.lst(r.sVarDens)
    return c.lst(r)


def judge(c, S, fr, fp, g, h, tail, label='', prop=True):
    n = len(fr)
    c.eq(len(S), n, 'size' + label)
    for i in range(n):
        if fr[i] <= 0:
            c.eq(S[i], 0.0, f'zero for non-positive frequencies{label} {i}')
        else:
            c.le(0.0, S[i], f'non-negative{label} {i}')
    m0 = c.val(c.m.wf.compute_moment(c.vec(fr), c.vec(S), 0, fr[0], math.inf if tail else fr[-1]))
    c.eq(16 * m0, h * h, 'requested height' + label)
    if prop:
        sh = [shape(c, f, fp, g) for f in fr]
        pos = [i for i in range(n) if fr[i] > 0]
        if all(isinstance(x, float) for x in sh):
            ref = max(pos, key=lambda i: sh[i])
            for i in pos:
                c.eq(S[i], S[ref] * (sh[i] / sh[ref]), f'JONSWAP shape{label} {i}')
        else:
            ref = pos[len(pos) // 2]
            for i in pos:
                if i != ref:
                    c.eq(S[i] / S[ref] * (sh[ref] / sh[i]), 1.0, f'JONSWAP shape{label} {i}')


def full(n, f0, df, which, what, fps=(0.3,), gs=(3.3,), fprng=None, k=0):
    """what: which of h, p(eak frequency), g(amma) are symbolic"""
    def f(c):
        fr = [f0 + df * i for i in range(n)]
        h = c.real('hm0', 0.0009765625, 64) if 'h' in what else 2.5
        fp = c.real('fp', *(fprng or (fr[0] + df, fr[-1] + df))) if 'p' in what else c.choice('fp', list(fps))
        g = c.real('gamma', 0.5, 20) if 'g' in what else c.choice('gamma', list(gs))
        tail = c.choice('l_fmax', [0, 1])
        S = make(c, which, fr, fp, h, g, tail)
        judge(c, S, fr, fp, g, h, tail)
    return f


def defaults(n, f0, df):
    """left-out peak factor and tail option"""
    def f(c):
        fr = [f0 + df * i for i in range(n)]
        h, fp = c.real('hm0', 0.0009765625, 64), c.choice('fp', [0.2, 0.4, fr[n // 2]])
        for which in FN:
            g = 3.3 if 'jonswap' in which else 1.0
            S = make(c, which, fr, fp, h)
            judge(c, S, fr, fp, g, h, 0, ' ' + which)
            S = make(c, which, fr, fp, h, l_fmax=1)
            judge(c, S, fr, fp, g, h, 1, ' tail ' + which)
    return f


def variants(n, f0, df):
    """all variants with the same arguments"""
    def f(c):
        fr = [f0 + df * i for i in range(n)]
        h, fp, g = c.real('hm0', 0.0009765625, 64), c.real('fp', fr[0] + df, fr[-1]), c.real('gamma', 0.5, 20)
        tail = c.choice('l_fmax', [0, 1])
        A = make(c, FN[0], fr, fp, h, g, tail)
        B = make(c, FN[2], fr, fp, h, gammaPeak=g, l_fmax=tail)
        c.eq(B, A, 'JONSWAP object')
        A = make(c, FN[0], fr, fp, h, 1.0, tail)
        c.eq(make(c, FN[1], fr, fp, h, l_fmax=tail), A, 'Pierson-Moskowitz')
        c.eq(make(c, FN[3], fr, fp, h, l_fmax=tail), A, 'Pierson-Moskowitz object')
    return f


def rejected(c):
    fr = [0.125 * (i + 1) for i in range(6)]
    o = c.choice('option', [2, -1, 0.5, 3])
    for which in FN:
        c.raises(lambda: getattr(c.m.wf, which)(c.vec(fr), 0.3, 1.0, 3.3, o), which + ' tail option', ValueError)
    v = c.real('option-value', -4, 4)
    c.assume(v != 0)
    c.assume(v != 1)
    c.raises(lambda: getattr(c.m.wf, FN[0])(c.vec(fr), 0.3, 1.0, 3.3, v), 'tail option', ValueError)


def height_scale(n):
    """densities scale with the square of the height; frequency unit: S(f; fp) of scaled axis"""
    def f(c):
        fr = [0.0625 * (i + 1) for i in range(n)]
        h, a = c.real('hm0', 0.0009765625, 64), c.real('a', 0.125, 8)
        tail = c.choice('l_fmax', [0, 1])
        S = make(c, FN[0], fr, 0.25, h, 3.3, tail)
        R = make(c, FN[0], fr, 0.25, a * h, 3.3, tail)
        for i in range(n):
            c.eq(R[i], a * a * S[i], f'scales with the height {i}')
        Q = make(c, FN[0], [4 * x for x in fr], 1.0, h, 3.3, tail)
        for i in range(n):
            c.eq(4 * Q[i], S[i], f'frequency unit {i}')
    return f


def cases(tier):
    th = tier == 'thorough'
    r = []
    J, PM = FN[0], FN[1]
    G = (1.0, 2.0, 3.3, 7.0)
    for n, f0, df in ((2, 0.25, 0.25), (3, 0.125, 0.125), (6, 0.1, 0.1), (7, 0.0, 0.125), (12, 0.05, 0.05), (9, -0.25, 0.125)):
        r.append(Case(f'height-n{n}', full(n, f0, df, J, 'h', (0.15, 0.3, f0 + df * (n // 2) + (df if f0 + df * (n // 2) <= 0 else 0)), G), f'hm0 in [1/1024,64], three peak frequencies, four peak factors, {n} frequencies', 150))
    for n, f0, df in ((60, 0.0, 0.015625), (101, 0.01, 0.01), (200, 0.0, 0.005)):
        r.append(Case(f'height-wide{n}', full(n, f0, df, J, 'h', (0.1, 0.3), (1.0, 3.3)), f'hm0 symbolic, {n} frequencies', 150))
    for n, f0, df in ((3, 0.25, 0.25), (4, 0.0, 0.25), (5, 0.125, 0.125)):
        r.append(Case(f'gamma-n{n}', full(n, f0, df, J, 'hg', (0.25, 0.3), ()), f'hm0 and gamma in [0.5,20] symbolic, {n} frequencies', 150))
    for n, f0, df in ((3, 0.25, 0.25), (4, 0.25, 0.25), (5, 0.0, 0.25)) + (((6, 0.125, 0.125),) if th else ()):
        r.append(Case(f'peak-n{n}', full(n, f0, df, J, 'hp', (), (1.0, 3.3)), f'hm0 and fp anywhere on the axis, {n} frequencies', 200))
        r.append(Case(f'all-n{n}', full(n, f0, df, J, 'hpg'), f'hm0, fp and gamma symbolic, {n} frequencies', 200))
    r.append(Case('peak-n12', full(12, 0.25, 0.125, J, 'hp', (), (3.3,), (0.7, 1.1)), 'hm0 symbolic, fp in [0.7,1.1], 12 frequencies', 200))
    for which in FN[1:]:
        r.append(Case(f'{which}', full(6, 0.0, 0.125, which, 'h', (0.2, 0.375), (1.0,) if 'pierson' in which else G), 'hm0 symbolic', 150))
    for n, f0, df in ((5, 0.125, 0.125), (30, 0.0, 0.03125)):
        r.append(Case(f'defaults-n{n}', defaults(n, f0, df), 'all four functions, peak factor and tail option left out', 150))
    for n in (3, 4):
        r.append(Case(f'variants-n{n}', variants(n, 0.25, 0.25), 'hm0, fp, gamma symbolic', 200))
    r.append(Case('rejected', rejected, 'tail option anywhere in [-4,4] but 0 and 1', 60))
    for n in (5, 16):
        r.append(Case(f'scale-n{n}', height_scale(n), 'height and factor symbolic', 100))
    r.append(Case('sizes', over('n', range(2, 41), lambda n: full(n, 0.0625, 0.0625, J, 'h', (0.22,), (3.3,))), 'hm0 symbolic, every number of frequencies from 2 to 40', 150))
    r.append(Case('far', over('axis', [(4.0, 1.0, 6.3), (1.0, 2.0, 4.1), (2.0 ** -8, 2.0 ** -8, 0.0121), (16.0, 0.25, 17.0), (1.0, 0.25, 0.9), (0.25, 0.0625, 1.5)], lambda v: full(7, v[0], v[1], J, 'h', (v[2],), (0.8, 1.0, 3.3, 9.0, 16.0))), 'six axes (peak outside the axis too), five peak factors', 150))
    r += unit_cases('C19')
    return r
