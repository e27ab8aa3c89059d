from .common import *
from .units import unit_cases

NOTE = '''Per case: every density and every desired spacing in the stated ranges for 2 to 7 bins (thorough 12), long spectra (to 1100 bins) with one or two symbolic densities and spacing; ratios within 1e-9 of a half are left open; exact real arithmetic.'''
ASSUME = ['densities, frequencies and spacing in exact real arithmetic', 'ratios within 1e-9 of a half are left out (either rounding is accepted)']


def nearest(c, v, hi):
    """rounded value, at least 1"""
    for k in range(1, hi + 1):
        c.assume(v <= k + 0.5 - 1e-9 or v >= k + 0.5 + 1e-9)
        if v < k + 0.5:
            return k
    return hi + 1


def check(c, f, S, df, r, fc, Sc, label=''):
    n = len(f)
    fc, Sc = c.lst(fc), c.lst(Sc)
    m = n // r
    c.eq(len(fc), m, 'number of frequencies' + label)
    c.eq(len(Sc), m, 'number of densities' + label)
    for i in range(m):
        c.eq(fc[i], mean(f[i * r:(i + 1) * r]), f'frequency {i}' + label)
        c.eq(Sc[i], mean(S[i * r:(i + 1) * r]), f'density {i}' + label)
    if m:
        c.eq(total(Sc) * r, total(S[:m * r]), 'energy of the covered bins' + label)
        c.eq(total(Sc) * (r * df), total(S[:m * r]) * df, 'energy' + label)


def avg(n, sym=None, f0=0.0, df=0.25, k=0, lo=-2.0, hi=None):
    def f(c):
        S = [abs(v) for v in pseudo(n, k)]
        for j in range(n) if sym is None else sym:
            S[j] = c.real(f's{j}', 0, 16)
        f_ = axis(n, f0, df)
        d = c.real('df', lo, (n + 2) * df if hi is None else hi)
        fc, Sc = c.m.spec.frequency_averaging(c.vec(f_), c.vec(S), d)
        r = nearest(c, d / df, n + 2)
        check(c, f_, S, df, r, fc, Sc)
        for i, v in enumerate(c.lst(Sc)):
            c.le(0, v, 'non-negative')
    return f


def within(n, r):
    """inside the range of the averaged values"""
    def f(c):
        S = c.real_list('s', n, -16, 16)
        f_ = axis(n, 0.5, 0.25)
        fc, Sc = c.m.spec.frequency_averaging(c.vec(f_), c.vec(S), r * 0.25)
        for i, v in enumerate(c.lst(Sc)):
            b = S[i * r:(i + 1) * r]
            hi = lo = b[0]
            for x in b[1:]:
                hi = x if x > hi else hi
                lo = x if x < lo else lo
            c.le(v, hi, 'at most the largest')
            c.le(lo, v, 'at least the smallest')
        check(c, f_, S, 0.25, r, fc, Sc)
    return f


def anyaxis(n):
    """any axis: initial frequency and spacing symbolic"""
    def f(c):
        f0, df = c.real('f0', 0, 8), c.real('d', 1 / 64, 4)
        q = c.real('ratio', 0, n + 2)
        f_ = axis(n, f0, df)
        S = c.real_list('s', n, 0, 16)
        fc, Sc = c.m.spec.frequency_averaging(c.vec(f_), c.vec(S), q * df)
        check(c, f_, S, df, nearest(c, q, n + 2), fc, Sc)
    return f


def default(n):
    def f(c):
        S = c.real_list('s', n, -16, 16)
        f_ = axis(n, c.real('f0', 0, 8), 0.25)
        how = c.choice('how', [0, 1, 2, 3])
        g, T = c.vec(f_), c.vec(S)
        fc, Sc = [lambda: c.m.spec.frequency_averaging(g, T), lambda: c.m.spec.frequency_averaging(g, T, 0.0), lambda: c.m.spec.frequency_averaging(g, T, 0),
                  lambda: c.m.spec.frequency_averaging(g, T, c.real('small', -8, 0.12))][how]()
        c.eq(c.lst(fc), f_, 'frequencies unchanged')
        c.eq(c.lst(Sc), S, 'densities unchanged')
    return f


def cplx(n):
    def f(c):
        re, im = c.real_list('re', n, -16, 16), c.real_list('im', n, -16, 16)
        f_ = axis(n, 0.0, 0.5)
        r = c.choice('r', [1, 2, 3])
        fc, Sc = c.m.spec.frequency_averaging(c.vec(f_), c.vec([c.cplx(a, b) for a, b in zip(re, im)]), r * 0.5)
        Sc = c.lst(Sc)
        c.eq(len(Sc), n // r, 'number')
        for i, v in enumerate(Sc):
            eqc(c, v, mean(re[i * r:(i + 1) * r]), mean(im[i * r:(i + 1) * r]), f'mean {i}')
    return f


def ints(n):
    """integer densities (and frequencies)"""
    def f(c):
        S = [c.int(f's{j}', 0, 20) for j in range(n)]
        r = c.choice('r', [1, 2, 3])
        fi = c.choice('fint', [0, 1])
        f_ = [2 * i for i in range(n)] if fi else [2.0 * i for i in range(n)]
        fc, Sc = c.m.spec.frequency_averaging(c.ivec(f_) if fi else c.vec(f_), c.ivec(S), r * 2)
        check(c, f_, S, 2.0, r, fc, Sc)
    return f


def cases(tier):
    th = tier == 'thorough'
    r = [Case(f'n{n}', avg(n), f'{n} densities and the desired spacing symbolic', 100) for n in (2, 3, 4, 5, 6, 7) + ((8, 9, 12) if th else ())]
    r += [Case(f'axis{k}', avg(7, (0, 6), f0, df, k), f'7 densities, f0={f0} df={df}', 100) for k, (f0, df) in enumerate([(0.05, 0.1), (1.0, 0.01), (10.0, 2.0)])]
    for k, (n, sym, lo, hi) in enumerate([(20, (19,), 0.0, 2.6), (50, (0, 49), 0.9, 2.1), (100, (50,), 2.4, 3.6), (257, (200,), 0.3, 0.9), (300, (5,), 24.0, 26.0), (1025, (1000,), 0.9, 1.9), (1100, (600,), 29.0, 29.9)]):
        r.append(Case(f'wide{n}', avg(n, sym, 0.0, 0.25, k, lo, hi), f'{n} densities, those at {sym} symbolic, desired spacing in [{lo},{hi}]', 150))
    r += [Case(f'within-n{n}-r{q}', within(n, q), f'{n} densities of any sign, blocks of {q}', 100) for n, q in ((4, 2), (5, 2), (6, 3), (4, 4))]
    r += [Case(f'anyaxis-n{n}', anyaxis(n), f'{n} densities, any axis', 100) for n in (2, 4, 6)]
    r += [Case(f'default-n{n}', default(n), f'{n} densities', 60) for n in (2, 3, 6)]
    r += [Case(f'complex-n{n}', cplx(n), f'{n} complex values', 60) for n in (3, 5)]
    r += [Case(f'ints-n{n}', ints(n), f'{n} integers', 60) for n in (3, 5, 6)]
    r.append(Case('sizes', over('n', range(8, 31), lambda n: avg(n, (n // 2,), 0.25, 0.25, n, 0.3, 1.1)), 'every number of bins from 8 to 30, desired spacing in [0.3,1.1]', 100))
    r.append(Case('blocks', over('r', range(3, 25), lambda q: avg(2 * q + 1, (1, q), 0.25, 0.25, q, 0.25 * q - 0.1, 0.25 * q + 0.1)), 'blocks of 3 to 24', 100))
    for k, (f0, df) in enumerate([(500.0, 0.5), (-3.0, 0.25), (0.0, 64.0), (1000.0, 2.0 ** -10), (-2.0 ** 12, 2.0 ** 6)]):
        r.append(Case(f'far{k}', avg(7, (0, 6), f0, df, k, 0.0), f'7 densities, f0={f0} df={df}', 100))
    r += unit_cases('C11')
    return r
