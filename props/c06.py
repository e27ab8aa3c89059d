from .common import *
from .units import unit_cases
from .c05 import sorted_pairs

NOTE = '''Per case: every double percentage in [0,100] (IEEE semantics of floor(n*P/100)) with sorted heights of 1 to 7 waves (thorough more), every order of up to 5 waves at stated percentages; heights in exact real arithmetic.'''
ASSUME = ['heights in exact real arithmetic; the percentage is an IEEE double (z3 floating-point theory)']


def rank(n, P):
    return math.floor(n * P / 100.0)


def func(n):
    def f(c):
        h = c.real_list('h', n, -4, 16)
        for a, b in zip(h[1:], h[:-1]):
            c.assume_rel(a, '<=' if n < 4 else '<', b)
        P = c.fp('P', 0.0, 100.0)
        H = c.m.time.exceedance_wave_height(c.vec(h), P)
        k = rank(n, P)
        off_boundary(c, n, P, k, 100)
        c.eq(H, h[k - 1] if k else 0.0, 'exceedance height')
    return f


def wide_fp(n, k, lo=0.0, hi=100.0):
    """concrete heights, any double percentage"""
    def f(c):
        h = sorted((abs(v) + i / 4096 for i, v in enumerate(pseudo(n, k))), reverse=True)
        P = c.fp('P', lo, hi)
        H = c.m.time.exceedance_wave_height(c.vec(h), P)
        w = c.m.series.WaveHeights(c.vec(h[::-1]), c.vec(h))
        H2 = w.get_exceedance_waveheight(P)
        r = rank(n, P)
        off_boundary(c, n, P, r, 100)
        c.eq(H, h[r - 1] if r else 0.0, 'exceedance height')
        c.eq(H2, h[r - 1] if r else 0.0, 'exceedance height of the object')
    return f


def mono(n):
    """never increases with P (real percentages)"""
    def f(c):
        h = c.real_list('h', n, -4, 16)
        for a, b in zip(h[1:], h[:-1]):
            c.assume_rel(a, '<=', b)
        P, Q = c.real('P', 0, 100), c.real('Q', 0, 100)
        c.assume_rel(P, '<=', Q)
        a, b = c.m.time.exceedance_wave_height(c.vec(h), P), c.m.time.exceedance_wave_height(c.vec(h), Q)
        k = rank(n, P)
        if k > 0:
            c.le(b, a, 'decreases with P')
        c.eq(a, h[k - 1] if k else 0.0, 'rank')
    return f


def obj(n, hfix=()):
    def f(c):
        h, T = c.real_list('h', n, -4, 16), c.real_list('T', n, 0, 16)
        for i, v in hfix:
            h[i] = v
        P = c.choice('P', [0.0, 1.0] + [100.0 * i / n for i in range(1, n + 1)] + [99.0])
        w = c.m.series.WaveHeights(c.vec(h), c.vec(T))
        o = desc_sorted(h)
        k = rank(n, P)
        c.eq(w.get_exceedance_waveheight(P), o[k - 1] if k else 0.0, 'exceedance height')
        c.eq(w.get_exceedance_waveheight(P), o[k - 1] if k else 0.0, 'exceedance height again')
        c.eq(w.nwave, n, 'number of waves')
    return f


def wide(n, pos, k):
    def f(c):
        h = [abs(v) for v in pseudo(n, k)]
        for j in pos:
            h[j] = c.real(f'h{j}', 0, 16)
        o = desc_sorted(h)
        w = c.m.series.WaveHeights(c.vec(h), c.vec([float(i) for i in range(n)]))
        for P in (2.0, 0.1, 33.0, 50.0, 100.0, 0.0, 10):
            r = rank(n, P)
            c.eq(w.get_exceedance_waveheight(P), o[r - 1] if r else 0.0, f'exceedance height {P}')
            c.eq(c.m.time.exceedance_wave_height(c.vec(o), P), o[r - 1] if r else 0.0, f'exceedance height of sorted heights {P}')
    return f


def bad_range(c):
    h = c.real_list('h', 2, 0, 16)
    c.assume_rel(h[1], '<=', h[0])
    if c.choice('side', [0, 1]):
        P = c.fp('P', 100.0, 1e6)
        c.assume(P > 100.0)
    else:
        P = c.fp('P', -1e6, 0.0)
        c.assume(P < 0.0)
    c.raises(lambda: c.m.time.exceedance_wave_height(c.vec(h), P), 'percentage outside [0,100]')


def unsorted(n):
    def f(c):
        h = c.real_list('h', n, -4, 16)
        k = c.choice('k', list(range(n - 1)))
        c.assume_rel(h[k], '<', h[k + 1])
        P = c.choice('P', [0.0, 40.0, 100.0])
        c.raises(lambda: c.m.time.exceedance_wave_height(c.vec(h), P), 'heights not sorted')
    return f


def bad_shape(c):
    h = c.real_list('h', 3, 0, 16)
    c.assume_rel(h[1], '<=', h[0])
    c.assume_rel(h[2], '<=', h[1])
    a = c.choice('k', [0, 1])
    c.raises(lambda: c.m.time.exceedance_wave_height(c.arr([h] if a else [[v] for v in h]), 50.0), 'two-dimensional')


def none(c):
    P = c.fp('P', 0.0, 100.0)
    c.eq(c.m.time.exceedance_wave_height(c.vec([]), P), 0.0, 'no waves')
    x = c.real_list('x', 3, 0, 16)
    s = c.m.series.Series(c.vec([0.0, 0.5, 1.0]), c.vec(x))
    c.eq(s.get_exceedance_waveheight(50.0), 0.0, 'record without waves')


def series(c):
    """through a Series object"""
    x = [1.0, -1.0, c.real('x2'), -2.0, c.real('x4'), -3.0, 1.0, -0.5]
    t = [0.5 * i for i in range(8)]
    s = c.m.series.Series(c.vec(t), c.vec(x))
    h = c.lst(s.hwave)
    P = c.choice('P', [10.0, 34.0, 50.0, 67.0, 100.0])
    o = desc_sorted(h)
    k = rank(len(h), P)
    c.eq(s.get_exceedance_waveheight(P), o[k - 1] if k else 0.0, 'exceedance height')


def cases(tier):
    th = tier == 'thorough'
    r = [Case(f'func-n{n}', func(n), f'{n} sorted heights, any double percentage in [0,100]', 200 if not th else 1500) for n in (1, 2, 3, 4) + ((7, 10) if th else ())]
    r += [Case(f'mono-n{n}', mono(n), f'{n} sorted heights, two real percentages', 150) for n in (2, 4, 6)]
    r += [Case(f'object-n{n}', obj(n), f'{n} heights in any order', 150) for n in (1, 2, 3, 4)]
    r.append(Case('object-n7', obj(7, ((0, 2.0), (2, 5.0), (4, 1.0), (5, 3.0), (6, 2.0))), '7 heights, 2 symbolic', 150))
    for k, (n, pos) in enumerate([(20, (3, 11)), (50, (49,)), (150, (75,)), (300, (150,)), (1200, (800,))]):
        r.append(Case(f'wide{n}', wide(n, pos, k), f'{n} heights, those at {pos} symbolic', 150))
    r += [Case(f'fp-wide{n}', wide_fp(n, k), f'{n} concrete heights, any double percentage in [0,100]', 150) for k, n in enumerate((10, 30, 49, 100) + ((300, 1000) if th else ()))]
    r += [Case('fp-wide2000', wide_fp(2000, 10, 1.9, 2.1), '2000 concrete heights, any double percentage in [1.9,2.1]', 150), Case('fp-wide2000-few', wide_fp(2000, 10, 0.0, 0.1), '2000 concrete heights, any double percentage in [0,0.1]', 150)]
    r += [Case('fp-wide300', wide_fp(300, 9, 0.0, 10.0), '300 concrete heights, any double percentage in [0,10]', 150)] if not th else []
    for nm in ('bad_range', 'bad_shape', 'none', 'series'):
        r.append(Case(nm, globals()[nm], '', 60))
    r += [Case(f'unsorted-n{n}', unsorted(n), f'{n} heights not descending', 100) for n in (2, 3, 4)]
    r.append(Case('sizes', over('n', range(5, 24), lambda n: wide(n, (n // 2,), n)), 'every number of waves from 5 to 23, one height symbolic', 90))
    r += unit_cases('C06')
    return r
