from .common import *
from .units import unit_cases

NOTE = '''Per case: every height and period in [0,16] of 1 to 4 waves (thorough 5), ties included, longer lists (to 1200 waves) with one or two symbolic heights; exact real arithmetic.'''
ASSUME = ['exact real arithmetic for heights and periods']


def pairs(n, via, hfix=(), wrap='vec'):
    def f(c):
        h = c.real_list('h', n, 0, 16) if wrap != 'ivec' else [c.int(f'h{i}', 0, 9) for i in range(n)]
        T = c.real_list('T', n, 0, 16)
        for i, v in hfix:
            h[i] = v
        ha, ta = getattr(c, wrap)(h), c.vec(T)
        if via == 'func':
            hs, ts = c.m.time.sort_wave_params(ha, ta)
        else:
            w = c.m.series.WaveHeights(ha, ta)
            w.sort()
            if via == 'twice':
                w.sort()
            hs, ts = w.hwave, w.twave
            c.eq(w.nwave, n, 'number of waves')
        hs, ts = c.lst(hs), c.lst(ts)
        c.eq(len(hs), n, 'as many heights')
        c.eq(len(ts), n, 'as many periods')
        for a, b in zip(hs[1:], hs[:-1]):
            c.le(a, b, 'descending heights', tol=0)
        perm_pairs(c, hs, ts, h, T, 'pairs')
        unchanged(c, ha, h, 'heights of the caller not reordered')
        unchanged(c, ta, T, 'periods of the caller not reordered')
    return f


def wide(n, pos, via, k):
    def f(c):
        h = [abs(v) for v in pseudo(n, k)]
        T = [1.0 + 0.125 * i for i in range(n)]
        for j in pos:
            h[j] = c.real(f'h{j}', 0, 16)
        ha, ta = c.vec(h), c.vec(T)
        if via == 'func':
            hs, ts = c.m.time.sort_wave_params(ha, ta)
        else:
            w = c.m.series.WaveHeights(ha, ta)
            w.sort()
            hs, ts = w.hwave, w.twave
        hs, ts = c.lst(hs), c.lst(ts)
        for a, b in zip(hs[1:], hs[:-1]):
            c.le(a, b, 'descending heights', tol=0)
        perm_pairs(c, hs, ts, h, T, 'pairs')
        unchanged(c, ha, h, 'heights of the caller not reordered')
        unchanged(c, ta, T, 'periods of the caller not reordered')
    return f


def negative(c):
    """any numbers, also negative ones"""
    h, T = c.real_list('h', 3, -16, 16), c.real_list('T', 3, -16, 16)
    hs, ts = c.m.time.sort_wave_params(c.vec(h), c.vec(T))
    hs, ts = c.lst(hs), c.lst(ts)
    for a, b in zip(hs[1:], hs[:-1]):
        c.le(a, b, 'descending heights', tol=0)
    perm_pairs(c, hs, ts, h, T, 'pairs')


def bad(c):
    h, T = c.real_list('h', 4, 0, 16), c.real_list('T', 4, 0, 16)
    k = c.choice('k', list(range(8)))
    a = [(c.vec(h), c.vec(T[:3])), (c.vec(h[:3]), c.vec(T)), (c.arr([h]), c.arr([T])), (c.arr([[v] for v in h]), c.arr([[v] for v in T])),
         (c.arr([h]), c.vec(T)), (c.vec(h), c.arr([T])), (c.vec(h[:1]), c.vec(T)), (c.arr([h[:2], h[2:]]), c.arr([T[:2], T[2:]]))][k]
    c.raises(lambda: c.m.time.sort_wave_params(*a), 'inconsistent arrays')


def empty(c):
    hs, ts = c.m.time.sort_wave_params(c.vec([]), c.vec([]))
    c.eq(len(c.lst(hs)), 0, 'no heights')
    c.eq(len(c.lst(ts)), 0, 'no periods')


def single(c):
    h, T = c.real('h', 0, 16), c.real('T', 0, 16)
    hs, ts = c.m.time.sort_wave_params(h, T)
    c.eq(c.lst(hs), [h], 'height')
    c.eq(c.lst(ts), [T], 'period')


def cases(tier):
    th = tier == 'thorough'
    r = []
    for via in ('func', 'object', 'twice'):
        for n in (1, 2, 3, 4) + ((5,) if th else ()):
            r.append(Case(f'{via}-n{n}', pairs(n, via), f'{n} waves, height and period in [0,16]', 120 if not th else 900))
        for k, (n, pos) in enumerate([(8, (0, 7)), (17, (9,)), (40, (0,)), (120, (119,)), (300, (17,)), (1200, (700,)), (3000, (2999,))]):
            if via != 'twice':
                r.append(Case(f'{via}-wide{n}', wide(n, pos, via, k), f'{n} waves, heights at {pos} symbolic', 120))
    r.append(Case('ties', pairs(5, 'func', ((0, 2.0), (2, 2.0), (4, 2.0))), '5 waves, three of equal height', 120))
    r.append(Case('ints', pairs(3, 'func', wrap='ivec'), '3 waves, integer heights in [0,9]', 60))
    for nm in ('negative', 'bad', 'empty', 'single'):
        r.append(Case(nm, globals()[nm], '', 60))
    for via in ('func', 'object'):
        r.append(Case(f'{via}-sizes', over('n', range(5, 26), lambda n, via=via: wide(n, (n // 2,), via, n)), 'every number of waves from 5 to 25, one height symbolic', 90))
    r += unit_cases('C04')
    return r
