from .common import *
from .units import unit_cases

NOTE = '''Per case: every initial time and step in the stated ranges for 2 to 13 points and long axes (to 1024, thorough 4097), and the double-precision axes of twelve decimal steps for 2 to 31 points and eight sizes up to 1000.'''
ASSUME = ['times in exact real arithmetic']


def ax(n, symx=(), sizes=None, lt=1000, st=64):
    n0 = n

    def f(c):
        n = c.choice('n', sizes) if sizes else n0
        t0, dt = c.real('t0', -lt, lt), c.real('dt', 1 / st, st)
        t = axis(n, t0, dt)
        x = signal(c, n, symx, n)
        sp = c.m.spec
        fu, X = sp.time2freq(c.vec(t), c.vec(x))
        ff, Y, odd = sp.time2freq_nyquist(c.vec(t), c.vec(x))
        fu, ff, X, Y = c.lst(fu), c.lst(ff), c.lst(X), c.lst(Y)
        m = n // 2 + 1
        c.eq(len(fu), n, 'unfolded axis length')
        c.eq(len(ff), m, 'folded axis length')
        c.eq(len(X), n, 'unfolded components')
        c.eq(len(Y), m, 'folded components')
        c.ok(odd == (n % 2 == 1), 'odd flag', repr(odd))
        for k in range(n):
            # f_k = k/(N dt) as f_k * (N dt) = k: no dependence on the size of dt
            c.eq(fu[k] * (n * dt), float(k), f'unfolded frequency {k}')
        for k in range(m):
            c.eq(ff[k] * (n * dt), float(k), f'folded frequency {k}')
            c.le(ff[k] * (2 * dt), 1.0, f'not beyond Nyquist {k}')
            eqc(c, Y[k], *reim(X[k]), f'folded component {k}')
        fn, U = sp.unfold_spectrum(c.vec(ff), c.vec(Y), odd)
        fn = c.lst(fn)
        c.eq(len(fn), n, 'restored axis length')
        c.eq(len(c.lst(U)), n, 'restored components')
        for k in range(n):
            c.eq(fn[k] * (n * dt), float(k), f'restored frequency {k}')
    return f


def far(c):
    ax(c.choice('n', [5, 6]), (0,), None, 2 ** 40, 2 ** 20)(c)


def series(n):
    def f(c):
        x = signal(c, n, (), n)
        dt = c.choice('dt', [0.5, 0.25, 2.0, 0.1])
        t = axis(n, c.real('t0', -8, 8), dt)
        ff, Y, odd = c.m.series.Series(c.vec(t), c.vec(x)).get_fourier_comp()
        ff = c.lst(ff)
        c.eq(len(ff), n // 2 + 1, 'length')
        c.ok(odd == (n % 2 == 1), 'odd flag', repr(odd))
        for k, v in enumerate(ff):
            c.eq(v, k / (n * dt), f'frequency {k}')
    return f


STEPS = [0.1, 0.2, 0.05, 0.3, 0.7, 0.15, 0.04, 1 / 3, 0.9, 1.1, 2.3, 0.01]


def decimal(ns):
    """steps that are no binary fractions: the number of frequencies must not depend on rounding"""
    def f(c):
        dt = c.choice('dt', STEPS)
        n = c.choice('n', ns)
        x = signal(c, n, (n - 1,), n)
        t = [i * dt for i in range(n)]
        sp = c.m.spec
        fu, X = sp.time2freq(c.vec(t), c.vec(x))
        ff, Y, odd = sp.time2freq_nyquist(c.vec(t), c.vec(x))
        fn, U = sp.unfold_spectrum(ff, Y, odd)
        m = n // 2 + 1
        for v, k, l in ((fu, n, 'unfolded axis'), (X, n, 'unfolded components'), (ff, m, 'folded axis'), (Y, m, 'folded components'), (fn, n, 'restored axis'), (U, n, 'restored components')):
            c.eq(len(c.lst(v)), k, f'number of values: {l}')
        for v, l in ((fu, 'unfolded'), (ff, 'folded'), (fn, 'restored')):
            for k, y in enumerate(c.lst(v)):
                c.eq(y, k / (n * dt), f'{l} frequency {k}')
        c.ok(odd == (n % 2 == 1), 'odd flag', repr(odd))
    return f


def cases(tier):
    th = tier == 'thorough'
    r = [Case(f'n{n}', ax(n, (0, n - 1)), f'{n} points, any initial time and step', 100) for n in range(2, 14)]
    r += [Case(f'wide{n}', ax(n), f'{n} points, any initial time and step', 150) for n in (31, 32, 100, 101, 255, 256, 1001, 1024) + ((1000, 4096, 4097) if th else ())]
    r += [Case(f'series-n{n}', series(n), f'series of {n} points, any initial time', 60) for n in (4, 5, 8, 11)]
    for lo, hi in ((2, 12), (12, 22), (22, 32)):
        r.append(Case(f'decimal-{lo}', decimal(list(range(lo, hi))), f'{lo} to {hi - 1} points at twelve decimal steps, last sample symbolic', 100))
    r.append(Case('decimal-wide', decimal([49, 50, 60, 99, 100, 121, 200, 250]), 'eight sizes at twelve decimal steps, last sample symbolic', 100))
    r += [Case(f'sizes-{lo}', ax(0, (1,), list(range(lo, hi))), f'every number of points from {lo} to {hi - 1}, any initial time and step', 100) for lo, hi in ((14, 31), (33, 50), (50, 66))]
    r.append(Case('far', far, '6 points, initial times to 2^40, steps from 2^-20 to 2^20', 60))
    r += unit_cases('C09')
    return r
