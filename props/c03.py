from .common import *
from .units import unit_cases

NOTE = '''Per case: every sample in [-16,16] of records of 2 to 7 samples, every factor, time shift, time unit and minimum wave height in the stated ranges, long records (to 1200 samples) with 1 or 2 symbolic samples; exact real arithmetic.'''
ASSUME = ['exact real arithmetic for signal values and times (IEEE rounding not modelled)']


def expected(t, x, dt, typ='down'):
    tc = [cross_time(t, x, i, dt) for i in crossings(x, typ)]
    return waves(t, x, tc)


def holds(c, s, exp, label):
    c.eq(c.lst(s.hwave), [e[0] for e in exp], label + ' heights')
    c.eq(c.lst(s.twave), [e[1] for e in exp], label + ' periods')
    c.eq(s.nwave, len(exp), label + ' number of waves')


def basic(n, dt, t0, fix=()):
    def f(c):
        x = c.real_list('x', n)
        for i, v in fix:
            x[i] = v
        t = [t0 + dt * i for i in range(n)]
        s = c.m.series.Series(c.vec(t), c.vec(x))
        holds(c, s, expected(t, x, dt), 'series')
        c.eq(c.lst(s.time), t, 'time axis kept')
        c.eq(c.lst(s.xTime), x, 'record kept')
        c.eq(s.nt, n, 'number of samples')
        c.eq(s.dt, dt, 'time step')
    return f


def scale_shift(n, fix=()):
    def f(c):
        x = c.real_list('x', n)
        for i, v in fix:
            x[i] = v
        k, sh = c.real('factor', 0.125, 8), c.real('shift', -64, 64)
        t = [0.5 * i for i in range(n)]
        a = c.m.series.Series(c.vec(t), c.vec(x))
        b = c.m.series.Series(c.vec(t), c.vec([k * v for v in x]))
        d = c.m.series.Series(c.vec([sh + v for v in t]), c.vec(x))
        c.eq(c.lst(b.hwave), [k * v for v in c.lst(a.hwave)], 'heights scale')
        c.eq(c.lst(b.twave), c.lst(a.twave), 'periods keep under scaling')
        c.eq(c.lst(d.hwave), c.lst(a.hwave), 'heights keep under time shift')
        c.eq(c.lst(d.twave), c.lst(a.twave), 'periods keep under time shift')
        c.eq(b.nwave, a.nwave, 'count')
        c.eq(d.nwave, a.nwave, 'count')
    return f


def stretch(n, fix=()):
    """time unit: periods scale with the time axis"""
    def f(c):
        x = c.real_list('x', n)
        for i, v in fix:
            x[i] = v
        k = c.real('unit', 0.125, 8)
        t = [0.5 * i for i in range(n)]
        a = c.m.series.Series(c.vec(t), c.vec(x))
        b = c.m.series.Series(c.vec([k * v for v in t]), c.vec(x))
        c.eq(c.lst(b.hwave), c.lst(a.hwave), 'heights keep under time unit')
        c.eq(c.lst(b.twave), [k * v for v in c.lst(a.twave)], 'periods scale with the time unit')
    return f


def minimum(n, typ, fix=(), twice=False):
    def f(c):
        x = c.real_list('x', n)
        for i, v in fix:
            x[i] = v
        t = [1.0 + 0.5 * i for i in range(n)]
        hmin = c.real('hmin', 0, 40)
        s = c.m.series.Series(c.vec(t), c.vec(x))
        if twice:
            s._determine_individual_waves(typeCross='up' if typ == 'down' else 'down', minimum_wave=2.0)
            s.sort()
        r = s._determine_individual_waves(typeCross=typ, minimum_wave=hmin)
        exp = [e for e in expected(t, x, 0.5, typ) if not (e[0] < hmin)]
        holds(c, s, exp, 'filtered')
        for k in range(6):
            c.eq(c.lst(r[k]), [e[k] for e in exp], f'filtered result {k}')
        # undoing the filter
        s._determine_individual_waves(typeCross=typ)
        holds(c, s, expected(t, x, 0.5, typ), 'unfiltered')
    return f


def wide(n, pos, k, hsym=True):
    def f(c):
        x = pseudo(n, k)
        for j in pos:
            x[j % n] = c.real(f'x{j % n}')
        t = [0.25 * i for i in range(n)]
        s = c.m.series.Series(c.vec(t), c.vec(x))
        exp = expected(t, x, 0.25)
        holds(c, s, exp, 'series')
        hmin = c.choice('hmin', [0.0, 2.0, 5.25, 30.0] if n < 1000 else [5.25])
        s._determine_individual_waves(minimum_wave=hmin)
        holds(c, s, [e for e in exp if not (e[0] < hmin)], 'filtered')
    return f


def cutoff(c):
    """wave definition on the record without its low-frequency part"""
    n = 8
    x = pseudo(n, 3)
    x[2] = c.real('x2', -4, 4)
    t = [0.5 * i for i in range(n)]
    fc = c.choice('fc', [0.3, 0.6])
    for typ in ('down', 'up'):
        s = c.m.series.Series(c.vec(t), c.vec(x))
        r = s._determine_individual_waves(typeCross=typ, fcutoff=fc)
        low = c.m.spec.bandpassfilter(c.vec(t), c.vec(x), 0, fc)
        y = [a - b for a, b in zip(x, c.lst(low))]
        _, tc = c.m.time.determine_zero_crossing(c.vec(t), c.vec(y), typ)
        tc = c.lst(tc)
        c.eq(c.lst(r[6]), tc, 'crossings of the high-passed record')
        w = waves(t, x, tc)
        holds(c, s, w, 'high-passed')
        c.eq(c.lst(s.xTime), x, 'record kept')


def cases(tier):
    th = tier == 'thorough'
    r = [Case(f'basic-n{n}', basic(n, 0.5, -2.0), f'{n} samples in [-16,16]', 100 if not th else 900) for n in (2, 3, 4, 5) + ((6, 7) if th else ())]
    for t0 in T0S:
        r.append(Case(f'basic-origin{t0:g}', basic(4, 0.5, t0), f'4 samples in [-16,16], time from {t0}', 100))
    for dt in (3600.0, 2.0 ** -12):
        r.append(Case(f'basic-step{dt:g}', basic(4, dt, 0.0), f'4 samples in [-16,16], time step {dt}', 100))
    alt = ((0, 1.0), (1, -1.0), (6, -2.0))
    r.append(Case('basic-n7-four', basic(7, 0.25, 3.0, alt), '7 samples, 4 symbolic', 100))
    r.append(Case('scale-shift-n4', scale_shift(4), '4 samples in [-16,16], factor in [1/8,8], shift in [-64,64]', 150))
    r.append(Case('scale-shift-n6', scale_shift(6, ((0, 1.0), (1, -1.0), (5, -2.0))), '6 samples, 3 symbolic; factor, shift', 150))
    r.append(Case('time-unit-n4', stretch(4), '4 samples in [-16,16], unit in [1/8,8]', 150))
    for typ in ('down', 'up'):
        s = 1.0 if typ == 'down' else -1.0
        r.append(Case(f'min-{typ}-n4', minimum(4, typ), '4 samples, minimum height in [0,40]', 100))
        r.append(Case(f'min-{typ}-n7', minimum(7, typ, ((0, s), (1, -s), (4, 2 * s), (6, -2 * s)), True), '7 samples, 3 symbolic, minimum height in [0,40]', 150))
        r.append(Case(f'min-{typ}-n10', minimum(10, typ, ((0, s), (1, -s), (3, 3 * s), (4, -s), (6, 2 * s), (7, -4 * s), (8, s), (9, -s))), '10 samples, 2 symbolic, minimum height in [0,40]', 150))
    for k, (n, pos) in enumerate([(30, (0, 15, 29)), (80, (40, 79)), (160, (80, 128)), (1200, (1199,))]):
        r.append(Case(f'wide{n}', wide(n, pos, k), f'{n} samples, those at {pos} symbolic', 150))
    r.append(Case('cutoff', cutoff, '8 samples, 1 symbolic in [-4,4], two cut-offs', 150))
    r.append(Case('sizes', over('n', range(6, 33), lambda n: wide(n, (n // 3,), n, False)), 'every number of samples from 6 to 32, one symbolic', 90))
    r += unit_cases('C03')
    return r
