from .common import *
from .units import unit_cases

NOTE = '''Per case: every sample in [-16,16] of records of 4 to 7 samples, long records (to 1200 samples) with 1 to 4 symbolic samples, arbitrary given crossing times on 4 samples, both crossing types; exact real arithmetic.'''
ASSUME = ['exact real arithmetic for signal values and times (IEEE rounding not modelled)',
          'a time span between two given crossings contains at least one sample (always so for crossings found in a signal)']


def compare(c, res, exp):
    h, T, cr, tr, tcr, ttr = [c.lst(v) for v in res]
    for v, nm in ((h, 'height'), (T, 'period'), (cr, 'crest'), (tr, 'trough'), (tcr, 'crest time'), (ttr, 'trough time')):
        c.eq(len(v), len(exp), f'number of {nm}s')
    for k, e in enumerate(exp):
        c.eq(cr[k], e[2], 'crest')
        c.eq(tr[k], e[3], 'trough')
        c.eq(h[k], e[0], 'height')
        c.eq(T[k], e[1], 'period')
        c.eq(tcr[k], e[4], 'crest time')
        c.eq(ttr[k], e[5], 'trough time')


def own(n, typ, dt, t0, wrap='vec', fix=()):
    """crossings found in the same signal"""
    def f(c):
        x = c.real_list('x', n) if wrap != 'ivec' else [c.int(f'x{i}', -9, 9) for i in range(n)]
        for i, v in fix:
            x[i] = v
        t = [t0 + dt * i for i in range(n)]
        xa, ta = getattr(c, wrap)(x), c.vec(t)
        nw, tc = c.m.time.determine_zero_crossing(ta, xa, typ)
        res = c.m.time.determine_params_individual_waves(tc, ta, xa)
        tcl = c.lst(tc)
        compare(c, res, waves(t, x, tcl))
        h, T, cr, tr, tcr, ttr = [c.lst(v) for v in res]
        for k in range(len(h)):
            if typ == 'down':
                c.lt(tr[k], 0, 'negative trough of a down-crossing wave')
                c.le(0, cr[k], 'non-negative crest of a down-crossing wave', tol=0)
            else:
                c.lt(0, cr[k], 'positive crest of an up-crossing wave')
                c.le(tr[k], 0, 'non-positive trough of an up-crossing wave', tol=0)
        if len(tcl) > 1:
            c.eq(total(T), tcl[-1] - tcl[0], 'sum of periods')
    return f


def given(n, m, dt=1.0):
    """arbitrary increasing crossing times"""
    def f(c):
        x = c.real_list('x', n)
        t = [dt * i for i in range(n)]
        tc = c.real_list('c', m, 0, dt * (n - 1))
        for a, b in zip(tc[:-1], tc[1:]):
            c.assume_rel(a, '<', b)
        for a, b in zip(tc[:-1], tc[1:]):
            c.assume(any(t[j] >= a and t[j] <= b for j in range(n)))
        res = c.m.time.determine_params_individual_waves(c.vec(tc), c.vec(t), c.vec(x))
        compare(c, res, waves(t, x, tc))
    return f


def wide(n, typ, pos, k):
    def f(c):
        x = pseudo(n, k)
        for j in pos:
            x[j % n] = c.real(f'x{j % n}')
        t = [3.0 + i * 0.25 for i in range(n)]
        xa, ta = c.vec(x), c.vec(t)
        nw, tc = c.m.time.determine_zero_crossing(ta, xa, typ)
        compare(c, c.m.time.determine_params_individual_waves(tc, ta, xa), waves(t, x, c.lst(tc)))
    return f


def longwave(n, pos):
    """one long wave with plateaus: extremes anywhere in the span"""
    def f(c):
        x = [1.0] + [-1.0] * (n // 2 - 1) + [0.5] * (n - n // 2 - 1) + [-2.0]
        for j in pos:
            x[j] = c.real(f'x{j}')
        t = [i * 0.5 for i in range(n)]
        xa, ta = c.vec(x), c.vec(t)
        for typ in ('down', 'up'):
            nw, tc = c.m.time.determine_zero_crossing(ta, xa, typ)
            compare(c, c.m.time.determine_params_individual_waves(tc, ta, xa), waves(t, x, c.lst(tc)))
    return f


def series_level(n):
    def f(c):
        x = c.real_list('x', n)
        for typ in ('down', 'up'):
            t = [i * 0.5 for i in range(n)]
            s = c.m.series.Series(c.vec(t), c.vec(x))
            r = s._determine_individual_waves(typeCross=typ)
            tcl = [cross_time(t, x, i, 0.5) for i in crossings(x, typ)]
            c.eq(c.lst(r[6]), tcl, 'crossings of the series')
            compare(c, r[:6], waves(t, x, tcl))
    return f


def none(c):
    x = c.real_list('x', 3, 0, 16)
    for typ, s in (('down', 1.0), ('up', -1.0)):
        xa, ta = c.vec([s * v for v in x]), c.vec([0.0, 0.5, 1.0])
        nw, tc = c.m.time.determine_zero_crossing(ta, xa, typ)
        c.eq(len(c.lst(tc)), 0, 'no crossing')
        res = c.m.time.determine_params_individual_waves(tc, ta, xa)
        for v in res:
            c.eq(len(c.lst(v)), 0, 'no wave')


def bad(c):
    x = c.real_list('x', 4)
    k = c.choice('k', [0, 1, 2, 3])
    t = [0.0, 0.5, 1.0, 1.5]
    tc = [0.25, 1.25]
    a = [(c.vec(tc), c.vec(t[:3]), c.vec(x)), (c.vec(tc), c.vec(t), c.arr([x])), (c.arr([tc]), c.vec(t), c.vec(x)), (c.vec(tc), c.arr([t]), c.vec(x))][k]
    c.raises(lambda: c.m.time.determine_params_individual_waves(*a), 'inconsistent arrays')


def cases(tier):
    th = tier == 'thorough'
    r = []
    for typ in ('down', 'up'):
        for n in (4, 5) + ((6, 7) if th else ()):
            r.append(Case(f'{typ}-n{n}', own(n, typ, 0.5, -1.0), f'{n} samples in [-16,16], dt 0.5', 100 if not th else 1200))
        s = 1.0 if typ == 'down' else -1.0
        r.append(Case(f'{typ}-n7-four', own(7, typ, 0.25, 2.0, fix=((0, s), (1, -s), (6, -s))), '7 samples, 4 of them symbolic in [-16,16]', 100))
        r.append(Case(f'{typ}-ints', own(4, typ, 0.5, 0.0, 'ivec'), '4 integer samples in [-9,9]', 60))
        for k, (n, pos) in enumerate([(24, (0, 1, 12, 23)), (64, (31, 32, 63)), (150, (74, 149)), (1200, (600,))]):
            r.append(Case(f'{typ}-wide{n}', wide(n, typ, pos, k), f'{n} samples, those at {pos} symbolic', 100))
    for k, t0 in enumerate(T0S):
        typ = ('down', 'up')[k % 2]
        r.append(Case(f'{typ}-origin{t0:g}', own(5, typ, 0.5, t0), f'5 samples in [-16,16], time from {t0}', 60))
    for dt in (3600.0, 2.0 ** -12):
        r.append(Case(f'down-step{dt:g}', own(5, 'down', dt, 0.0), f'5 samples in [-16,16], time step {dt}', 60))
    r.append(Case('long-n120', longwave(120, (30, 90)), '120 samples, 2 symbolic', 100))
    r.append(Case('given-n4-2', given(4, 2), '4 samples, 2 arbitrary crossing times', 100))
    r.append(Case('given-n4-3', given(4, 3), '4 samples, 3 arbitrary crossing times', 150 if not th else 900))
    r.append(Case('long-n12', longwave(12, (3, 4, 8)), '12 samples, 3 symbolic', 100))
    r.append(Case('long-n40', longwave(40, (10, 30)), '40 samples, 2 symbolic', 100))
    r.append(Case('series-n4', series_level(4), '4 samples', 100))
    r.append(Case('none', none, '3 samples of one sign', 60))
    r.append(Case('bad', bad, '4 inconsistent shapes', 60))
    for typ in ('down', 'up'):
        r.append(Case(f'{typ}-sizes', over('n', range(6, 33), lambda n, typ=typ: wide(n, typ, (n // 2,), n)), 'every number of samples from 6 to 32, one symbolic', 90))
    r += unit_cases('C02')
    return r
