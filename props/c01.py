from .common import *
from .units import unit_cases

NOTE = '''Per case: every sample in [-16,16] of records of 2 to 6 samples (thorough 8) with any initial time and step, long records (to 4200 samples) with 1 to 6 symbolic samples, both crossing types, four other units; exact real arithmetic.'''
ASSUME = ['exact real arithmetic for signal values and times (IEEE rounding not modelled)',
          'sizes, axes and value ranges of each case as listed']


def check(c, x, t, dt, typ, arg=None, wrap=None):
    xa, ta = (wrap or c.vec)(x), c.vec(t)
    n, tc = c.m.time.determine_zero_crossing(ta, xa, arg or typ)
    tc = c.lst(tc)
    exp = crossings(x, typ)
    c.eq(len(tc), len(exp), 'number of crossings')
    c.eq(n, max(len(exp) - 1, 0), 'number of waves')
    for k, i in enumerate(exp):
        c.eq(tc[k], cross_time(t, x, i, dt), 'crossing time')
        c.le(t[i], tc[k], 'crossing after the sample before it')
        c.le(tc[k], t[i + 1], 'crossing before the sample after it')
    for a, b in zip(tc[:-1], tc[1:]):
        c.lt(a, b, 'crossings in time order')
    return tc


def small(n, typ):
    def f(c):
        x = c.real_list('x', n)
        t0, dt = c.real('t0', -16, 16), c.real('dt', 0.125, 16)
        t = [t0 + i * dt for i in range(n)]
        check(c, x, t, dt, typ)
    return f


def concrete_axis(n, typ, dt, t0, kind):
    def f(c):
        if kind == 'int':
            x = [c.int(f'x{i}', -9, 9) for i in range(n)]
        else:
            x = c.real_list('x', n)
        t = [t0 + i * dt for i in range(n)]
        check(c, x, t, dt, typ, wrap={'int': c.ivec, 'list': list, 'float': c.vec}[kind])
    return f


def dual(n):
    def f(c):
        x = c.real_list('x', n)
        t = [i * 0.5 for i in range(n)]
        n1, t1 = c.m.time.determine_zero_crossing(c.vec(t), c.vec(x), 'down')
        n2, t2 = c.m.time.determine_zero_crossing(c.vec(t), c.vec([-v for v in x]), 'up')
        c.eq(n1, n2, 'number of waves of the negated signal')
        c.eq(c.lst(t1), c.lst(t2), 'crossings of the negated signal')
    return f


def spelling(c):
    typ = c.choice('typ', ['down', 'up'])
    arg = c.choice('arg', [str.lower, str.upper, str.capitalize, lambda s: s[0] + s[1:].upper(), lambda s: s[0].upper() + s[1:-1] + s[-1].upper()])(typ)
    x = c.real_list('x', 3)
    check(c, x, [0.0, 0.5, 1.0], 0.5, typ, arg=arg)


def default(c):
    x = c.real_list('x', 4)
    a = c.m.time.determine_zero_crossing(c.vec([0, .5, 1, 1.5]), c.vec(x))
    b = c.m.time.determine_zero_crossing(c.vec([0, .5, 1, 1.5]), c.vec(x), 'down')
    c.eq(a[0], b[0], 'default definition')
    c.eq(c.lst(a[1]), c.lst(b[1]), 'default definition')
    s = c.m.series.Series(c.vec([0, .5, 1, 1.5]), c.vec(x))
    for typ in ('down', 'up'):
        a, b = s.get_crossing(typ), c.m.time.determine_zero_crossing(c.vec([0, .5, 1, 1.5]), c.vec(x), typ)
        c.eq(a[0], b[0], 'Series.get_crossing')
        c.eq(c.lst(a[1]), c.lst(b[1]), 'Series.get_crossing')


def bad_type(c):
    arg = c.choice('arg', ['', 'dwn', 'updown', 'down ', 'u', 'positive', 'zero', 'upp', 'ddown', 'downup', 'up-down'])
    x = c.real_list('x', 3)
    c.raises(lambda: c.m.time.determine_zero_crossing(c.vec([0.0, 0.5, 1.0]), c.vec(x), arg), 'unknown crossing type')


def bad_shape(c):
    x = c.real_list('x', 4)
    k = c.choice('k', [0, 1, 2, 3, 4])
    t = [0.0, 0.5, 1.0, 1.5]
    z = c.m.time.determine_zero_crossing
    a = [(c.vec(t[:3]), c.vec(x)), (c.vec(t), c.vec(x[:3])), (c.vec(t), c.arr([x])), (c.arr([t]), c.vec(x)), (c.arr([[v] for v in t]), c.arr([[v] for v in x]))][k]
    c.raises(lambda: z(a[0], a[1], 'down'), 'inconsistent arrays')


def wide(n, typ, pos, k, den=4):
    def f(c):
        base = pseudo(n, k, den)
        x = list(base)
        for j in pos:
            x[j % n] = c.real(f'x{j % n}')
        t = [i * 0.25 for i in range(n)]
        check(c, x, t, 0.25, typ)
    return f


def cases(tier):
    th = tier == 'thorough'
    r = []
    for typ in ('down', 'up'):
        for n in (2, 3, 5) + ((6, 7, 8) if th else ()):
            r.append(Case(f'{typ}-n{n}', small(n, typ), f'{n} samples in [-16,16], t0 in [-16,16], dt in [1/8,16]', 60 if not th else 600))
        r.append(Case(f'{typ}-axis-n6', concrete_axis(6, typ, 0.25, -3.0, 'float'), '6 samples in [-16,16]', 60))
        r.append(Case(f'{typ}-ints', concrete_axis(4, typ, 0.5, 2.0, 'int'), '4 integer samples in [-9,9]', 60))
        r.append(Case(f'{typ}-list', concrete_axis(4, typ, 0.5, 0.0, 'list'), '4 samples given as list', 60))
        for k, (n, pos) in enumerate([(24, (0, 1, 11, 12, 22, 23)), (64, (5, 31, 32, 62, 63)), (200, (0, 99, 199)), (130, (63, 64, 127, 128)), (1200, (0, 600, 1199)), (4200, (4096, 4097)), (9000, (8500,))]):
            r.append(Case(f'{typ}-wide{n}', wide(n, typ, pos, k), f'{n} samples, those at {pos} symbolic in [-16,16]', 90))
    for typ in ('down', 'up'):
        for t0 in T0S:
            r.append(Case(f'{typ}-origin{t0:g}', concrete_axis(4, typ, 0.5, t0, 'float'), f'4 samples in [-16,16], time from {t0}', 60))
        for dt in (3600.0, 2.0 ** -12):
            r.append(Case(f'{typ}-step{dt:g}', concrete_axis(4, typ, dt, 0.0, 'float'), f'4 samples in [-16,16], time step {dt}', 60))
    r.append(Case('negation', dual(5), '5 samples in [-16,16]', 60))
    r.append(Case('spelling', spelling, '3 samples, 5 spellings of each type', 60))
    r.append(Case('default', default, '4 samples', 60))
    r.append(Case('bad-type', bad_type, '11 other strings', 60))
    r.append(Case('bad-shape', bad_shape, '5 inconsistent shapes', 60))
    for typ in ('down', 'up'):
        for lo, hi in ((6, 24), (24, 42)):
            r.append(Case(f'{typ}-sizes-{lo}', over('n', range(lo, hi), lambda n, typ=typ: wide(n, typ, (n // 2, n - 1), n)), f'every number of samples from {lo} to {hi - 1}, two symbolic', 90))
    r += unit_cases('C01')
    return r
