from .common import *
NOTE = '''Records of 3 to 6 samples, every sample symbolic; records of 24 to 300 samples (thorough 1200) with one or two symbolic samples; every cut and both crossing definitions; exact real arithmetic.'''
ASSUME = ['exact real arithmetic for signal values and times (IEEE rounding not modelled)',
          'no sample is exactly zero where a record is reversed in time']
OTHER = {'down': 'up', 'up': 'down'}


def ana(c, t, x, typ, obj=False):
    """crossings and [heights, periods, crests, troughs, crest times, trough times]"""
    if obj:
        s = c.m.series.Series(c.vec(t), c.vec(x))
        *r, tc = s._determine_individual_waves(typeCross=typ)
        return c.lst(tc), [c.lst(v) for v in r], s
    n, tc = c.m.time.determine_zero_crossing(c.vec(t), c.vec(x), typ)
    return c.lst(tc), [c.lst(v) for v in c.m.time.determine_params_individual_waves(tc, c.vec(t), c.vec(x))], None


def record(c, n, pos, k=0):
    if pos is None:
        return c.real_list('x', n)
    x = [v + 0.125 for v in pseudo(n, k)]
    for j in pos:
        x[j] = c.real(f'x{j}', -8, 8)
    return x


NAMES = ('heights', 'periods', 'crests', 'troughs', 'crest times', 'trough times')


def agree(c, a, b, what, which=range(6)):
    for i in which:
        c.eq(a[i], b[i], f'{NAMES[i]} {what}')


def upside(n, pos, t0=0.0, dt=0.5, obj=False, k=0):
    def f(c):
        typ = c.choice('typ', ['down', 'up'])
        x, t = record(c, n, pos, k), axis(n, t0, dt)
        tc, w, s = ana(c, t, x, typ, obj)
        td, v, u = ana(c, t, [-y for y in x], OTHER[typ], obj)
        c.eq(td, tc, 'crossings upside down')
        agree(c, v, w, 'upside down', (0, 1))
        c.eq(v[2], [-y for y in w[3]], 'crests upside down')
        c.eq(v[3], [-y for y in w[2]], 'troughs upside down')
        c.eq(v[4], w[5], 'crest times upside down')
        c.eq(v[5], w[4], 'trough times upside down')
        if obj:
            c.eq(u.nwave, s.nwave, 'number of waves upside down')
            for q in ('get_Hs', 'get_H2p_Rayleigh'):
                c.eq(c.lst(getattr(u, q)()), c.lst(getattr(s, q)()), q + ' upside down')
            if s.nwave:
                c.eq(c.val(u.get_Hmax()), c.val(s.get_Hmax()), 'Hmax upside down')
    return f


def reverse(n, pos, t0=0.0, dt=0.5, k=0):
    def f(c):
        typ = c.choice('typ', ['down', 'up'])
        x, t = record(c, n, pos, k), axis(n, t0, dt)
        for i in (range(n) if pos is None else pos):
            c.assume_rel(x[i], '!=', 0)
        tc, w, _ = ana(c, t, x, typ)
        td, v, _ = ana(c, t, x[::-1], OTHER[typ])
        e = t[0] + t[-1]
        c.eq(td, [e - y for y in tc[::-1]], 'crossings reversed')
        for i in range(4):
            c.eq(v[i], w[i][::-1], f'{NAMES[i]} reversed')
    return f


def cut(n, pos, cuts, t0=0.0, dt=0.5, k=0, obj=False):
    """part a:b of the record holds the waves between its own crossings"""
    def f(c):
        typ = c.choice('typ', ['down', 'up'])
        x, t = record(c, n, pos, k), axis(n, t0, dt)
        a, b = c.choice('cut', cuts)
        tc, w, _ = ana(c, t, x, typ, obj)
        td, v, _ = ana(c, t[a:b], x[a:b], typ, obj)
        cr = crossings(x, typ)
        lo = sum(1 for i in cr if i < a)
        c.eq(td, tc[lo:lo + len(td)], 'crossings of the part')
        c.eq(len(td), sum(1 for i in cr if a <= i and i + 1 < b), 'number of crossings of the part')
        m = max(len(td) - 1, 0)
        for i in range(6):
            c.eq(v[i], w[i][lo:lo + m], f'{NAMES[i]} of the part')
    return f


def calm(n, m, typ, dt=0.5):
    """still water before and after a record brings no wave into it"""
    def f(c):
        x = c.real_list('x', n)
        t = axis(n + 2 * m, 0.0, dt)
        lev = 0.0
        tc, w, _ = ana(c, t[m:m + n], x, typ)
        td, v, _ = ana(c, t, [lev] * m + x + [lev] * m, typ)
        # the only further crossings are those into and out of the record
        first = 1 if (x[0] < 0 if typ == 'down' else x[0] > 0) else 0
        c.eq(td[first:], tc, 'crossings within still water')
        k = max(len(tc) - 1, 0)
        for i in range(6):
            c.eq(v[i][len(v[i]) - k:] if k else [], w[i], f'{NAMES[i]} within still water')
    return f


def repeated(n, dt=0.5):
    """a record repeated holds its waves twice"""
    def f(c):
        typ = c.choice('typ', ['down', 'up'])
        x = c.real_list('x', n)
        t = axis(2 * n, 1.0, dt)
        tc, w, _ = ana(c, t[:n], x, typ)
        td, v, _ = ana(c, t, x + x, typ)
        k, m = len(tc), max(len(tc) - 1, 0)
        c.eq(td[:k], tc, 'crossings of the first half')
        c.eq(td[len(td) - k:], [y + n * dt for y in tc], 'crossings of the second half')
        for i in range(6):
            sh = n * dt if i > 3 else 0.0
            c.eq(v[i][:m], w[i], f'{NAMES[i]} of the first half')
            c.eq(v[i][len(v[i]) - m:] if m else [], [y + sh for y in w[i]], f'{NAMES[i]} of the second half')
    return f


SHAPE = ([1.0, -1.0], [3.0, 5.0, 4.0, -2.0], [0.0625, -0.03125], [2.0] * 9 + [-1.0] * 14, [64.0, 96.0, -64.0], [0.5] + [-0.25] * 30, [1.0, 0.0, 0.0, -1.0], [8.0, 8.0, -7.0, -7.0])


def mixed(order, pos, what, dt=0.5):
    """waves of very different lengths and heights"""
    def f(c):
        typ = c.choice('typ', ['down', 'up'])
        x = [v for i in order for v in SHAPE[i]]
        for j in pos:
            x[j] = c.real(f'x{j}', -8, 8)
        n = len(x)
        t = axis(n, 3.0, dt)
        tc, w, _ = ana(c, t, x, typ)
        if what == 'upside':
            td, v, _ = ana(c, t, [-y for y in x], OTHER[typ])
            c.eq(td, tc, 'crossings upside down')
            agree(c, v, [w[0], w[1], [-y for y in w[3]], [-y for y in w[2]], w[5], w[4]], 'upside down')
        elif what == 'reverse':
            for i in range(n):
                x[i] = x[i] + 0.001 if isinstance(x[i], float) and x[i] == 0 else x[i]
            for j in pos:
                c.assume_rel(x[j], '!=', 0)
            tc, w, _ = ana(c, t, x, typ)
            td, v, _ = ana(c, t, x[::-1], OTHER[typ])
            e = t[0] + t[-1]
            c.eq(td, [e - y for y in tc[::-1]], 'crossings reversed')
            for i in range(4):
                c.eq(v[i], w[i][::-1], f'{NAMES[i]} reversed')
        else:
            ends = [0]
            for i in order:
                ends.append(ends[-1] + len(SHAPE[i]))
            a = c.choice('a', ends[:4])
            b = c.choice('b', [e for e in ends if e >= ends[3] + 2] + [e - 1 for e in ends if e >= ends[3] + 3])
            td, v, _ = ana(c, t[a:b], x[a:b], typ)
            lo = sum(1 for i in crossings(x, typ) if i < a)
            c.eq(td, tc[lo:lo + len(td)], 'crossings of the part')
            c.eq(len(td), len(crossings(x[a:b], typ)), 'number of crossings of the part')
            for i in range(6):
                c.eq(v[i], w[i][lo:lo + max(len(td) - 1, 0)], f'{NAMES[i]} of the part')
    return f


def pause(n, m):
    """still water between two records"""
    def f(c):
        typ = c.choice('typ', ['down', 'up'])
        x, y = c.real_list('x', n), c.real_list('y', n)
        z = x + [0.0] * m + y
        t = axis(len(z), 0.0, 0.5)
        tc, w, _ = ana(c, t, z, typ)
        ti, wi, _ = ana(c, t[:n], x, typ)
        tj, wj, _ = ana(c, t[n + m:], y, typ)
        c.eq(tc[:len(ti)], ti, 'crossings before still water')
        c.eq(tc[len(tc) - len(tj):], tj, 'crossings after still water')
        for i in range(6):
            k, l = max(len(ti) - 1, 0), max(len(tj) - 1, 0)
            c.eq(w[i][:k], wi[i], f'{NAMES[i]} before still water')
            c.eq(w[i][len(w[i]) - l:] if l else [], wj[i], f'{NAMES[i]} after still water')
        e = waves(t, z, tc)
        c.eq(w[1], [v[1] for v in e], 'periods with still water')
        c.eq(w[0], [v[0] for v in e], 'heights with still water')
    return f


def cases(tier):
    th = tier == 'thorough'
    r = []
    for n in (3, 4, 5) + ((6, 7) if th else (6,)):
        r.append(Case(f'upside-n{n}', upside(n, None, 1.0), f'{n} samples in [-16,16], both crossing types', 100 if n < 6 else 300))
        r.append(Case(f'reverse-n{n}', reverse(n, None, -2.0), f'{n} samples in [-16,16], both crossing types', 100 if n < 6 else 300))
    for n in (4, 5) + ((6,) if th else ()):
        r.append(Case(f'cut-n{n}', cut(n, None, [(0, n - 1), (1, n), (1, n - 1), (0, n - 2), (2, n)], 3.0), f'{n} samples, five parts', 200))
    for n in (3, 4) + ((5,) if th else ()):
        r.append(Case(f'upside-object-n{n}', upside(n + 1, None, obj=True), f'{n + 1} samples, series objects', 200))
        for typ in ('down', 'up'):
            for m in (2, 16):
                r.append(Case(f'calm-{typ}-n{n}-{m}', calm(n, m, typ), f'{n} samples between {m} zero ones', 200))
    for n in (2, 3) + ((4,) if th else ()):
        r.append(Case(f'repeated-n{n}', repeated(n), f'{n} samples, twice', 200))
    for n, pos in ((24, (5,)), (40, (7, 8)), (101, (50,)), (300, (150,))) + (((1200, (600,)),) if th else ()):
        d = (0.5, 0.25, 2.0)[n % 3]
        r.append(Case(f'upside-wide{n}', upside(n, pos, 10.0, d, n in (24, 101)), f'{n} samples, {len(pos)} symbolic', 200))
        r.append(Case(f'reverse-wide{n}', reverse(n, pos, 10.0, d), f'{n} samples, {len(pos)} symbolic', 200))
        cuts = [(0, n - 3), (pos[0], n), (0, pos[-1] + 1), (n // 4, 3 * n // 4), (pos[0] - 2, pos[0] + 3), (3, n), (0, 2), (n - 2, n)]
        if not th and len(pos) > 1:
            cuts = cuts[:4]
        r.append(Case(f'cut-wide{n}', cut(n, pos, cuts, 10.0, d, obj=n < 300), f'{n} samples, {len(pos)} symbolic, {len(cuts)} parts', 200 if not th else 600))
    for k, (o, pos) in enumerate([((0, 3, 1, 2, 5, 4, 0), (2, 30)), ((4, 2, 5, 0, 1, 3, 6), (8,)), ((2, 2, 4, 2, 7, 5, 5, 0), (5,)), ((0, 1, 0, 5, 3, 4), (9,)), ((6, 0, 2, 7, 3, 3, 1, 4, 5), (50,))]):
        for what in ('upside', 'reverse', 'cut'):
            r.append(Case(f'mixed-{what}-{k}', mixed(o, pos, what), f'{len(o)} waves of very different lengths and heights, {len(pos)} samples symbolic', 200))
    for n, m in ((2, 1), (2, 14), (3, 3)) + (((3, 40),) if th else ()):
        r.append(Case(f'pause-n{n}-{m}', pause(n, m), f'two records of {n} samples, {m} zero samples between', 200))
    r.append(Case('far', over('axis', [(T0S[0], 0.5), (T0S[1], 2.0), (0.0, DTS[0]), (0.0, DTS[2])], lambda v: cut(9, (3, 5), [(0, 7), (2, 9)], v[0], v[1])), '9 samples, two symbolic, four axes far from the usual ones', 200))
    r.append(Case('sizes', over('n', list(range(8, 40, 3)), lambda n: upside(n, (n // 2,), 1.0, k=n)), 'eleven more sizes', 200))
    return r
