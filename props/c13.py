from .common import *
from .units import unit_cases

NOTE = '''Per case: every sample and both limits for records of 2 to 9 samples (thorough 13), long records (to 1025 samples) with one symbolic sample and limits in stated windows or between stated frequencies; exact real arithmetic.'''
ASSUME = ['samples and limits in exact real arithmetic, DFT twiddle factors the doubles nearest to the roots of unity']


def kept(k, n, dt, lo, hi):
    """component k (0..n//2) is inside the band"""
    f, last = k / (n * dt), (n // 2) / (n * dt)
    if k == 0:
        return False
    if not f >= lo:
        return False
    return bool(f < hi) or bool(hi >= last)


def apart(c, n, dt, *lims, rng=None):
    """limits on a frequency of the axis are left to the cases exact-*: there rounding of the axis decides"""
    for v in lims:
        for k in range(n // 2 + 1):
            f = k / (n * dt)
            if rng and not rng[0] - 0.01 <= f <= rng[1] + 0.01:
                continue
            c.assume(v <= f - 1e-9 or v >= f + 1e-9)


def check(c, x, y, n, dt, lo, hi, label='', rng=None):
    apart(c, n, dt, lo, hi, rng=rng)
    X, Y = dft(x), dft(y)
    for k in range(n // 2 + 1):
        re, im = X[k] if kept(k, n, dt, lo, hi) else (0.0, 0.0)
        c.eq(Y[k][0], re, f'component {k}.re' + label)
        c.eq(Y[k][1], im, f'component {k}.im' + label)


def lims(c, n, dt, names, rng=None):
    last = (n // 2) / (n * dt)
    r = [c.real(v, *(rng or (-0.5, 1.5 * last + 0.5))) for v in names]
    for v in r:
        c.assume(v <= last - 1e-9 or v >= last + 1e-9)
    return r


def band(n, sym=None, dt=0.5, k=0, obj=False, rng=None):
    def f(c):
        x = signal(c, n, sym, k)
        lo, hi = lims(c, n, dt, ['flow', 'fhigh'], rng)
        t = axis(n, 1.0, dt)
        if obj:
            s = c.m.series.Series(c.vec(t), c.vec(x)).get_bandpassfilter(lo, hi)
            c.eq(s.time, t, 'time axis')
            y = c.lst(s.xTime)
        else:
            y = c.lst(c.m.spec.bandpassfilter(c.vec(t), c.vec(x), lo, hi))
        c.eq(len(y), n, 'length')
        check(c, x, y, n, dt, lo, hi, rng=rng)
    return f


def comps(n, dt=0.5):
    """low-level filter on components of a folded axis"""
    def f(c):
        m = n // 2 + 1
        fx = [k / (n * dt) for k in range(m)]
        re, im = c.real_list('re', m, -4, 4), c.real_list('im', m, -4, 4)
        lo, hi = lims(c, n, dt, ['flow', 'fhigh'])
        z = c.lst(c.m.spec.applybandfilter(c.vec(fx), c.vec([c.cplx(a, b) for a, b in zip(re, im)]), lo, hi))
        c.eq(len(z), m, 'length')
        apart(c, n, dt, lo, hi)
        for k in range(m):
            a, b = (re[k], im[k]) if kept(k, n, dt, lo, hi) else (0.0, 0.0)
            eqc(c, z[k], a, b, f'component {k}')
    return f


def exact(n, dt=0.5):
    """limits exactly on frequencies"""
    def f(c):
        x = signal(c, n, (0, 1), n)
        m = n // 2 + 1
        a, b = c.choice('a', list(range(m - 1))), c.choice('b', list(range(m + 1)))
        t = axis(n, 0.0, dt)
        fx = list(c.lst(c.m.spec.time2freq_nyquist(c.vec(t), c.vec(x))[0])) + [0.9 / dt]
        lo, hi = fx[a], fx[b]
        y = c.lst(c.m.spec.bandpassfilter(c.vec(t), c.vec(x), lo, hi))
        X, Y = dft(x), dft(y)
        for k in range(m):
            keep = max(a, 1) <= k and (k < b or b >= m - 1)
            re, im = X[k] if keep else (0.0, 0.0)
            c.eq(Y[k][0], re, f'component {k}.re')
            c.eq(Y[k][1], im, f'component {k}.im')
    return f


def fixed(n, pairs, sym, dt=0.5, big=False, t0=0.0):
    """long records, limits between two frequencies"""
    def f(c):
        x = loud(c, n, sym, 5) if big else signal(c, n, sym, 5)
        a, b = c.choice('band', pairs)
        d = 1 / (n * dt)
        lo, hi = (a + 0.5) * d, (b + 0.5) * d
        y = c.lst(c.m.spec.bandpassfilter(c.vec(axis(n, t0, dt)), c.vec(x), lo, hi))
        c.eq(len(y), n, 'length')
        X, Y = dft(x), dft(y)
        for k in range(n // 2 + 1):
            re, im = X[k] if a < k and k > 0 and (k <= b or b >= n // 2) else (0.0, 0.0)
            c.eq(Y[k][0], re, f'component {k}.re')
            c.eq(Y[k][1], im, f'component {k}.im')
    return f


def algebra(n, dt=0.5):
    def f(c):
        x, z = signal(c, n, (0, n - 1), 1), signal(c, n, (1,), 2, 'z')
        a = c.real('a', -2, 2)
        f1, f2, f3 = lims(c, n, dt, ['f1', 'f2', 'f3'])
        c.assume_rel(f1, '<=', f2)
        c.assume_rel(f2, '<=', f3)
        t = axis(n, 0.0, dt)
        F = lambda v, p, q: c.lst(c.m.spec.bandpassfilter(c.vec(t), c.vec(v), p, q))
        y12, y23, y13 = F(x, f1, f2), F(x, f2, f3), F(x, f1, f3)
        for i in range(n):
            c.eq(y12[i] + y23[i], y13[i], f'adjacent bands {i}')
        yy = F(y12, f1, f2)
        c.eq(yy, y12, 'filtering twice')
        w, u = F([a * p + q for p, q in zip(x, z)], f1, f2), F(z, f1, f2)
        for i in range(n):
            c.eq(w[i], a * y12[i] + u[i], f'linear {i}')
    return f


def cases(tier):
    th = tier == 'thorough'
    r = [Case(f'n{n}', band(n), f'all {n} samples and both limits symbolic', 150) for n in (2, 3, 4, 5, 6, 7, 8, 9) + ((12, 13) if th else ())]
    r += [Case(f'dt{dt}', band(7, (1, 5), dt), '7 samples, two and both limits symbolic', 100) for dt in (0.1, 0.25, 3.0)]
    r += [Case(f'object-n{n}', band(n, (1,), 0.5, n, True), f'series of {n} points', 100) for n in (5, 6)]
    for k, (n, sym) in enumerate([(20, (0,)), (25, (24,))] + ([(40, (11,)), (64, (5,))] if th else [])):
        r.append(Case(f'wide{n}', band(n, sym, 0.5, k), f'{n} samples, the one at {sym} and both limits symbolic', 200 if not th else 1500))
    r += [Case(f'wide{n}-{k}', band(n, (5,), 0.5, k, False, rng), f'{n} samples, one symbolic, both limits anywhere in {rng}', 200) for k, (n, rng) in enumerate([(64, (0.2, 0.3)), (101, (0.9, 1.1)), (256, (0.0, 0.012)), (255, (0.495, 0.503))])]
    r += [Case(f'long{n}', fixed(n, P, (n // 3,)), f'{n} samples, one symbolic, {len(P)} bands', 200) for n, P in ((500, ((3, 100), (-1, 20), (200, 250))), (1025, ((50, 400), (500, 600))))]
    r += [Case(f'loud{n}', fixed(n, P, (n // 3,), 0.5, True), f'{n} samples of large dynamic range, one symbolic, {len(P)} bands', 200) for n, P in ((8, ((2, 3), (-1, 4), (1, 5))), (13, ((3, 5), (0, 9))), (600, ((3, 100), (-1, 20), (200, 400))))]
    r += [Case(f'components-n{n}', comps(n), f'all components of a {n}-point record and both limits symbolic', 100) for n in (2, 3, 6, 9, 12)]
    r += [Case(f'exact-n{n}', exact(n), f'{n} samples, limits on any two frequencies', 100) for n in (4, 5, 8, 9)]
    r += [Case(f'algebra-n{n}', algebra(n), f'two signals of {n} samples, any three limits', 200) for n in (4, 5, 6)]
    for lo, hi in ((4, 24), (24, 41)):
        r.append(Case(f'sizes-{lo}', over('n', range(lo, hi), lambda n: fixed(n, ((1, n // 3), (n // 4, n), (-1, 0), (0, n // 2 - 1), (n // 3, math.inf), (-math.inf, n // 3)), (n // 2,))), f'every number of samples from {lo} to {hi - 1}, six bands, infinite limits too', 120))
    r.append(Case('far', over('axis', [(a, b) for a in T0S for b in DTS[:2]] + [(1.0, DTS[2])], lambda v: fixed(9, ((0, 2), (1, 3), (2, 9)), (1, 4), v[1], False, v[0])), 'initial times and steps far from zero and one', 100))
    r += unit_cases('C13')
    return r
