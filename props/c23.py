from .common import *
from .units import unit_cases
NOTE = '''Per case: every spectral density in [0,4] and every random phase for series of 2 to 10 points (thorough 14; wide up to 60 points with two symbolic densities), every start, end and step within the stated ranges for the time axis (at most 12 points); cosine and sine of a phase are variables with squares adding to one.'''
ASSUME = ['exact real arithmetic; the random generator returns arbitrary numbers in [0,1), the same ones for the same seed']


def syn(c, f, S, t0, t1, dt, *seed):
    t, x = c.m.spec.spectrum2timeseries(c.vec(f), c.vec(S), t0, t1, dt, *seed)
    return c.lst(t), c.lst(x)


def interp(f, S, x):
    if x < f[0] or x > f[-1]:
        return 0.0
    for i in range(len(f) - 1):
        if f[i] <= x <= f[i + 1]:
            w = (x - f[i]) / (f[i + 1] - f[i])
            return S[i] + w * (S[i + 1] - S[i])
    return S[-1]


def square(v):
    return v * v


def variance(n, f, sym, dt, t0=0.0, seed=None, obj=False):
    """n even: zero mean, variance of the spectrum (every phase)"""
    def g(c):
        S = [0.25 * ((3 * i) % 5) for i in range(len(f))]
        for j in range(len(f)) if sym is None else sym:
            S[j] = c.real(f'S{j}', 0.0078125, 4)
        a = () if seed is None else (seed,)
        t, x = syn(c, f, S, t0, t0 + (n - 1) * dt, dt, *a)
        c.eq(len(t), n, 'points')
        c.eq(len(x), n, 'samples')
        c.eq(t, [t0 + i * dt for i in range(n)], 'time axis')
        c.eq(total(x), 0.0, 'zero mean')
        df = 1 / (n * dt)
        want = 0.0
        for j in range(1, n // 2):
            want = want + interp(f, S, j * df) * df
        ny = interp(f, S, n // 2 * df) * df
        X = dft(x)
        P = [(square(re) + square(im)) / n / n for re, im in X]
        for j in range(1, n // 2):
            c.eq(2 * P[j], interp(f, S, j * df) * df, f'variance at {j}')
        c.eq(total(P[:n // 2]) + total(P[n // 2 + 1:]), want, 'variance below Nyquist')
        c.le(P[n // 2], ny, 'at most the variance of the Nyquist bin')
        if n <= 6:
            c.eq(total(map(square, x)) / n, total(P), 'variance of the samples')
    return g


def odd(n, f, sym, dt):
    """odd number of points: the first n samples of a series of n + 1"""
    def g(c):
        S = [0.25 * ((3 * i) % 5) for i in range(len(f))]
        for j in sym:
            S[j] = c.real(f'S{j}', 0.0078125, 4)
        t, x = syn(c, f, S, 0.0, (n - 1) * dt, dt, 7)
        c.eq(len(x), n, 'samples')
        c.eq(len(t), n, 'points')
        u, y = syn(c, f, S, 0.0, n * dt, dt, 7)
        c.eq(x, y[:n], 'first samples of the longer series')
    return g


def axis_case(dt, t0lo, t0hi, span, form):
    """time axis for every start and end"""
    def g(c):
        a = c.real('t0', t0lo, t0hi)
        d = c.real('span', span[0] * dt, span[1] * dt)
        f, S = [0.125, 0.25, 0.375], [0.0, 0.0, 0.0]
        if form == 'object':
            s = c.m.spectrum.Spectrum(c.vec(f), c.vec([0.0, 0.0, 0.0])).create_series(a, a + d, dt)
            t, x = c.lst(s.time), c.lst(s.xTime)
        elif form == 'series':
            s = c.m.spec.spectrum2timeseries_object(c.vec(f), c.vec(S), a, a + d, dt)
            t, x = c.lst(s.time), c.lst(s.xTime)
        else:
            t, x = syn(c, f, S, a, a + d, dt)
        c.eq(len(x), len(t), 'samples')
        c.eq(t, [a + i * dt for i in range(len(t))], 'start and step')
        c.le((a + d - t[-1]) / dt, 0.0, 'covers the interval', 1e-8)
        c.le((t[-1] - (a + d)) / dt, 1.0, 'no step too many')
        # a whole number of steps is not overshot
        if len(t) > 1:
            c.le((a + d - t[-2]) / dt * -1, 0.0, 'last point needed', 1e-8)
    return g


def whole(c):
    """end on the axis: exactly that many points, also for steps that are not dyadic"""
    dt = c.choice('dt', [0.1, 0.2, 0.05, 0.3, 0.25, 1 / 3, 0.7, 1.0, 2.5])
    n = c.choice('n', [1, 2, 3, 4, 7, 11, 31])
    a = c.real('t0', -100, 100)
    t, x = syn(c, [0.125, 0.25, 0.5], [0.0, 0.0, 0.0], a, a + n * dt, dt)
    c.eq(len(t), n + 1, 'points')
    c.eq(len(x), n + 1, 'samples')
    c.eq(t[-1], a + n * dt, 'last point')


def step(c):
    """every step"""
    dt = c.real('dt', 0.25, 2)
    n = c.choice('n', [1, 2, 3, 5])
    a = c.real('t0', -10, 10)
    e = c.real('e', 0.0078125, 0.9921875)
    t, x = syn(c, [0.125, 0.25, 0.5], [0.0, 0.0, 0.0], a, a + (n + e - 1) * dt, dt)
    c.eq(len(t), n + 1, 'points')
    c.eq(t, [a + i * dt for i in range(n + 1)], 'start and step')


def seeds(n, f, sym, dt):
    def g(c):
        S = [0.25 * ((3 * i) % 5) for i in range(len(f))]
        for j in sym:
            S[j] = c.real(f'S{j}', 0.0078125, 4)
        seed = c.choice('seed', [0, 1, 42, 123456])
        t, x = syn(c, f, S, 0.0, (n - 1) * dt, dt, seed)
        syn(c, f, S[::-1], 0.0, (n - 1) * dt, dt)
        syn(c, f, S, 0.0, (n - 1) * dt, dt, 5)
        u, y = syn(c, f, S, 0.0, (n - 1) * dt, dt, seed)
        c.eq(y, x, 'same seed, same series')
        s = c.m.spec.spectrum2timeseries(c.vec(f), c.vec(S), 0.0, (n - 1) * dt, dt, seed=seed)
        c.eq(c.lst(s[1]), x, 'seed by name')
    return g


def objects(n, f, sym, dt, t0):
    """object variants return the same series"""
    def g(c):
        if c.sym:
            c.p.tables['rand_hook'] = lambda seed, i: (0.137 * i + 0.05) % 1.0
        S = [0.25 * ((3 * i) % 5) for i in range(len(f))]
        for j in sym:
            S[j] = c.real(f'S{j}', 1, 1.125)
        t, x = syn(c, f, S, t0, t0 + (n - 1) * dt, dt, 11)
        s = c.m.spec.spectrum2timeseries_object(c.vec(f), c.vec(S), t0, t0 + (n - 1) * dt, dt, 11)
        c.eq(c.lst(s.time), t, 'time of the series object')
        c.eq(c.lst(s.xTime), x, 'samples of the series object')
        sp = c.m.spectrum.Spectrum(c.vec(f), c.vec(S))
        s = sp.create_series(t0, t0 + (n - 1) * dt, dt)
        c.eq(c.lst(s.time), t, 'time of the created series')
        X = dft(c.lst(s.xTime))
        df = 1 / (n * dt)
        for j in range(1, n // 2):
            c.eq(2 * (square(X[j][0]) + square(X[j][1])) / n / n, interp(f, S, j * df) * df, f'variance of the created series at {j}')
    return g


def reject(c):
    S = [c.real(f'S{i}', 0, 4) for i in range(3)]
    f = [0.125, 0.25, 0.375]
    c.raises(lambda: syn(c, f, S[:2], 0.0, 2.0, 0.5), 'density missing')
    c.raises(lambda: syn(c, f[:2], S, 0.0, 2.0, 0.5), 'frequency missing')
    c.raises(lambda: c.m.spec.spectrum2timeseries(c.arr([f, f]), c.arr([S, S]), 0.0, 2.0, 0.5), 'two-dimensional arrays')


def cases(tier):
    th = tier == 'thorough'
    r = []
    F4 = [0.25, 0.5, 0.75, 1.0]
    for n, f, sym, dt in ((2, [0.5, 1.0], None, 0.5), (4, [0.25, 0.5, 1.0], None, 0.5), (4, [0.3, 0.6, 0.9], None, 0.5),
                          (6, F4, None, 0.5), (6, [0.4, 0.5], None, 0.5), (8, F4, None, 0.5), (8, [0.1, 0.2, 0.3, 0.7, 1.2], (1, 3), 0.5),
                          (10, [0.05 * i for i in range(1, 21)], (2, 3, 7, 8), 0.5), (6, [0.0, 0.5, 1.0], None, 0.25), (8, [0.0, 0.02, 0.04], None, 1.0),
                          (8, [0.1, 0.4, 2.5], None, 0.2)) \
            + (((12, F4, None, 0.5), (14, F4, (0, 2), 0.5)) if th else ()):
        r.append(Case(f'variance-{n}-{f[0]}-{len(f)}', variance(n, f, sym, dt), f'{n} points, {len(f)} densities', 120))
    r.append(Case('variance-start', variance(6, F4, None, 0.5, t0=100.0), '6 points starting at 100', 120))
    r.append(Case('variance-seed', variance(6, F4, None, 0.5, seed=3), '6 points, seed given', 120))
    r.append(Case('wide-60', variance(60, [0.01 * i for i in range(1, 40)], (7, 20), 0.5), '60 points, two of 39 densities', 150))
    r.append(Case('fine-60', variance(60, [0.01 * i for i in range(0, 61)], (7, 20), 0.5), '60 points, two of 61 densities, all below Nyquist', 150))
    r.append(Case('fine-40', variance(40, [0.03 + 0.002 * i for i in range(0, 120)], (50,), 1.0, t0=-3.0), '40 points, one of 120 densities, all below Nyquist', 150))
    for n in (3, 5, 7):
        r.append(Case(f'odd-{n}', odd(n, F4, (0, 1, 2, 3), 0.5), f'{n} points', 60))
    for dt in (0.5, 0.1, 0.3):
        r.append(Case(f'axis-{dt}', axis_case(dt, -100, 100, (0.25, 11), 'arrays'), f'step {dt}, start in [-100,100], up to 11 steps', 120))
    r.append(Case('axis-object', axis_case(0.5, -8, 8, (1.25, 5), 'object'), 'step 0.5, up to 5 steps', 120))
    r.append(Case('axis-series', axis_case(0.2, -8, 8, (1.25, 5), 'series'), 'step 0.2, up to 5 steps', 120))
    r.append(Case('whole', whole, 'whole number of steps, 9 steps, start symbolic', 120))
    r.append(Case('step', step, 'every step in [0.25,2]', 120))
    r.append(Case('seeds', seeds(6, F4, (0, 1, 2, 3), 0.5), 'four seeds', 60))
    r.append(Case('objects', objects(8, F4, (1,), 0.5, 4.0), 'series objects, 8 points', 120))
    r.append(Case('reject', reject, 'lengths and dimensions', 30))
    r.append(Case('sizes', over('n', range(2, 31, 2), lambda n: variance(n, F4, (1,), 0.5)), 'every even number of points from 2 to 30', 150))
    r.append(Case('far', over('start', [(t0, dt) for t0 in (2.0 ** 21 + 0.5, -65536.0) for dt in (0.5, 32.0)] + [(1.0, 2.0 ** -8)], lambda v: variance(6, [f / v[1] / 2 for f in F4], (1, 2), v[1], v[0])), 'starts and steps far from zero and one', 100))
    r.append(Case('seeds-wide', over('seed', [0, 1, 2, 7, 41, 1001, 123456], lambda q: variance(6, F4, (1,), 0.5, seed=q)), 'seven seeds', 60))
    r += unit_cases('C23')
    return r
