from .common import *
NOTE = '''Per case: every axis of 2 to 6 points (thorough 8) with steps in [-1,1], every displacement of one or two points of longer axes (up to 200), and every pair of lengths up to 6 for each function; samples are symbolic. Steps between 2e-10 and 2.4e-10 off the first one are left open.'''
ASSUME = ['exact real arithmetic in the comparison of steps']
IN, OUT = 2e-10, 2.4e-10


def dist(x):
    return x if x >= 0 else -x


def judged(c, steps):
    """True: uniform and increasing, False: not; cuts the path where the tolerance leaves it open"""
    if any(d <= 0 for d in steps):
        return False
    bad = 0
    for d in steps[1:]:
        e = dist(d - steps[0])
        if e >= OUT:
            return False
        bad += e > IN
    c.assume(bad == 0)
    return True


def judge(n):
    """every axis of n points"""
    def g(c):
        t0 = c.real('t0', -8, 8)
        d = [c.real(f'd{i}', -1, 1) for i in range(n - 1)]
        t = [t0]
        for x in d:
            t.append(t[-1] + x)
        r = c.m.eng.monotonic_increasing_constant_step(c.vec(t))
        want = judged(c, d)
        c.ok(isinstance(r, bool) and r == want, 'uniform and increasing', f'{r!r} instead of {want}')
    return g


def tiny(n):
    """steps that differ by less or more than the tolerance"""
    def g(c):
        e = [c.real(f'e{i}', -1e-9, 1e-9) for i in range(n - 2)]
        d = c.choice('d', [0.5, 1.0, 0.125, 1e-9, 1e-8])
        t, s = [0.0, d], [d]
        for x in e:
            s.append(d + x)
            t.append(t[-1] + d + x)
        r = c.m.eng.monotonic_increasing_constant_step(c.vec(t))
        want = judged(c, s)
        c.ok(r == want, 'steps within the tolerance', f'{r!r} instead of {want}')
    return g


def coarse(n, d):
    """large steps: the tolerance is absolute"""
    def g(c):
        t = axis(n, 0.0, d)
        k = c.choice('k', list(range(n)))
        e = c.real('e', -1, 1)
        c.assume(e >= 1e-8 or e <= -1e-8)
        t[k] = t[k] + e
        s = [b - a for a, b in zip(t, t[1:])]
        r = c.m.eng.monotonic_increasing_constant_step(c.vec(t))
        c.ok(r == (n == 2), f'axis with point {k} displaced', repr(r))
        c.ok(c.m.eng.monotonic_increasing_constant_step(c.vec(axis(n, 0.0, d))) == True, 'uniform axis')
    return g


def wide(n, d):
    """one displaced point anywhere in a long axis"""
    def g(c):
        k = c.choice('k', [0, 1, n // 2, n - 2, n - 1])
        e = c.real('e', -2, 2)
        t = axis(n, -4.0, d)
        t[k] = t[k] + e
        r = c.m.eng.monotonic_increasing_constant_step(c.vec(t))
        want = judged(c, [b - a for a, b in zip(t, t[1:])])
        c.ok(r == want, f'axis with point {k} displaced', f'{r!r} instead of {want}')
    return g


def functions(c):
    """name -> call(axis, values), both arrays or lists"""
    m = c.m
    S, W, T = m.spec, m.wf, m.eng
    return {
        'time2freq': S.time2freq, 'time2freq_nyquist': S.time2freq_nyquist,
        'spectrum-time': S.compute_spectrum_time_series, 'spectrum-time-df': lambda a, x: S.compute_spectrum_time_series(a, x, 0.5),
        'spectrum-freq': lambda a, x: S.compute_spectrum_freq_series(a, x, 2 * len(x)),
        'spectrum-freq-df': lambda a, x: S.compute_spectrum_freq_series(a, x, 2 * len(x), 1.0),
        'moment': lambda a, x: W.compute_moment(a, x, 0), 'moment-range': lambda a, x: W.compute_moment(a, x, 1, 0.5, 1.5),
        'moment-minus': lambda a, x: W.compute_moment(a, x, -1), 'moment-tail': lambda a, x: W.compute_moment(a, x, 0, -1.0, 5.0),
        'params': W.compute_spectrum_params, 'params-range': lambda a, x: W.compute_spectrum_params(a, x, 0.5, 1.5),
        'object': m.spectrum.Spectrum, 'bandpass': lambda a, x: S.bandpassfilter(a, x, 0.25, 0.75),
    }


NAMES = ['time2freq', 'time2freq_nyquist', 'spectrum-time', 'spectrum-time-df', 'spectrum-freq', 'spectrum-freq-df', 'moment', 'moment-range',
         'moment-minus', 'moment-tail', 'params', 'params-range', 'object', 'bandpass']


def values(c, n):
    return [c.real(f'x{i}', 0.5, 2) for i in range(n)]


def displaced(name, n):
    """one point displaced, anywhere: rejected exactly when the axis is not uniform and increasing"""
    def g(c):
        k = c.choice('k', list(range(n)))
        e = c.real('e', -1.5, 1.5)
        t = axis(n, 0.5, 0.5)
        t[k] = t[k] + e
        f = functions(c)[name]
        x = [0.5 + 0.25 * ((3 * i) % 4) for i in range(n)]
        if judged(c, [b - a for a, b in zip(t, t[1:])]):
            f(c.vec(t), c.vec(x))
            c.ok(True, 'accepted')
        else:
            c.raises(lambda: f(c.vec(t), c.vec(x)), f'axis with point {k} displaced')
    return g


def lengths(name, lo, hi):
    """every two lengths"""
    def g(c):
        n = c.choice('n', list(range(lo, hi + 1)))
        k = c.choice('k', list(range(lo, hi + 1)))
        f = functions(c)[name]
        x = values(c, k)
        if n == k:
            f(c.vec(axis(n, 0.25, 0.25)), c.vec(x))
            c.ok(True, 'accepted')
        else:
            c.raises(lambda: f(c.vec(axis(n, 0.25, 0.25)), c.vec(x)), f'{n} and {k} values')
    return g


def matrices(name):
    """two-dimensional arrays on either side"""
    def g(c):
        r, k = c.choice('shape', [(2, 2), (3, 2), (2, 3), (1, 3), (4, 4)])
        f = functions(c)[name]
        a = [[0.25 * (1 + i * k + j) for j in range(k)] for i in range(r)]
        v = values(c, r * k)
        x = [v[i * k:i * k + k] for i in range(r)]
        c.raises(lambda: f(c.arr(a), c.arr(x)), 'both two-dimensional')
        c.raises(lambda: f(c.vec(axis(r, 0.25, 0.25)), c.arr(x)), 'values two-dimensional')
        c.raises(lambda: f(c.arr(a), c.vec(v[:r])), 'axis two-dimensional')
        c.raises(lambda: f(c.arr([axis(k, 0.25, 0.25)] * r), c.arr(x)), 'axis along the second dimension')
    return g


def falling(name):
    """decreasing and constant axes"""
    def g(c):
        n = c.choice('n', [2, 3, 4])
        d = c.real('d', -1, 0)
        t0 = c.real('t0', 8, 16)
        f = functions(c)[name]
        t = [t0 + i * d for i in range(n)]
        c.raises(lambda: f(c.vec(t), c.vec([0.5, 1.0, 2.0, 1.0][:n])), 'axis not increasing')
    return g


def special(c):
    """axes with a value that is no number"""
    n = c.choice('n', [2, 3, 4])
    k = c.choice('k', [0, 1, -1])
    v = c.choice('v', [math.nan, math.inf, -math.inf])
    x = values(c, n)
    t = axis(n, 0.25, 0.25)
    t[k] = v
    for name, f in functions(c).items():
        c.raises(lambda: f(c.vec(t), c.vec(x)), f'{name}: {v} in the axis')
    c.ok(c.m.eng.monotonic_increasing_constant_step(c.vec(t)) == False, 'axis is not uniform')


def helpers(c):
    """no two-dimensional arrays in the functions without an axis check"""
    S = c.m.spec
    v = values(c, 4)
    x = [v[:2], v[2:]]
    a = [[0.25, 0.5], [0.75, 1.0]]
    c.raises(lambda: S.freq2time(c.arr(x)), 'freq2time')
    c.raises(lambda: S.unfold_spectrum(c.arr(a), c.arr(x), False), 'unfold_spectrum')
    c.raises(lambda: S.frequency_averaging(c.arr(a), c.arr(x), 0.5), 'frequency_averaging')
    c.raises(lambda: c.m.wf.compute_tps(c.arr(a), c.arr(x)), 'compute_tps')
    for n, k in ((2, 3), (3, 2), (4, 2), (1, 2)):
        c.raises(lambda: c.m.wf.compute_tps(c.vec(axis(n, 0.25, 0.25)), c.vec(v[:k])), f'compute_tps: {n} and {k} values')


def series(lo, hi):
    """a series rejects arrays of different length"""
    def g(c):
        n = c.choice('n', list(range(lo, hi + 1)))
        k = c.choice('k', list(range(lo, hi + 1)))
        x = [c.real('x0', 0.5, 1)] + [(-1.0) ** i * (i + 1) / 2 for i in range(1, k)]
        if n == k:
            s = c.m.series.Series(c.vec(axis(n)), c.vec(x))
            c.eq(len(c.lst(s.xTime)), n, 'accepted')
        else:
            c.raises(lambda: c.m.series.Series(c.vec(axis(n)), c.vec(x)), f'{n} times and {k} samples')
    return g


def zs(c):
    """records, gauges and weights of different length"""
    n, m, a, b, d = c.choice('sizes', [(4, 3, 3, 3, 5), (4, 3, 3, 3, 3), (4, 3, 2, 3, 4), (4, 3, 3, 2, 4), (4, 3, 4, 4, 4), (4, 1, 1, 1, 4), (6, 2, 2, 2, 4)])
    v = values(c, n * m)
    x = [v[i * m:i * m + m] for i in range(n)]
    f = c.m.dec.decompose_linear_ZS
    c.raises(lambda: f(c.vec(axis(d)), c.arr(x), 5.0, c.vec([0.0, 1.0, 2.5, 4.0][:a]), c.vec([1.0] * b)), 'sizes differ')
    x = [v[i * m:i * m + m] for i in range(4)]
    if m > 1:
        w = c.real('w', -1.5, 2.5)
        c.assume(w < 0 or w > 1)
        c.raises(lambda: f(c.vec(axis(4)), c.arr(x), 5.0, c.vec([0.0, 1.0, 2.5][:m]), c.vec([1.0] * (m - 1) + [w])), 'weight outside [0,1]')
        p = c.real('p', -2, 0)
        c.raises(lambda: f(c.vec(axis(4)), c.arr(x), 5.0, c.vec([0.0, p, 2.5][:m]), c.vec([1.0] * m)), 'gauges not in increasing order')
        c.raises(lambda: f(c.vec([0.0, 0.5, 1.25, 1.5]), c.arr(x), 5.0, c.vec([0.0, 1.0, 2.5][:m]), c.vec([1.0] * m)), 'time axis not uniform')


def cases(tier):
    th = tier == 'thorough'
    r = []
    for n in (2, 3, 4, 5) + ((6, 7) if th else ()):
        r.append(Case(f'judge-{n}', judge(n), f'every axis of {n} points, steps in [-1,1]', 60 if n < 6 else 400))
    for n in (3, 4) + ((5, 6) if th else ()):
        r.append(Case(f'tiny-{n}', tiny(n), f'{n} points, steps off by at most 1e-9', 60))
    for n, d in ((10, 1.0), (50, 0.25), (200, 0.5), (1500, 0.25), (20, 64.0), (40, 2.0 ** -6)):
        r.append(Case(f'wide-{n}', wide(n, d), f'{n} points, one displaced by up to 2', 60))
    for n, d in ((2, 8.0), (3, 64.0), (4, 4096.0), (6, 262144.0), (12, 32.0)):
        r.append(Case(f'coarse-{n}', coarse(n, d), f'{n} points at a step of {d}, one displaced by 1e-8 to 1', 60))
    for name in NAMES:
        r.append(Case(f'displaced-{name}', displaced(name, 6 if th else 4), 'one point displaced by up to 1.5', 60))
        r.append(Case(f'lengths-{name}', lengths(name, 2, 8 if th else 5), 'every two lengths', 60))
        r.append(Case(f'matrices-{name}', matrices(name), 'five shapes', 30))
        r.append(Case(f'falling-{name}', falling(name), 'step in [-1,0]', 30))
    r.append(Case('special', special, 'nan and infinities', 60))
    r.append(Case('helpers', helpers, 'two-dimensional arrays', 30))
    r.append(Case('series', series(2, 6), 'lengths 2 to 6', 60))
    r.append(Case('zs', zs, 'seven sets of sizes', 60))
    r.append(Case('sizes', over('n', range(6, 61, 3), lambda n: wide(n, 0.5)), '6 to 60 points, one displaced by up to 2', 60))
    return r
