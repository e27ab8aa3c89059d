from .common import *
from .units import unit_cases

NOTE = '''Per case: every sample of records of 4 to 9 samples (thorough 13), any initial time and step, long records (to 1025, thorough 2049) with one or two symbolic samples, large dynamic range; exact real arithmetic.'''
ASSUME = ['samples in exact real arithmetic, DFT twiddle factors the doubles nearest to the roots of unity']


def raw(n, sym=None, symdt=False, k=0, big=False, far=False, sizes=None, lim=4):
    n0 = n

    def f(c):
        n = c.choice('n', sizes) if sizes else n0
        x = loud(c, n, sym, k) if big else signal(c, n, sym, k, 'x', -lim if lim < 9 else lim / 4, lim)
        dt = c.real('dt', 0.125, 8) if symdt else 0.5
        t0 = c.real('t0', -100, 100) if symdt else 2.0
        if far:
            t0, dt = c.choice('axis', [(a, b) for a in T0S for b in DTS[:2]] + [(1.0, DTS[2])])
        t = axis(n, t0, dt)
        sp = c.m.spec
        ff, S = sp.compute_spectrum_time_series(c.vec(t), c.vec(x))
        ff, S = c.lst(ff), c.lst(S)
        m = n // 2 + 1
        c.eq(len(S), m, 'number of densities')
        c.eq(len(ff), m, 'number of frequencies')
        X = dft(x)
        # dt * 2 / n = 2 / (df n^2)
        for i in range(m):
            re, im = X[i]
            c.eq(ff[i] * (n * dt), float(i), f'frequency {i}')
            if n <= 32 or big:
                c.eq(S[i], (re * re + im * im) * (2 * dt / n), f'density {i}', 1e-3 if big and i in (0, n // 4) else None)
        e = 0.0
        for i in range(m):
            half = i == 0 or (n % 2 == 0 and i == m - 1)
            e = e + S[i] * (0.5 if half else 1.0)
        c.eq(e, total([v * v for v in x]) * dt, 'variance', 1e-2 if big else None)
        # from components, and from the object
        f2, Y, odd = sp.time2freq_nyquist(c.vec(t), c.vec(x))
        f3, S3 = sp.compute_spectrum_freq_series(f2, Y, n)
        c.eq(c.lst(f3), ff, 'frequencies from components')
        c.eq(c.lst(S3), S, 'densities from components')
        if not symdt and (n < 6 or sym):
            o = c.m.series.Series(c.vec(t), c.vec(x)).get_spectrum_raw(0.0)
            c.eq(c.lst(o.f), ff, 'frequencies of the object')
            c.eq(c.lst(o.sVarDens), S, 'densities of the object')
        if not symdt:
            t2 = axis(n, -7.0, dt)
            f4, S4 = sp.compute_spectrum_time_series(c.vec(t2), c.vec(x))
            c.eq(c.lst(f4), ff, 'frequencies for another initial time')
            c.eq(c.lst(S4), S, 'densities for another initial time')
        for v in S:
            c.le(0, v, 'non-negative') if n <= 3 or sym is not None else None
    return f


def components(n, real, N):
    """any components on any axis"""
    def f(c):
        f0, df = c.real('f0', 0, 8), c.real('df', 0.0078125, 4)
        re = c.real_list('re', n, -4, 4)
        im = [0.0] * n if real else c.real_list('im', n, -4, 4)
        fr = axis(n, f0, df)
        X = c.vec(re) if real else c.vec([c.cplx(a, b) for a, b in zip(re, im)])
        g, S = c.m.spec.compute_spectrum_freq_series(c.vec(fr), X, N)
        g, S = c.lst(g), c.lst(S)
        c.eq(len(S), n, 'number of densities')
        c.eq(g, fr, 'frequencies')
        for i in range(n):
            c.eq(S[i] * (df * N * N), 2 * (re[i] * re[i] + im[i] * im[i]), f'density {i}')
    return f


def scale(n):
    def f(c):
        x = c.real_list('x', n, -4, 4)
        a = c.real('a', -4, 4)
        t = axis(n, 0.0, 0.25)
        _, S = c.m.spec.compute_spectrum_time_series(c.vec(t), c.vec(x))
        _, S2 = c.m.spec.compute_spectrum_time_series(c.vec(t), c.vec([a * v for v in x]))
        for p, q in zip(c.lst(S), c.lst(S2)):
            c.eq(q, a * a * p, 'scales with the square')
    return f


def averaged(n, sym, k):
    """with averaging the two routes and the object agree too"""
    def f(c):
        x = signal(c, n, sym, k)
        t = axis(n, 0.0, 0.5)
        df = c.choice('r', [1, 2, 3]) / (n * 0.5)
        sp = c.m.spec
        f1, S1 = sp.compute_spectrum_time_series(c.vec(t), c.vec(x), df)
        f2, Y, odd = sp.time2freq_nyquist(c.vec(t), c.vec(x))
        f3, S3 = sp.compute_spectrum_freq_series(f2, Y, n, df)
        o = c.m.series.Series(c.vec(t), c.vec(x)).get_spectrum_raw(df)
        for a, b in ((f3, f1), (S3, S1), (o.f, f1), (o.sVarDens, S1)):
            c.eq(c.lst(a), c.lst(b), 'same spectrum')
    return f


def cases(tier):
    th = tier == 'thorough'
    r = [Case(f'n{n}', raw(n, None if n < 10 else None), f'all {n} samples symbolic', 150) for n in (2, 3, 4, 5, 6, 7, 8, 9) + ((12, 13) if th else ())]
    r += [Case(f'axis-n{n}', raw(n, (0, 1, n - 1), True), f'{n} samples, 3 symbolic, any initial time and step', 150) for n in (4, 5, 8, 9)]
    for k, (n, sym) in enumerate([(20, (0, 19)), (21, (3, 20)), (64, (32,)), (101, (50,)), (256, (7,)), (301, (300,))] + [(1000, (500,)), (1025, (1000,))] + ([(2048, (3,)), (2049, (2000,))] if th else [])):
        r.append(Case(f'wide{n}', raw(n, sym, False, k), f'{n} samples, those at {sym} symbolic', 200))
    for n, sym in ((8, (1, 4)), (12, (2,)), (32, (7,)), (512, (300,))):
        r.append(Case(f'loud-n{n}', raw(n, sym, False, 4, True), f'{n} samples of large dynamic range, those at {sym} symbolic', 100))
    r += [Case(f'scale-n{n}', scale(n), f'{n} samples and any factor', 100) for n in (4, 5)]
    r += [Case(f'averaged-n{n}', averaged(n, sym, n), f'{n} samples, averaging over 1, 2 and 3 bins', 100) for n, sym in ((10, (1, 2)), (11, (0, 5)), (30, (7,)))]
    r.append(Case('far', raw(7, (1, 5), far=True), '7 samples, two symbolic, initial times and steps far from zero and one', 60))
    r += [Case(f'sizes-{lo}', raw(0, (lo // 2,), sizes=list(range(lo, hi))), f'every number of samples from {lo} to {hi - 1}, one symbolic', 100) for lo, hi in ((3, 20), (20, 33)) + (((33, 60),) if th else ())]
    r += [Case(f'components-{n}-{real}', components(n, real, N), f'{n} {"real" if real else "complex"} components on any axis, record length {N}', 60) for n, real, N in ((2, 0, 2), (3, 1, 4), (4, 0, 7), (5, 1, 8), (6, 0, 1000))]
    r += unit_cases('C10')
    return r
