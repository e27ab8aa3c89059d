from .common import *
from .units import unit_cases

NOTE = '''Per case: every sample of records of 2 to 9 and 16 samples (thorough 17), long records (to 2049 samples, thorough 5000) with one or two symbolic samples, records of large dynamic range; exact real arithmetic with the double twiddle factors.'''
ASSUME = ['samples in exact real arithmetic, DFT twiddle factors the doubles nearest to the roots of unity', 'numpy.fft modelled by its DFT definition']


def trip(n, sym=None, symaxis=False, k=0, big=False, far=False, sizes=None, lim=4):
    n0 = n

    def f(c):
        n = c.choice('n', sizes) if sizes else n0
        x = loud(c, n, sym, k) if big else signal(c, n, sym, k, 'x', -lim, lim)
        if symaxis:
            t = axis(n, c.real('t0', -100, 100), c.real('dt', 0.125, 8))
        elif far:
            t = axis(n, c.choice('t0', T0S), c.choice('dt', DTS[:2]))
            if c.choice('fine', [0, 1]):
                t = axis(n, 1.0, DTS[2])
        else:
            t = axis(n, 3.0, 0.5)
        sp = c.m.spec
        fu, X = sp.time2freq(c.vec(t), c.vec(x))
        Xl = c.lst(X)
        c.eq(len(Xl), n, 'number of components')
        y = sp.freq2time(X)
        c.eq(c.lst(y), x, 'time -> frequency -> time')
        ff, Y, odd = sp.time2freq_nyquist(c.vec(t), c.vec(x))
        fu2, U = sp.unfold_spectrum(ff, Y, odd)
        Ul = c.lst(U)
        c.eq(len(Ul), n, 'number of unfolded components')
        c.eq(c.lst(sp.freq2time(U)), x, 'time -> folded -> unfolded -> time')
        eqc(c, Xl[0], total(x), 0.0, 'zero frequency component')
        for i in range(1, n):
            re, im = reim(Xl[n - i])
            eqc(c, Xl[i], re, -im, f'conjugate symmetry {i}')
            re, im = reim(Xl[i])
            eqc(c, Ul[i], re, im, f'unfolded component {i}')
        if n <= 9 or sym is not None and n <= 64:
            for i, (re, im) in enumerate(dft(x)):
                eqc(c, Xl[i], re, im, f'component {i}')
    return f


def linear(n):
    def f(c):
        x, y = c.real_list('x', n, -4, 4), c.real_list('y', n, -4, 4)
        a, b = c.real('a', -4, 4), c.real('b', -4, 4)
        t = axis(n, 1.0, 0.25)
        z = [a * p + b * q for p, q in zip(x, y)]
        sp = c.m.spec
        R = []
        for v in (x, y, z):
            fu, X = sp.time2freq(c.vec(t), c.vec(v))
            ff, Y, odd = sp.time2freq_nyquist(c.vec(t), c.vec(v))
            R.append((c.lst(X), c.lst(Y)))
        for s in (0, 1):
            for i, (p, q, r) in enumerate(zip(R[0][s], R[1][s], R[2][s])):
                (pr, pi), (qr, qi) = reim(p), reim(q)
                eqc(c, r, a * pr + b * qr, a * pi + b * qi, f'linear {i}')
    return f


def linear_back(n):
    """the inverse transform, of any (not only conjugate-symmetric) components"""
    def f(c):
        R = [[c.cplx(p, q) for p, q in zip(c.real_list(nm + 'r', n, -4, 4), c.real_list(nm + 'i', n, -4, 4))] for nm in ('x', 'y')]
        a, b = c.real('a', -4, 4), c.real('b', -4, 4)
        z = [a * p + b * q for p, q in zip(*R)]
        X, Y, Z = (c.lst(c.m.spec.freq2time(c.vec(v))) for v in (R[0], R[1], z))
        for i in range(n):
            c.eq(Z[i], a * X[i] + b * Y[i], f'linear {i}')
    return f


def cases(tier):
    th = tier == 'thorough'
    r = [Case(f'n{n}', trip(n), f'all {n} samples symbolic', 100) for n in (2, 3, 4, 5, 6, 7, 8, 9) + ((10, 11, 12, 15, 16, 17) if th else (16,))]
    r += [Case(f'axis-n{n}', trip(n, None if n < 4 else (1,), True), f'{n} samples, any initial time and step', 100) for n in (2, 3, 6, 9)]
    for k, (n, sym) in enumerate([(10, (0, 9)), (32, (3, 31)), (33, (0, 16)), (64, (32,)), (101, (50, 100)), (250, (7,)), (257, (256,))] + [(1024, (500,)), (1001, (1000,)), (2049, (2048,))] + ([(1000, (500,)), (4096, (4000,)), (5000, (1,))] if th else [])):
        r.append(Case(f'wide{n}', trip(n, sym, False, k), f'{n} samples, those at {sym} symbolic', 150 if not th else 900))
    for n, sym in ((8, (1, 4)), (9, (2,)), (100, (7,)), (600, (300,)), (1536, (1000,))):
        r.append(Case(f'loud-n{n}', trip(n, sym, False, 4, True), f'{n} samples of large dynamic range, those at {sym} symbolic', 100))
    r += [Case(f'linear-n{n}', linear(n), f'two signals of {n} samples, two factors', 100) for n in (2, 3, 4, 5) + ((8, 9) if th else ())]
    r += [Case(f'linear-back-n{n}', linear_back(n), f'two sets of {n} complex components, two factors', 100) for n in (1, 2, 3, 4)]
    r.append(Case('far', trip(6, None, far=True), '6 samples, initial times and steps far from zero and one', 60))
    r += [Case(f'sizes-{lo}', trip(0, (lo // 2,), sizes=list(range(lo, hi))), f'every number of samples from {lo} to {hi - 1}, one symbolic', 100) for lo, hi in ((3, 24), (24, 41)) + (((41, 70),) if th else ())]
    r.append(Case('high', trip(7, None, lim=2 ** 18), '7 samples up to 2^18', 60))
    r += unit_cases('C08')
    return r
