from .common import *
NOTE = '''Records of 4 to 9 samples with every sample symbolic (quadratic identities), 12 to 101 samples with one or two symbolic samples; split frequencies anywhere between the bins; exact real arithmetic.'''
ASSUME = ['samples in exact real arithmetic, DFT twiddle factors the doubles nearest to the roots of unity', 'split frequencies no closer than 1e-9 to a frequency of the record']


def var(x):
    m = mean(x)
    return mean([(v - m) * (v - m) for v in x])


def weights(n):
    return [0.0] + [0.5 if n % 2 == 0 and k == n // 2 else 1.0 for k in range(1, n // 2 + 1)]


def energy(n, dt, S):
    """variance in the bins above zero"""
    return total(w * s for w, s in zip(weights(n), S)) / (n * dt)


def routes(n, pos, t0=1.0, dt=0.5, k=0):
    def f(c):
        x, t = signal(c, n, pos, k), axis(n, t0, dt)
        s = c.m.series.Series(c.vec(t), c.vec(x))
        v = var(x)
        c.eq(c.val(s.var()), v, 'variance of the record')
        o = s.get_spectrum_raw(0.0)
        c.eq(energy(n, dt, c.lst(o.sVarDens)), v, 'energy of the raw spectrum')
        ff, X, odd = s.get_fourier_comp()
        e = [re * re + im * im for re, im in map(reim, c.lst(X))]
        c.eq(2 * total(w * a for w, a in zip(weights(n), e)) / (n * n), v, 'energy of the Fourier components')
        g, S = c.m.spec.compute_spectrum_freq_series(ff, X, n)
        c.eq(energy(n, dt, c.lst(S)), v, 'energy of the spectrum from components')
        b = s.get_bandpassfilter(0.0, (n // 2 + 1) / (n * dt))
        c.eq(c.val(b.var()), v, 'variance of the record filtered over all frequencies')
        c.eq(total(c.lst(b.xTime)), 0.0, 'mean of the filtered record')
    return f


def split(n, pos, t0=1.0, dt=0.5, k=0, rng=None, parts=2):
    """variances over adjacent bands add up, each is the energy of the spectrum in the band"""
    def f(c):
        x, t = signal(c, n, pos, k), axis(n, t0, dt)
        df, m = 1 / (n * dt), n // 2
        cuts = [0.0]
        for i in range(parts - 1):
            v = c.real(f'f{i}', *(rng or (0.0, (m - 0.001) * df)))
            for j in range(m + 1):
                c.assume(v <= j * df - 1e-9 or v >= j * df + 1e-9)
            if i:
                c.assume_rel(cuts[-1], '<', v)
            cuts.append(v)
        cuts.append((m + 1) * df)
        s = c.m.series.Series(c.vec(t), c.vec(x))
        S = c.lst(s.get_spectrum_raw(0.0).sVarDens)
        W = weights(n)
        for a, b in zip(cuts[:-1], cuts[1:]):
            y = c.lst(s.get_bandpassfilter(a, b).xTime)
            e = total(W[j] * S[j] for j in range(1, m + 1) if j * df > a and j * df < b) * df
            c.eq(var(y), e, 'variance in a band')
    return f


def averaged(n, pos, r, t0=1.0, dt=0.5, k=0):
    """averaging over r bins keeps the energy of the bins covered"""
    def f(c):
        x, t = signal(c, n, pos, k), axis(n, t0, dt)
        s = c.m.series.Series(c.vec(t), c.vec(x))
        df = 1 / (n * dt)
        S = c.lst(s.get_spectrum_raw(0.0).sVarDens)
        o = s.get_spectrum_raw(r * df * (1 + 2.0 ** -20))
        A, g = c.lst(o.sVarDens), c.lst(o.f)
        m = len(S) // r
        c.eq(len(A), m, 'number of averaged bins')
        c.eq(total(A) * (r * df), total(S[:m * r]) * df, 'energy of the averaged spectrum')
        for a, b in zip(g[:-1], g[1:]):
            c.eq(b - a, r * df, 'spacing')
    return f


def whole(n, pos, t0=0.0, dt=0.5, k=0):
    """one boxcar segment over the whole record: the raw spectrum"""
    def f(c):
        x, t = signal(c, n, pos, k), axis(n, t0, dt)
        s = c.m.series.Series(c.vec(t), c.vec(x))
        S = c.lst(s.get_spectrum_raw(0.0).sVarDens)
        o = s.get_spectrum(nperseg=n, noverlap=0, windows_type='boxcar', use_dfDesired=False)
        A, W = c.lst(o.sVarDens), weights(n)
        c.eq(len(A), len(S), 'number of bins')
        c.eq([v * n * dt for v in c.lst(o.f)], [float(i) for i in range(len(S))], 'frequencies')
        c.eq(A, [w * v for w, v in zip(W, S)], 'one segment: the raw spectrum')
        c.eq(total(A) / (n * dt), var(x), 'energy of the segment-averaged spectrum')
    return f


def moved(n, pos, dt=0.5, k=0):
    """rotation of the record and level change nothing but the zero bin"""
    def f(c):
        x, t = signal(c, n, pos, k), axis(n, 0.0, dt)
        off, j = c.real('level', -8, 8) if n < 12 else c.real('level', 2, 2.5), c.choice('rot', [0, 1, n // 2, n - 1])
        y = [v + off for v in x[j:] + x[:j]]
        a = c.m.series.Series(c.vec(t), c.vec(x))
        b = c.m.series.Series(c.vec(t), c.vec(y))
        c.eq(c.val(b.var()), c.val(a.var()), 'variance of the moved record')
        c.eq(c.lst(b.get_spectrum_raw(0.0).sVarDens)[1:], c.lst(a.get_spectrum_raw(0.0).sVarDens)[1:], 'spectrum of the moved record')
    return f


def cases(tier):
    th = tier == 'thorough'
    r = []
    for n in (4, 5, 6, 7):
        r.append(Case(f'routes-n{n}', routes(n, (0, 1, n - 1), k=n), f'{n} samples, three symbolic', 100))
    for n in (3, 4, 5):
        r.append(Case(f'moved-n{n}', moved(n, (0, 1)), f'{n} samples, two symbolic', 100))
        r.append(Case(f'whole-n{n}', whole(n + 1, (0, 2)), f'{n + 1} samples, two symbolic', 100))
    for n, pos in ((8, (2,)), (9, (4,)), (12, (3, 4)), (15, (0,)), (25, (7,)), (40, (39,)), (101, (50,))):
        d = (0.5, 0.25, 2.0)[n % 3]
        r.append(Case(f'routes-wide{n}', routes(n, pos, -4.0, d, n), f'{n} samples, {len(pos)} symbolic', 100))
        if n < 100:
            r.append(Case(f'whole-wide{n}', whole(n, pos, 7.0, d, n), f'{n} samples, {len(pos)} symbolic', 100))
            r.append(Case(f'moved-wide{n}', moved(n, pos[:1], d, n), f'{n} samples, one and the level symbolic', 100))
            r.append(Case(f'averaged-{n}', over('r', [1, 2, 3] if n > 9 else [1, 2], lambda v, n=n, pos=pos, d=d: averaged(n, pos, v, 0.0, d, n)), f'{n} samples, {len(pos)} symbolic', 100))
    for n, pos in ((5, (1, 3)), (6, (0,)), (8, (2,)), (9, (4,)), (12, (3,))):
        r.append(Case(f'split-{n}', split(n, pos, 1.0, 0.5, n), f'{n} samples, {len(pos)} symbolic, split anywhere', 200))
    for n in (7, 8):
        r.append(Case(f'split3-{n}', split(n, (2,), 1.0, 0.5, n, parts=3), f'{n} samples, one symbolic, two splits anywhere', 200))
    for n, rng in ((40, (0.2, 0.3)), (101, (0.05, 0.065))):
        r.append(Case(f'split-wide{n}', split(n, (9,), 0.0, 0.5, n, rng), f'{n} samples, one symbolic, split in {rng}', 200))
    r.append(Case('sizes', over('n', list(range(3, 41)), lambda n: routes(n, (n // 2,), 0.0, 0.5, n)), 'every size from 3 to 40, one symbolic sample', 200))
    r.append(Case('far', over('axis', [(v, 0.5) for v in T0S] + [(0.0, v) for v in DTS + (3.40625, 0.1)], lambda v: routes(9, (4,), v[0], v[1])), '9 samples, eight axes far from the usual ones', 200))
    r.append(Case('far-whole', over('dt', DTS + (3.40625, 0.1, 1 / 3, 7.7), lambda v: whole(9, (4,), 0.0, v)), '9 samples, seven steps', 200))
    r.append(Case('far-split', over('dt', DTS + (3.40625,), lambda v: averaged(15, (4,), 2, 0.0, v)), '15 samples, four steps', 200))
    r.append(Case('sizes-whole', over('n', list(range(4, 41, 3)), lambda n: whole(n, (n // 2,), 0.0, 0.5, n)), 'thirteen sizes, one symbolic sample', 200))
    return r
