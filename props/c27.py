from .common import *
from .units import unit_cases
NOTE = '''Per case: every desired resolution in the stated range for records of 8 to 16 samples (thorough 24; wide up to 1200 samples at the resolutions listed), one to three symbolic samples; segment, overlap and transform lengths from lists. The oracle averages the periodograms of the tapered segments.'''
ASSUME = ['exact real arithmetic', 'scipy.signal.welch is modelled by its documented definition (segments, removed mean, taper, periodograms, mean)',
          'a segment length or half overlap that ends in one half may be rounded either way']
TOL = 1e-7


def welch(x, fs, win, seg, step, nf):
    """mean of the periodograms of the segments"""
    n = len(x)
    if win == 'hann':
        w = [0.5 - 0.5 * math.cos(2 * math.pi * j / seg) for j in range(seg)]
    elif win == 'boxcar':
        w = [1.0] * seg
    else:
        w = [0.54 - 0.46 * math.cos(2 * math.pi * j / seg) for j in range(seg)]
    tot, k = [0.0] * (nf // 2 + 1), 0
    for a in range(0, n - seg + 1, step):
        v = x[a:a + seg]
        m = mean(v)
        v = [(y - m) * z for y, z in zip(v, w)] + [0.0] * (nf - seg)
        for j in range(len(tot)):
            re = im = 0.0
            for i, y in enumerate(v[:seg]):
                ph = 2 * math.pi * ((i * j) % nf) / nf
                re = re + y * math.cos(ph)
                im = im + y * math.sin(ph)
            tot[j] = tot[j] + re * re + im * im
        k += 1
    sc = 1 / (fs * sum(z * z for z in w) * k)
    return [t * (sc if j == 0 or (nf % 2 == 0 and j == nf // 2) else 2 * sc) for j, t in enumerate(tot)]


def record(c, n, sym, lo=0.25, hi=2):
    x = [(v if v else 0.25) * (1 if i % 3 else -1) for i, v in enumerate(pseudo(n, n))]
    for j in sym:
        x[j] = c.real(f'x{j}', lo, hi)
    return x


def check(c, f, S, x, fs, win, segs, overlap, nfft, label):
    """f, S are the estimate with one of the segment lengths (overlaps) given"""
    f, S = c.lst(f), c.lst(S)
    ok = []
    for seg in segs:
        nf = nfft or seg
        if len(f) != nf // 2 + 1 or len(S) != len(f):
            continue
        for no in overlap(seg):
            ok.append((seg, no, nf))
    if not ok:
        c.fail(label + ': number of frequencies', f'{len(f)}')
    nf = ok[0][2]
    for i, v in enumerate(f):
        c.eq(v, i * fs / nf, f'{label}: frequency {i}')
    if len(ok) > 1 and len({seg - no for seg, no, _ in ok}) > 1:
        # either rounding of half: the one whose densities agree
        for seg, no, nf in ok[:-1]:
            want = welch(x, fs, win, seg, seg - no, nf)
            if all(near(c, a, b) for a, b in zip(S, want)):
                c.ok(True, label)
                return
        ok = ok[-1:]
    seg, no, nf = ok[0]
    want = welch(x, fs, win, seg, seg - no, nf)
    for i, (a, b) in enumerate(zip(S, want)):
        c.eq(a, b, f'{label}: density {i}', TOL)


def near(c, a, b):
    """equal coefficient by coefficient (up to rounding)"""
    import symeng as E
    if isinstance(a, E.SymReal) or isinstance(b, E.SymReal):
        d = E.sub(a, b)
        return not isinstance(d, E.SymReal) and abs(d) < 1e-9 or isinstance(d, E.SymReal) and all(abs(float(q)) < 1e-9 for q in d.p.values())
    return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def half(seg):
    return [seg // 2] if seg % 2 == 0 else [seg // 2, seg // 2 + 1]


def desired(n, sym, dt, lo, hi, win='hann', how='name', nfft=0):
    """every desired resolution: segments of lo to hi points"""
    def g(c):
        fs = 1 / dt
        k = c.choice('segment', list(range(lo, hi + 1)))
        df = c.real('df', fs / (hi + 1), fs / max(lo - 0.75, 0.5))
        # fs / df is within one half of the segment length
        c.assume(fs > df * (k - 0.5 + 1e-6) and fs < df * (k + 0.5 - 1e-6))
        x = record(c, n, sym)
        o = c.m.series.Series(c.vec(axis(n, 0.0, dt)), c.vec(x))
        kw = {} if win == 'hann' else dict(windows_type=win)
        if how == 'name':
            s = o.get_spectrum(dfDesired=df, **kw)
        elif how == 'others':
            s = o.get_spectrum(nperseg=4, noverlap=1, nfft=nfft, dfDesired=df, use_dfDesired=True, **kw)
        else:
            s = o.get_spectrum(256, 0, nfft, win, df)
        check(c, s.f, s.sVarDens, x, fs, win, [k], half, nfft, 'desired resolution')
        f = c.lst(s.f)
        if not nfft:
            c.le(f[1] - f[0], df * (k + 0.5) / k, 'resolution within the rounding', 1e-6)
            c.le(df * (k - 0.5) / k, f[1] - f[0], 'resolution within the rounding', 1e-6)
        c.eq(c.lst(o.xTime), x, 'samples kept')
    return g


def listed(n, sym, dt, dfs, default=False):
    """large records, listed resolutions"""
    def g(c):
        x = record(c, n, sym)
        o = c.m.series.Series(c.vec(axis(n, 0.0, dt)), c.vec(x))
        df = c.choice('df', dfs)
        fs = 1 / dt
        q = fs / df
        segs = [round(q)] if abs(q - math.floor(q) - 0.5) > 1e-6 else [math.floor(q), math.floor(q) + 1]
        s = o.get_spectrum(dfDesired=df)
        check(c, s.f, s.sVarDens, x, fs, 'hann', segs, half, 0, f'resolution {df}')
        if default:
            s = o.get_spectrum()
            check(c, s.f, s.sVarDens, x, fs, 'hann', [round(fs / 0.01)], half, 0, 'default resolution')
            s = o.get_spectrum(use_dfDesired=False)
            check(c, s.f, s.sVarDens, x, fs, 'hann', [min(256, n)], half, 0, 'default segments')
    return g


def given(n, sym, dt, combos, wins=('hann',)):
    """switched off: the given lengths"""
    def g(c):
        seg, no, nf = c.choice('lengths', combos)
        win = c.choice('window', wins)
        x = record(c, n, sym)
        fs = 1 / dt
        o = c.m.series.Series(c.vec(axis(n, 0.0, dt)), c.vec(x))
        s = o.get_spectrum(nperseg=seg, noverlap=no, nfft=nf, windows_type=win, dfDesired=fs / 3, use_dfDesired=False)
        used = min(seg or 256, n)
        ov = (lambda q: [no]) if no else (lambda q: [q // 2])
        check(c, s.f, s.sVarDens, x, fs, win, [used], ov, nf, f'given lengths {seg} {no} {nf}')
        f, S = c.m.spec.compute_spectrum_welch_wrapper(c.vec(x), dt, seg, no, nf, win)
        check(c, f, S, x, fs, win, [used], ov, nf, f'wrapper {seg} {no} {nf}')
        f, S = c.m.spec.compute_spectrum_welch_wrapper(c.vec(x), dt=dt, nfft=nf, window_type=win, noverlap=no, nperseg=seg)
        check(c, f, S, x, fs, win, [used], ov, nf, f'wrapper by name {seg} {no} {nf}')
    return g


def cases(tier):
    th = tier == 'thorough'
    r = []
    for n, sym, dt, lo, hi in ((8, (2,), 0.5, 2, 8), (12, (4, 5), 0.25, 2, 12), (16, (7,), 0.1, 3, 16), (9, (1, 4), 1.0, 2, 9)) + (((24, (5, 11), 0.5, 2, 24), (17, (3, 8, 16), 0.2, 2, 17)) if th else ()):
        r.append(Case(f'desired-{n}', desired(n, sym, dt, lo, hi), f'{n} samples, step {dt}, segments of {lo} to {hi}', 200))
    r.append(Case('desired-position', desired(8, (2,), 0.5, 2, 8, how='position'), 'arguments by position', 120))
    r.append(Case('desired-others', desired(8, (2,), 0.5, 2, 8, how='others'), 'other lengths given as well', 120))
    r.append(Case('desired-nfft', desired(8, (2,), 0.5, 2, 8, how='others', nfft=12), 'transform length given', 120))
    r.append(Case('desired-boxcar', desired(10, (2, 6), 0.5, 2, 8, win='boxcar'), 'boxcar window', 120))
    r.append(Case('wide-60', listed(60, (20, 31), 0.5, [0.1, 0.08, 0.05, 0.035, 0.3]), '60 samples, five resolutions', 120))
    r.append(Case('wide-100', listed(100, (50,), 0.2, [0.1, 0.27, 0.06]), '100 samples, three resolutions', 120))
    r.append(Case('wide-600', listed(600, (300,), 0.5, [0.02, 0.0123], True), '600 samples, two resolutions and the defaults', 200))
    if th:
        r.append(Case('wide-1200', listed(1200, (300, 900), 0.25, [0.03, 0.011], True), '1200 samples, two resolutions and the defaults', 900))
    combos = [(4, 0, 0), (4, 1, 0), (4, 2, 8), (5, 0, 0), (6, 3, 7), (8, 0, 16), (0, 0, 0), (3, 2, 4), (12, 5, 12), (7, 0, 0), (20, 0, 0), (0, 3, 0), (4, 3, 0)]
    r.append(Case('given-12', given(12, (4,), 0.5, combos), '12 samples, 13 sets of lengths', 200))
    r.append(Case('given-14', given(14, (3, 9), 0.25, combos[:6], ('boxcar', 'hamming')), '14 samples, six sets of lengths, two windows', 200))
    r.append(Case('sizes', over('n', range(17, 41), lambda n: listed(n, (n // 2,), 0.5, [0.13, 0.31])), 'every number of samples from 17 to 40, two resolutions', 120))
    r.append(Case('steps', over('dt', [64.0, 3600.0, 2.0 ** -10], lambda v: listed(20, (4,), v, [0.13 / v, 0.07 / v])), 'three steps', 60))
    r += unit_cases('C27')
    return r
