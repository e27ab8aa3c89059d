from .common import *
from .c07 import same
NOTE = '''Filtered records of 8 to 40 samples, decomposed records of 8 samples at 2 or 3 gauges, synthesised records of 6 to 12 samples with fixed phases, segment-averaged and raw spectra of 16 to 64 samples, theoretical spectra of 7 bins; one or two symbolic values each.'''
ASSUME = ['exact real arithmetic', 'random phases fixed during symbolic execution (C23 covers all phases)', 'welch is the transfer function of its segments where its window is a boxcar, uninterpreted otherwise']

X = [0.5, -1.0, 2.0, -0.25, 1.0, -2.0, 0.75, -0.5, 1.5, -1.25]
SER_Q = {
    'waves': lambda s: [s.hwave, s.twave, s.nwave], 'tCross': lambda s: [s.tCross], 'size': lambda s: [s.nt, s.dt], 'down': lambda s: s.get_crossing(), 'up': lambda s: s.get_crossing('up'),
    'Hs': lambda s: s.get_Hs(), 'Hmax': lambda s: [s.get_Hmax(), s.get_Hrms()] if s.nwave else [], 'H2p': lambda s: s.get_H2p_Rayleigh(), 'exc': lambda s: s.get_exceedance_waveheight(60.0), 'hw': lambda s: s.highest_waves(0.6),
    'stat': lambda s: [s.max(), s.min(), s.mean(), s.var()], 'fourier': lambda s: s.get_fourier_comp(), 'raw': lambda s: [s.get_spectrum_raw(0.0).f, s.get_spectrum_raw(0.0).sVarDens],
    'again': lambda s: [s.get_bandpassfilter(0.2, 0.6).xTime], 'str': lambda s: str(s) + repr(s),
}
SPE_Q = ('get_Hm0', 'get_Tp', 'get_Tps', 'get_Tmm10', 'get_Tm01', 'get_Tm02')


def rec(c, n, pos, k=0, lo=-4, hi=4):
    x = [X[(i + k) % 10] for i in range(n)]
    for j in pos:
        x[j] = c.real(f'x{j}', lo, hi)
    return x


def is_series(c, s, t, x, label, q=None):
    """s is the series of the record x on the axis t"""
    c.ok(type(s) is c.m.series.Series, label + ': a series', type(s).__name__)
    c.eq(c.lst(s.time), t, label + ': time axis')
    if x is not None:
        c.eq(c.lst(s.xTime), x, label + ': samples')
    x = list(c.lst(s.xTime))
    e = c.fresh().series.Series(c.vec(t), c.vec(x))
    same(c, SER_Q['waves'](s), SER_Q['waves'](e), label + ': waves')
    q = q or c.choice('q', list(SER_Q))
    same(c, SER_Q[q](s), SER_Q[q](e), label + ': ' + q)
    if e.nwave:
        w = c.fresh().series.WaveHeights(c.vec(list(c.lst(e.hwave))), c.vec(list(c.lst(e.twave))))
        for nm, f in (('Hs', lambda o: o.get_Hs()), ('Hmax', lambda o: o.get_Hmax()), ('exceedance', lambda o: o.get_exceedance_waveheight(60.0))):
            same(c, f(s), f(w), label + f': {nm} of its waves')


def is_spectrum(c, o, f, S, label):
    c.ok(type(o) is c.m.spectrum.Spectrum, label + ': a spectrum', type(o).__name__)
    c.eq(c.lst(o.f), f, label + ': frequencies')
    c.eq(c.lst(o.sVarDens), S, label + ': densities')
    e = c.fresh().spectrum.Spectrum(c.vec(f), c.vec(list(c.lst(o.sVarDens))))
    c.eq(o.nf, e.nf, label + ': number of frequencies')
    c.ok(o.spec == '1D' and str(o) == str(e) and repr(o) == repr(e), label + ': description', f'{o} / {o!r}')
    q = c.choice('q', list(SPE_Q))
    lim = c.choice('lim', [{}, dict(fmin=f[1], fmax=f[-2])])
    c.eq(c.val(getattr(o, q)(**lim)), c.val(getattr(e, q)(**lim)), f'{label}: {q}')


def filtered(n, pos, lo, hi, t0=0.0, dt=0.5, k=0):
    def g(c):
        t, x = axis(n, t0, dt), rec(c, n, pos, k)
        s = c.m.series.Series(c.vec(t), c.vec(x))
        h, T = list(c.lst(s.hwave)), list(c.lst(s.twave))
        b = s.get_bandpassfilter(lo, hi)
        z = list(c.lst(c.m.spec.bandpassfilter(c.vec(t), c.vec(x), lo, hi)))
        is_series(c, b, t, z, 'filtered')
        # the two objects stay apart
        b.sort()
        b._determine_individual_waves(typeCross='up')
        c.eq(list(c.lst(s.hwave)), h, 'waves of the original')
        c.eq(list(c.lst(s.twave)), T, 'waves of the original')
        c.eq(c.lst(s.xTime), x, 'record of the original')
        c.eq(c.lst(s.time), t, 'axis of the original')
    return g


def apart(n, pos):
    """later work on the original leaves the filtered series alone"""
    def g(c):
        t, x = axis(n), rec(c, n, pos)
        s = c.m.series.Series(c.vec(t), c.vec(x))
        b = s.get_bandpassfilter(0.2, 0.6)
        z, h, T, tc = (list(c.lst(v)) for v in (b.xTime, b.hwave, b.twave, b.tCross))
        op = c.choice('op', ['sort', 'up', 'min', 'other-band', 'Hs', 'plot'])
        if op == 'sort':
            s.sort()
        elif op == 'up':
            s._determine_individual_waves(typeCross='up')
        elif op == 'min':
            s._determine_individual_waves(minimum_wave=1.0)
        elif op == 'other-band':
            s.get_bandpassfilter(0.1, 0.9)
        elif op == 'Hs':
            s.get_Hs()
        else:
            s.plot(plot_crossing=True)
        for a, v, nm in ((b.xTime, z, 'record'), (b.hwave, h, 'heights'), (b.twave, T, 'periods'), (b.tCross, tc, 'crossings'), (b.time, t, 'axis')):
            c.eq(list(c.lst(a)), v, f'{nm} of the filtered series after {op}')
    return g


def decomposed(n, xloc, w, pos, depth, dt=0.5, t0=0.0):
    def g(c):
        t = axis(n, t0, dt)
        recs = [rec(c, n, pos if i == 0 else (), 3 * i) for i in range(len(xloc))]
        ser = [c.m.series.Series(c.vec(t), c.vec(r)) for r in recs]
        a = c.arr([[r[i] for r in recs] for i in range(n)])
        i0, r0 = c.m.dec.decompose_linear_ZS(c.vec(t), a, depth, c.vec(xloc), c.vec(w))
        i0, r0 = list(c.lst(i0)), list(c.lst(r0))
        i, r = c.m.dec.decompose_linear_ZS_series(ser, depth, c.vec(xloc), c.vec(w))
        if c.choice('which', [0, 1]):
            is_series(c, i, t, i0, 'incident')
            c.eq(c.lst(r.xTime), r0, 'reflected: samples')
        else:
            is_series(c, r, t, r0, 'reflected')
            c.eq(c.lst(i.xTime), i0, 'incident: samples')
        for s, x in zip(ser, recs):
            c.eq(c.lst(s.xTime), x, 'records of the gauges')
    return g


def faint(n, per, ratio):
    """a weak wave inside the band next to a strong one outside"""
    def g(c):
        q = c.choice('q', ['waves', 'tCross', 'Hs', 'Hmax', 'exc'])
        a = c.real('a', 0.75, 1.25)
        t = axis(n)
        x = [math.cos(2 * math.pi * i / n + 0.3) + a * (ratio * math.cos(2 * math.pi * i / per + 0.4)) for i in range(n)]
        b = c.m.series.Series(c.vec(t), c.vec(x)).get_bandpassfilter(0.8 / (per * 0.5), 1.2 / (per * 0.5))
        is_series(c, b, t, None, 'filtered', q)
    return g


def reflection(n, xloc, depth, ratio):
    """one incident component, reflected by the given part"""
    def g(c):
        q = c.choice('q', ['waves', 'tCross', 'Hs', 'Hmax', 'exc'])
        a = c.real('a', 0.75, 1.25)
        t = axis(n, 0.0, 0.5)
        w = 2 * math.pi * 3 / (n * 0.5)
        k = float(c.lst(c.m.disp.disper(c.vec([w]), depth))[0])
        recs = [[a * (math.cos(w * v - k * y) + ratio * math.cos(w * v + k * y + 0.5)) for v in t] for y in xloc]
        ser = [c.m.series.Series(c.vec(t), c.vec(r)) for r in recs]
        i, r = c.m.dec.decompose_linear_ZS_series(ser, depth, c.vec(xloc), c.vec([1.0] * len(xloc)))
        is_series(c, *((r, t, None, 'reflected', q) if c.choice('which', [0, 1]) else (i, t, None, 'incident', q)))
    return g


def synthesised(n, f, dt, t0, form):
    def g(c):
        q = c.choice('q', list(SER_Q))
        if c.sym:
            c.p.tables['rand_hook'] = lambda seed, i: (0.137 * i + 0.05) % 1.0
        S = [0.25 * ((3 * i) % 5) + 0.25 for i in range(len(f))]
        S[1] = c.real('S1', 1, 1.0625)
        t = axis(n, t0, dt)
        t1 = t0 + (n - 1) * dt
        if form == 'object':
            s = c.m.spec.spectrum2timeseries_object(c.vec(f), c.vec(S), t0, t1, dt, 11)
            u, y = c.m.spec.spectrum2timeseries(c.vec(f), c.vec(S), t0, t1, dt, 11)
            is_series(c, s, t, list(c.lst(y)), 'synthesised', q)
        else:
            s = c.m.spectrum.Spectrum(c.vec(f), c.vec(S)).create_series(t0, t1, dt)
            is_series(c, s, t, None, 'synthesised', q)
    return g


def raw(n, pos, dfd, dt=0.5):
    def g(c):
        t, x = axis(n, 2.0, dt), rec(c, n, pos, 1, 0.5, 4)
        s = c.m.series.Series(c.vec(t), c.vec(x))
        f, S = c.m.spec.compute_spectrum_time_series(c.vec(t), c.vec(x), dfd)
        is_spectrum(c, s.get_spectrum_raw(dfd), list(c.lst(f)), list(c.lst(S)), 'raw spectrum')
        c.eq(c.lst(s.xTime), x, 'record')
    return g


def averaged(n, pos, args):
    def g(c):
        x = rec(c, n, pos, 1, 0.5, 4)
        t = axis(n, 0.0, 0.5)
        s = c.m.series.Series(c.vec(t), c.vec(x))
        o = s.get_spectrum(**args)
        seg = args.get('nperseg')
        if seg is None:
            seg = round(1 / 0.5 / args.get('dfDesired', 0.01))
            ov = round(seg / 2)
        else:
            ov = args.get('noverlap', 0)
        f, S = c.m.spec.compute_spectrum_welch_wrapper(c.vec(x), dt=0.5, nperseg=seg, noverlap=ov, nfft=0, window_type=args.get('windows_type', 'hann'))
        is_spectrum(c, o, list(c.lst(f)), list(c.lst(S)), 'averaged spectrum')
    return g


def theoretical(f, kind, lf):
    def g(c):
        q = c.choice('q', ['get_Hm0', 'get_Tmm10', 'get_Tm01', 'get_Tm02'])
        fp, hm = c.choice('fp', [0.2, 0.3125, 0.375, 0.6]), c.real('hm0', 0.5, 4)
        if kind == 'jonswap':
            o = c.m.wf.create_spectrum_object_jonswap(c.vec(f), fp, hm, 2.0, lf)
            S = c.m.wf.create_spectrum_jonswap(c.vec(f), fp, hm, 2.0, lf)
        else:
            o = c.m.wf.create_spectrum_object_piersonmoskowitz(c.vec(f), fp, hm, 1.0, lf)
            S = c.m.wf.create_spectrum_piersonmoskowitz(c.vec(f), fp, hm, 1.0, lf)
        S = list(c.lst(S))
        c.ok(type(o) is c.m.spectrum.Spectrum, 'a spectrum', type(o).__name__)
        c.eq(c.lst(o.f), f, 'frequencies')
        c.eq(c.lst(o.sVarDens), S, 'densities')
        e = c.fresh().spectrum.Spectrum(c.vec(f), c.vec(S))
        c.ok(o.nf == e.nf and o.spec == '1D' and str(o) == str(e) and repr(o) == repr(e), 'description', f'{o} / {o!r}')
        c.eq(c.val(getattr(o, q)()), c.val(getattr(e, q)()), q)
    return g


def cases(tier):
    th = tier == 'thorough'
    r = []
    for n, pos, lo, hi, t0, dt in ((8, (3,), 0.2, 0.6, 0.0, 0.5), (9, (5,), 0.0, 0.7, 4.0, 0.5), (10, (2,), 0.3, 2.0, -3.0, 0.5), (11, (4,), 0.02, 0.05, 0.0, 4.0), (12, (6,), 0.2, 0.6, 0.0, 0.5)) \
            + (((13, (6,), 0.2, 0.6, 0.0, 0.5), (16, (9,), 0.2, 0.6, 0.0, 0.5), (40, (7,), 0.1, 0.5, 0.0, 0.5)) if th else ()):
        r.append(Case(f'filtered-{n}', filtered(n, pos, lo, hi, t0, dt), f'{n} samples, {len(pos)} symbolic in [-4,4]', 200 if not th else 800))
    r.append(Case('apart', apart(8, (3,)), '8 samples, one symbolic, any of six operations on the original', 200))
    for n, xl, w, pos, d, dt in ((8, [0.0, 0.5], [1.0, 0.75], (3,), 2.0, 0.5), (9, [1.0, 1.4, 2.1], [1.0, 0.5, 1.0], (4,), 3.0, 0.4)):
        r.append(Case(f'decomposed-{n}', decomposed(n, xl, w, pos, d, dt), f'{n} samples at {len(xl)} gauges, {len(pos)} symbolic', 200))
    for n, per, ratio in ((16, 4, 1 / 64), (24, 4, 1 / 4096), (20, 5, 1 / 2 ** 20)):
        r.append(Case(f'faint-{n}', faint(n, per, ratio), f'{n} samples, amplitude in the band symbolic, {ratio} of that outside', 200))
    for ratio in (0.0, 1 / 64, 0.125, 1.0):
        r.append(Case(f'reflection-{ratio}', reflection(12, [0.0, 0.75], 3.0, ratio), f'12 samples, 2 gauges, amplitude symbolic, reflection {ratio}', 200))
    F = [0.0625 * i for i in range(1, 9)]
    for n, dt, t0 in ((8, 1.0, 0.0), (9, 1.0, 5.0), (12, 0.75, -2.0)):
        for form in ('object', 'method'):
            r.append(Case(f'synthesised-{form}-{n}', synthesised(n, F, dt, t0, form), f'{n} samples from 8 bins, one density symbolic', 200))
    for n, pos, dfd in ((12, (3,), 0.0), (13, (5,), 0.0), (24, (3,), 0.2), (40, (7, 9), 0.12)):
        r.append(Case(f'raw-{n}', raw(n, pos, dfd), f'{n} samples, {len(pos)} symbolic in [0.5,4]', 200))
    for n, args in ((32, dict(dfDesired=0.25)), (48, dict(dfDesired=0.2, windows_type='boxcar')), (32, dict(nperseg=10, noverlap=3, use_dfDesired=False))):
        r.append(Case(f'averaged-{n}-{len(args)}', averaged(n, (5,), args), f'{n} samples, one symbolic', 200))
    for kind in ('jonswap', 'pm'):
        for lf in (0, 1):
            r.append(Case(f'{kind}-{lf}', theoretical([0.125 * i for i in range(1, 8)], kind, lf), '7 bins, four peak frequencies, height symbolic in [0.5,4]', 200))
    return r
