from .common import *
from .c07 import same
NOTE = '''Every pair of a method and the function it stands for, on records of 8 to 13 samples with one or two symbolic samples (wide: 40, 101), sets of 3 to 6 waves with every height and period symbolic, spectra of 6 to 16 bins; positional, keyword and default arguments; exact real arithmetic.'''
ASSUME = ['exact real arithmetic', 'random phases fixed by the seed table', 'scipy.signal.welch is modelled by its definition where its window is a boxcar, uninterpreted otherwise']


def record(c, n, pos, k=0):
    x = [v + 0.0625 for v in pseudo(n, k)]
    for j in pos:
        x[j] = c.real(f'x{j}', -8, 8)
    return x


# name -> (method on the series, functions on the record); m: modules, t, x: arrays, dt
def _det(**k):
    def f(s, *_):
        return s._determine_individual_waves(**k)
    return f


def _ind(typ, cut=0):
    def f(c, m, t, x, dt):
        T, X = c.vec(t), c.vec(x)
        y = x
        if cut:
            low = c.lst(m.spec.bandpassfilter(T, X, 0, cut))
            y = [a - b for a, b in zip(x, low)]
        n, tc = m.time.determine_zero_crossing(T, c.vec(y), typ)
        return list(m.time.determine_params_individual_waves(tc, T, X)) + [tc]
    return f


def _sorted(g):
    def f(c, m, t, x, dt):
        r = _ind('down')(c, m, t, x, dt)
        return g(m, *m.time.sort_wave_params(r[0], r[1]))
    return f


PAIRS = {
    'crossing': (lambda s: s.get_crossing(), lambda c, m, t, x, dt: m.time.determine_zero_crossing(c.vec(t), c.vec(x), 'down')),
    'crossing-down': (lambda s: s.get_crossing(typeCross='down'), lambda c, m, t, x, dt: m.time.determine_zero_crossing(c.vec(t), c.vec(x))),
    'crossing-up': (lambda s: s.get_crossing('up'), lambda c, m, t, x, dt: m.time.determine_zero_crossing(t=c.vec(t), xTime=c.vec(x), typeCross='up')),
    'waves': (lambda s: [s.hwave, s.twave], lambda c, m, t, x, dt: _ind('down')(c, m, t, x, dt)[:2]),
    'nwave': (lambda s: s.nwave, lambda c, m, t, x, dt: m.time.determine_zero_crossing(c.vec(t), c.vec(x))[0]),
    'tCross': (lambda s: s.tCross, lambda c, m, t, x, dt: m.time.determine_zero_crossing(c.vec(t), c.vec(x))[1]),
    'individual-down': (lambda s: s._determine_individual_waves(), _ind('down')),
    'individual-up': (lambda s: s._determine_individual_waves('up'), _ind('up')),
    'individual-cut': (lambda s: s._determine_individual_waves(typeCross='up', fcutoff=0.3), _ind('up', 0.3)),
    'individual-cutd': (lambda s: s._determine_individual_waves('down', 0.2), _ind('down', 0.2)),
    'fourier': (lambda s: s.get_fourier_comp(), lambda c, m, t, x, dt: m.spec.time2freq_nyquist(c.vec(t), c.vec(x))),
    'raw': (lambda s: [s.get_spectrum_raw(0.0).f, s.get_spectrum_raw(0.0).sVarDens], lambda c, m, t, x, dt: m.spec.compute_spectrum_time_series(c.vec(t), c.vec(x))),
    'raw-default': (lambda s: [s.get_spectrum_raw().f, s.get_spectrum_raw().sVarDens], lambda c, m, t, x, dt: m.spec.compute_spectrum_time_series(c.vec(t), c.vec(x), 0.01)),
    'raw-df': (lambda s: [s.get_spectrum_raw(dfDesired=2.2 / (s.nt * s.dt)).f, s.get_spectrum_raw(2.2 / (s.nt * s.dt)).sVarDens],
               lambda c, m, t, x, dt: m.spec.compute_spectrum_time_series(c.vec(t), c.vec(x), 2.2 / (len(t) * dt))),
    'band': (lambda s: s.get_bandpassfilter(0.21, 0.63).xTime, lambda c, m, t, x, dt: m.spec.bandpassfilter(c.vec(t), c.vec(x), 0.21, 0.63)),
    'band-keys': (lambda s: s.get_bandpassfilter(fmax=0.63, fmin=0.21).xTime, lambda c, m, t, x, dt: m.spec.bandpassfilter(fhigh=0.63, flow=0.21, xTime=c.vec(x), t=c.vec(t))),
    'band-wide': (lambda s: s.get_bandpassfilter(0.0, 99.0).xTime, lambda c, m, t, x, dt: m.spec.bandpassfilter(c.vec(t), c.vec(x), 0.0, 99.0)),
    'band-none': (lambda s: s.get_bandpassfilter(0.6, 0.4).xTime, lambda c, m, t, x, dt: m.spec.bandpassfilter(c.vec(t), c.vec(x), 0.6, 0.4)),
    'highest': (lambda s: s.highest_waves(0.6), _sorted(lambda m, h, T: m.time.highest_waves_params(h, T, 0.6))),
    'Hs': (lambda s: s.get_Hs(), _sorted(lambda m, h, T: m.time.highest_waves_params(hWaveSorted=h, tWaveSorted=T, fracP=1 / 3))),
    'exceedance': (lambda s: s.get_exceedance_waveheight(75.0), _sorted(lambda m, h, T: m.time.exceedance_wave_height(h, 75.0))),
}


def method(n, pos, names, t0=2.0, dt=0.5, k=0):
    def f(c):
        q = c.choice('method', names)
        x, t = record(c, n, pos, k), axis(n, t0, dt)
        s = c.m.series.Series(c.vec(t), c.vec(x))
        a, b = PAIRS[q]
        same(c, a(s), b(c, c.m, t, x, dt), q)
    return f


OPS = {'up': lambda s: s._determine_individual_waves(typeCross='up'), 'min': lambda s: s._determine_individual_waves(minimum_wave=2.5), 'sort': lambda s: s.sort(), 'cut': lambda s: s._determine_individual_waves('down', 0.3),
       'band': lambda s: s.get_bandpassfilter(0.1, 0.4), 'query': lambda s: (s.get_crossing('up'), s.get_Hs(), s.get_spectrum_raw(0.0)), 'plot': lambda s: s.plot(plot_crossing=True)}


def after(n, pos, names):
    """a method after other work on the object"""
    def f(c):
        q, o = c.choice('method', names), c.choice('op', list(OPS))
        x, t = record(c, n, pos), axis(n)
        s = c.m.series.Series(c.vec(t), c.vec(x))
        OPS[o](s)
        a, b = PAIRS[q]
        same(c, a(s), b(c, c.m, t, x, 0.5), f'{q} after {o}')
    return f


def sort_method(n, pos):
    def f(c):
        x, t = record(c, n, pos), axis(n)
        s = c.m.series.Series(c.vec(t), c.vec(x))
        r = _ind('down')(c, c.m, t, x, 0.5)
        s.sort()
        same(c, [s.hwave, s.twave], c.m.time.sort_wave_params(r[0], r[1]), 'sorted waves')
    return f


def waveheights(n, what):
    """methods of a wave-height object"""
    def f(c):
        h, T = c.real_list('h', n, 0, 16), c.real_list('T', n, 0.5, 16)
        w = c.m.series.WaveHeights(c.vec(h), c.vec(T))
        tm = c.m.time
        sh, sT = tm.sort_wave_params(c.vec(h), c.vec(T))
        if what == 'fraction':
            p = c.real('p', 0, 1)
            for k in range(1, n):
                c.assume(p < k / n - 1e-9 or p > k / n + 1e-9)
            same(c, w.highest_waves(p), tm.highest_waves_params(sh, sT, p), 'highest waves')
        elif what == 'percentage':
            p = c.real('P', 0, 100)
            for k in range(1, n):
                c.assume(p < 100 * k / n - 1e-7 or p > 100 * k / n + 1e-7)
            same(c, w.get_exceedance_waveheight(p), tm.exceedance_wave_height(sh, p), 'exceedance height')
        else:
            hs = tm.highest_waves_params(sh, sT, 1 / 3)
            same(c, w.get_Hs(), hs, 'significant height')
            same(c, w.highest_waves(fracP=1 / 3), hs, 'highest third')
            c.eq(c.val(w.get_Hmax()), c.lst(sh)[0], 'maximum')
            c.eq(w.nwave, n, 'number of waves')
            w.sort()
            same(c, [w.hwave, w.twave], [sh, sT], 'sorted')
    return f


ARGS = [(dict(), 50, 25, 0, 'hann'), (dict(dfDesired=0.25), 8, 4, 0, 'hann'), (dict(dfDesired=0.25, nperseg=6, noverlap=5), 8, 4, 0, 'hann'), (dict(nperseg=10, noverlap=3, use_dfDesired=False), 10, 3, 0, 'hann'),
        (dict(nperseg=8, noverlap=4, nfft=16, windows_type='boxcar', use_dfDesired=False), 8, 4, 16, 'boxcar'), (dict(windows_type='hamming', dfDesired=0.2), 10, 5, 0, 'hamming'),
        (dict(nperseg=12, use_dfDesired=False), 12, 0, 0, 'hann'), (dict(nfft=32, dfDesired=0.25, windows_type='boxcar'), 8, 4, 32, 'boxcar')]


def welch(n, pos, args):
    """the segment-averaged spectrum, by keyword and by position"""
    def f(c):
        k, seg, ov, nf, win = c.choice('args', args)
        form = c.choice('form', ['key', 'pos'])
        x, t = record(c, n, pos), axis(n)
        s = c.m.series.Series(c.vec(t), c.vec(x))
        if form == 'key':
            o = s.get_spectrum(**k)
            g, S = c.m.spec.compute_spectrum_welch_wrapper(c.vec(x), dt=0.5, nperseg=seg, noverlap=ov, nfft=nf, window_type=win)
        else:
            d = {**dict(nperseg=256, noverlap=0, nfft=0, windows_type='hann', dfDesired=0.04, use_dfDesired=True), **k}
            seg, ov = (50, 25) if d['dfDesired'] == 0.04 and d['use_dfDesired'] else (seg, ov)
            o = s.get_spectrum(*d.values())
            g, S = c.m.spec.compute_spectrum_welch_wrapper(c.vec(x), 0.5, seg, ov, nf, win)
        same(c, [o.f, o.sVarDens], [g, S], 'segment-averaged spectrum')
    return f


def synth(n, f, dt, t0):
    """the three ways to synthesise a series"""
    def g(c):
        if c.sym:
            c.p.tables['rand_hook'] = lambda seed, i: (0.137 * i + 0.05) % 1.0
        S = [0.25 * ((3 * i) % 5) + 0.25 for i in range(len(f))]
        S[1], S[4] = c.real('S1', 0, 2), c.real('S4', 0, 2)
        t1 = t0 + (n - 1) * dt
        t, x = c.m.spec.spectrum2timeseries(c.vec(f), c.vec(S), t0, t1, dt, 5)
        o = c.m.spec.spectrum2timeseries_object(c.vec(f), c.vec(S), t0, t1, dt, 5)
        p = c.m.spec.spectrum2timeseries_object(f=c.vec(f), sVarDens=c.vec(S), tInit=t0, tEnd=t1, dt=dt, seed=5)
        k = c.m.spec.spectrum2timeseries(f=c.vec(f), sVarDens=c.vec(S), tInit=t0, tEnd=t1, dt=dt, seed=5)
        same(c, [o.time, o.xTime], [t, x], 'object')
        same(c, [p.time, p.xTime], [t, x], 'object by keyword')
        same(c, k, [t, x], 'series by keyword')
        e = c.m.spectrum.Spectrum(c.vec(f), c.vec(S)).create_series(tstart=t0, tend=t1, dt=dt)
        c.eq(c.lst(e.time), c.lst(t), 'axis of the method')
    return g


def cases(tier):
    th = tier == 'thorough'
    r = []
    lin = [q for q in PAIRS if q.startswith(('fourier', 'raw', 'band'))]
    wav = [q for q in PAIRS if q not in lin and not q.startswith('individual-cut')]
    cut = [q for q in PAIRS if q.startswith('individual-cut')]
    for n, pos, t0, dt in ((8, (2,), 2.0, 0.5), (9, (4, 5), -3.0, 0.5), (10, (9,), 0.0, 0.25), (13, (0,), 100.0, 2.0)) + (((12, (3, 4, 8), 0.0, 1.0),) if th else ()):
        r.append(Case(f'waves-{n}', method(n, pos, wav, t0, dt), f'{n} samples, {len(pos)} symbolic, {len(wav)} methods', 200))
        r.append(Case(f'spectra-{n}', method(n, pos[:1], lin, t0, dt), f'{n} samples, one symbolic, {len(lin)} methods', 200))
    for n in (8, 9):
        r.append(Case(f'cut-{n}', method(n, (3,), cut), f'{n} samples, one symbolic, waves about the slow part', 200))
    for n in (40, 101):
        r.append(Case(f'waves-wide{n}', method(n, (n // 2,), wav, 5.0), f'{n} samples, one symbolic', 200))
    r.append(Case('spectra-wide40', method(40, (7,), ['fourier', 'raw', 'raw-df', 'raw-default'], 5.0), '40 samples, one symbolic', 200))
    r.append(Case('spectra-wide300', method(300, (7,), ['raw', 'raw-default', 'fourier'], 0.0, 0.5), '300 samples, one symbolic', 200))
    r.append(Case('spectra-wide1030', method(1030, (7,), ['raw-default'], 0.0, 0.5), '1030 samples, one symbolic', 200))
    for n, pos in ((9, (4,)), (14, (6,))):
        r.append(Case(f'after-{n}', after(n, pos, ['crossing', 'crossing-down', 'crossing-up', 'individual-down', 'individual-up', 'fourier', 'raw', 'band']), f'{n} samples, one symbolic, seven operations before eight methods', 200))
    r.append(Case('far', over('axis', [(T0S[0], 0.5), (T0S[1], 2.0), (0.0, DTS[0]), (0.0, 3.40625), (0.0, DTS[2])], lambda v: method(9, (4,), ['crossing-up', 'waves', 'raw', 'fourier', 'individual-up'], v[0], v[1])), '9 samples, one symbolic, five axes', 200))
    r.append(Case('sort', sort_method(11, (3, 6)), '11 samples, two symbolic', 100))
    for n in (3, 4) + ((5,) if th else ()):
        for what in ('fraction', 'percentage', 'values'):
            r.append(Case(f'{what}-n{n}', waveheights(n, what), f'{n} waves, every height and period symbolic', 200))
    r.append(Case('welch', welch(24, (5,), ARGS[1:]), '24 samples, one symbolic, seven settings', 200))
    r.append(Case('welch-default', welch(400, (5,), ARGS[1:2]), '400 samples, one symbolic', 200))
    F = [0.0625 * i for i in range(1, 9)]
    for n, dt, t0 in ((8, 1.0, 0.0), (9, 1.0, 5.0), (12, 0.75, -2.0), (7, 2.0, 10.0)):
        r.append(Case(f'synth-{n}', synth(n, F, dt, t0), f'{n} samples from 8 bins, two densities symbolic', 200))
    return r
