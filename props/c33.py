from .common import *
from .c07 import same, WH_Q, SE_Q
NOTE = '''Every rejected request of the lists in the case names, alone and in pairs, before every query; objects of 2 to 4 waves (all symbolic), series of 8 samples (one or two symbolic), spectra of 7 bins (one or two symbolic).'''
ASSUME = ['exact real arithmetic', 'the Hilbert transform is scipy\'s FFT definition on exact reals; scipy.signal.welch is an uninterpreted function of its arguments']

WQ = {k: WH_Q[k] for k in ('Hrms', 'Hmax', 'Hs', 'H2p', 'exc50', 'hw70', 'n', 'str')}
SQ = {k: SE_Q[k] for k in ('crossd', 'crossu', 'max', 'var', 'fourier', 'raw', 'band', 'Hs', 'str')}
SQ['waves'] = lambda s: [s.hwave, s.twave, s.nwave, s.tCross]
SQ['record'] = lambda s: [s.time, s.xTime, s.nt, s.dt]
PQ = ('get_Hm0', 'get_Tp', 'get_Tps', 'get_Tmm10', 'get_Tm01', 'get_Tm02', 'get_s0p', 'get_smm10')

# requests outside what is accepted: (name, call)
WBAD = {
    'exceedance-above-100': lambda c, w: w.get_exceedance_waveheight(c.fp('P', 100.5, 1e6)),
    'exceedance-negative': lambda c, w: w.get_exceedance_waveheight(c.fp('P', -1e6, -0.5)),
    'fraction-above-1': lambda c, w: w.highest_waves(c.fp('p', 1.5, 1e6)),
    'fraction-negative': lambda c, w: w.highest_waves(c.fp('p', -1e6, -0.5)),
    'bg-without-height': lambda c, w: w.plot_exceedance_waveheight_Rayleigh(plot_BG=True, water_depth=2.0),
    'bg-without-height-normalised': lambda c, w: w.plot_exceedance_waveheight_Rayleigh(normalize=True, plot_BG=True, water_depth=2.0),
}
SBAD = {
    'crossing-type': lambda c, s: s.get_crossing('sideways'),
    'crossing-empty': lambda c, s: s.get_crossing(''),
    'analysis-type': lambda c, s: s._determine_individual_waves(typeCross='sideways'),
    'analysis-type-min': lambda c, s: s._determine_individual_waves(typeCross='sideways', minimum_wave=1.0),
    'exceedance-above-100': WBAD['exceedance-above-100'],
    'fraction-negative': WBAD['fraction-negative'],
    'bg-without-height': WBAD['bg-without-height'],
}
FR = [0.125 * (i + 1) for i in range(7)]
PBAD = {}
for _g in PQ:
    PBAD[_g + '-above'] = lambda c, o, g=_g: getattr(o, g)(fmin=2.0, fmax=3.0)
    PBAD[_g + '-below'] = lambda c, o, g=_g: getattr(o, g)(fmin=0.03, fmax=0.06)


def rejected(c, f, o, label):
    c.raises(lambda: f(c, o), label + ' is rejected')


def waves(n, bad):
    def g(c):
        h, T = c.real_list('h', n, 0, 16), c.real_list('T', n, 0, 16)
        mk = lambda: c.m.series.WaveHeights(c.vec(h), c.vec(T))
        w = mk()
        before = c.choice('before', ['', 'sort', 'Hs'])
        if before == 'sort':
            w.sort()
        elif before == 'Hs':
            w.get_Hs()
        rejected(c, WBAD[bad], w, bad)
        perm_pairs(c, c.lst(w.hwave), c.lst(w.twave), h, T, f'pairs after {bad}')
        q = c.choice('q', list(WQ))
        e = mk()
        same(c, WQ[q](w), WQ[q](e), f'{q} after {bad}')
        perm_pairs(c, c.lst(w.hwave), c.lst(w.twave), h, T, f'pairs after {bad} and {q}')
    return g


X = [0.5, -1.0, 2.0, -0.25, 1.0, -2.0, 0.75, -0.5, 1.5, -1.25]


def series(bad, pos, n=8):
    def g(c):
        x = X[:n]
        for j in pos:
            x[j] = c.real(f'x{j}', -4, 4)
        t = axis(n)
        kind = c.choice('kind', ['down', 'up', 'min'])

        def mk(m):
            s = m.series.Series(c.vec(t), c.vec(x))
            if kind != 'down':
                s._determine_individual_waves(**(dict(typeCross='up') if kind == 'up' else dict(minimum_wave=2.5)))
            return s
        s = mk(c.m)
        rejected(c, SBAD[bad], s, bad)
        q = c.choice('q', list(SQ))
        e = mk(c.fresh())
        perm_pairs(c, c.lst(s.hwave), c.lst(s.twave), list(c.lst(e.hwave)), list(c.lst(e.twave)), f'waves after {bad}')
        if q == 'waves':
            c.eq(s.nwave, e.nwave, f'number of waves after {bad}')
            c.eq(s.tCross, e.tCross, f'crossings after {bad}')
        else:
            same(c, SQ[q](s), SQ[q](e), f'{q} after {bad}')
        c.eq(c.lst(s.xTime), x, f'record after {bad}')
        c.eq(c.lst(s.time), t, f'time axis after {bad}')
    return g


def spectrum(bad, sym):
    """an empty band raises or gives not-a-number or a height of zero; the object stays as it was"""
    def g(c):
        S = [abs(v) + 0.25 for v in pseudo(7, 3)]
        for j in sym:
            S[j] = c.real(f's{j}', 0.25, 8)
        o = c.m.spectrum.Spectrum(c.vec(FR), c.vec(S))
        before = c.choice('before', ['', 'get_Tps', 'get_Hm0', 'get_Tmm10'])
        if before:
            getattr(o, before)()
        try:
            PBAD[bad](c, o)
        except (ValueError, IndexError, ZeroDivisionError):
            pass
        c.eq(c.lst(o.f), FR, f'frequencies after {bad}')
        c.eq(c.lst(o.sVarDens), S, f'densities after {bad}')
        e = c.fresh().spectrum.Spectrum(c.vec(FR), c.vec(S))
        for q in PQ:
            c.eq(c.val(getattr(o, q)()), c.val(getattr(e, q)()), f'{q} after {bad}')
            c.eq(c.val(getattr(o, q)(0.25, 0.75)), c.val(getattr(e, q)(0.25, 0.75)), f'{q} in a band after {bad}')
    return g


def inputs(c):
    """rejected calls leave the arrays they were given as they were"""
    a = c.real_list('a', 4, 0.25, 4)
    b = c.real_list('b', 3, 0.25, 4)
    va, vb = c.vec(a), c.vec(b)
    bad = c.vec([0.0, 0.5, 1.25, 1.5])
    m = c.m
    mat = c.arr([a, a])
    calls = {
        'sort': lambda: m.time.sort_wave_params(va, vb), 'crossing': lambda: m.time.determine_zero_crossing(va, vb), 'crossing-type': lambda: m.time.determine_zero_crossing(bad, va, 'x'),
        'highest': lambda: m.time.highest_waves_params(va, va, -0.5), 'exceedance': lambda: m.time.exceedance_wave_height(va, 101.0),
        'waves': lambda: m.time.determine_params_individual_waves(c.vec([0.1, 0.2]), vb, va), 'time2freq': lambda: m.spec.time2freq(bad, va), 'nyquist': lambda: m.spec.time2freq_nyquist(bad, va),
        'spectrum': lambda: m.spec.compute_spectrum_time_series(bad, va), 'freq-spectrum': lambda: m.spec.compute_spectrum_freq_series(bad, va, 6), 'moment': lambda: m.wf.compute_moment(bad, va, 1),
        'params': lambda: m.wf.compute_spectrum_params(bad, va), 'jonswap': lambda: m.wf.create_spectrum_jonswap(va, 0.5, 1.0, 3.3, 2), 'averaging': lambda: m.spec.frequency_averaging(mat, mat),
        'unfold': lambda: m.spec.unfold_spectrum(mat, mat, False), 'synthesis': lambda: m.spec.spectrum2timeseries(vb, va, 0.0, 4.0, 0.5), 'object': lambda: m.spectrum.Spectrum(bad, va),
        'series': lambda: m.series.Series(vb, va), 'zs': lambda: m.dec.decompose_linear_ZS(va, c.arr([[v, v] for v in a]), 2.0, c.vec([1.0, 0.5]), c.vec([1.0, 1.0])),
        'zs-weights': lambda: m.dec.decompose_linear_ZS(va, c.arr([[v, v] for v in a]), 2.0, c.vec([0.0, 0.5]), c.vec([1.5, 1.0])), 'tps': lambda: m.wf.compute_tps(mat, mat),
    }
    k = c.choice('call', list(calls))
    c.raises(calls[k], f'{k} is rejected')
    c.eq(c.lst(va), a, f'array after {k}')
    c.eq(c.lst(vb), b, f'array after {k}')
    c.eq(c.lst(bad), [0.0, 0.5, 1.25, 1.5], f'array after {k}')
    c.eq(c.lst(mat), a + a, f'array after {k}')
    # and an accepted call afterwards gives what it gives on its own
    t = [0.0, 0.5, 1.0, 1.5]
    for mod in (c.m,):
        e = c.fresh()
        same(c, mod.wf.compute_moment(c.vec(t), c.vec(a), 1), e.wf.compute_moment(c.vec(t), c.vec(a), 1), f'moment after {k}')
        same(c, mod.spec.compute_spectrum_time_series(c.vec(t), c.vec(a)), e.spec.compute_spectrum_time_series(c.vec(t), c.vec(a)), f'spectrum after {k}')
        same(c, mod.time.determine_zero_crossing(c.vec(t), c.vec([v - 2.0 for v in a])), e.time.determine_zero_crossing(c.vec(t), c.vec([v - 2.0 for v in a])), f'crossings after {k}')


def cases(tier):
    th = tier == 'thorough'
    r = []
    for b in WBAD:
        r.append(Case(f'waves-{b}', waves(3, b), '3 waves', 150))
        r.append(Case(f'waves2-{b}', waves(2, b), '2 waves', 150))
        if th:
            r.append(Case(f'waves4-{b}', waves(4, b), '4 waves', 400))
    for b in SBAD:
        r.append(Case(f'series-{b}', series(b, (5,) if not th else (2, 5)), '8 samples', 200 if not th else 600))
    for b in PBAD:
        r.append(Case(f'spectrum-{b}', spectrum(b, (2,) if not th else (2, 4)), '7 bins', 200 if not th else 600))
    r.append(Case('inputs', inputs, 'rejected calls of 21 kinds', 200))
    return r
