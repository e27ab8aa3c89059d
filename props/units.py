"""The same record in other units: inputs multiplied by powers of two (exact in binary arithmetic) give the same
result multiplied by the corresponding power.  Catches behaviour that depends on the absolute size of values."""
from .common import *

AMP = (2.0 ** -40, 2.0 ** -16, 2.0 ** 16, 2.0 ** 40)
DENS = (2.0 ** -20, 2.0 ** -8, 2.0 ** 16, 2.0 ** 40)
TIME = (2.0 ** -16, 2.0 ** -6, 2.0 ** 6, 2.0 ** 16)


def unit(make, call, units):
    def f(c):
        k = c.choice('unit', list(units))
        inp = make(c)
        A, B = call(c, inp, 1.0), call(c, inp, k)
        for (nm, a, d), (_, b, _) in zip(A, B):
            a, b = c.lst(a), c.lst(b)
            c.eq(len(b), len(a), nm + ': number of values')
            s = k ** -d
            for i, (x, y) in enumerate(zip(a, b)):
                (xr, xi), (yr, yi) = reim(x), reim(y)
                c.eq(yr * s, xr, f'{nm} {i} in another unit')
                if not (isinstance(xi, (int, float)) and isinstance(yi, (int, float)) and xi == yi == 0):
                    c.eq(yi * s, xi, f'{nm} {i} in another unit (imaginary)')
    return f


def sc(v, k):
    return [k * x for x in v]


def rec(n, sym, k=0, lo=-4, hi=4):
    return lambda c: signal(c, n, sym, k, 'x', lo, hi)


def dens(n, sym, k=0, lo=0.0078125, hi=8):
    def m(c):
        S = [abs(v) + 0.25 for v in pseudo(n, k)]
        for j in sym:
            S[j] = c.real(f's{j}', lo, hi)
        return S
    return m


# calls: (c, input, unit) -> [(name, values, degree)]
def crossing(typ, time):
    def g(c, x, k):
        t = axis(len(x), 2.0, 0.5)
        n, tc = c.m.time.determine_zero_crossing(c.vec(sc(t, k) if time else t), c.vec(x if time else sc(x, k)), typ)
        return [('number of waves', n, 0), ('crossings', tc, 1 if time else 0)]
    return g


def waveparams(time):
    def g(c, x, k):
        t = axis(len(x), 2.0, 0.5)
        t, x = (sc(t, k), x) if time else (t, sc(x, k))
        n, tc = c.m.time.determine_zero_crossing(c.vec(t), c.vec(x))
        r = c.m.time.determine_params_individual_waves(tc, c.vec(t), c.vec(x))
        return [(nm, v, (1 if nm[0] == 'T' else 0) if time else (0 if nm[0] == 'T' else 1)) for nm, v in zip(('height', 'Tperiod', 'crest', 'trough', 'Tcrest', 'Ttrough'), r)]
    return g


def series_waves(time):
    def g(c, x, k):
        t = axis(len(x), 2.0, 0.5)
        t, x = (sc(t, k), x) if time else (t, sc(x, k))
        s = c.m.series.Series(c.vec(t), c.vec(x))
        r = s._determine_individual_waves(minimum_wave=1.0 if time else 1.0 * k)
        a, b = (0, 1) if time else (1, 0)
        return [('heights', s.hwave, a), ('periods', s.twave, b), ('count', s.nwave, 0), ('heights above minimum', r[0], a), ('periods above minimum', r[1], b)]
    return g


def wh(c, p, k, which):
    """wave heights in another unit, periods in another unit"""
    h, t = p
    a, b = (sc(h, k), t) if which == 'h' else (h, sc(t, k))
    return a, b, (1, 0) if which == 'h' else (0, 1)


def waves_in(n, sym):
    def m(c):
        h = [abs(v) + 0.25 for v in pseudo(n, 1)]
        for j in sym:
            h[j] = c.real(f'h{j}', 0, 8)
        return h, [2.0 + abs(v) for v in pseudo(n, 2)]
    return m


def sorting(which):
    def g(c, p, k):
        a, b, (da, db) = wh(c, p, k, which)
        r = c.m.time.sort_wave_params(c.vec(a), c.vec(b))
        return [('sorted heights', r[0], da), ('sorted periods', r[1], db)]
    return g


def highest(which):
    def g(c, p, k):
        a, b, (da, db) = wh(c, p, k, which)
        o = c.m.series.WaveHeights(c.vec(a), c.vec(b))
        out = []
        for fr in (0.1, 1 / 3, 0.5, 1.0):
            r = o.highest_waves(fr)
            out += [(f'height of the highest {fr}', r[0], da), (f'period of the highest {fr}', r[1], db)]
        r = o.get_Hs()
        return out + [('Hs', r[0], da), ('Ts', r[1], db), ('H2%', o.get_H2p_Rayleigh(), da)]
    return g


def exceed(which):
    def g(c, p, k):
        a, b, (da, db) = wh(c, p, k, which)
        o = c.m.series.WaveHeights(c.vec(a), c.vec(b))
        return [(f'{q}%', o.get_exceedance_waveheight(q), da) for q in (10, 34, 50, 100)]
    return g


def stats(which):
    def g(c, p, k):
        a, b, (da, db) = wh(c, p, k, which)
        o = c.m.series.WaveHeights(c.vec(a), c.vec(b))
        return [('Hrms', o.get_Hrms(), da), ('Hmax', o.get_Hmax(), da), ('Hs', o.get_Hs()[0], da), ('H2%', o.get_H2p_Rayleigh(), da), ('exceedance', o.get_exceedance_waveheight(40), da)]
    return g


def fourier(c, x, k):
    t, sp = c.vec(axis(len(x))), c.m.spec
    f, X = sp.time2freq(t, c.vec(sc(x, k)))
    g, Y, odd = sp.time2freq_nyquist(t, c.vec(sc(x, k)))
    h, Z = sp.unfold_spectrum(g, Y, odd)
    return [('components', X, 1), ('folded components', Y, 1), ('unfolded components', Z, 1), ('record', sp.freq2time(X), 1), ('record from unfolded', sp.freq2time(Z), 1), ('frequencies', f, 0)]


def freqaxis(c, x, k):
    sp = c.m.spec
    t = c.vec(sc(axis(len(x), 3.0), k))
    f, X = sp.time2freq(t, c.vec(x))
    g, Y, odd = sp.time2freq_nyquist(t, c.vec(x))
    h, Z = sp.unfold_spectrum(g, Y, odd)
    return [('frequencies', f, -1), ('folded frequencies', g, -1), ('unfolded frequencies', h, -1), ('components', X, 0), ('folded components', Y, 0), ('unfolded components', Z, 0)]


def rawspec(time, r=1):
    def g(c, x, k):
        n = len(x)
        t, y = (sc(axis(n), k), x) if time else (axis(n), sc(x, k))
        df = r / (n * 0.5) / (k if time else 1.0) if r > 1 else 0.0
        sp = c.m.spec
        f, S = sp.compute_spectrum_time_series(c.vec(t), c.vec(y), df)
        h, Y, odd = sp.time2freq_nyquist(c.vec(t), c.vec(y))
        u, R = sp.compute_spectrum_freq_series(h, Y, n, df) if not time else (f, S)
        d = 1 if time else 2
        return [('frequencies', f, -1 if time else 0), ('densities', S, d), ('densities from components', R, d)]
    return g


def average(freq):
    def g(c, S, k):
        f = axis(len(S), 0.0, 0.25)
        f, v, q = (sc(f, k), S, k) if freq else (f, sc(S, k), 1.0)
        out = []
        for r in (1, 2, 3):
            a, b = c.m.spec.frequency_averaging(c.vec(f), c.vec(v), 0.25 * r * q)
            out += [(f'frequencies ({r})', a, 1 if freq else 0), (f'densities ({r})', b, 0 if freq else 1)]
        return out
    return g


def coh(c, x, k):
    n = len(x)
    X = [c.cplx(a + 0.5, b) for a, b in zip(x, pseudo(n, 5))]
    Y = [c.cplx(a, b + 0.25) for a, b in zip(pseudo(n, 6), pseudo(n, 7))]
    out = []
    for r in (1, 2):
        for a, b in ((k, 1.0), (1.0, k), (k, k)):
            f, C = c.m.spec.coherence(c.vec(axis(n)), c.vec(sc(X, a)), c.vec(sc(Y, b)), 0.5 * r)
            out.append((f'coherence, blocks of {r}', C, 0))
    return out


def band(time):
    def g(c, x, k):
        n = len(x)
        t, y, u = (sc(axis(n), k), x, k) if time else (axis(n), sc(x, k), 1.0)
        return [(f'filtered {a}-{b}', c.m.spec.bandpassfilter(c.vec(t), c.vec(y), a / u, b / u), 0 if time else 1) for a, b in ((0.1, 0.55), (0.3, 5.0), (-1.0, 0.7))]
    return g


def moment(freq):
    def g(c, S, k):
        f = axis(len(S), 0.25, 0.125)
        f, v, u = (sc(f, k), S, k) if freq else (f, sc(S, k), 1.0)
        out = []
        for m in (-2, -1, 0, 1, 2, 4):
            d = m + 1 if freq else 1
            for a, b in ((None, None), (0.375, 0.8), (0.3, f[-1] / u * 3)):
                lim = () if a is None else (a * u, b * u)
                out.append((f'moment {m} over {a}-{b}', c.m.wf.compute_moment(c.vec(f), c.vec(v), m, *lim), d))
        return out
    return g


GET = ('get_Hm0', 'get_Tp', 'get_Tps', 'get_Tmm10', 'get_Tm01', 'get_Tm02')


def params(freq, names=GET, steep=False):
    def g(c, S, k):
        f = axis(len(S), 0.25, 0.125)
        # densities in the square of the unit
        f, v, u = (sc(f, k), S, k) if freq else (f, sc(S, k * k), 1.0)
        out = []
        for a, b in ((None, None), (0.375 * u, 0.875 * u)):
            lim = () if a is None else (a, b)
            o = c.m.spectrum.Spectrum(c.vec(f), c.vec(v))
            out += [(q, getattr(o, q)(*lim), (0.5 if q == 'get_Hm0' else -1) if freq else (1 if q == 'get_Hm0' else 0)) for q in names]
            r = c.m.wf.compute_spectrum_params(c.vec(f), c.vec(v), *lim)
            out += [('function ' + q, y, (0.5 if q == 'get_Hm0' else -1) if freq else (1 if q == 'get_Hm0' else 0)) for q, y in zip(GET, r) if q in names]
            if steep:
                out += [(q, getattr(o, q)(*lim), 2.5 if freq else 1) for q in ('get_smm10', 'get_s0p')]
        return out
    return g


def peaks(freq):
    def g(c, S, k):
        f = axis(len(S), 0.25, 0.125)
        f, v = (sc(f, k), S) if freq else (f, sc(S, k))
        o = c.m.spectrum.Spectrum(c.vec(f), c.vec(v))
        d = -1 if freq else 0
        return [('Tps', c.m.wf.compute_tps(c.vec(f), c.vec(v)), d), ('TpD', c.m.wf.tpd(c.vec(f), c.vec(v)), d), ('Tp', o.get_Tp(), d), ('Tps of the object', o.get_Tps(), d)]
    return g


def theory(freq):
    def g(c, h, k):
        f = axis(9, 0.125, 0.125)
        out = []
        for fp, gam, tail in ((0.4, 3.3, 0), (0.55, 1.0, 1), (0.3, 7.0, 1)):
            S = c.m.wf.create_spectrum_jonswap(c.vec(sc(f, k) if freq else f), fp * (k if freq else 1.0), h * (1.0 if freq else k), gam, tail)
            out.append((f'JONSWAP {fp}', S, -1 if freq else 2))
        return out
    return g


def one(name, lo, hi):
    return lambda c: c.real(name, lo, hi)


def wavein(c):
    c.lazy()
    return c.real('w', 0.5, 4), c.real('h', 0.0078125, 12000)


def disp(what):
    """w^2 h/g kept"""
    def g(c, p, k):
        w, h = p
        if what == 'time':
            return [('wave number', c.m.disp.disper(c.vec([w * k]), h, 9.81 * k * k), 0), ('number', c.m.disp.disper(w * k, h, 9.81 * k * k), 0)]
        return [('wave number', c.m.disp.disper(c.vec([w]), h * k, 9.81 * k), -1)]
    return g


def zs(what):
    def g(c, x, k):
        n = len(x)
        t, d, h, gg, u = axis(n), [0.0, 0.75, 1.75], 2.0, 9.81, 1.0
        R = [x, pseudo(n, 8), pseudo(n, 9)]
        if what == 'amplitude':
            R, u = [sc(r, k) for r in R], k
        a = c.arr([[r[i] for r in R] for i in range(n)])
        i, r = c.m.dec.decompose_linear_ZS(c.vec(t), a, h, c.vec(d), c.vec([1.0, 0.5, 1.0]))
        return [('incident', i, 1), ('reflected', r, 1)]
    return g


def synth(c, S, k):
    f = axis(len(S), 0.25, 0.25)
    t, x = c.m.spec.spectrum2timeseries(c.vec(f), c.vec(sc(S, k * k)), 0.0, 3.5, 0.5, 3)
    return [('time', t, 0), ('samples', x, 1)]


def synth_time(c, S, k):
    f = axis(len(S), 0.25, 0.25)
    t, x = c.m.spec.spectrum2timeseries(c.vec(sc(f, 1 / k)), c.vec(sc(S, k)), 2.0 * k, 5.5 * k, 0.5 * k, 3)
    return [('time', t, 1), ('samples', x, 0)]


def shape_stats(c, x, k):
    c.lower_bound(variance(x), 1 / 64)
    o = c.m.series.Series(c.vec(axis(len(x))), c.vec(sc(x, k)))
    return [('mean', o.mean(), 1), ('variance', o.var(), 2), ('maximum', o.max(), 1), ('minimum', o.min(), 1), ('skewness', o.get_skewness(), 0), ('asymmetry', o.get_asymmetry(), 0)]


def variance(x):
    m = mean(x)
    return total((v - m) * (v - m) for v in x) / len(x)


def welch(c, x, k):
    o = c.m.series.Series(c.vec(axis(len(x))), c.vec(sc(x, k)))
    a = o.get_spectrum(dfDesired=0.25)
    b = o.get_spectrum(nperseg=8, use_dfDesired=False)
    return [('frequencies', a.f, 0), ('densities', a.sVarDens, 2), ('frequencies, given segments', b.f, 0), ('densities, given segments', b.sVarDens, 2)]


def nearest(c, v, k):
    a = sc([0.5, 1.25, 2.0, 2.25, 7.0, 3.5], k)
    return [('index', c.m.eng.approx_array_index(c.vec(a), v * k), 0)]


def away(c):
    v = c.real('v', -4, 12)
    for x in (0.875, 1.625, 2.125, 2.875, 5.25):
        c.assume(v < x - 1e-6 or v > x + 1e-6)
    return v


def unit_cases(prop):
    L = {
        'C01': [(f'{t}-{u}', rec(6, (0, 2, 3, 5), 1), crossing(t, u == 'time'), TIME if u == 'time' else AMP) for t in ('down', 'up') for u in ('amplitude', 'time')],
        'C02': [('amplitude', rec(7, (1, 3, 4)), waveparams(False), AMP), ('time', rec(7, (1, 3, 4)), waveparams(True), TIME)],
        'C03': [('amplitude', rec(7, (1, 3, 4)), series_waves(False), AMP), ('time', rec(7, (1, 3, 4)), series_waves(True), TIME[:3])],
        'C04': [(w, waves_in(5, (0, 2, 4)), sorting(w), AMP) for w in 'ht'],
        'C05': [(w, waves_in(6, (0, 4)), highest(w), AMP) for w in 'ht'],
        'C06': [(w, waves_in(6, (0, 4)), exceed(w), AMP) for w in 'ht'],
        'C07': [(w, waves_in(6, (0, 4)), stats(w), AMP) for w in 'ht'],
        'C08': [(f'n{n}', rec(n, None), fourier, AMP) for n in (6, 7)],
        'C09': [(f'n{n}', rec(n, (1,)), freqaxis, TIME) for n in (6, 7)],
        'C10': [(f'{u}-n{n}-r{r}', rec(n, None if n < 8 else (1, 3)), rawspec(u == 'time', r), TIME if u == 'time' else AMP) for u in ('amplitude', 'time') for n, r in ((6, 1), (7, 1), (12, 2))],
        'C11': [(u, rec(8, None), average(u == 'freq'), TIME if u == 'freq' else AMP) for u in ('freq', 'density')],
        'C12': [('amplitude', rec(4, (1, 2), 0, 0.0625, 2), coh, (2.0 ** -10, 2.0 ** 10, 2.0 ** 40))],
        'C13': [(f'{u}-n{n}', rec(n, None), band(u == 'time'), TIME if u == 'time' else AMP) for u in ('amplitude', 'time') for n in (6, 7)],
        'C14': [('density', dens(9, range(9), 0, 0, 8), moment(False), AMP), ('frequency', dens(9, range(9), 0, 0, 8), moment(True), TIME)],
        'C15': [('density', dens(8, (2, 5)), params(False, ('get_Hm0', 'get_Tmm10', 'get_Tm01', 'get_Tm02')), (2.0 ** -16, 2.0 ** -8, 2.0 ** 10, 2.0 ** 20)), ('frequency', dens(8, (2, 5)), params(True, ('get_Hm0', 'get_Tmm10', 'get_Tm01', 'get_Tm02')), (2.0 ** -8, 2.0 ** 8))],
        'C16': [('density', dens(8, (2, 5)), params(False, GET, True), (2.0 ** -16, 2.0 ** 20)), ('frequency', dens(8, (2, 5)), params(True, GET, True), (2.0 ** -8, 2.0 ** 8))],
        'C18': [('density', dens(7, (2, 4)), peaks(False), (2.0 ** -24, 2.0 ** -10, 2.0 ** 20, 2.0 ** 40)), ('frequency', dens(7, (2, 4)), peaks(True), (2.0 ** -10, 2.0 ** 10))],
        'C19': [('height', one('hm0', 0.25, 4), theory(False), (2.0 ** -24, 2.0 ** -10, 2.0 ** 10, 2.0 ** 20)), ('frequency', one('hm0', 0.25, 4), theory(True), (2.0 ** -8, 2.0 ** 8))],
        'C20': [(u, wavein, disp(u), (2.0 ** -16, 2.0 ** 16)) for u in ('time', 'length')],
        'C22': [('amplitude', rec(6, None), zs('amplitude'), AMP)],
        'C23': [('amplitude', dens(4, (1, 2)), synth, (2.0 ** -20, 2.0 ** -8, 2.0 ** 20)), ('time', dens(4, (1, 2)), synth_time, (2.0 ** -8, 2.0 ** 8))],
        'C26': [('amplitude', rec(5, (0, 3), 0, 0.25, 2), shape_stats, AMP)],
        'C27': [('amplitude', rec(16, (3, 9), 0, 0.25, 2), welch, AMP)],
        'C30': [('value', away, nearest, AMP)],
    }
    return [Case(f'unit-{n}', unit(m, f, u), f'inputs in {len(u)} other units: {", ".join(f"2^{round(math.log2(x))}" for x in u)}', 100) for n, m, f, u in L.get(prop, ())]
