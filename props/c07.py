from .common import *
from .units import unit_cases
from .c05 import sorted_pairs

NOTE = '''Histories: every operation followed by every operation and every query on wave-height objects of 3 waves (ties included; thorough three operations), every operation and query on series of 8 samples (thorough two operations), renewed wave analyses, pairs of objects; values symbolic within the stated ranges.'''
ASSUME = ['heights, periods and samples in exact real arithmetic', 'plots are drawn on a recording stand-in for matplotlib (replays use the real one)',
          'the Hilbert transform is scipy\'s FFT definition on exact reals; scipy.signal.welch is an uninterpreted function of its arguments']

WH_Q = {
    'Hrms': lambda w: w.get_Hrms(), 'Hmax': lambda w: w.get_Hmax(), 'Hs': lambda w: w.get_Hs(), 'H2p': lambda w: w.get_H2p_Rayleigh(),
    'exc50': lambda w: w.get_exceedance_waveheight(50.0), 'exc100': lambda w: w.get_exceedance_waveheight(100.0),
    'hw70': lambda w: w.highest_waves(0.7), 'hw100': lambda w: w.highest_waves(1.0), 'n': lambda w: w.nwave, 'str': lambda w: str(w),
}
WH_OP = dict(WH_Q)
for _k in ('n', 'str', 'hw100', 'exc100'):
    del WH_OP[_k]
WH_OP.update({
    'sort': lambda w: w.sort(), 'plot_exc': lambda w: w.plot_exceedance_waveheight(),
    'plot_ray': lambda w: w.plot_exceedance_waveheight_Rayleigh(), 'plot_rayn': lambda w: w.plot_exceedance_waveheight_Rayleigh(normalize=True),
    'plot_hist': lambda w: w.plot_hist_waveheight(), 'plot_bg': lambda w: w.plot_exceedance_waveheight_Rayleigh(normalize=True, plot_BG=True, water_depth=5.0, cota_slope=100.0, hm0=2.0),
})
SE_Q = {
    'crossd': lambda s: s.get_crossing(), 'crossu': lambda s: s.get_crossing('up'), 'max': lambda s: s.max(), 'min': lambda s: s.min(), 'mean': lambda s: s.mean(),
    'var': lambda s: s.var(), 'fourier': lambda s: s.get_fourier_comp(), 'raw': lambda s: [s.get_spectrum_raw(0.0).f, s.get_spectrum_raw(0.0).sVarDens],
    'band': lambda s: [s.get_bandpassfilter(0.2, 0.6).xTime, s.get_bandpassfilter(0.2, 0.6).hwave], 'Hmax': WH_Q['Hmax'], 'Hs': WH_Q['Hs'], 'hw70': WH_Q['hw70'],
    'welch': lambda s: [s.get_spectrum(dfDesired=0.5).sVarDens], 'str': lambda s: str(s) + repr(s),
    'n': lambda s: [s.nwave, s.nt, s.dt], 'exc': WH_Q['exc50'], 'Hrms': WH_Q['Hrms'], 'H2p': WH_Q['H2p'], 'skew': lambda s: [s.get_skewness(), s.get_asymmetry()],
}
SE_OP = {**{k: SE_Q[k] for k in ('crossd', 'crossu', 'var', 'raw', 'band', 'Hs', 'welch', 'fourier')}, 'sort': lambda s: s.sort(), 'plot': lambda s: s.plot(),
         'plotc': lambda s: s.plot(plot_crossing=True), 'skew': lambda s: s.get_skewness(), 'asym': lambda s: s.get_asymmetry(), 'plot_exc': WH_OP['plot_exc'],
         'plot_hist': WH_OP['plot_hist'], 'exc': lambda s: s.get_exceedance_waveheight(50.0)}


def flat(c, v):
    if isinstance(v, (tuple, list)):
        r = []
        for x in v:
            r += flat(c, x)
        return r
    if isinstance(v, str):
        return [v]
    return c.lst(v)


def same(c, a, b, label):
    a, b = flat(c, a), flat(c, b)
    c.eq(len(a), len(b), label + ': number of values')
    for i, (x, y) in enumerate(zip(a, b)):
        c._eq1(x, y, f'{label}[{i}]', None)


def wh_data(c, n, hfix=()):
    h, T = c.real_list('h', n, 0, 16), c.real_list('T', n, 0, 16)
    for i, v in hfix:
        h[i] = v
    return h, T


def wh_seq(n, first, depth, hfix=(), ties=True):
    def f(c):
        h, T = wh_data(c, n, hfix)
        if not ties:
            for i in range(n):
                for j in range(i):
                    c.assume_rel(h[i], '!=', h[j])
        mk = lambda: c.m.series.WaveHeights(c.vec(h), c.vec(T))
        w = mk()
        seq = [first] + [c.choice(f'op{i}', [o for o in WH_OP if o != 'plot_bg']) for i in range(depth - 1)]
        for o in seq:
            WH_OP[o](w)
        perm_pairs(c, c.lst(w.hwave), c.lst(w.twave), h, T, f'pairs after {seq}')
        q = c.choice('q', list(WH_Q))
        same(c, WH_Q[q](w), WH_Q[q](mk()), f'{q} after {seq}')
        perm_pairs(c, c.lst(w.hwave), c.lst(w.twave), h, T, f'pairs after {seq} and {q}')
    return f


def two(n):
    """two objects over the same or different data do not influence each other"""
    def f(c):
        h, T = wh_data(c, n)
        g, U = c.real_list('g', n, 0, 16), c.real_list('U', n, 0, 16)
        for a, b in zip(g[1:], g[:-1]):
            c.assume_rel(a, '>', b)
        for a, b in zip(h[1:], h[:-1]):
            c.assume_rel(a, '>', b)
        ha, ta = c.vec(h), c.vec(T)
        share = c.choice('share', [0, 1])
        w = c.m.series.WaveHeights(ha, ta)
        v = c.m.series.WaveHeights(ha, ta) if share else c.m.series.WaveHeights(c.vec(g), c.vec(U))
        gv, Uv = (h, T) if share else (g, U)
        o = c.choice('op', list(WH_OP))
        WH_OP[o](w)
        c.eq(v.hwave, gv, f'heights of another object after {o}')
        c.eq(v.twave, Uv, f'periods of another object after {o}')
        q = c.choice('q', list(WH_Q))
        fresh = c.fresh().series.WaveHeights(c.vec(gv), c.vec(Uv))
        same(c, WH_Q[q](v), WH_Q[q](fresh), f'{q} of another object after {o}')
        c.eq(ha, h, 'arrays of the caller')
        c.eq(ta, T, 'arrays of the caller')
    return f


def order(n):
    """maximum >= significant >= mean, rms is the root mean square"""
    def f(c):
        h, T = wh_data(c, n)
        w = c.m.series.WaveHeights(c.vec(h), c.vec(T))
        hs, hm, hr = w.get_Hs()[0], w.get_Hmax(), w.get_Hrms()
        c.le(hs, hm, 'significant <= maximum')
        c.le(mean(h), hs, 'mean <= significant')
        c.eq(hr * hr, total([x * x for x in h]) / n, 'Hrms squared')
        c.le(0, hr, 'Hrms >= 0')
        for x in h:
            c.le(x, hm, 'maximum', tol=0)
    return f


BGSET = [(2.0, 5.0, 100.0), (30.0, 150.0, 250.0), (1.0, 1.0, 10.0), (0.5, 200.0, 20.0)]


def plot_args(n, pos, k):
    """figures of every kind and setting, few or many waves, then every query"""
    def f(c):
        h = [abs(v) + i / 1024 for i, v in enumerate(pseudo(n, k))]
        T = [1.0 + 0.125 * (i % 40) for i in range(n)]
        for j in pos:
            h[j] = c.real(f'h{j}', 0, 16 if n < 10 else 1)
        a, b = c.vec(h), c.vec(T)
        w = c.m.series.WaveHeights(a, b)
        hm0, dep, cot = c.choice('set', BGSET)
        nm, bg = c.choice('kind', [(False, True), (True, True), (True, False)])
        w.plot_exceedance_waveheight_Rayleigh(normalize=nm, plot_BG=bg, water_depth=dep, cota_slope=cot, hm0=hm0)
        perm_pairs(c, c.lst(w.hwave), c.lst(w.twave), h, T, 'pairs after the figure')
        e = c.m.series.WaveHeights(c.vec(h), c.vec(T))
        for q in ('Hrms', 'Hmax', 'Hs', 'exc50', 'n', 'H2p'):
            same(c, WH_Q[q](w), WH_Q[q](e), f'{q} after the figure')
        c.eq(a, h, 'array of the caller')
        c.eq(b, T, 'array of the caller')
    return f


def wide_seq(n, pos, k):
    """many waves: an operation, then every query"""
    def f(c):
        h = [abs(v) + i / 1024 for i, v in enumerate(pseudo(n, k))]
        T = [1.0 + 0.125 * (i % 40) for i in range(n)]
        for j in pos:
            h[j] = c.real(f'h{j}', 0, 1 if n < 100 else 0.5)
        w = c.m.series.WaveHeights(c.vec(h), c.vec(T))
        o = c.choice('op', [o for o in WH_OP if o != 'plot_bg'])
        WH_OP[o](w)
        perm_pairs(c, c.lst(w.hwave), c.lst(w.twave), h, T, f'pairs after {o}')
        e = c.m.series.WaveHeights(c.vec(h), c.vec(T))
        for q in ('Hrms', 'Hmax', 'Hs', 'exc50', 'hw70', 'n', 'H2p'):
            same(c, WH_Q[q](w), WH_Q[q](e), f'{q} after {o}')
    return f


def wide_order(n, pos, k):
    def f(c):
        h = [abs(v) for v in pseudo(n, k)]
        T = [1.0 + 0.125 * i for i in range(n)]
        for j in pos:
            h[j] = c.real(f'h{j}', 0, 16)
        w = c.m.series.WaveHeights(c.vec(h), c.vec(T))
        hm, hr = w.get_Hmax(), w.get_Hrms()
        c.eq(hr * hr, total([x * x for x in h]) / n, 'Hrms squared')
        hs = w.get_Hs()[0]
        c.le(hs, hm, 'significant <= maximum')
        c.le(mean(h), hs, 'mean <= significant')
        same(c, w.get_Hmax(), hm, 'maximum again')
        same(c, w.get_Hs()[0], hs, 'significant again')
        same(c, w.get_Hrms(), hr, 'rms again')
        perm_pairs(c, c.lst(w.hwave), c.lst(w.twave), h, T, 'pairs')
    return f


X = [0.5, -1.0, 2.0, -0.25, 1.0, -2.0, 0.75, -0.5, 1.5, -1.25]


def se_seq(first, depth, pos, n=8):
    def f(c):
        x = X[:n]
        for j in pos:
            x[j] = c.real(f'x{j}', -4, 4)
        t = [0.5 * i for i in range(n)]
        mk = lambda: c.m.series.Series(c.vec(t), c.vec(x))
        s = mk()
        h, T = list(c.lst(s.hwave)), list(c.lst(s.twave))
        seq = [first] + [c.choice(f'op{i}', list(SE_OP)) for i in range(depth - 1)]
        for o in seq:
            SE_OP[o](s)
        c.eq(s.time, t, f'time axis after {seq}')
        c.eq(s.xTime, x, f'record after {seq}')
        perm_pairs(c, c.lst(s.hwave), c.lst(s.twave), h, T, f'waves after {seq}')
        q = c.choice('q', list(SE_Q))
        same(c, SE_Q[q](s), SE_Q[q](mk()), f'{q} after {seq}')
        c.eq(s.xTime, x, f'record after {seq} and {q}')
        c.eq(s.time, t, f'time axis after {seq} and {q}')
    return f


def se_two(c):
    x = X[:6] + [c.real('x6', -4, 4), 1.0]
    y = [-v for v in X[1:7]] + [c.real('y6', -4, 4), -1.0]
    t = [0.5 * i for i in range(8)]
    u = [10 + 0.25 * i for i in range(8)]
    a = c.m.series.Series(c.vec(t), c.vec(x))
    b = c.m.series.Series(c.vec(u), c.vec(y))
    h, T = list(c.lst(b.hwave)), list(c.lst(b.twave))
    o = c.choice('op', list(SE_OP))
    SE_OP[o](a)
    c.eq(b.hwave, h, f'heights of another series after {o}')
    c.eq(b.twave, T, f'periods of another series after {o}')
    q = c.choice('q', list(SE_Q))
    same(c, SE_Q[q](b), SE_Q[q](c.fresh().series.Series(c.vec(u), c.vec(y))), f'{q} of another series after {o}')


def reanalysis(n, pos):
    """queries before re-running the wave analysis leave no trace after it"""
    def f(c):
        x = X[:n]
        for j in pos:
            x[j] = c.real(f'x{j}', -4, 4)
        t = [0.5 * i for i in range(n)]
        kind = c.choice('kind', [('up', 0), ('down', 2.5)])

        def again(s):
            s._determine_individual_waves(typeCross=kind[0], minimum_wave=kind[1])
            return s
        mk = lambda: again(c.m.series.Series(c.vec(t), c.vec(x)))
        o = c.choice('op', ['Hrms', 'Hmax', 'Hs', 'H2p', 'exc50', 'hw70', 'sort', 'plot_ray', 'plotc'])
        q = c.choice('q', list(WH_Q))
        s = c.m.series.Series(c.vec(t), c.vec(x))
        {**WH_OP, **SE_OP}[o](s)
        again(s)
        e = mk()
        perm_pairs(c, c.lst(s.hwave), c.lst(s.twave), list(c.lst(e.hwave)), list(c.lst(e.twave)), f'waves of the new analysis after {o}')
        if e.nwave:
            same(c, WH_Q[q](s), WH_Q[q](e), f'{q} after {o} and a new analysis')
    return f


def cases(tier):
    th = tier == 'thorough'
    r = []
    r.append(Case('reanalysis', reanalysis(8, (5,) if not th else (2, 5)), '8 samples, one or two symbolic: an operation, a new wave analysis, any query', 200 if not th else 1500))
    for n in (1, 2):
        r.append(Case(f'waves-n{n}', lambda c, n=n: wh_seq(n, c.choice('first', list(WH_OP)), 1)(c), f'{n} waves, one operation, any query', 100))
    r += [Case(f'two-n{n}', two(n), f'two objects of {n} waves', 100) for n in (3,)]
    r += [Case(f'order-n{n}', order(n), f'{n} waves', 100) for n in (3, 4) + ((5, 6) if th else ())]
    r += [Case(f'order-wide{n}', wide_order(n, pos, n), f'{n} waves, those at {pos} symbolic', 100) for n, pos in ((7, (0, 6)), (21, (5,)), (100, (99,)), (300, (0,)))]
    for n, pos in ((4, (0, 2)), (60, (7,))):
        r.append(Case(f'plot-args-{n}', plot_args(n, pos, n), f'{n} waves, those at {pos} symbolic, twelve settings of the Rayleigh figure', 120))
    for n, pos in ((60, (59,)), (150, (70,))):
        r.append(Case(f'waves-wide{n}', wide_seq(n, pos, n), f'{n} waves, one symbolic, any operation, then the queries', 120))
    for o in SE_OP:
        r.append(Case(f'series-{o}', se_seq(o, 1 if not th else 2, (5,) if not th else (2, 5)), f'8 samples, one symbolic, {o} then any query' if not th else f'8 samples, two symbolic, {o}, any operation, any query', 200 if not th else 1500))
    r.append(Case('series-two', se_two, 'two series of 8 samples', 200))
    for o in WH_OP:
        r.append(Case(f'waves-{o}', wh_seq(3, o, 2 if not th else 3, ((1, 2.0),)), f'3 waves (ties included), {o} then any operation then any query' if not th else f'3 waves, {o}, any two operations, any query', 200 if not th else 1500))
        r.append(Case(f'waves4-{o}', wh_seq(4, o, 1 if not th else 2, ((1, 2.0), (3, 5.0))), f'4 waves (ties included), {o} then any query', 200 if not th else 1500))
    r += unit_cases('C07')
    return r
