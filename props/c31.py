from .common import *
from .units import unit_cases
from .c05 import sorted_pairs
NOTE = '''Wave-height figures for 1 to 5 symbolic waves (ties included for up to 3) and up to 200 with one symbolic; series of 8 samples with one or two symbolic; spectra of 7 bins with one or two symbolic densities, every sequence of up to two period queries before the plot.'''
ASSUME = ['matplotlib replaced by a stand-in that records what is drawn (replays read the artists of real figures)', 'heights, samples and densities in exact real arithmetic']


def sortcut(c, h):
    """an order of the heights (ties excluded)"""
    for i in range(len(h)):
        for j in range(i):
            if not (isinstance(h[i], float) and isinstance(h[j], float)):
                c.assume_rel(h[i], '!=', h[j])


def line(c, d, k, xs, ys, label, tol=None):
    c.ok(len(d.lines) > k, label + ': curve drawn', f'{len(d.lines)} curves')
    _, x, y = d.lines[k]
    c.eq(len(x), len(xs), label + ': number of points')
    c.eq(len(y), len(ys), label + ': number of points')
    for i in range(len(xs)):
        c._eq1(x[i], xs[i], f'{label}: abscissa {i}', tol)
        c._eq1(y[i], ys[i], f'{label}: ordinate {i}', tol)


def pts(n):
    return [math.sqrt(abs(math.log(k / n))) for k in range(1, n + 1)]


def whdata(c, n, sym, ties, k=0):
    h = [abs(v) + 0.5 + i / 64 for i, v in enumerate(pseudo(n, k))]
    for j in sym:
        h[j] = c.real(f'h{j}', 0.0625, 16)
    if not ties:
        sortcut(c, h)
    return h, [2.0 + 0.125 * ((5 * i) % 7) for i in range(n)]


def make(c, h, T):
    return c.m.series.WaveHeights(c.vec(h), c.vec(T))


def order(h, T):
    return [a for a, _ in sorted_pairs(h, T)]


def exceed(n, sym, ties=True, k=0, first=True):
    def g(c):
        h, T = whdata(c, n, sym, ties, k)
        w = make(c, h, T)
        o = order(h, T)
        if first and c.choice('earlier', [0, 1]):
            w.get_Hs()
            w.plot_exceedance_waveheight()
        d = c.drawn(w.plot_exceedance_waveheight(), 'figure returned')
        c.eq(len(d.lines), 1, 'one curve')
        line(c, d, 0, o, [k / n for k in range(1, n + 1)], 'exceedance curve')
        c.eq(w.hwave, c.vec([a for a, _ in sorted_pairs(h, T)]), 'waves kept')
    return g


TICKS = [100, 50, 20, 10, 5, 2, 1, 0.1, 0.01, 0.001]


def ray(n, sym, ties=True, k=0):
    def g(c):
        h, T = whdata(c, n, sym, ties, k)
        w = make(c, h, T)
        o = order(h, T)
        m = n // 3
        hs = mean(o[:m]) if m else 0.0
        nm = c.choice('normalize', [False, True]) if m else False  # no significant height with fewer than three waves
        d = c.drawn(w.plot_exceedance_waveheight_Rayleigh(normalize=nm), 'figure returned')
        c.eq(len(d.lines), 2, 'two curves')
        u = hs if nm else 1.0
        x = pts(n)
        h2 = hs * math.sqrt(-math.log(0.02)) / math.sqrt(2)
        th = [math.sqrt(math.log(j / (n + 1)) / math.log(0.02)) for j in range(1, n + 1)]
        check(c, d, 0, x, [h2 * v for v in th], u, 'Rayleigh curve')
        check(c, d, 1, x, o, u, 'measured curve')
        ticks(c, d)
    return g


def check(c, d, k, xs, ys, u, label):
    """points (xs, ys / u)"""
    c.ok(len(d.lines) > k, label + ': curve drawn', f'{len(d.lines)} curves')
    _, x, y = d.lines[k]
    c.eq(len(x), len(xs), label + ': number of points')
    c.eq(len(y), len(ys), label + ': number of points')
    for i in range(len(xs)):
        c._eq1(x[i], xs[i], f'{label}: abscissa {i}', 1e-9)
        c._eq1(y[i] * u, ys[i], f'{label}: height {i}', 1e-9)


def ticks(c, d):
    c.ok(d.ticks is not None, 'percentage ticks')
    pos, lab = d.ticks
    c.ok(lab is not None and len(lab) == len(pos), 'a percentage at every tick')
    for p, t in zip(pos, lab):
        v = float(t)
        c._eq1(float(p), math.sqrt(abs(math.log(v / 100))), f'tick labelled {v}', 1e-9)


def replot(c):
    """a series is plotted, analysed anew and plotted again"""
    x = list(X)
    x[5] = c.real('x5', -4, 4)
    t = axis(10)
    s = c.m.series.Series(c.vec(t), c.vec(x))
    nm = c.choice('normalize', [False, True])
    s.plot_exceedance_waveheight_Rayleigh(normalize=nm)
    s.plot_exceedance_waveheight()
    how = c.choice('how', [dict(typeCross='up'), dict(minimum_wave=2.5), dict(typeCross='up', minimum_wave=1.0)])
    s._determine_individual_waves(**how)
    typ = how.get('typeCross', 'down')
    tc = [cross_time(t, x, i, 0.5) for i in crossings(x, typ)]
    w = [v for v in waves(t, x, tc) if v[0] >= how.get('minimum_wave', 0.0)]
    o = order([v[0] for v in w], [v[1] for v in w])
    n = len(o)
    m = n // 3
    if not m:
        return
    d = c.drawn(s.plot_exceedance_waveheight_Rayleigh(normalize=nm), 'figure returned')
    check(c, d, 1, pts(n), o, mean(o[:m]) if nm else 1.0, 'measured curve of the new analysis')
    d = c.drawn(s.plot_exceedance_waveheight(), 'figure returned')
    line(c, d, 0, o, [k / n for k in range(1, n + 1)], 'exceedance curve of the new analysis')
    d = c.drawn(s.plot_hist_waveheight(), 'figure returned')
    if c.sym:
        perm_pairs(c, d.hists[0], [0.0] * len(d.hists[0]), o, [0.0] * n, 'values of the histogram')
    else:
        c.eq(d.hists[0].count, n, 'values of the histogram')


def bg(c):
    n = c.choice('n', [4, 30, 300])
    h = [0.5 + ((7 * i) % n) / (2.0 * n) for i in range(n)]
    h[n // 2] = c.real('h', 1.5, 16)
    T = [3.0] * n
    w = make(c, h, T)
    hm0, dep, cot = c.choice('set', [(2.0, 3.0, 30.0), (1.0, 1.0, 100.0), (4.0, 6.0, 250.0), (1.0, 200.0, 50.0), (0.5, 0.75, 20.0)])
    nm = c.choice('normalize', [False, True])
    H, P = c.m.wf.compute_BattjesGroenendijk_wave_height_distribution(hm0, n, dep, cota_slope=cot)
    hs = w.get_Hs()[0]
    u = hs if nm else 1.0
    d = c.drawn(w.plot_exceedance_waveheight_Rayleigh(normalize=nm, plot_BG=True, water_depth=dep, cota_slope=cot, hm0=hm0), 'figure returned')
    H, P = c.lst(H), c.lst(P)
    k = [i for i, l in enumerate(d.lines) if 'Battjes' in l[0]]
    if H:
        c.eq(len(k), 1, 'one Battjes-Groenendijk curve')
        c.eq(len(d.lines), 3, 'three curves')
        check(c, d, k[0], [math.sqrt(abs(math.log(float(p)))) for p in P], H, u, 'Battjes-Groenendijk curve')
    o = order(h, T)
    check(c, d, len(d.lines) - 1, pts(n), o, u, 'measured curve')


def no_bg(c):
    h, T = whdata(c, 3, (0, 2), True)
    w = make(c, h, T)
    c.raises(lambda: w.plot_exceedance_waveheight_Rayleigh(plot_BG=True, water_depth=2.0), 'Battjes-Groenendijk without a wave height')


def hist(n, sym):
    def g(c):
        h, T = whdata(c, n, sym, True)
        w = make(c, h, T)
        if c.choice('sorted', [0, 1]):
            w.sort()
        d = c.drawn(w.plot_hist_waveheight(), 'figure returned')
        c.eq(len(d.hists), 1, 'one histogram')
        c.eq(len(d.lines), 0, 'nothing else')
        b = d.hists[0]
        if c.sym:
            perm_pairs(c, b, [0.0] * len(b), h, [0.0] * n, 'values of the histogram')
        else:
            c.eq(b.count, n, 'values of the histogram')
            if max(h) > min(h):
                c.eq(b.lo, min(h), 'values of the histogram')
                c.eq(b.hi, max(h), 'values of the histogram')
    return g


X = [0.5, -1.0, 2.0, -0.25, 1.0, -2.0, 0.75, -0.5, 1.5, -1.25]


def series(n, pos, t0=0.0, dt=0.5):
    def g(c):
        x = [X[i % 10] for i in range(n)]
        for j in pos:
            x[j] = c.real(f'x{j}', -4, 4)
        t = axis(n, t0, dt)
        s = c.m.series.Series(c.vec(t), c.vec(x))
        op = c.choice('before', ['', 'Hs', 'up', 'min', 'upcross', 'filter', 'plot'])
        typ, hmin = 'down', 0.0
        if op == 'Hs':
            s.get_Hs(), s.sort()
        elif op == 'up':
            s._determine_individual_waves(typeCross='up')
            typ = 'up'
        elif op == 'min':
            s._determine_individual_waves(minimum_wave=2.5)
            hmin = 2.5
        elif op == 'upcross':
            s.get_crossing('up')
        elif op == 'filter':
            s.get_bandpassfilter(0.1, 0.4)
        elif op == 'plot':
            s.plot(plot_crossing=True)
        d = c.drawn(s.plot(), 'figure returned')
        c.eq(len(d.lines), 1, 'one curve')
        line(c, d, 0, t, x, 'record')
        d = c.drawn(s.plot(plot_crossing=True), 'figure returned')
        c.eq(len(d.lines), 2, 'record and crossings')
        line(c, d, 0, t, x, 'record')
        tc = [cross_time(t, x, i, dt) for i in crossings(x, typ)]
        if hmin == 0.0:
            line(c, d, 1, tc, [0.0] * len(tc), 'crossings')
        else:
            w = waves(t, x, tc)
            keep = [tc[i] for i in range(len(w)) if w[i][0] >= hmin] + tc[-1:]
            line(c, d, 1, keep, [0.0] * len(keep), 'crossings')
    return g


FR = [0.125 * (i + 1) for i in range(7)]
PER = {'get_Tps': ('Tps',), 'get_Tmm10': ('Tmm10',), 'get_Tm02': ('Tm02',), 'get_Tm01': (), 'get_Tp': (), 'get_Hm0': (), 'get_s0p': ('Tps',), 'get_smm10': ('Tmm10',), 'get_Hm0_HF': ('Tmm10',), 'create_series': (), 'Tps-lim': ('Tps',),
       'Tmm10-lim': ('Tmm10',), 'Tm02-lim': ('Tm02',), 'plot': ()}
LIM = dict(fmin=0.25, fmax=0.625)


def spectrum(first, sym=(2,), depth=2):
    def g(c):
        S = [abs(v) + 0.25 for v in pseudo(7, 3)]
        for j in sym:
            S[j] = c.real(f's{j}', 0.25, 8)
        mk = lambda: c.m.spectrum.Spectrum(c.vec(FR), c.vec(S))
        o = mk()
        seq = [first] + ([c.choice('second', list(PER))] if depth > 1 else [])
        want = {}
        for op in seq:
            if op == 'create_series':
                continue
            if op == 'plot':
                o.plot()
                continue
            nm, lim = ('get_' + op[:-4], LIM) if op.endswith('-lim') else (op, {})
            getattr(o, nm)(**lim)
            for p in PER[op]:
                want[p] = c.val(getattr(mk(), 'get_' + p)(**lim))
        tops = c.val(max(S)) if not c.sym else None
        show = c.choice('periods', [True, False])
        d = c.drawn(o.plot(plot_periods=show, xlim=[0.0, 0.75]), 'figure returned')
        line(c, d, 0, FR, S, 'spectrum')
        c.ok(d.xlim is not None and float(d.xlim[0]) == 0.0 and float(d.xlim[1]) == 0.75, 'x-range as asked')
        names = list(want) if show else []
        c.eq(len(d.lines), 1 + len(names), 'period lines')
        for p in names:
            k = [l for l in d.lines if l[0] == p]
            c.eq(len(k), 1, f'one line for {p}')
            _, x, y = k[0]
            c.eq(len(x), 2, f'vertical line at {p}')
            for v in x:
                c._eq1(v * want[p], 1.0, f'line at the inverse of {p}', 1e-7)
            for s in S:
                c.le(s, y[1], f'line of {p} reaches the top')
            c.eq(y[0], 0.0, f'line of {p} starts at zero')
        perm(c, o, S)
    return g


def perm(c, o, S):
    c.eq(o.sVarDens, S, 'densities kept')


def separate(c):
    """figures of two objects are separate, whichever was drawn first"""
    h, T = whdata(c, 3, (0, 1), False)
    w, v = make(c, h, T), make(c, [2 * a for a in h], T)
    a = w.plot_exceedance_waveheight()
    k = c.choice('second', range(3))
    b = (v.plot_exceedance_waveheight, v.plot_exceedance_waveheight_Rayleigh, v.plot_hist_waveheight)[k]()
    d = c.drawn(a, 'figure returned')
    c.eq(len(d.lines), 1, 'first figure kept')
    c.eq(len(d.hists), 0, 'first figure kept')
    o = order(h, T)
    line(c, d, 0, o, [j / 3 for j in (1, 2, 3)], 'first figure kept')
    e = c.drawn(b, 'second figure')
    c.eq(len(e.lines), (1, 2, 0)[k], 'only the second object in the second figure')


PATH = '/nonexistent-dwt/figure one.png'


def saving(c):
    """a figure is written exactly once, to the path asked for, complete; without a path nothing is written"""
    kind = c.choice('kind', ['exc', 'ray', 'raybg', 'hist', 'series', 'seriesc', 'spectrum', 'spectrump'])
    path = c.choice('path', ['', PATH, 'fig.pdf'])
    h, T = whdata(c, 3, (0, 1), True)
    w = make(c, h, T)
    if kind in ('series', 'seriesc'):
        x = list(X)
        x[5] = c.real('x5', -4, 4)
        s = c.m.series.Series(c.vec(axis(10)), c.vec(x))
        f = s.plot(savepath=path, plot_crossing=kind == 'seriesc')
        n = (1 if kind == 'series' else 2, 0)
    elif kind in ('spectrum', 'spectrump'):
        S = [abs(v) + 0.25 for v in pseudo(7, 3)]
        S[2] = c.real('s2', 0.25, 8)
        o = c.m.spectrum.Spectrum(c.vec(FR), c.vec(S))
        o.get_Tps()
        o.get_Tmm10()
        f = o.plot(savepath=path, plot_periods=kind == 'spectrump')
        n = (1 if kind == 'spectrum' else 3, 0)
    else:
        f, n = {'exc': lambda: (w.plot_exceedance_waveheight(savepath=path), (1, 0)), 'ray': lambda: (w.plot_exceedance_waveheight_Rayleigh(savepath=path), (2, 0)),
                'raybg': lambda: (w.plot_exceedance_waveheight_Rayleigh(savepath=path, plot_BG=True, water_depth=3.0, cota_slope=30.0, hm0=2.0), (3, 0)),
                'hist': lambda: (w.plot_hist_waveheight(savepath=path), (0, 1))}[kind]()
    d = c.drawn(f, 'figure returned')
    c.ok((len(d.lines), len(d.hists)) == n, 'what is drawn', f'{len(d.lines)} curves, {len(d.hists)} histograms')
    if path == '':
        c.ok(not d.saved, 'nothing written without a path', repr(d.saved))
    else:
        c.ok(d.saved == [(path, n)], 'written once to the path, with everything drawn', repr(d.saved))


def labels(c):
    """the curves are named after what they show; log scale where exceedance probabilities are plotted"""
    h, T = whdata(c, 6, (0, 1), False)
    w = make(c, h, T)
    d = c.drawn(w.plot_exceedance_waveheight_Rayleigh(plot_BG=True, water_depth=3.0, cota_slope=30.0, hm0=2.0), 'figure returned')
    c.eq(len(d.lines), 3, 'three curves')
    x = pts(6)
    o = order(h, T)
    for nm, xs, ys in d.lines:
        if 'Rayleigh' in nm:
            h2 = mean(o[:2]) * math.sqrt(-math.log(0.02)) / math.sqrt(2)
            for i in range(6):
                c._eq1(ys[i], h2 * math.sqrt(math.log((i + 1) / 7) / math.log(0.02)), f'curve named {nm}: height {i}', 1e-9)
        elif 'Battjes' not in nm:
            for i in range(6):
                c._eq1(ys[i], o[i], f'curve named {nm}: height {i}', 1e-9)
    c.ok(d.yscale == 'linear' and d.xscale == 'linear', 'linear axes')
    d = c.drawn(w.plot_exceedance_waveheight(), 'figure returned')
    c.ok(d.yscale == 'log' and d.xscale == 'linear', 'exceedance probabilities on a logarithmic axis', d.yscale)


def cases(tier):
    th = tier == 'thorough'
    r = []
    for n in (1, 2, 3):
        r.append(Case(f'exceedance-{n}', exceed(n, range(n)), f'{n} waves, ties included', 150))
        r.append(Case(f'rayleigh-{n}', ray(n, range(n)), f'{n} waves, ties included', 150))
    for n, sym in ((4, range(4)), (5, (0, 2, 3)), (7, (1, 5)), (30, (4,)), (200, (77,))) + (((6, range(5)), (1000, (500,))) if th else ()):
        r.append(Case(f'exceedance-{n}', exceed(n, sym, False, n, n < 10), f'{n} waves, {len(sym)} symbolic', 150))
        r.append(Case(f'rayleigh-{n}', ray(n, sym, False, n), f'{n} waves, {len(sym)} symbolic', 150))
    for n, sym in ((1, (0,)), (3, (0, 1, 2)), (6, (1, 4))):
        r.append(Case(f'histogram-{n}', hist(n, sym), f'{n} waves', 150))
    r += [Case('bg', bg, '4, 30, 300 waves, five settings', 200), Case('saving', saving, 'eight figures, three paths', 200), Case('labels', labels, '6 waves, two symbolic', 200), Case('replot', replot, '10 samples, one symbolic, three new analyses', 200), Case('bg-missing', no_bg, '3 waves', 60), Case('separate', separate, 'two objects of 3 waves', 150)]
    for n, pos, t0, dt in ((8, (3,), 0.0, 0.5), (8, (2, 5), 3.0, 0.25), (10, (5,), -20.0, 4.0), (40, (20,), 0.0, 0.5)):
        r.append(Case(f'series-{n}-{len(pos)}-{dt}', series(n, pos, t0, dt), f'{n} samples, {len(pos)} symbolic', 200))
    for op in PER:
        r.append(Case(f'spectrum-{op}', spectrum(op, (2, 4) if th else (2,)), f'7 bins, {op} and any other query before', 200))
    return r
