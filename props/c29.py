from .common import *
from .c25 import TAB, build, flat, s as ser, desc
NOTE = '''Per function: every value of the symbolic samples in the stated ranges, the same numbers as one-dimensional float array, list, column of shape (n,1) and integer array (integer values symbolic in ranges of up to 9 integers), arrays of 2 to 12 values.'''
ASSUME = ['exact real arithmetic; integer arrays follow numpy\'s rules (integer division, truncation on assignment, no negative integer powers)']
TAB = dict(TAB)
TAB['convert_to_vector'] = (TAB['convert_to_vector'][0], lambda m, a: m.eng.convert_to_vector(a[0])[0], TAB['convert_to_vector'][2])
for _k in ('is1darray', 'convert_to_array_type'):
    del TAB[_k]
LAZY = ('jonswap', 'pm-', 'disper')


def same(c, a, b, label):
    a, b = flat(c, a), flat(c, b)
    c.eq(len(a), len(b), label + ': number of values')
    for i, (x, y) in enumerate(zip(a, b)):
        c._eq1(x, y, f'{label}[{i}]', None)


def forms(name):
    """float array, list and column"""
    args, f, fs = TAB[name]

    def g(c):
        if name.startswith(LAZY):
            c.lazy()
        a0 = args(c, 0)
        r0 = f(c.m, build(c, a0, 'vec'))
        shapes(c, r0, name)
        for form in fs:
            if form != 'vec':
                r = f(c.m, build(c, a0, form))
                same(c, r, r0, f'{name}: {form}')
    return g


def shapes(c, r, label):
    """vectors in, vectors out"""
    for v in r if isinstance(r, (tuple, list)) else [r]:
        if hasattr(v, 'shape'):
            c.ok(len(v.shape) <= 1, label + ': shape of the result', str(v.shape))


def mixed(name):
    """one argument a column or a list, the others float arrays"""
    args, f, fs = TAB[name]

    def g(c):
        if name.startswith(LAZY):
            c.lazy()
        a0 = args(c, 0)
        r0 = f(c.m, build(c, a0, 'vec'))
        k = [i for i, v in enumerate(a0) if isinstance(v, list)]
        for form in fs:
            for i in k:
                v = build(c, a0, 'vec')
                v[i] = build(c, [a0[i]], form)[0]
                same(c, f(c.m, v), r0, f'{name}: argument {i} as {form}')
    return g


def ints(c, lo, hi, n, k, sym, name):
    x = [lo + (3 * i + k) % (hi - lo + 1) for i in range(n)]
    for j in sym:
        x[j] = c.int(f'{name}{j}', lo, hi)
    return x


def integer():
    """name -> (integer arguments, call)"""
    E = {}

    def add(name, args, call):
        E[name] = (args, call)
    t = lambda n, d=1: [d * i for i in range(n)]
    u = lambda n: [i + 1 for i in range(n)]
    m = lambda c, n, sym, nm='x': ints(c, -4, 4, n, 1, sym, nm)
    p = lambda c, n, sym, nm='x': ints(c, 1, 6, n, 1, sym, nm)
    add('sort_wave_params', lambda c: [p(c, 4, (0, 2), 'h'), p(c, 4, (1,), 'T')], lambda q, a: q.time.sort_wave_params(*a))
    for typ in ('down', 'up'):
        add('zero_crossing-' + typ, lambda c: [t(6), m(c, 6, (1, 3))], lambda q, a, typ=typ: q.time.determine_zero_crossing(a[0], a[1], typ))
    add('individual_waves', lambda c: [[1, 4, 7], t(9), m(c, 9, (2, 5))], lambda q, a: q.time.determine_params_individual_waves(*a))
    add('highest_waves', lambda c: [sorted(p(c, 1, (0,), 'h') + [7, 8, 9], reverse=False)[::-1] if not c.sym else [9, 8, 7] + p(c, 1, (0,), 'h'), p(c, 4, (1,), 'T')],
        lambda q, a: q.time.highest_waves_params(a[0], a[1], 0.5))
    add('exceedance', lambda c: [[9, 8, 7] + p(c, 1, (0,), 'h')], lambda q, a: q.time.exceedance_wave_height(a[0], 30.0))
    for df in (0.0, 2.0):
        add(f'frequency_averaging-{df}', lambda c: [t(6), m(c, 6, (0, 3, 4))], lambda q, a, df=df: q.spec.frequency_averaging(a[0], a[1], df))
        add(f'spectrum_time-{df}', lambda c: [t(8), m(c, 8, (1, 4))], lambda q, a, df=df: q.spec.compute_spectrum_time_series(a[0], a[1], df / 8))
        add(f'spectrum_freq-{df}', lambda c: [t(5), m(c, 5, (1, 3))], lambda q, a, df=df: q.spec.compute_spectrum_freq_series(a[0], a[1], 8, df))
        add(f'coherence-{df}', lambda c: [t(4), [1, 2, 3, 0], p(c, 4, (1,), 'y')], lambda q, a, df=df: q.spec.coherence(a[0], a[1], a[2], df))
    for odd in (False, True):
        add(f'unfold-{odd}', lambda c: [t(4, 2), m(c, 4, (0, 2, 3))], lambda q, a, odd=odd: q.spec.unfold_spectrum(a[0], a[1], odd))
    add('freq2time', lambda c: [m(c, 5, (0, 2))], lambda q, a: q.spec.freq2time(*a))
    add('time2freq', lambda c: [t(5, 2), m(c, 5, (0, 2))], lambda q, a: q.spec.time2freq(*a))
    add('time2freq_nyquist', lambda c: [t(6), m(c, 6, (0, 2))], lambda q, a: q.spec.time2freq_nyquist(*a))
    add('spectrum2timeseries', lambda c: [u(4), p(c, 4, (1,))], lambda q, a: q.spec.spectrum2timeseries(a[0], a[1], 0, 3, 0.25, 7))
    add('spectrum2timeseries-int', lambda c: [u(4), p(c, 4, (1,))], lambda q, a: q.spec.spectrum2timeseries(a[0], a[1], 1, 4, 1, 7))
    add('applybandfilter', lambda c: [t(6), m(c, 6, (0, 2, 5))], lambda q, a: q.spec.applybandfilter(a[0], a[1], 1.5, 4.0))
    add('bandpassfilter', lambda c: [t(7), m(c, 7, (0, 3))], lambda q, a: q.spec.bandpassfilter(a[0], a[1], 0.2, 0.4))
    add('welch', lambda c: [m(c, 8, (1, 4))], lambda q, a: q.spec.compute_spectrum_welch_wrapper(a[0], 1, 4, 2, 0))
    for ax in (t, u):
        o = 'zero' if ax is t else 'one'
        for j, lim in ((0, ()), (1, ()), (-1, ()), (-2, ()), (3, ()), (2, (2, 4)), (0, (-1.0, 9)), (-1, (1.5, 9.0))):
            add(f'moment-{o}-{j}-{lim}', lambda c, ax=ax: [ax(6), p(c, 6, (1, 4))], lambda q, a, j=j, lim=lim: q.wf.compute_moment(a[0], a[1], j, *lim))
        add('params-' + o, lambda c, ax=ax: [ax(6), [1, 2, 9, p(c, 1, (0,))[0], 1, 1]], lambda q, a: q.wf.compute_spectrum_params(*a))
        add('params-range-' + o, lambda c, ax=ax: [ax(6), [1, 2, 9, p(c, 1, (0,))[0], 1, 1]], lambda q, a: q.wf.compute_spectrum_params(a[0], a[1], 1, 4))
        add('tps-' + o, lambda c, ax=ax: [ax(6), [1, 2, 9, p(c, 1, (0,))[0], 1, 1]], lambda q, a: q.wf.compute_tps(*a))
        add('jonswap-' + o, lambda c, ax=ax: [ax(5)], lambda q, a: q.wf.create_spectrum_jonswap(a[0], 2, 3))
        add('pm-' + o, lambda c, ax=ax: [ax(5)], lambda q, a: q.wf.create_spectrum_piersonmoskowitz(a[0], 2, 3))
    add('tpd', lambda c: [u(6), [1, 2, 9, p(c, 1, (0,))[0], 1, 1]], lambda q, a: q.wf.tpd(*a))
    add('jonswap-object', lambda c: [u(5)], lambda q, a: q.wf.create_spectrum_object_jonswap(a[0], 2, 3))
    add('pm-object', lambda c: [u(5)], lambda q, a: q.wf.create_spectrum_object_piersonmoskowitz(a[0], 2, 3))
    add('jonswap-tail', lambda c: [u(5)], lambda q, a: q.wf.create_spectrum_jonswap(a[0], 2, 3, 3.3, 1))
    add('monotonic', lambda c: [[1, 2, c.int('v', 1, 6), 4]], lambda q, a: q.eng.monotonic_increasing_constant_step(a[0]))
    add('convert_to_vector', lambda c: [p(c, 3, (0,))], lambda q, a: q.eng.convert_to_vector(a[0])[0])
    add('approx_array_index', lambda c: [p(c, 4, (0, 2)), 3], lambda q, a: q.eng.approx_array_index(*a))
    add('approx_array_index-float', lambda c: [p(c, 4, (0, 2)), 2.75], lambda q, a: q.eng.approx_array_index(*a))
    add('disper', lambda c: [[1, 2, 3], 4], lambda q, a: q.disp.disper(*a))
    add('disper-deep', lambda c: [m(c, 4, (0, 2))], lambda q, a: q.disp.disper(a[0], math.inf))
    add('disper-shallow', lambda c: [m(c, 4, (0, 2))], lambda q, a: q.disp.disper(a[0], -4))
    zx = lambda c: [[v, w] for v, w in zip(m(c, 8, (1, 4)), ints(c, -4, 4, 8, 5, (2,), 'y'))]
    add('zs', lambda c: [t(8), zx(c), 5, [0, 2], [1, 1]], lambda q, a: q.dec.decompose_linear_ZS(*a))
    add('WaveHeights', lambda c: [p(c, 3, (0, 2), 'h'), p(c, 3, (1,), 'T')], wh)
    add('Series', lambda c: [t(6), [1, -2, c.int('x2', 1, 4), 3, -1, -2]], se)
    add('Spectrum', lambda c: [u(7), [1, 2, 9, p(c, 1, (0,))[0], 1, 1, 2]], sp)
    return E


def wh(m, a):
    w = m.series.WaveHeights(*a)
    r = [w.hwave, w.twave, w.get_Hmax(), w.get_Hrms(), w.nwave]
    w.sort()
    return r + [w.hwave, w.twave, w.get_Hs(), w.get_exceedance_waveheight(40), w.highest_waves(0.7), w.get_H2p_Rayleigh()]


def se(m, a):
    o = m.series.Series(*a)
    r = [o.time, o.xTime, o.hwave, o.twave, o.tCross, o.get_crossing('up'), o.max(), o.min(), o.mean(), o.var(), o.dt, o.nt]
    q, b = o.get_spectrum_raw(0.0), o.get_bandpassfilter(0.2, 0.4)
    r += [q.f, q.sVarDens, b.time, b.xTime, o.get_fourier_comp()]
    return r + [o.get_Hs(), o.get_skewness(), o.get_asymmetry()]


def sp(m, a):
    o = m.spectrum.Spectrum(*a)
    return [o.f, o.sVarDens, o.nf] + [getattr(o, g)() for g in ('get_Hm0', 'get_Tp', 'get_Tps', 'get_Tmm10', 'get_Tm01', 'get_Tm02', 'get_s0p', 'get_smm10')] \
        + [o.get_Hm0(2, 5), o.get_Tmm10(fmin=2), o.get_Hm0_HF(3), o.get_Hm0_LF(-1, 4), o.get_Hm0(1, 20)]


INT = integer()
COL = {n for n, (_, _, f) in TAB.items() if 'column' in f}
LISTS = {n for n, (_, _, f) in TAB.items() if 'list' in f}
ALIAS = {'monotonic': 'monotonic', 'zs': 'zs'}


def intcase(name):
    args, f = INT[name]
    stem = name.split('-')[0]
    lists = any(n.split('-')[0] == stem for n in LISTS)
    cols = any(n.split('-')[0] == stem for n in COL)

    def g(c):
        if name.startswith(LAZY):
            c.lazy()
        a = args(c)
        fl = [[[v * 1.0 for v in r] for r in x] if isinstance(x, list) and isinstance(x[0], list) else [v * 1.0 for v in x] if isinstance(x, list) else x for x in a]
        r0 = f(c.m, build(c, fl, 'vec'))

        def arr(x):
            return c.arr(x) if isinstance(x[0], list) else c.ivec(x)
        iv = [arr(x) if isinstance(x, list) else x for x in a]
        same(c, f(c.m, iv), r0, f'{name}: integer array')
        for i, x in enumerate(a):
            if isinstance(x, list):
                v = build(c, fl, 'vec')
                v[i] = arr(x)
                same(c, f(c.m, v), r0, f'{name}: argument {i} as integer array')
        if lists:
            same(c, f(c.m, [(c.arr(x) if isinstance(x[0], list) else list(x)) if isinstance(x, list) else x for x in a]), r0, f'{name}: list of integers')
        if cols:
            same(c, f(c.m, [c.arr([[v] for v in x]) if isinstance(x, list) else x for x in a]), r0, f'{name}: column of integers')
    return g


def single(c):
    """a number where a vector of length one is accepted"""
    v = c.real('v', 0.5, 4)
    m = c.m
    f = {
        'convert_to_array_type': lambda x: m.eng.convert_to_array_type(x), 'convert_to_vector': lambda x: m.eng.convert_to_vector(x)[0],
        'freq2time': lambda x: m.spec.freq2time(x), 'frequency_averaging': lambda x: m.spec.frequency_averaging(0.5, x)[1],
        'disper-deep': lambda x: m.disp.disper(x, math.inf), 'disper-shallow': lambda x: m.disp.disper(x, -3.0),
        'sort': lambda x: m.time.sort_wave_params(x, x), 'WaveHeights': lambda x: m.series.WaveHeights(x, x).hwave,
        'tps': lambda x: m.wf.compute_tps(x, x),
    }
    for n, h in f.items():
        if n == 'sort':
            continue
        same(c, h(v), h(c.vec([v])), n)
    k = c.int('k', 1, 5)
    for n, h in f.items():
        if n in ('sort',):
            continue
        same(c, h(k), h(c.vec([k * 1.0])), n + ': integer')


def numbers(c):
    """integer limits, steps and shape values instead of floats"""
    m, S = c.m, [1.0, 2.0, c.real('s', 5, 8), 3.0, 1.0, 1.0]
    f, x = c.vec(axis(6, 1.0, 1.0)), c.vec(S)
    W = m.wf
    same(c, W.compute_moment(f, x, 0, 2, 5), W.compute_moment(f, x, 0.0, 2.0, 5.0), 'moment limits')
    same(c, W.compute_moment(f, x, -1, 2, 9), W.compute_moment(f, x, -1.0, 2.0, 9.0), 'moment with tail')
    same(c, W.compute_spectrum_params(f, x, 2, 5), W.compute_spectrum_params(f, x, 2.0, 5.0), 'parameter limits')
    same(c, m.spec.frequency_averaging(f, x, 2), m.spec.frequency_averaging(f, x, 2.0), 'desired resolution')
    same(c, m.spec.applybandfilter(f, x, 2, 4), m.spec.applybandfilter(f, x, 2.0, 4.0), 'band')
    same(c, m.spec.unfold_spectrum(f, x, 1), m.spec.unfold_spectrum(f, x, True), 'odd flag as number')
    same(c, m.spec.spectrum2timeseries(f, x, 0, 4, 1, 3), m.spec.spectrum2timeseries(f, x, 0.0, 4.0, 1.0, 3), 'synthesis axis')
    o = m.spectrum.Spectrum(f, x)
    for g in ('get_Hm0', 'get_Tp', 'get_Tps', 'get_Tmm10', 'get_Tm01', 'get_Tm02'):
        same(c, getattr(o, g)(2, 5), getattr(o, g)(2.0, 5.0), g + ' limits')


def cases(tier):
    r = []
    for name, (_, _, fs) in TAB.items():
        if len(fs) > 1:
            r.append(Case(f'{name}', forms(name), f'{name}: {", ".join(fs)}', 90))
            r.append(Case(f'mixed-{name}', mixed(name), f'{name}: one argument of another form', 90))
    for name in INT:
        r.append(Case(f'int-{name}', intcase(name), f'{name}: integers', 90))
    r.append(Case('single', single, 'one number', 60))
    r.append(Case('numbers', numbers, 'integer limits', 60))
    return r
