from .common import *
NOTE = '''Per function: every value of the symbolic samples in the stated ranges (2 to 6 of them), arrays of 2 to 12 values as one-dimensional arrays, columns and lists; three calls on the same array objects with other data of the same shape written into them in between, plus a call on fresh arrays.'''
ASSUME = ['exact real arithmetic', 'scipy.signal.welch is an uninterpreted function of its arguments, special functions of the wave height distribution are computed on concrete values']
KEEP = ('moment', 'params')


def s(c, k, n, sym=(0,), lo=0.25, hi=4, name='a', signed=False):
    """data set k: k = 0 has symbolic values"""
    x = pseudo(n, 3 * k + len(name))
    if not signed:
        x = [abs(v) + 0.25 for v in x]
    if k == 0:
        for j in sym:
            x[j] = c.real(f'{name}{j}', lo, hi)
    return x


def desc(c, k, n):
    """descending heights"""
    h = [n - i + 0.25 * k for i in range(n)]
    if k == 0:
        h[1] = c.real('h1', h[2], h[0])
    return h


def cp(c, k, n, sym, name='z'):
    a, b = s(c, k, n, sym, -2, 2, name + 'r', True), s(c, k, n, sym, -2, 2, name + 'imag', True)
    return [c.cplx(x, y) for x, y in zip(a, b)]


def tab():
    """name -> (arguments of data set k: lists become arrays, call on the package, forms allowed)"""
    V, A = ('vec', 'column', 'list'), ('vec', 'list')
    E = {}

    def add(name, args, call, forms=V):
        E[name] = (args, call, forms)
    ax = lambda n, k=0: axis(n, 0.25 * (k + 1), 0.25 * (k + 1))
    tt = lambda n, k=0: axis(n, 0.0, 0.5 if k == 0 else 0.25)
    # time domain
    add('sort_wave_params', lambda c, k: [s(c, k, 4, (0, 2), name='h'), s(c, k, 4, (1,), name='TT')], lambda m, a: m.time.sort_wave_params(*a), A)
    for typ in ('down', 'up'):
        add('zero_crossing-' + typ, lambda c, k: [tt(6, k), s(c, k, 6, (1, 2, 4), -2, 2, 'x', True)],
            lambda m, a, typ=typ: m.time.determine_zero_crossing(a[0], a[1], typ), ('vec',))
    add('individual_waves', lambda c, k: [[0.25 + 0.125 * k, 2.25, 3.75], tt(9 + k * 8)[:9] if k == 0 else axis(9, 0.0, 0.5), s(c, k, 9, (2, 6), -2, 2, 'x', True)],
        lambda m, a: m.time.determine_params_individual_waves(*a), ('vec',))
    add('highest_waves', lambda c, k: [desc(c, k, 5), s(c, k, 5, (0, 1), name='T')], lambda m, a: m.time.highest_waves_params(a[0], a[1], 0.5), A)
    add('exceedance', lambda c, k: [desc(c, k, 5)], lambda m, a: m.time.exceedance_wave_height(a[0], 30.0), A)
    # spectral
    for df in (0.0, 0.5):
        add(f'frequency_averaging-{df}', lambda c, k: [axis(6, 0.0, 0.25), s(c, k, 6, (0, 3, 5))], lambda m, a, df=df: m.spec.frequency_averaging(a[0], a[1], df))
        add(f'coherence-{df}', lambda c, k: [axis(4, 0.0, 0.25), cp(c, k, 4, (1,), 'y')[:3] + [0.0], cp(c, k, 4, (), 'zz')],
            lambda m, a, df=df: m.spec.coherence(a[0], a[1], a[2], df), ('vec',))
        add(f'spectrum_time-{df}', lambda c, k: [tt(8, k), s(c, k, 8, (1, 4, 6), -2, 2, 'x', True)], lambda m, a, df=df: m.spec.compute_spectrum_time_series(a[0], a[1], df))
        add(f'spectrum_freq-{df}', lambda c, k: [axis(5, 0.0, 0.25 * (k + 1)), cp(c, k, 5, (1, 3))],
            lambda m, a, df=df: m.spec.compute_spectrum_freq_series(a[0], a[1], 8, df), ('vec', 'column'))
    for odd in (False, True):
        add(f'unfold-{odd}', lambda c, k: [axis(4, 0.0, 0.25 * (k + 1)), cp(c, k, 4, (0, 2, 3))], lambda m, a, odd=odd: m.spec.unfold_spectrum(a[0], a[1], odd))
    add('freq2time', lambda c, k: [cp(c, k, 5, (0, 2, 3))], lambda m, a: m.spec.freq2time(a[0]))
    add('time2freq', lambda c, k: [tt(5, k), s(c, k, 5, (0, 2, 3), -2, 2, 'x', True)], lambda m, a: m.spec.time2freq(*a))
    add('time2freq_nyquist', lambda c, k: [tt(6, k), s(c, k, 6, (0, 2, 3), -2, 2, 'x', True)], lambda m, a: m.spec.time2freq_nyquist(*a))
    add('spectrum2timeseries', lambda c, k: [axis(5, 0.25, 0.25), s(c, k, 5, (1, 2))], lambda m, a: m.spec.spectrum2timeseries(a[0], a[1], 0.0, 3.0, 0.5, 7), V)
    add('welch', lambda c, k: [s(c, k, 8, (1, 4), -2, 2, 'x', True)], lambda m, a: m.spec.compute_spectrum_welch_wrapper(a[0], 0.5, 4, 2, 0), ('vec',))
    add('applybandfilter', lambda c, k: [axis(6, 0.0, 0.25 * (k + 1)), cp(c, k, 6, (0, 2, 5))], lambda m, a: m.spec.applybandfilter(a[0], a[1], 0.375, 1.0), ('vec',))
    add('bandpassfilter', lambda c, k: [tt(7, k), s(c, k, 7, (0, 3), -2, 2, 'x', True)], lambda m, a: m.spec.bandpassfilter(a[0], a[1], 0.3, 0.9))
    # parameters
    for j, lim in ((0, ()), (1, ()), (2, (0.4, 1.1)), (-1, ()), (0, (-1.0, 4.0)), (-1, (0.4, 4.0))):
        add(f'moment-{j}-{lim}', lambda c, k: [axis(6, 0.0, 0.25 * (k + 1)), s(c, k, 6, (1, 2, 5))], lambda m, a, j=j, lim=lim: m.wf.compute_moment(a[0], a[1], j, *lim))
    add('params', lambda c, k: [ax(6, k), s(c, k, 6, (2, 3), 5, 8)], lambda m, a: m.wf.compute_spectrum_params(*a))
    add('params-range', lambda c, k: [ax(6, k), s(c, k, 6, (2, 3), 5, 8)], lambda m, a: m.wf.compute_spectrum_params(a[0], a[1], 0.5, 1.25))
    add('params-zero', lambda c, k: [axis(6, 0.0, 0.25), s(c, k, 6, (2, 3), 5, 8)], lambda m, a: m.wf.compute_spectrum_params(*a))
    add('tpd', lambda c, k: [ax(6, k), s(c, k, 6, (2, 3), 5, 8)], lambda m, a: m.wf.tpd(*a))
    add('tps', lambda c, k: [ax(6, k), s(c, k, 6, (2, 3), 5, 8)], lambda m, a: m.wf.compute_tps(*a))
    for lf in (0, 1):
        add(f'jonswap-{lf}', lambda c, k: [axis(5, 0.0, 0.25 * (k + 1)), c.real('fp', 0.3, 0.9) if k == 0 else 0.6, c.real('hm0', 0.5, 4) if k == 0 else 1.5],
            lambda m, a, lf=lf: m.wf.create_spectrum_jonswap(a[0], a[1], a[2], 3.3, lf))
        add(f'pm-{lf}', lambda c, k: [ax(5, k), 0.6, c.real('hm0', 0.5, 4) if k == 0 else 1.5],
            lambda m, a, lf=lf: m.wf.create_spectrum_piersonmoskowitz(a[0], a[1], a[2], 1.0, lf))
    add('jonswap-object', lambda c, k: [ax(5, k), 0.6, c.real('hm0', 0.5, 4) if k == 0 else 1.5], lambda m, a: m.wf.create_spectrum_object_jonswap(a[0], a[1], a[2]))
    add('pm-object', lambda c, k: [ax(5, k), 0.6, c.real('hm0', 0.5, 4) if k == 0 else 1.5], lambda m, a: m.wf.create_spectrum_object_piersonmoskowitz(a[0], a[1], a[2]))
    # core
    add('convert_to_array_type', lambda c, k: [s(c, k, 4, (0, 2))], lambda m, a: m.eng.convert_to_array_type(a[0]))
    add('convert_to_vector', lambda c, k: [s(c, k, 4, (0, 2))], lambda m, a: m.eng.convert_to_vector(a[0]))
    add('monotonic', lambda c, k: [s(c, k, 4, (1,))], lambda m, a: m.eng.monotonic_increasing_constant_step(a[0]), A)
    add('is1darray', lambda c, k: [s(c, k, 4, (1,))], lambda m, a: m.eng.is1darray(a[0]), ('vec', 'column'))
    add('approx_array_index', lambda c, k: [s(c, k, 4, (1, 2)), c.real('v', 0, 4) if k == 0 else 1.0], lambda m, a: m.eng.approx_array_index(*a), A)
    add('disper', lambda c, k: [[0.25, c.real('w', 0.5, 2) if k == 0 else 1.0], 3.0], lambda m, a: m.disp.disper(*a), A)
    add('disper-4', lambda c, k: [s(c, k + 1, 4), 3.0 + k], lambda m, a: m.disp.disper(*a), A)
    add('disper-depth', lambda c, k: [[1.0 + k], c.real('h', 1, 8) if k == 0 else 3.0], lambda m, a: m.disp.disper(*a), A)
    add('disper-deep', lambda c, k: [s(c, k, 3, (0, 2))], lambda m, a: m.disp.disper(a[0], math.inf), A)
    add('disper-shallow', lambda c, k: [s(c, k, 3, (0, 2))], lambda m, a: m.disp.disper(a[0], -4.0), A)
    zx = lambda c, k: [[v, w] for v, w in zip(s(c, k, 8, (1, 4), -2, 2, 'x', True), s(c, k, 8, (2,), -2, 2, 'yy', True))]
    add('zs', lambda c, k: [axis(8, 0.0, 1.0), zx(c, k), 5.0, [0.5, 2.5 + k], [1.0, 0.75]], lambda m, a: m.dec.decompose_linear_ZS(*a), ('vec', 'list'))
    # objects
    add('WaveHeights', lambda c, k: [s(c, k, 3, (0, 2), name='h'), s(c, k, 3, (1,), name='TT')], wh)
    add('Series', lambda c, k: [tt(6, k), [0.5, -1.0 - k, c.real('x2', 0.5, 2) if k == 0 else 1.0, 0.75, -0.5, -1.25]], se)
    add('Spectrum', lambda c, k: [axis(7, 0.125, 0.125), s(c, k, 6, (0, 5), 0.25, 0.5)[:2] + [6.0, 7.0, 3.0 + k] + s(c, k, 6, (0, 5), 0.25, 0.5, 'bb')[:2]], sp)
    return E


def wh(m, a):
    w = m.series.WaveHeights(*a)
    r = [w.hwave, w.twave, w.get_Hmax(), w.get_Hrms()]
    w.sort()
    return r + [w.hwave, w.twave, w.get_Hs(), w.get_exceedance_waveheight(40.0), w.highest_waves(0.7), w.get_H2p_Rayleigh()]


def se(m, a):
    o = m.series.Series(*a)
    r = [o.time, o.xTime, o.hwave, o.twave, o.tCross, o.get_crossing('up'), o.max(), o.min(), o.mean(), o.var(), o.get_fourier_comp()]
    q, b = o.get_spectrum_raw(0.0), o.get_bandpassfilter(0.2, 0.6)
    r += [q.f, q.sVarDens, b.time, b.xTime]
    for k in (dict(minimum_wave=0.5), dict(typeCross='up'), {}):
        o._determine_individual_waves(**k)
    o.sort()
    return r + [o.get_Hs(), o.get_skewness(), o.get_asymmetry(), o.hwave]


def sp(m, a):
    o = m.spectrum.Spectrum(*a)
    return [o.f, o.sVarDens] + [getattr(o, g)() for g in ('get_Hm0', 'get_Tp', 'get_Tps', 'get_Tmm10', 'get_Tm01', 'get_Tm02', 'get_s0p', 'get_smm10')] \
        + [o.get_Hm0(0.25, 0.75), o.get_Tmm10(fmin=0.25), o.get_Hm0_HF(0.375), o.get_Hm0_LF(-1.0, 0.5), o.sVarDens]


TAB = tab()


def flat(c, v):
    if isinstance(v, (tuple, list)):
        r = []
        for x in v:
            r += flat(c, x)
        return r
    if hasattr(v, 'xTime'):
        return flat(c, [v.time, v.xTime, v.hwave, v.twave])
    if hasattr(v, 'sVarDens'):
        return flat(c, [v.f, v.sVarDens])
    return c.lst(v)


def same(c, a, b, label):
    a, b = flat(c, a), flat(c, b)
    c.eq(len(a), len(b), label + ': number of values')
    for i, (x, y) in enumerate(zip(a, b)):
        c._eq1(x, y, f'{label}[{i}]', None)


def build(c, args, form):
    r = []
    for a in args:
        if not isinstance(a, list):
            r.append(a)
        elif isinstance(a[0], list):
            r.append(c.arr(a))
        elif form == 'vec':
            r.append(c.vec(a))
        elif form == 'column':
            r.append(c.arr([[v] for v in a]))
        else:
            r.append(list(a))
    return r


def put(arrs, args):
    """write other data into the same array objects"""
    for a, v in zip(arrs, args):
        if isinstance(v, list):
            if isinstance(a, list):
                a[:] = v
            elif isinstance(v[0], list):
                a[:, :] = v
            elif len(a.shape) == 2:
                a[:, 0] = v
            else:
                a[:] = v
    return [a if isinstance(v, list) else v for a, v in zip(arrs, args)]


def kept(c, arrs, args, label):
    for i, (a, v) in enumerate(zip(arrs, args)):
        if isinstance(v, list):
            want = [x for row in v for x in row] if isinstance(v[0], list) else v
            got = c.lst(a)
            c.eq(len(got), len(want), f'{label}: size of argument {i}')
            if not isinstance(a, list) and not isinstance(v[0], list):
                c.ok(tuple(a.shape) in ((len(v),), (len(v), 1)), f'{label}: shape of argument {i}')
            for j, (x, y) in enumerate(zip(got, want)):
                c._eq1(x, y, f'{label}: argument {i}[{j}]', 0)


def call(name, form):
    args, f, _ = TAB[name]

    def g(c):
        if name in ('jonswap-0', 'jonswap-1', 'jonswap-object', 'pm-object', 'pm-0', 'pm-1', 'disper', 'disper-depth'):
            c.lazy()
        a0, a1 = args(c, 0), args(c, 1)
        m = c.m
        v = build(c, a0, form)
        r0 = f(m, v)
        kept(c, v, a0, 'after the call')
        r0 = flat(c, r0)
        v = put(v, a1)
        r1 = flat(c, f(m, v))
        kept(c, v, a1, 'after the second call')
        v = put(v, a0)
        same(c, f(m, v), r0, 'same result again')
        kept(c, v, a0, 'after the third call')
        w = build(c, a1, form)
        same(c, f(m, w), r1, 'same result on fresh arrays')
    return g


def first(m, f, v):
    try:
        return f(m, v)
    except (ValueError, IndexError, AssertionError, ZeroDivisionError):
        return None


MODES = ('reversed', 'rotated', 'last', 'first', 'inner', 'doubled', 'scalars')


def vary(a, mode):
    if not isinstance(a, list):
        return a * 1.25 if mode == 'scalars' else a
    if mode == 'reversed':
        return a[::-1]
    if mode == 'rotated':
        return a[1:] + a[:1]
    if isinstance(a[0], list) or len(a) < 2:
        return a
    if mode == 'last':
        return a[:-1] + [a[-1] * 1.25]
    if mode == 'first':
        return [a[0] * 0.75 + 0.0625] + a[1:]
    if mode == 'inner':
        k = len(a) // 2
        return a[:k] + [a[k] * 1.125 - 0.03125] + a[k + 1:]
    if mode == 'doubled':
        return [2 * x for x in a]
    return a


def history(name, form):
    """after a call with similar data of the same size: the result of a package that has seen no call"""
    args, f, _ = TAB[name]

    def g(c):
        if name in ('jonswap-0', 'jonswap-1', 'jonswap-object', 'pm-object', 'pm-0', 'pm-1', 'disper', 'disper-depth'):
            c.lazy()
        a0 = args(c, 1 if name in ('disper', 'disper-depth') else 0)
        i = c.choice('argument', [None] + [j for j, a in enumerate(a0) if isinstance(a, list)])
        mode = c.choice('changed', [q for q in MODES if i is None or q != 'scalars'])
        w = [vary(a, mode) if i is None or i == j else a for j, a in enumerate(a0)]
        m = c.m
        first(m, f, build(c, w, form))
        r = first(m, f, build(c, a0, form))
        n = first(c.fresh(), f, build(c, a0, form))
        c.ok((r is None) == (n is None), 'same outcome as without history')
        if r is not None:
            same(c, r, n, 'same result as without history')
    return g


def chain(names, form='vec'):
    """calls of other functions in between"""
    def g(c):
        n = c.choice('name', list(names))
        args, f, _ = TAB[n]
        a0 = args(c, 0)
        v = build(c, a0, form)
        r0 = flat(c, f(c.m, v))
        for o in names:
            b, h, _ = TAB[o]
            h(c.m, build(c, b(c, 1), form))
            h(c.m, build(c, b(c, 2), form))
        kept(c, v, a0, 'after other calls')
        same(c, f(c.m, v), r0, f'{n}: same result after other calls')
    return g


def shared(c):
    """one array given to several functions, an object and a method"""
    x = [0.5, -1.0, c.real('x2', 0.5, 2), 0.75, -0.5, -1.25, c.real('x6', 0.25, 1), -0.5]
    t = axis(8)
    tv, xv = c.vec(t), c.vec(x)
    o = c.m.series.Series(tv, xv)
    c.m.spec.bandpassfilter(tv, xv, 0.2, 0.6)
    c.m.spec.compute_spectrum_time_series(tv, xv, 0.25)
    c.m.time.determine_zero_crossing(tv, xv)
    o.get_bandpassfilter(0.2, 0.6)
    o.sort()
    o.get_spectrum_raw(0.25)
    o._determine_individual_waves('up', 0.3, 0.25)
    c.m.series.Series(tv, xv)
    kept(c, [tv, xv], [t, x], 'shared arrays')
    kept(c, [o.time, o.xTime], [t, x], 'arrays of the object')


def bg(c):
    """wave height distribution: numbers only"""
    from itertools import product
    hm0 = c.choice('hm0', [0.5, 1.0, 3.0])
    h = c.choice('h', [1.0, 2.0, 4.0])
    r = c.m.wf.compute_BattjesGroenendijk_wave_height_distribution(hm0, 1000, h)
    r = flat(c, r)
    for a, b, k in product((1.0, 2.5), (1.5, 3.0), (30.0, 250.0)):
        c.m.wf.compute_BattjesGroenendijk_wave_height_distribution(a, 500, b, k)
    same(c, c.m.wf.compute_BattjesGroenendijk_wave_height_distribution(hm0, 1000, h), r, 'same result')


def zs_series(c):
    def mk(k):
        return [c.m.series.Series(c.vec(axis(8, 0.0, 1.0)), c.vec([0.5, -1.0, 1.0, -0.5, 0.75, -1.25, 0.5, (c.real('x7', -1, -0.5) if k == 0 and i == 0 else -0.25 - k - i)])) for i in range(2)]
    o = mk(0)
    before = [flat(c, v) for v in o]
    args = [0.25, 2.25], [1.0, 0.75]
    x, w = build(c, list(args), c.choice('form', ['vec', 'list']))
    ids = [id(v) for v in o]
    r = flat(c, c.m.dec.decompose_linear_ZS_series(o, 5.0, x, w))
    kept(c, [x, w], args, 'positions and weights')
    c.ok([id(v) for v in o] == ids, 'list of series kept')
    for v, b in zip(o, before):
        same(c, v, b, 'records kept')
    c.m.dec.decompose_linear_ZS_series(mk(1), 5.0, c.vec([0.0, 3.0]), c.vec([1.0, 0.5]))
    same(c, c.m.dec.decompose_linear_ZS_series(o, 5.0, x, w), r, 'same result')


def cases(tier):
    r = []
    for name, (_, _, forms) in TAB.items():
        for form in forms:
            r.append(Case(f'{name}-{form}', call(name, form), f'{name}, arguments as {form}', 90))
    for name, (_, _, forms) in TAB.items():
        for form in forms[:1]:
            r.append(Case(f'history-{name}-{form}', history(name, form), f'{name} after a call with similar data of the same size, arguments as {form}', 90))
    r.append(Case('chain-spectral', chain(['frequency_averaging-0.5', 'unfold-True', 'freq2time', 'time2freq', 'time2freq_nyquist', 'spectrum_time-0.5', 'spectrum_freq-0.5',
                                           'bandpassfilter', 'applybandfilter', 'unfold-False', 'spectrum2timeseries', 'coherence-0.5']), 'twelve spectral functions', 120))
    r.append(Case('chain-params', chain(['moment-0-()', 'moment--1-()', 'moment-0-(-1.0, 4.0)', 'moment--1-(0.4, 4.0)', 'tps', 'tpd', 'params', 'params-range', 'params-zero']),
                  'nine parameter functions', 120))
    r.append(Case('chain-time', chain(['sort_wave_params', 'highest_waves', 'exceedance', 'individual_waves', 'WaveHeights']), 'five time-domain functions', 120))
    r.append(Case('shared', shared, 'one record of 8 samples, two symbolic', 120))
    r.append(Case('bg', bg, 'nine concrete parameter sets', 30))
    r.append(Case('zs-series', zs_series, 'two records of 8 samples', 120))
    return r
