from .common import *
NOTE = '''Histories: every ordered pair (operation with limits, query with limits), selected triples and long sequences; densities symbolic within the stated ranges.'''
ASSUME = ['densities in exact real arithmetic, concrete axes', 'matplotlib replaced by a stand-in that ignores every call during symbolic execution',
          'create_series is run with fixed phases, on densities symbolic above its Nyquist frequency']
GET = ('get_Hm0', 'get_Hm0_HF', 'get_Hm0_LF', 'get_Tps', 'get_Tp', 'get_Tmm10', 'get_Tmm10_HF', 'get_Tmm10_LF', 'get_Tm01', 'get_Tm02', 'get_s0p', 'get_smm10', 'get_smm10_HF')
FR = [0.125 * (i + 1) for i in range(7)]
LIMS = {'default': {}, 'fmin': dict(fmin=0.25), 'fmax': dict(fmax=0.75), 'both': dict(fmin=0.25, fmax=0.625), 'beyond': dict(fmin=0.375, fmax=2.0)}
OTHER = ('plot', 'plot-periods-off', 'create_series', 'repr', 'other-object')


def spec(c, sym, k, fr=FR):
    S = [abs(v) + 0.25 for v in pseudo(len(fr), k)]
    for j in sym:
        S[j] = c.real(f's{j}', 0.0078125, 8)
    return S


def make(c, fr, S):
    return c.m.spectrum.Spectrum(c.vec(fr), c.vec(S))


def do(c, o, op, lim, fr, S):
    if op.startswith('get_'):
        try:
            return c.val(getattr(o, op)(**LIMS[lim]))
        except (ValueError, IndexError):
            return 'error'  # empty band
    if op == 'plot':
        close(o.plot())
    elif op == 'plot-periods-off':
        close(o.plot(plot_periods=False, xlim=1.0))
    elif op == 'create_series':
        if c.sym:  # concrete phases: the generated record stays clear of the symbolic densities above its Nyquist frequency
            c.p.tables['rand_hook'] = lambda seed, i: (0.375 * i) % 1.0
        o.create_series(0.0, 7.0, 1.0)
    elif op == 'repr':
        repr(o), str(o)
    elif op == 'other-object':
        p = make(c, fr, [2.5 * s for s in reversed(S)])
        for g in GET:
            getattr(p, g)(0.25, 0.75)


def close(fig):
    import matplotlib.pyplot as plt
    plt.close('all')


def state(c, o, fr, S, label):
    c.eq(c.lst(o.f), fr, label + ': frequencies kept', 0)
    c.eq(c.lst(o.sVarDens), S, label + ': densities kept', 0)
    c.eq(o.nf, len(fr), label + ': size kept')


def pair(first, sym, k, flims, qs=GET, qlims=tuple(LIMS)):
    def f(c):
        S = spec(c, sym, k)
        lim = c.choice('first-limits', list(flims))
        ql = c.choice('query-limits', list(qlims))
        for q in qs:
            fresh = do(c, make(c, FR, S), q, ql, FR, S)
            o = make(c, FR, S)
            do(c, o, first, lim, FR, S)
            c.eq(do(c, o, q, ql, FR, S), fresh, f'{q}[{ql}] after {first}[{lim}]')
            state(c, o, FR, S, f'{first}, {q}')
    return f


def tiny(k, where, hi):
    """a density anywhere down to zero, next to very low ones"""
    def f(c):
        S = spec(c, (), k)
        S[0], S[6] = 1e-13, 3e-16
        S[where] = c.real('low', 0, hi)
        q = c.choice('query', list(GET))
        ql = c.choice('query-limits', ['default', 'both'])
        o = make(c, FR, S)
        v = do(c, o, q, ql, FR, S)
        state(c, o, FR, S, q)
        c.eq(do(c, o, q, ql, FR, S), v, f'{q}[{ql}] again')
        for g in GET:
            do(c, o, g, 'default', FR, S)
            state(c, o, FR, S, g)
        c.eq(do(c, o, q, ql, FR, S), v, f'{q}[{ql}] after all queries')
    return f


def other_packages(sym, k, mode):
    """a query of one object does not depend on the spectra seen before by the package"""
    def f(c):
        S = spec(c, sym, k)
        if mode == 'last':
            R = S[:-1] + [S[-1] + 1.5]
        elif mode == 'first':
            R = [S[0] + 1.5] + S[1:]
        elif mode == 'reversed':
            R = S[::-1]
        elif mode == 'swapped':
            R = S[:3] + [S[4], S[3]] + S[5:]
        else:
            R = list(S)
        g = [2 * x for x in FR] if mode == 'axis' else FR
        ql = c.choice('query-limits', ['default', 'both'])
        for q in GET:
            old = make(c, FR, S)
            do(c, old, q, ql, FR, S)
            v = do(c, make(c, g, R), q, ql, g, R)
            w = do(c, c.fresh().spectrum.Spectrum(c.vec(g), c.vec(R)), q, ql, g, R)
            c.eq(v, w, f'{q}[{ql}] after the same query of another object')
    return f


def long(sym, k, seqs, n=7):
    def f(c):
        fr = FR if n == 7 else [0.015625 * (i + 4) for i in range(n)]
        S = spec(c, sym, k, fr)
        seq = c.choice('sequence', seqs)
        o = make(c, fr, S)
        for q, l in seq:
            v = do(c, o, q, l, fr, S)
            if q.startswith('get_'):
                c.eq(v, do(c, make(c, fr, S), q, l, fr, S), f'{q}[{l}] within a sequence')
        state(c, o, fr, S, 'sequence')
    return f


def sequences(n, length, k):
    r, s = [], 99 + k
    ops = GET + OTHER
    for _ in range(n):
        q = []
        for _ in range(length):
            s = (s * 1103515245 + 12345) % 2 ** 31
            q.append((ops[(s >> 12) % len(ops)], list(LIMS)[(s >> 20) % len(LIMS)]))
        r.append(q)
    return r


def triples(first, second, sym, k):
    def f(c):
        S = spec(c, sym, k)
        l1 = c.choice('l1', ['default', 'both'])
        l2 = c.choice('l2', ['fmin', 'default'])
        for q in GET:
            fresh = do(c, make(c, FR, S), q, 'default', FR, S)
            o = make(c, FR, S)
            do(c, o, first, l1, FR, S)
            do(c, o, second, l2, FR, S)
            c.eq(do(c, o, q, 'default', FR, S), fresh, f'{q} after {first}[{l1}], {second}[{l2}]')
    return f


def edited(sym, k):
    """the arrays of the object are the caller's own: later queries follow the current densities"""
    def f(c):
        S = spec(c, sym, k)
        R = [s * 0.5 for s in reversed(S)]
        for q in GET:
            o = make(c, FR, S)
            for g in GET:
                do(c, o, g, 'default', FR, S)
            o.sVarDens = c.vec(R)
            c.eq(do(c, o, q, 'default', FR, R), do(c, make(c, FR, R), q, 'default', FR, R), f'{q} of replaced densities')
    return f


def cases(tier):
    th = tier == 'thorough'
    r = []
    for k, g in enumerate(GET):
        sym = ((2,), (1, 4), (3,), (5,))[k % 4]
        r.append(Case(f'after-{g}', pair(g, sym, k, LIMS), f'{g} with five limit choices, then each of {len(GET)} queries with five limit choices; densities at {sym} symbolic', 200))
    for k, g in enumerate(OTHER):
        r.append(Case(f'after-{g}', pair(g, (2, 3) if g != 'create_series' else (5,), k, ('default',)), f'{g}, then each query with five limit choices', 200))
    tr = [('get_Hm0', 'get_Tps'), ('get_Tmm10', 'get_Hm0_HF'), ('get_Hm0_HF', 'get_Tmm10_HF'), ('get_Tps', 'plot'), ('get_Tmm10', 'get_Tmm10_LF'), ('get_s0p', 'get_smm10'), ('get_smm10_HF', 'get_Hm0'), ('get_Tp', 'get_Tm02')]
    if th:
        tr = [(a, b) for a in GET for b in GET + ('plot',)]
    for k, (a, b) in enumerate(tr):
        r.append(Case(f'after-{a}-{b}', triples(a, b, (1 + k % 5,), k), 'two operations, then each query; one density symbolic', 150))
    for k in range(4 if not th else 16):
        r.append(Case(f'sequence-{k}', long((5, 6), k, sequences(6, 8, 10 * k)), 'six fixed sequences of eight operations, two densities symbolic', 150))
    for k in range(2):
        r.append(Case(f'sequence-wide-{k}', long((38,), k, sequences(4, 6, 7 + k), 40), 'four sequences of six operations, 40 frequencies, one density symbolic', 150))
    for k, w in enumerate((1, 3, 5)):
        r.append(Case(f'low-{w}', tiny(k, w, 1.0), 'one density anywhere in [0,1], its neighbours down to 3e-16', 150))
    for k, m in enumerate(('last', 'first', 'reversed', 'swapped', 'axis')):
        r.append(Case(f'objects-{m}', other_packages((2, 3), k, m), 'another object of the same size queried before', 150))
    r.append(Case('replaced-densities', edited((2, 3), 5), 'densities of the object replaced after all queries', 150))
    return r
