from .common import *
from .units import unit_cases
NOTE = '''Per case: every spectrum within the stated ranges (ties of the maximum included) on concrete axes of at most 128 frequencies. Exact real arithmetic.'''
ASSUME = ['densities, limits and factors in exact real arithmetic, concrete axes', 'numpy.polyfit of three points modelled as exact interpolation']


def spec(c, n, sym, k, lo=0.0078125, hi=8):
    S = [abs(v) + 0.25 for v in pseudo(n, k)]
    for j in range(n) if sym is None else sym:
        S[j] = c.real(f's{j}', lo, hi)
    return S


def peak(S, idx):
    """indices of the maximum among idx"""
    b = [idx[0]]
    for i in idx[1:]:
        if S[i] > S[b[0]]:
            b = [i]
        elif S[i] == S[b[0]]:
            b.append(i)
    return b


def tp(fr, sym, lims, k=0, lo=0.0078125):
    def f(c):
        S = spec(c, len(fr), sym, k, lo)
        lim = c.choice('lim', lims)
        a, b = lim
        idx = [i for i, x in enumerate(fr) if (a == -1.0 or x >= a) and (b == -1.0 or x <= b)]
        w = 1 / fr[peak(S, idx)[-1]]
        c.eq(c.val(c.m.spectrum.Spectrum(c.vec(fr), c.vec(S)).get_Tp(*lim)), w, 'Tp of the object')
        v = c.val(c.m.wf.compute_spectrum_params(c.vec(fr), c.vec(S), *lim)[1])
        c.eq(v, w, 'Tp of the function')
    return f


def tp_limits(fr, which, k):
    def f(c):
        n = len(fr)
        S = [abs(v) + 0.25 for v in pseudo(n, k)]
        lo = c.real('fmin', fr[0] if fr[0] > 0 else -0.5, fr[-1]) if 'min' in which else -1.0
        hi = c.real('fmax', fr[0], fr[-1] + 0.5) if 'max' in which else -1.0
        if 'min' in which:
            for x in fr:
                c.assume(lo < x - 1e-9 or lo > x + 1e-9)
        if 'max' in which:
            for x in fr:
                c.assume(hi < x - 1e-9 or hi > x + 1e-9)
        idx = [i for i, x in enumerate(fr) if ('min' not in which or x >= lo) and ('max' not in which or x <= hi)]
        if 'min' in which and 'max' in which:
            c.assume(hi - lo > 2.25 * (fr[1] - fr[0]))
        c.assume(len(idx) >= 1)
        p = peak(S, idx)[-1]
        if fr[p] > 0:
            c.eq(c.val(c.m.spectrum.Spectrum(c.vec(fr), c.vec(S)).get_Tp(lo, hi)), 1 / fr[p], 'Tp of the object')
            if len(idx) >= 2:
                c.eq(c.val(c.m.wf.compute_spectrum_params(c.vec(fr), c.vec(S), lo, hi)[1]), 1 / fr[p], 'Tp of the function')
    return f


def judge(c, T, fr, S, p, label):
    """Tps of a spectrum with maxima at p"""
    n, df = len(fr), fr[1] - fr[0] if len(fr) > 1 else 0
    c.ok(T > 0, label + ' positive')
    c.le(1 / fr[-1], T, label + ' inside the axis')
    c.le(T, 1 / fr[0], label + ' inside the axis')
    if len(p) == 1 and 0 < p[0] < n - 1:
        i = p[0]
        a, b, d = S[i - 1], S[i], S[i + 1]
        # vertex at f_i + df/2 (a - d)/(a - 2b + d)
        den = a - 2 * b + d
        c.eq(T * (fr[i] * den + df / 2 * (a - d)), den, label + ' vertex of the parabola')
        c.le(T * (fr[i] - df / 2), 1, label + ' within half a bin')
        c.le(1, T * (fr[i] + df / 2), label + ' within half a bin')
    if n > 2:
        near = [i for i in p if T * (fr[i] - df / 2) <= 1 + 1e-9 and 1 <= T * (fr[i] + df / 2) + 1e-9]
        c.ok(len(near) > 0, label + ' within half a bin of a maximum')


def tps(fr, sym, k=0, lo=0.0078125, via='function'):
    def f(c):
        S = spec(c, len(fr), sym, k, lo)
        if lo == 0:
            c.assume(any(s > 0.001 for s in S))
        p = peak(S, list(range(len(fr))))
        if via == 'function':
            T = c.val(c.m.wf.compute_tps(c.vec(fr), c.vec(S)))
        elif via == 'object':
            T = c.val(c.m.spectrum.Spectrum(c.vec(fr), c.vec(S)).get_Tps())
        else:
            T = c.val(c.m.wf.compute_spectrum_params(c.vec(fr), c.vec(S))[2])
        judge(c, T, fr, S, p, 'Tps')
    return f


def tps_band(fr, sym, lims, k=0):
    def f(c):
        S = spec(c, len(fr), sym, k)
        a, b = lim = c.choice('lim', lims)
        idx = [i for i, x in enumerate(fr) if (a == -1.0 or x >= a) and (b == -1.0 or x <= b)]
        g, R = [fr[i] for i in idx], [S[i] for i in idx]
        p = peak(R, list(range(len(g))))
        judge(c, c.val(c.m.spectrum.Spectrum(c.vec(fr), c.vec(S)).get_Tps(*lim)), g, R, p, 'Tps of a band')
        judge(c, c.val(c.m.wf.compute_spectrum_params(c.vec(fr), c.vec(S), *lim)[2]), g, R, p, 'Tps of a band (function)')
    return f


def ties(n, df, k):
    """two or three equal maxima anywhere"""
    def f(c):
        fr = [df * (i + 2) for i in range(n)]
        i = c.choice('i', list(range(n)))
        j = c.choice('j', list(range(i, n)))
        l = c.choice('l', [None] + list(range(n)) if n <= 6 else [None, 0, n - 1])
        M = c.real('M', 6, 16)
        S = [abs(v) % 5 + 0.25 for v in pseudo(n, k)]
        if i > 0:
            S[i - 1] = c.real('a', 0, 6)
        if j < n - 1:
            S[j + 1] = c.real('b', 0, 6)
        top = sorted({i, j} | ({l} if l is not None else set()))
        for q in top:
            S[q] = M
        c.assume(all(s < M for q, s in enumerate(S) if q not in top))
        judge(c, c.val(c.m.wf.compute_tps(c.vec(fr), c.vec(S))), fr, S, top, 'Tps')
        c.eq(c.val(c.m.spectrum.Spectrum(c.vec(fr), c.vec(S)).get_Tp()), 1 / fr[top[-1]], 'Tp is the highest of equal maxima')
    return f


def scale(n, df, sym, k=0):
    def f(c):
        fr = [df * (i + 1) for i in range(n)]
        S = spec(c, n, sym, k)
        a = c.real('factor', 0.0009765625, 1024)
        R = [a * s for s in S]
        c.eq(c.val(c.m.wf.compute_tps(c.vec(fr), c.vec(R))), c.val(c.m.wf.compute_tps(c.vec(fr), c.vec(S))), 'Tps of a scaled spectrum')
        c.eq(c.val(c.m.spectrum.Spectrum(c.vec(fr), c.vec(R)).get_Tps()), c.val(c.m.spectrum.Spectrum(c.vec(fr), c.vec(S)).get_Tps()), 'Tps of a scaled spectrum object')
        c.eq(c.val(c.m.spectrum.Spectrum(c.vec(fr), c.vec(R)).get_Tp()), c.val(c.m.spectrum.Spectrum(c.vec(fr), c.vec(S)).get_Tp()), 'Tp of a scaled spectrum object')
    return f


def small_scale(c):
    """small but not vanishing densities"""
    n = c.choice('n', [3, 5, 8])
    fr = [0.125 * (i + 1) for i in range(n)]
    i = c.choice('i', list(range(n)))
    S = [1e-11] * n
    S[i] = c.real('peak', 2e-10, 1e-6)
    T = c.val(c.m.wf.compute_tps(c.vec(fr), c.vec(S)))
    judge(c, T, fr, S, [i], 'Tps of a low spectrum')


def tpd(fr, sym, k=0, lo=0.0):
    def f(c):
        n = len(fr)
        S = spec(c, n, sym, k, lo)
        p = peak(S, list(range(n)))
        c.assume(S[p[0]] > 0.001)
        M = S[p[0]] * (0.64 - 1e-9)
        i, j = p[0], p[-1]
        for a in range(p[0]):
            if S[a] >= M:
                i = a
                break
        for a in range(n - 1, p[-1], -1):
            if S[a] >= M:
                j = a
                break
        T = c.val(c.m.wf.tpd(c.vec(fr), c.vec(S)))
        c.ok(T > 0, 'TpD positive')
        c.le(1 / fr[j], T, 'TpD above the shortest period of the peak range')
        c.le(T, 1 / fr[i], 'TpD below the longest period of the peak range')
    return f


def tpd_peaks(fr, pos, bg=None):
    """low background with separate peaks"""
    def f(c):
        n = len(fr)
        S = [0.25 + 0.0625 * (i % 3) for i in range(n)]
        if bg is not None:
            S = [bg] * n
        for p in pos:
            S[p] = c.real(f's{p}', 2, 8)
        M = None
        for p in pos:
            M = S[p] if M is None or S[p] > M else M
        if bg is not None:
            c.assume_rel(M * (0.64 - 1e-9), '>=', bg)
        hi = [p for p in pos if S[p] >= M * (0.64 - 1e-9)]
        T = c.val(c.m.wf.tpd(c.vec(fr), c.vec(S)))
        c.le(1 / fr[hi[-1]], T, 'TpD above the shortest period of the peak range')
        c.le(T, 1 / fr[hi[0]], 'TpD below the longest period of the peak range')
    return f


def cases(tier):
    th = tier == 'thorough'
    r = []
    d = [(-1.0, -1.0)]
    A = lambda n, df=0.125, o=1: [df * (i + o) for i in range(n)]
    for n in (2, 3, 4, 5) + ((6, 7) if th else ()):
        r.append(Case(f'tp-n{n}', tp(A(n), None, d), f'all {n} densities symbolic', 200))
    L = [(0.25, -1.0), (-1.0, 0.625), (0.25, 0.625), (0.3, 0.7), (0.2, -1.0), (-1.0, 0.8), (-1.0, 4.0)]
    r.append(Case('tp-bands', tp(A(7), (1, 3, 5), L), '3 of 7 densities symbolic, seven bands', 200))
    for which in ('min', 'max', 'min+max'):
        for k in range(2):
            r.append(Case(f'tp-limits-{which}-{k}', tp_limits(A(8), which, k), 'limits anywhere on the axis', 200))
    r.append(Case('tp-limits-wide', tp_limits(A(40, 0.015625), 'min', 3), '40 frequencies, lower limit anywhere', 200))
    for n, sym in ((40, (5, 39)), (128, (0, 64)), (1100, (900,))):
        r.append(Case(f'tp-wide{n}', tp(A(n, 0.015625), sym, d + [(0.0625, 0.5)], n), f'{n} densities, those at {sym} symbolic', 200))
    for via in ('function', 'object', 'params'):
        for n in (2, 3, 4, 5) + ((6, 7) if th else ()):
            r.append(Case(f'tps-{via}-n{n}', tps(A(n), None, 0, 0.0078125, via), f'all {n} densities symbolic in [1/128, 8]', 200))
    for n in (3, 4):
        r.append(Case(f'tps-zero-n{n}', tps(A(n, 0.1, 3), None, 0, 0.0), f'all {n} densities symbolic, zeros included', 200))
    for k, (n, sym) in enumerate([(30, (14, 15, 16)), (64, (0, 1, 63)), (128, (62, 126, 127)), (1100, (500,))]):
        r.append(Case(f'tps-wide{n}', tps(A(n, 0.015625, 3), sym, k, 0.0078125), f'{n} densities, those at {sym} symbolic', 200))
    r.append(Case('tps-bands', tps_band(A(7), (1, 3, 4), L), '3 of 7 densities symbolic, seven bands', 200))
    for n in (3, 4, 5, 6):
        r.append(Case(f'ties-n{n}', ties(n, 0.125, n), f'up to three equal maxima anywhere among {n}', 200))
    r.append(Case('ties-n20', ties(20, 0.0625, 2), 'up to three equal maxima among 20', 200))
    for n, sym in ((2, None), (3, None), (4, None), (8, (2, 3, 4)), (40, (10, 11))):
        r.append(Case(f'scale-n{n}', scale(n, 0.125 if n < 20 else 0.015625, sym, n), f'{n} densities, {"all" if sym is None else sym} and the factor symbolic', 200))
    r.append(Case('tps-low', small_scale, 'peak density in [2e-10, 1e-6]', 100))
    for n in (2, 3, 4, 5) + ((6, 7) if th else ()):
        r.append(Case(f'tpd-n{n}', tpd(A(n), None), f'all {n} densities symbolic in [0, 8]', 200))
    for k, (n, sym) in enumerate([(30, (5, 15)), (64, (0, 63)), (100, (50, 51))]):
        r.append(Case(f'tpd-peaks{n}', tpd_peaks(A(n, 0.015625), sym), f'{n} frequencies, peaks at {sym}', 200))
        if n > 60:
            for q in (tuple(p // 8 + 1 for p in sym), tuple(n - 1 - p // 8 for p in sym[::-1]), (0, 3), (n - 7, n - 2)):
                r.append(Case(f'tpd-background{n}-{q[0]}-{q[1]}', tpd_peaks(A(n, 0.125), q, 1.25), f'{n} frequencies, peaks at {q} on a background of 1.25', 200))
        r.append(Case(f'tpd-wide{n}', tpd(A(n, 0.015625), sym, k), f'{n} densities, those at {sym} symbolic', 200))
    r.append(Case('tp-sizes', over('n', range(2, 31), lambda n: tp(A(n, 0.03125), (n // 2,), d, n)), 'every number of frequencies from 2 to 30', 120))
    r.append(Case('tps-sizes', over('n', range(2, 31), lambda n: tps(A(n, 0.03125), (n // 2,), n)), 'every number of frequencies from 2 to 30', 120))
    r.append(Case('tpd-sizes', over('n', range(2, 25), lambda n: tpd(A(n, 0.03125), (n // 2,), n)), 'every number of frequencies from 2 to 24', 120))
    F = [(4.0, 1.0), (1.0, 2.0), (2.0 ** -8, 2.0 ** -8), (16.0, 0.25)]
    r.append(Case('tps-far', over('axis', F, lambda v: tps([v[0] + v[1] * i for i in range(5)], (0, 2, 3), 2)), 'four axes', 120))
    r.append(Case('tp-far', over('axis', F, lambda v: tp([v[0] + v[1] * i for i in range(5)], (0, 2, 3), d, 2)), 'four axes', 120))
    r += unit_cases('C18')
    return r
