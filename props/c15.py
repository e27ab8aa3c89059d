from .common import *
from .units import unit_cases
NOTE = '''Per case: every non-negative spectrum within the stated ranges on concrete axes; a tail and band limits at stated values. Exact real arithmetic.'''
ASSUME = ['densities in exact real arithmetic; frequency axes are concrete doubles',
          'no energy at f=0 for the ordering of periods (there 1/f is undefined)']
INF = float('inf')


def zsqrt(c, v):
    return c.sqrt(v)


def params(c, fr, S, lim):
    r = c.m.wf.compute_spectrum_params(c.vec(fr), c.vec(S), *lim)
    return [c.val(x) for x in r]


def moments(c, fr, S, lim):
    a, b = lim
    a, b = fr[0] if a == -1.0 else a, fr[-1] if b == -1.0 else b
    return {m: c.val(c.m.wf.compute_moment(c.vec(fr), c.vec(S), m, a, b)) for m in (-1, 0, 1, 2)}


def spec(c, fr, sym, k, lo, hi):
    S = [abs(v) + 0.25 for v in pseudo(len(fr), k)]
    for j in range(len(fr)) if sym is None else sym:
        S[j] = c.real(f's{j}', lo, hi)
    if fr[0] == 0:
        S[0] = 0.0
    return S


def order(fr, sym, lims, k=0, obj=False, defn=True, lo=0.0078125, hi=8):
    def f(c):
        S = spec(c, fr, sym, k, lo, hi)
        lim = c.choice('lim', lims)
        if obj:
            s = c.m.spectrum.Spectrum(c.vec(fr), c.vec(S))
            T = [c.val(g(*lim)) for g in (s.get_Tmm10, s.get_Tm01, s.get_Tm02)]
            H = c.val(s.get_Hm0(*lim))
        else:
            H, _, _, *T = params(c, fr, S, lim)
        c.le(T[1], T[0], 'Tm-1,0 >= Tm01')
        # Tm02^2 = m0/m2
        c.le(T[2] * T[2], T[1] * T[1], 'Tm01 >= Tm02')
        for t, nm in zip(T, ('Tm-1,0', 'Tm01', 'Tm02')):
            c.ok(t > 0, nm + ' positive')
        a, b = lim
        lowf = min(x for x in fr if x > 0 and (a == -1.0 or x >= a - (fr[1] - fr[0]) / 2))
        highf = max(x for x in fr if b == -1.0 or x <= b + (fr[1] - fr[0]) / 2) if b <= fr[-1] else b
        if highf == INF:
            highf = None
        c.le(T[0], 1 / lowf, 'Tm-1,0 below the longest period')
        if highf:
            c.le(1 / highf ** 2, T[2] * T[2], 'Tm02 above the shortest period')
        if defn:
            m = moments(c, fr, S, lim)
            c.eq(H * H, 16 * m[0], 'Hm0^2 = 16 m0')
            c.ok(H > 0, 'Hm0 positive')
            c.eq(T[0] * m[0], m[-1], 'Tm-1,0 = m-1/m0')
            c.eq(T[1] * m[1], m[0], 'Tm01 = m0/m1')
            c.eq(T[2] * T[2] * m[2], m[0], 'Tm02^2 = m0/m2')
    return f


def carrying(n, df, i, j, obj=False):
    """energy only at frequencies i..j: periods within that range"""
    def f(c):
        fr = [df * (k + 1) for k in range(n)]
        S = [0.0] * n
        for k in range(i, j + 1):
            S[k] = c.real(f's{k}', 0.0078125, 8)
        H, Tp, Tps, *T = params(c, fr, S, (-1.0, -1.0))
        for t, nm in zip(T[:2], ('Tm-1,0', 'Tm01')):
            c.le(1 / fr[j], t, nm + ' above the shortest period with energy')
            c.le(t, 1 / fr[i], nm + ' below the longest period with energy')
        c.le(1 / fr[j] ** 2, T[2] * T[2], 'Tm02 above the shortest period with energy')
        c.le(T[2] * T[2], 1 / fr[i] ** 2, 'Tm02 below the longest period with energy')
        c.le(1 / fr[j], Tp, 'Tp')
        c.le(Tp, 1 / fr[i], 'Tp')
    return f


def scaling(fr, sym, lims, k=0, obj=False):
    def f(c):
        S = spec(c, fr, sym, k, 0.0078125, 8)
        k2 = c.real('c', 0.03125, 32)
        lim = c.choice('lim', lims)
        if obj:
            get = lambda v: [c.val(getattr(c.m.spectrum.Spectrum(c.vec(fr), c.vec(v)), g)(*lim)) for g in ('get_Hm0', 'get_Tp', 'get_Tps', 'get_Tmm10', 'get_Tm01', 'get_Tm02')]
        else:
            get = lambda v: params(c, fr, v, lim)
        A, B = get(S), get([k2 * k2 * s for s in S])
        c.eq(B[0], k2 * A[0], 'Hm0 scales with c')
        for x, y, nm in zip(A[1:], B[1:], ('Tp', 'Tps', 'Tm-1,0', 'Tm01', 'Tm02')):
            c.eq(y, x, nm + ' independent of c')
    return f


def small(n, f0, df):
    """below 1e-6 m: not-a-number everywhere; above: numbers"""
    def f(c):
        fr = [f0 + df * i for i in range(n)]
        S = [c.real(f's{i}', 0, 2e-12) for i in range(n)]
        m0 = c.val(c.m.wf.compute_moment(c.vec(fr), c.vec(S), 0))
        lim = 6.25e-14
        r = params(c, fr, S, (-1.0, -1.0))
        if m0 < lim * (1 - 1e-9):
            for x, nm in zip(r, ('Hm0', 'Tp', 'Tps', 'Tm-1,0', 'Tm01', 'Tm02')):
                c.eq(x, math.nan, nm + ' of a spectrum without energy')
        elif m0 > lim * (1 + 1e-9):
            for x, nm in zip(r, ('Hm0', 'Tp', 'Tps', 'Tm-1,0', 'Tm01', 'Tm02')):
                c.ok(x == x, nm + ' of a small spectrum')
            c.eq(r[0] * r[0] * 1e12, 16e12 * m0, 'Hm0 of a small spectrum')
    return f


def zeros(c):
    n = c.choice('n', [2, 3, 8])
    fr = [0.25 * (i + 1) for i in range(n)]
    for x in params(c, fr, [0.0] * n, c.choice('lim', [(-1.0, -1.0), (0.25, 0.5), (-1.0, 4.0)])):
        c.eq(x, math.nan, 'no energy')


def cases(tier):
    th = tier == 'thorough'
    r = []
    d = [(-1.0, -1.0)]
    for n in (2, 3, 4, 5) + ((6, 7, 8) if th else ()):
        fr = [0.25 * (i + 1) for i in range(n)]
        r.append(Case(f'order-n{n}', order(fr, None, d), f'all {n} densities symbolic in [1/128, 8], axis 0.25..', 200))
        fr = [0.25 * i for i in range(n + 1)]
        r.append(Case(f'order-zero-n{n}', order(fr, None, d), f'axis from 0, {n} densities symbolic', 200))
    fr = [0.1 * (i + 1) for i in range(6)]
    fr2 = [0.05 * i for i in range(8)]
    L = [(fr[1], -1.0), (-1.0, fr[4]), (fr[1], fr[4]), (fr[0], fr[3])]
    L2 = [(fr2[1], -1.0), (-1.0, fr2[6]), (0.0, fr2[5]), (fr2[2], fr2[6])]
    T = [(-1.0, 1.0), (fr[2], 2.0), (fr[0], 100.0)]
    r.append(Case('order-band', order(fr, (1, 2, 4), L, 1), '3 of 6 densities symbolic, four bands', 200))
    r.append(Case('order-band-zero', order(fr2, (1, 3, 6), L2), 'axis from 0, 3 of 8 densities symbolic, four bands', 200))
    r.append(Case('order-tail', order(fr, (0, 3, 5), T, 2), '3 of 6 densities symbolic, three upper limits above the axis', 200))
    r.append(Case('order-object', order(fr, None, d + L + T, obj=True), 'spectrum object, all 6 densities symbolic, bands and tails', 200))
    for k, (n, sym) in enumerate([(40, (0, 39)), (101, (5, 50)), (33, (16, 32)), (150, (149,)), (200, (0, 199)), (1100, (700,))]):
        fr = [0.01 * (i + 1) for i in range(n)]
        r.append(Case(f'wide{n}', order(fr, sym, d + [(fr[2], fr[n - 2]), (-1.0, 2 * fr[-1])], k), f'{n} densities, those at {sym} symbolic', 200))
        fr = [0.01 * i for i in range(n)]
        r.append(Case(f'wide{n}-zero-object', order(fr, sym, d + [(fr[2], -1.0)], k, True), f'{n} densities from f=0, those at {sym} symbolic', 200))
    for n, i, j in ((5, 1, 3), (6, 0, 2), (6, 3, 5), (7, 2, 2), (8, 2, 5), (9, 4, 7)):
        r.append(Case(f'carry-n{n}-{i}-{j}', carrying(n, 0.25, i, j), f'energy only at {i}..{j} of {n} frequencies', 150))
    for n in (3, 4, 5):
        fr = [0.25 * (i + 1) for i in range(n)]
        r.append(Case(f'scale-n{n}', scaling(fr, None, d), f'{n} densities and the factor symbolic', 200))
        r.append(Case(f'scale-object-n{n}', scaling(fr, None, d, obj=True), f'{n} densities and the factor symbolic', 200))
    fr = [0.1 * (i + 1) for i in range(8)]
    r.append(Case('scale-bands', scaling(fr, (4,), d + [(fr[1], fr[5]), (fr[2], -1.0), (-1.0, 2.0)], 2), 'one density and the factor symbolic', 200))
    fr = [0.0078125 * i for i in range(60)]
    r.append(Case('scale-wide', scaling(fr, (20, 21), d, 3), '60 frequencies, two densities and the factor symbolic', 200))
    for n, f0 in ((2, 0.25), (3, 0.25), (4, 0.5)):
        r.append(Case(f'small-n{n}', small(n, f0, 0.25), f'{n} densities up to 2e-12', 150))
    r.append(Case('zero', zeros, 'no energy', 60))
    r.append(Case('sizes', over('n', range(2, 31), lambda n: order([0.0625 * (i + 1) for i in range(n)], (n // 2,), d, n)), 'every number of frequencies from 2 to 30, one density symbolic', 120))
    r.append(Case('far', over('axis', [(4.0, 1.0), (0.0, 2.0), (2.0 ** -8, 2.0 ** -8), (16.0, 0.25)], lambda v: order([v[0] + v[1] * i for i in range(6)], (1, 4), d + [(v[0] + v[1], -1.0), (-1.0, v[0] + 4 * v[1]), (-1.0, v[0] + 12 * v[1])], 3, True)), 'four axes, four bands', 120))
    r += unit_cases('C15')
    return r
