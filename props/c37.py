from .common import *
NOTE = '''Theoretical spectra on axes of 5 to 12 frequencies (wide: 40, 200) with the wave height symbolic in [1/16,16], peak frequencies, peak factors, tails, frequency units and gravity from lists; the shape is exact over every density. Exact real arithmetic.'''
ASSUME = ['exact real arithmetic, exponentials of concrete frequencies are the doubles numpy returns',
          'the peak frequency lies within the axis and the spectrum has its maximum well above 1e-10 (Tps)']
INF = float('inf')
KINDS = ('jonswap', 'jonswap-object', 'pm', 'pm-object')


def make(c, kind, fr, fp, h, g, lf=0):
    """spectrum object by any of the four functions"""
    w, v = c.m.wf, c.vec(fr)
    if kind == 'jonswap':
        return c.m.spectrum.Spectrum(v, w.create_spectrum_jonswap(v, fp, h, g, lf))
    if kind == 'jonswap-object':
        return w.create_spectrum_object_jonswap(v, fp, h, g, lf)
    if kind == 'pm':
        return c.m.spectrum.Spectrum(v, w.create_spectrum_piersonmoskowitz(v, fp, h, 1.0, lf))
    return w.create_spectrum_object_piersonmoskowitz(v, fp, h, 1.0, lf)


def peaks(fr, fp):
    """the frequencies on either side of the peak frequency"""
    i = max(j for j in range(len(fr)) if fr[j] <= fp)
    return [fr[i]] if fr[i] == fp else fr[i:i + 2]


PER = ('get_Tp', 'get_Tps', 'get_Tmm10', 'get_Tm01', 'get_Tm02')


def back(fr, fps, gs, kinds=KINDS, tails=(0, 1)):
    """height and peak period of the spectrum are those it was made with"""
    def f(c):
        kind, lf, fp, g = c.choice('kind', kinds), c.choice('lf', tails), c.choice('fp', fps), c.choice('gamma', gs)
        h = c.real('hm0', 0.0625, 16)
        o = make(c, kind, fr, fp, h, g, lf)
        c.eq(c.val(o.get_Hm0(fr[0], INF) if lf else o.get_Hm0()), h, 'wave height')
        T = c.val(o.get_Tp())
        c.ok(any(c.same(T * v, 1.0) for v in peaks(fr, fp)), 'peak period', f'{T}')
        S = c.lst(o.sVarDens)
        p = c.m.wf.compute_spectrum_params(c.vec(fr), c.vec(S), *((fr[0], INF) if lf else ()))
        c.eq(c.val(p[0]), h, 'wave height among the parameters')
        c.ok(any(c.same(c.val(p[1]) * v, 1.0) for v in peaks(fr, fp)), 'peak period among the parameters', f'{c.val(p[1])}')
        # rises up to the peak, falls from it
        pos = [i for i in range(len(fr)) if fr[i] > 0]
        for i, j in zip(pos[:-1], pos[1:]):
            if fr[j] <= fp:
                c.le(S[i], S[j], 'rises below the peak')
            elif fr[i] >= fp:
                c.le(S[j], S[i], 'falls above the peak')
    return f


def heights(fr, fps, gs, kinds=KINDS):
    """the requested height changes the height only"""
    def f(c):
        kind, lf, fp, g = c.choice('kind', kinds), c.choice('lf', [0, 1]), c.choice('fp', fps), c.choice('gamma', gs)
        h = c.real('hm0', 0.0625, 16)
        a, b = make(c, kind, fr, fp, h, g, lf), make(c, kind, fr, fp, 2.0, g, lf)
        c.eq(c.lst(a.sVarDens), [v * (h * h / 4) for v in c.lst(b.sVarDens)], 'densities scale with the square of the height')
        q = c.choice('q', PER)
        lim = c.choice('lim', [(), (fr[1], fr[-2])])
        if q == 'get_Tps' and lim:
            return
        c.eq(c.val(getattr(a, q)(*lim)), c.val(getattr(b, q)(*lim)), q + ' of another height')
        c.eq(2 * c.val(a.get_Hm0(*lim)), h * c.val(b.get_Hm0(*lim)), 'height in a band')
        c.eq(2 * c.val(a.get_smm10()), h * c.val(b.get_smm10()), 'steepness')
    return f


def unit(fr, fps, gs, kinds=KINDS):
    """frequency unit: periods scale, the height stays"""
    def f(c):
        kind, lf, fp, g, k = c.choice('kind', kinds), c.choice('lf', [0, 1]), c.choice('fp', fps), c.choice('gamma', gs), c.choice('unit', [0.25, 2.0, 8.0])
        h = c.real('hm0', 0.0625, 16)
        a, b = make(c, kind, fr, fp, h, g, lf), make(c, kind, [k * v for v in fr], k * fp, h, g, lf)
        c.eq([v * k for v in c.lst(b.sVarDens)], c.lst(a.sVarDens), 'densities in another unit')
        c.eq(c.val(b.get_Hm0()), c.val(a.get_Hm0()), 'height in another unit')
        for q in ('get_Tp', 'get_Tmm10', 'get_Tm01', 'get_Tm02'):
            c.eq(k * c.val(getattr(b, q)()), c.val(getattr(a, q)()), q + ' in another unit')
    return f


def gamma(fr, fps, g1, g2):
    """a larger peak factor brings the energy closer to the peak: relative to the density at the peak every other one falls"""
    def f(c):
        fp, lf = c.choice('fp', fps), c.choice('lf', [0, 1])
        h = c.real('hm0', 0.0625, 16)
        a, b = c.lst(make(c, 'jonswap', fr, fp, h, g1, lf).sVarDens), c.lst(make(c, 'jonswap-object', fr, fp, h, g2, lf).sVarDens)
        i = fr.index(fp)
        for j in range(len(fr)):
            c.le(b[j] * a[i], a[j] * b[i], 'narrower with a larger peak factor')
        p, q = c.lst(make(c, 'pm', fr, fp, h, 1.0, lf).sVarDens), c.lst(make(c, 'jonswap', fr, fp, h, 1.0, lf).sVarDens)
        c.eq(p, q, 'Pierson-Moskowitz is the peak factor 1')
    return f


def steep(fr, fps, gs):
    """steepness of the theoretical spectrum"""
    def f(c):
        kind, fp, g = c.choice('kind', ['jonswap-object', 'pm-object']), c.choice('fp', fps), c.choice('gamma', gs)
        h, gr = c.real('hm0', 0.0625, 16), c.choice('g', [9.81, 10.0, 1.0])
        o = make(c, kind, fr, fp, h, g)
        T = c.val(o.get_Tps())
        c.eq(c.val(o.get_s0p(g=gr)) * (gr * T * T), 2 * math.pi * h, 'peak steepness')
        T = c.val(o.get_Tmm10())
        c.eq(c.val(o.get_smm10(g=gr)) * (gr * T * T), 2 * math.pi * h, 'steepness of Tm-1,0')
    return f


def cases(tier):
    th = tier == 'thorough'
    r = []
    A = {'7': [0.125 * i for i in range(1, 8)], '8-zero': [0.125 * i for i in range(8)], '5': [0.25 + 0.125 * i for i in range(5)], '12': [0.05 + 0.025 * i for i in range(12)]}
    P = {'7': [0.125 + 0.05 * i for i in range(13)], '8-zero': [0.2, 0.375], '5': [0.375, 0.55], '12': [0.1, 0.16, 0.28]}
    G = [1.0, 2.0, 3.3, 7.0, 15.0]
    for k in A:
        r.append(Case(f'back-{k}', back(A[k], P[k], G), f'{len(A[k])} frequencies, height symbolic, four functions, {len(P[k])} peaks, five peak factors', 200))
        r.append(Case(f'heights-{k}', heights(A[k], P[k][1:3], [1.0, 3.3]), f'{len(A[k])} frequencies, height symbolic', 200))
        r.append(Case(f'unit-{k}', unit(A[k], P[k][:2], [3.3], KINDS if k == '7' else KINDS[1:3]), f'{len(A[k])} frequencies, height symbolic, three units', 200))
    r.append(Case('gamma-7', gamma(A['7'], [0.25, 0.5], 1.5, 6.0), '7 frequencies, height symbolic', 200))
    r.append(Case('gamma-12', gamma([0.0625 * i for i in range(1, 13)], [0.25, 0.375], 1.0, 3.3), '12 frequencies, height symbolic', 200))
    for k in ('7', '8-zero', '5'):
        r.append(Case(f'steep-{k}', steep(A[k], P[k][:3], [1.0, 3.3]), f'{len(A[k])} frequencies, height and three values of gravity', 200))
    for n, df, fp in ((40, 0.02, [0.1, 0.31, 0.5]), (200, 0.005, [0.1, 0.4975])):
        r.append(Case(f'back-wide{n}', back([df * i for i in range(1, n + 1)], fp, [3.3], KINDS if n < 100 else KINDS[1:3]), f'{n} frequencies, height symbolic', 200))
    return r
