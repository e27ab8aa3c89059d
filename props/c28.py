from .common import *
NOTE = '''Factor of wave height and depth: every value in [1/1024,1024], for the listed ratios of wave height to depth, slopes and numbers of waves. Transition height, threshold, end points and Rayleigh bound: every wave height, depth and slope in the stated ranges, at most two iterations of the solution for the scale, with the incomplete gamma function an arbitrary function with values in [0,1].'''
ASSUME = ['exact real arithmetic, constants rounded to double precision', 'the incomplete gamma function is evaluated on concrete arguments, otherwise an arbitrary function with values in [0,1]']
R = (2.0, 3.6)


def BG(c, hm0, n, h, *a, **k):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        H, P = c.m.wf.compute_BattjesGroenendijk_wave_height_distribution(hm0, n, h, *a, **k)
    return c.lst(H), c.lst(P)


def model(hm0, n, h, cot):
    """(transition height, its exceedance, height of exceedance 1/n, Rayleigh height) or None: the scale by bisection"""
    import scipy.special as sp
    tr = (0.35 + 5.8 / cot) * h
    rms = hm0 / 4 * (2.69 + 3.24 * hm0 / 4 / h)
    t = tr / rms
    if t > 2.75:
        return None
    ray = hm0 * math.sqrt(math.log(n) / 2)

    def est(a):
        b = t / (t / a) ** (2 / 3.6)
        x = (t / a) ** 2
        return a * a * sp.gammainc(2.0, x) * sp.gamma(2.0) + b * b * sp.gammaincc(2 / 3.6 + 1, x) * sp.gamma(2 / 3.6 + 1)
    lo, hi = 1e-3, 1e6
    for _ in range(300):
        m = math.sqrt(lo * hi)
        if est(m) < 1:
            lo = m
        else:
            hi = m
    a = math.sqrt(lo * hi)
    b = t / (t / a) ** (2 / 3.6)
    x = a * math.sqrt(math.log(n))
    if x >= t:
        x = b * math.log(n) ** (1 / 3.6)
    return tr, math.exp(-(t / a) ** 2), min(x * rms, ray), ray


def scale(ratios, ns, cots):
    """every factor of height and depth"""
    def g(c):
        c.rounding()
        hm0, h = c.choice('ratio', ratios)
        n, cot = c.choice('n', ns), c.choice('cot', cots)
        a = c.real('a', 1 / 1024, 1024)
        H, P = BG(c, a * hm0, n, a * h, cot)
        G, Q = BG(c, hm0, n, h, cot)
        c.eq(len(H), len(G), 'points')
        c.eq(len(P), len(Q), 'exceedances')
        w = model(hm0, n, h, cot)
        if w is None:
            c.eq(len(H), 0, 'no distribution')
            c.eq(len(P), 0, 'no distribution')
            return
        tr, p, last, ray = w
        c.eq(len(H), 3, 'three points')
        c.eq(len(P), 3, 'three exceedances')
        for i in range(3):
            c.eq(H[i], a * G[i], f'height {i} multiplied', 1e-7)
        c.eq(P, Q, 'exceedances kept')
        c.eq(G[0], 0.0, 'first height')
        c.eq(P[0], 1.0, 'first exceedance')
        c.eq(G[1], tr, 'transition height')
        c.eq(P[2], 1 / n, 'last exceedance')
        c.le(0.0, P[1], 'exceedance of the transition')
        c.le(P[1], 1.0, 'exceedance of the transition')
        c.le(G[2], ray, 'last height at most the Rayleigh height')
        c.eq(P[1], p, 'exceedance of the transition height on the distribution', 2e-4)
        c.eq(G[2] / hm0, last / hm0, 'last height on the distribution', 2e-4)
        if cot == 250.0:
            c.eq(BG(c, hm0, n, h)[0], G, 'slope left out')
    return g


def threshold(hlo, hhi, dlo, dhi, slo, shi):
    """no distribution exactly when the transition height is more than 2.75 times Hrms, for every height, depth and slope"""
    def g(c):
        hm0, h = c.real('hm0', hlo, hhi), c.real('h', dlo, dhi) if dlo != dhi else dlo
        s = c.real('cot', slo, shi) if slo != shi else slo
        m = hm0 / 4
        tr = (0.35 + 5.8 / s) * h
        # Hrms times depth
        rms = m * (2.69 * h + 3.24 * m)
        if c.sym:
            import symeng as E

            def hook(name, a):
                # the solution for the scale starts: a distribution will be returned
                c.le(tr * h, rms * 2.75, 'distribution', 1e-6)
                raise E.PathAbort('distribution')
            c.p.tables['special_hook'] = hook
        H, P = BG(c, hm0, 1000, h, s)
        if len(H) == 0:
            c.eq(len(P), 0, 'no exceedances')
            c.le(rms * 2.75, tr * h, 'no distribution', 1e-6)
        else:
            c.le(tr * h, rms * 2.75, 'distribution', 1e-6)
    return g


def waves(ratios, cots, lo, hi):
    """every number of waves"""
    def g(c):
        hm0, h = c.choice('ratio', ratios)
        cot = c.choice('cot', cots)
        n = c.int('n', lo, hi)
        if c.sym:
            import symeng as E
            # ln n: one number between ln lo and ln hi
            at = c.p.atom('ln_n', sign='>', lo=math.log(lo), hi=math.log(hi))
            c.p.add(E.z3.And(at.z >= E.z3.RealVal(str(E.F(math.log(lo)))), at.z <= E.z3.RealVal(str(E.F(math.log(hi))))))
            ln = E.SymReal({((at.idx, 1),): E.F(1)})

            def log(name, a):
                if name != 'log':
                    return None
                if c.ident(a, n * 1.0):
                    return ln
                if c.ident(E.mul(a, n * 1.0), 1.0):
                    return E.neg(ln) if hasattr(E, 'neg') else E.mul(-1.0, ln)
                raise E.EngineLimit('another logarithm')

            def ppf(nm, f, q, a, k):
                if nm == 'rayleigh' and not a and not set(k) - {'scale'} and c.ident(E.mul(E.sub(1.0, q), n * 1.0), 1.0):
                    return E.mul(k.get('scale', 1.0) * math.sqrt(2), E.r_sqrt(ln))
                if nm != 'exponweib' or tuple(a) != (1, 2) or set(k) - {'scale'} or not c.ident(E.mul(E.sub(1.0, q), n * 1.0), 1.0):
                    raise E.EngineLimit('another distribution')
                return E.mul(k.get('scale', 1.0), E.r_sqrt(ln))
            c.p.tables['fn_hook'], c.p.tables['rv_hook'] = log, ppf
        else:
            ln = math.log(n)
        H, P = BG(c, hm0, n, h, cot)
        G, Q = BG(c, hm0, 1000, h, cot)
        c.eq(len(H), 0 if model(hm0, 1000, h, cot) is None else 3, 'points')
        if len(H) == 0:
            return
        c.eq(H[:2], G[:2], 'first two heights do not depend on the number')
        c.eq(P[:2], Q[:2], 'first two exceedances do not depend on the number')
        c.eq(P[2] * n, 1.0, 'last exceedance')
        ray = (hm0 / math.sqrt(2)) * c.sqrt(ln)
        c.le(H[2], ray, 'last height at most the Rayleigh height')
        # on the distribution through the transition point, or on the Rayleigh distribution
        L = -math.log(Q[1])
        c.assume(ln < L * (1 - 1e-8) or ln > L * (1 + 1e-8))
        if ln < L:
            want = G[1] * c.sqrt(ln * (1 / L))
        else:
            want = G[1] * (c.pow(ln, 1 / 3.6) * (1 / L) ** (1 / 3.6))
        c.assume(want < ray * (1 - 1e-8) or want > ray * (1 + 1e-8))
        if want < ray:
            c.eq(H[2], want, 'last height on the distribution', 1e-4)
        else:
            c.eq(H[2], ray, 'last height on the Rayleigh distribution', 1e-4)
    return g


def warned(c):
    """no distribution: said so; slopes outside the range: said so"""
    import warnings
    hm0, h, cot = c.choice('args', [(0.1, 1.0, 100.0), (1.0, 2.0, 10.0), (1.0, 2.0, 300.0), (1.0, 2.0, 20.0), (1.0, 2.0, 250.0)])
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        c.m.wf.compute_BattjesGroenendijk_wave_height_distribution(hm0, 1000, h, cot)
    c.eq(len(w) > 0, (hm0, cot) not in ((1.0, 20.0), (1.0, 250.0)), 'warning')


def cases(tier):
    th = tier == 'thorough'
    ra = [(1.0, 2.0), (3.0, 4.0), (0.5, 2.0), (2.0, 1.0), (0.25, 1.5), (0.1, 2.0), (1.0, 5.0), (0.75, 2.5)]
    r = []
    for i, q in enumerate(ra if not th else ra + [(1.0, 0.5), (0.3, 1.0), (0.4, 1.0), (0.6, 1.0), (0.8, 1.0), (5.0, 6.0), (0.35, 0.9)]):
        r.append(Case(f'scale-{i}', scale([q], [1000] if not th else [2, 30, 1000, 20000], [30.0, 250.0] if not th else [20.0, 50.0, 120.0, 250.0]), f'height {q[0]}, depth {q[1]}, factor in [1/1024,1024]', 100 if not th else 500))
    r.append(Case('scale-n', scale([(1.0, 2.0), (0.5, 2.0)], [2, 10, 100, 5000], [100.0]), 'numbers of waves', 100))
    r.append(Case('threshold', threshold(0.0625, 8, 0.25, 16, 20, 250), 'every height in [1/16,8], depth in [1/4,16], slope in [20,250]', 100))
    r.append(Case('threshold-1', threshold(0.0078125, 64, 1.0, 1.0, 100.0, 100.0), 'every height in [1/128,64], depth 1, slope 100', 60))
    r.append(Case('threshold-steep', threshold(0.0625, 8, 0.25, 16, 2, 20), 'every height in [1/16,8], depth in [1/4,16], slope in [2,20]', 100))
    r.append(Case('threshold-flat', threshold(0.0625, 8, 0.25, 16, 250, 4000), 'every height in [1/16,8], depth in [1/4,16], slope in [250,4000]', 100))
    r.append(Case('scale-slopes', scale([(1.0, 2.0), (3.0, 4.0)], [1000], [5.0, 10.0, 400.0, 2000.0]), 'slopes outside the range of the tests', 100))
    for i, q in enumerate([(1.0, 2.0), (0.5, 2.0), (3.0, 4.0), (1.0, 5.0)]):
        r.append(Case(f'waves-{i}', waves([q], [30.0, 250.0], 2, 100000), f'height {q[0]}, depth {q[1]}, every number of waves in [2,100000]', 100))
    r.append(Case('warned', warned, 'five sets of values', 30))
    return r
