from .common import *
from .units import unit_cases
NOTE = '''Per case: every value of 2 to 5 symbolic samples in records of 3 to 10 samples (thorough 13; wide up to 120 samples with one or two symbolic), every factor in the stated range, every offset in the stated range; the variance is at least 1/64.'''
ASSUME = ['exact real arithmetic', 'the Hilbert transform is scipy\'s FFT definition on exact reals']
TOL = 1e-7


def hilb(x):
    """discrete Hilbert transform as a circular convolution"""
    n = len(x)
    ker = [2 / n * sum(math.sin(2 * math.pi * k * j / n) for k in range(1, (n + 1) // 2)) for j in range(n)]
    out = []
    for j in range(n):
        s = 0.0
        for i in range(n):
            if abs(ker[(j - i) % n]) > 1e-14:
                s = s + x[i] * ker[(j - i) % n]
        out.append(s)
    return out


def moments(x):
    m = mean(x)
    d = [v - m for v in x]
    return m, total(v * v for v in d) / len(x), total(v * v * v for v in d) / len(x)


def cubes(h):
    return total(v * v * v for v in h) / len(h)


def data(c, n, sym, lo, hi, k=0):
    x = [v if v else 0.5 for v in pseudo(n, k)]
    for j in sym:
        x[j] = c.real(f'x{j}', lo, hi)
    return x


def make(c, x, dt=0.5, t0=0.0):
    return c.m.series.Series(c.vec(axis(len(x), t0, dt)), c.vec(x))


def formula(n, sym, lo, hi, k=0, dt=0.5):
    """the statistics are those of the samples"""
    def g(c):
        x = data(c, n, sym, lo, hi, k)
        m, v, t = moments(x)
        c.lower_bound(v, 1 / 64)
        o = make(c, x, dt)
        c.eq(c.val(o.mean()), m, 'mean')
        c.eq(c.val(o.var()), v, 'variance')
        s = v * c.sqrt(v)
        c.eq(c.val(o.get_skewness()) * s, t, 'skewness', TOL)
        c.eq(c.val(o.get_asymmetry()) * s, cubes(hilb(x)), 'asymmetry', TOL)
        a, b = c.val(o.max()), c.val(o.min())
        for i, y in enumerate(x):
            c.le(y, a, f'maximum not below sample {i}')
            c.le(b, y, f'minimum not above sample {i}')
        if not any(c.ident(a, y) for y in x) and not any(c.same(a, y) for y in x):
            c.fail('maximum is a sample')
        if not any(c.ident(b, y) for y in x) and not any(c.same(b, y) for y in x):
            c.fail('minimum is a sample')
        c.eq(c.lst(o.xTime), x, 'samples kept')
    return g


def scaled(n, sym, lo, hi, alo, ahi, blo, bhi, k=0, what='both'):
    """factor and offset"""
    def g(c):
        x = data(c, n, sym, lo, hi, k)
        a = c.real('a', alo, ahi) if alo != ahi else alo
        b = c.real('b', blo, bhi) if blo != bhi else blo
        _, v, t = moments(x)
        c.lower_bound(v, 1 / 64)
        y = [a * q + b for q in x]
        w = moments(y)[1]
        c.lower_bound(w, (1 / 64) * min(abs(alo), abs(ahi)) ** 2 / 2)
        o = make(c, y)
        sg = 1 if alo > 0 else -1
        sv, sw = v * c.sqrt(v), w * c.sqrt(w)
        # the same value as that of x: cleared of the root through w = a^2 v
        p = make(c, x)
        u = 1 / abs(a) if alo == ahi else 1.0
        c.eq(c.val(o.mean()) * u, (a * mean(x) + b) * u, 'mean')
        c.eq(c.val(o.var()) * (u * u), a * a * v * (u * u), 'variance')
        if alo != ahi:
            c.eq(c.val(o.get_skewness()) * sw, a * a * a * t, 'third central moment', TOL)
            c.eq(c.val(o.get_asymmetry()) * sw, a * a * a * cubes(hilb(x)), 'third moment of the Hilbert transform', TOL)
        if alo == ahi:
            c.eq(c.val(o.get_skewness()) * (sw * (u * u * u)), sg * t, 'skewness', TOL)
            c.eq(c.val(o.get_asymmetry()) * (sw * (u * u * u)), sg * cubes(hilb(x)), 'asymmetry', TOL)
            c.eq(c.val(p.get_skewness()) * sv, t, 'skewness of the record itself', TOL)
            c.eq(c.val(p.get_asymmetry()) * sv, cubes(hilb(x)), 'asymmetry of the record itself', TOL)
        else:
            c.eq(c.val(p.get_skewness()) * sv, t, 'skewness', TOL)
            c.eq(c.val(p.get_asymmetry()) * sv, cubes(hilb(x)), 'asymmetry', TOL)
    return g


def reverse(n, sym, lo, hi, k=0):
    def g(c):
        x = data(c, n, sym, lo, hi, k)
        _, v, t = moments(x)
        c.lower_bound(v, 1 / 64)
        o, p = make(c, x), make(c, x[::-1])
        q = moments(x[::-1])[1]
        c.lower_bound(q, 1 / 64)
        s, r = v * c.sqrt(v), q * c.sqrt(q)
        c.eq(c.val(o.get_asymmetry()) * s, -(c.val(p.get_asymmetry()) * r), 'asymmetry changes sign', TOL)
        c.eq(c.val(o.get_skewness()) * s, c.val(p.get_skewness()) * r, 'skewness kept', TOL)
        c.eq(c.val(o.mean()), c.val(p.mean()), 'mean')
        c.eq(c.val(o.var()), c.val(p.var()), 'variance')
        c.eq(c.val(o.max()), c.val(p.max()), 'maximum')
        c.eq(c.val(o.min()), c.val(p.min()), 'minimum')
    return g


def axisfree(n, sym, lo, hi):
    """the statistics do not depend on the time axis"""
    def g(c):
        x = data(c, n, sym, lo, hi, 3)
        c.lower_bound(moments(x)[1], 1 / 64)
        dt, t0 = c.choice('dt', [0.1, 0.25, 3.0]), c.choice('t0', [-4.0, 0.0, 100.0])
        o, p = make(c, x), make(c, x, dt, t0)
        for q in ('max', 'min', 'mean', 'var', 'get_skewness', 'get_asymmetry'):
            c.eq(c.val(getattr(p, q)()), c.val(getattr(o, q)()), q, TOL)
    return g


def cases(tier):
    th = tier == 'thorough'
    r = []
    for n, sym, lo, hi, k in ((3, (0, 1, 2), 0.25, 2, 0), (4, (0, 2), -2, 2, 1), (4, (1, 2, 3), 0.25, 2, 1), (5, (0, 3), -2, 2, 2), (5, (0, 1, 3), 0.125, 2, 2), (6, (2, 5), -2, 2, 3),
                              (6, (0, 2, 4), -2, -0.125, 3), (7, (1, 5), -2, 2, 4), (8, (0, 4, 7), 0.25, 4, 5), (9, (3, 6), 0.25, 4, 6), (10, (1, 8), -4, -0.25, 7)) \
            + (((12, (1, 5, 8), -4, -0.25, 8), (13, (0, 6, 12), 0.25, 4, 9), (5, (0, 1, 2, 3), 0.125, 2, 2)) if th else ()):
        r.append(Case(f'formula-{n}-{len(sym)}-{lo}', formula(n, sym, lo, hi, k), f'{n} samples, {len(sym)} in [{lo},{hi}]', 120))
    for n, sym in ((40, (3, 20)), (41, (20,)), (120, (60,)), (1024, (1000,)), (1025, (3,))):
        r.append(Case(f'wide-{n}', formula(n, sym, 0.5, 4, n), f'{n} samples, {len(sym)} in [0.5,4]', 120))
    for n, sym in ((4, (1, 2)), (5, (0, 3)), (8, (2, 5))):
        for nm, al, ah in (('factor', 0.125, 8), ('negative', -8, -0.125)):
            r.append(Case(f'{nm}-{n}', scaled(n, sym, 0.25, 2, al, ah, 0, 0, n), f'{n} samples, factor in [{al},{ah}]', 120))
        r.append(Case(f'offset-{n}', scaled(n, sym, 0.25, 2, 1, 1, -16, 16, n), f'{n} samples, offset in [-16,16]', 120))
        for a in (1 / 1024, 1024.0, -3.0):
            r.append(Case(f'factor-{a}-{n}', scaled(n, sym, 0.25, 2, a, a, 0, 0, n), f'{n} samples, factor {a}', 120))
    r.append(Case('affine-4', scaled(4, (1, 2), 0.25, 2, 0.5, 4, -4, 4, 4), '4 samples, factor in [0.5,4], offset in [-4,4]', 120))
    for n, sym, lo, hi in ((3, (0, 1, 2), 0.25, 2), (4, (0, 1, 2), 0.25, 2), (5, (0, 2), -2, 2), (6, (1, 3, 4), 0.25, 2), (7, (2, 6), -2, 2), (10, (1, 5, 8), 0.25, 2)):
        r.append(Case(f'reverse-{n}', reverse(n, sym, lo, hi, n), f'{n} samples, {len(sym)} in [{lo},{hi}]', 120))
    r.append(Case('axis', axisfree(6, (1, 4), 0.25, 2), 'nine time axes', 120))
    for lo, hi in ((11, 26), (26, 41)):
        r.append(Case(f'sizes-{lo}', over('n', range(lo, hi), lambda n: formula(n, (n // 2,), 0.5, 4, n)), f'every number of samples from {lo} to {hi - 1}', 120))
    r.append(Case('steps', over('dt', [3600.0, 128.0, 2.0 ** -12], lambda v: formula(6, (2, 5), -2, 2, 3, v)), 'three steps', 60))
    r += unit_cases('C26')
    return r
