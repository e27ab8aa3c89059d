from .common import *
from .units import unit_cases
NOTE = '''Per case: every frequency, depth and gravity within the stated ranges, arrays of at most 4 symbolic frequencies; tanh, exp and roots as opaque axiomatised functions.'''
ASSUME = ['exact real arithmetic; tanh, exp and fractional powers are opaque functions (equal arguments give equal values)']
INF = math.inf


def D(c, w, h, g=None):
    return c.lst(c.m.disp.disper(w, h) if g is None else c.m.disp.disper(w, h, g))


def freqs(c, n, lo=-4, hi=4):
    return [c.real(f'w{i}', lo, hi) for i in range(n)]


def deep(n, form):
    def f(c):
        w = freqs(c, n)
        g = c.real('g', 1, 20)
        arg = w[0] if form == 'number' else list(w) if form == 'list' else c.vec(w)
        k = D(c, arg, INF, g)
        c.eq(len(k), n, 'size')
        for a, b in zip(k, w):
            c.eq(a * g, b * b, 'k g = w^2')
        k = D(c, arg, INF)
        for a, b in zip(k, w):
            c.eq(a * 9.81, b * b, 'k g = w^2, g left out')
        if form == 'array':
            c.eq(c.lst(arg), w, 'frequencies kept')
    return f


def shallow(n, form):
    def f(c):
        w = freqs(c, n)
        g, h = c.real('g', 1, 20), c.real('h', 0.0078125, 1000)
        arg = w[0] if form == 'number' else list(w) if form == 'list' else c.vec(w)
        k = D(c, arg, -h, g)
        c.eq(len(k), n, 'size')
        s = c.sqrt(g * h)
        for a, b in zip(k, w):
            c.eq(a * s, b, 'w = k sqrt(g |h|)')
        k = D(c, arg, -h)
        s = c.sqrt(9.81 * h)
        for a, b in zip(k, w):
            c.eq(a * s, b, 'w = k sqrt(g |h|), g left out')
        if form == 'array':
            c.eq(c.lst(arg), w, 'frequencies kept')
    return f


def zero(c):
    c.lazy()
    n = c.choice('n', [1, 2, 4])
    g, h = c.real('g', 1, 20), c.real('h', 0.125, 1000)
    i = c.choice('i', list(range(n)))
    c.eq(D(c, 0.0, h, g), [0.0], 'k = 0 for zero frequency, single number')
    c.eq(D(c, c.vec([0.0] * n), h), [0.0] * n, 'k = 0 for zero frequencies')
    w = [0.25 * (j + 1) for j in range(n)]
    w[i] = 0.0
    for d in (-h, INF):
        c.eq(D(c, c.vec(w), d, g)[i], 0.0, 'k = 0 for zero frequency')
    for d in (0.25, 3.0, 800.0):
        c.eq(D(c, c.vec(w), d)[i], 0.0, f'k = 0 for zero frequency, depth {d}')


def odd(n, lo, hi, g=None):
    def f(c):
        c.lazy()
        w = [c.real(f'w{i}', lo, hi) for i in range(n)]
        h = c.real('h', 0.0078125, 12000)
        x = c.vec(w)
        k = D(c, x, h, g)
        c.eq(c.lst(x), w, 'frequencies kept')
        m = D(c, c.vec([-v for v in w]), h, g)
        for a, b in zip(k, m):
            c.eq(b, -a, 'odd')
    return f


def single(n, h, vals, sym, lo, hi):
    """an element of an array gets the value it gets alone"""
    def f(c):
        c.lazy()
        w = list(vals[:n])
        for j in sym:
            w[j] = c.real(f'w{j}', lo, hi)
        d = h if h is not None else c.real('h', 1, 50)
        k = D(c, c.vec(w), d)
        c.eq(len(k), n, 'size')
        for j in range(n):
            c.eq(k[j], D(c, c.vec([w[j]]), d)[0], f'element {j} alone')
        j = sym[0] if sym else 0
        c.eq(k[j], D(c, w[j], d)[0], 'as a single number')
        r = D(c, c.vec(w[::-1]), d)
        c.eq(r[::-1], k, 'order of the frequencies')
        c.eq(D(c, list(w), d), k, 'as a list')
    return f


def similarity(n, lo, hi):
    """k h depends on w^2 h / g only"""
    def f(c):
        c.lazy()
        w = [c.real(f'w{i}', lo, hi) for i in range(n)]
        h, g = c.real('h', 0.0078125, 12000), c.real('g', 0.5, 30)
        s, r = c.real('s', 0.125, 8), c.real('r', 0.125, 8)
        k = D(c, c.vec(w), h, g)
        m = D(c, c.vec([s * v for v in w]), r * h, s * s * r * g)
        for a, b in zip(k, m):
            c.eq(b * r, a, 'k h depends on w^2 h/g only')
    return f


def wide(n, h, j):
    """large arrays next to single values"""
    def f(c):
        c.lazy()
        w = [0.03 * (i - n // 2) for i in range(n)]
        v = c.real('w', 0.5, 2.0)
        w[j] = v
        k = D(c, c.vec(w), h)
        c.eq(k[j], D(c, v, h)[0], 'symbolic element')
        for i in {0, 1, n // 2 - 1, n // 2, n // 2 + 2, n - 1} - {j}:
            c.eq(k[i], D(c, w[i], h)[0], f'element {i} alone')
            c.ok((k[i] > 0) == (w[i] > 0) and (k[i] < 0) == (w[i] < 0), f'sign of element {i}')
    return f


def cases(tier):
    th = tier == 'thorough'
    r = []
    for form, n in (('number', 1), ('list', 3), ('array', 1), ('array', 4), ('array', 12)):
        r.append(Case(f'deep-{form}-{n}', deep(n, form), f'{n} frequencies in [-4,4], g in [1,20]', 60))
        r.append(Case(f'shallow-{form}-{n}', shallow(n, form), f'{n} frequencies in [-4,4], g in [1,20], |h| in [1/128,1000]', 60))
    r.append(Case('zero', zero, 'zero frequencies at any depth', 60))
    for n, lo, hi in ((1, 0.01, 0.5), (1, 0.5, 4), (1, 4, 40)):
        r.append(Case(f'odd-{lo}', odd(n, lo, hi), f'frequency in [{lo},{hi}], depth in [1/128,12000]', 150))
        r.append(Case(f'similar-{lo}', similarity(n, lo, hi), f'frequency in [{lo},{hi}], depth in [1/128,12000], g in [0.5,30], two factors in [1/8,8]', 150))
    V = [0.5, 1.25, 0.0, -0.75, 2.0, 0.001]
    r.append(Case('alone-n1', single(1, None, V, (0,), 0.1, 3), 'frequency and depth symbolic', 150))
    r.append(Case('alone-n3', single(3, 10.0, V, (1,), -3, 3), 'one of three frequencies symbolic', 150))
    r.append(Case('alone-n6', single(6, 4.0, V, (3,), -3, 3), 'one of six frequencies symbolic', 150))
    for n, h, j in ((5, 0.1, 0), (80, 9.81, 79), (200, 4000.0, 1)) + (((600, 50.0, 300),) if th else ()):
        r.append(Case(f'wide-{n}', wide(n, h, j), f'array of {n} frequencies, one symbolic, depth {h}', 150))
    r += unit_cases('C20')
    return r
