from .common import *
NOTE = '''Per case: every frequency within the stated range for unit depth and gravity (or the stated concrete depth); tanh, exp and roots enter through Taylor enclosures with rigorous remainders, instantiated box by box (about 5 % wide, bisected where needed); C20 carries the result to every depth and gravity.'''
ASSUME = ['exact real arithmetic (rounding of the enclosures bounded); Taylor theorem for tanh, exp and powers']


def acc(lo, hi, h=1.0, g=1.0, neg=False, default=False):
    def f(c):
        c.lazy(names=True)
        w = c.real('w', lo, hi)
        c.boxes('w', lo, hi, 1.04)
        x = -w if neg else w
        k = D(c, c.vec([x]), h) if default else D(c, c.vec([x]), h, g)
        c.eq(len(k), 1, 'size')
        k = -k[0] if neg else k[0]
        r = g * k * c.fn('tanh', k * h) / (w * w)
        c.le_boxes(r - 1, 1e-7, 'g k tanh(k h) <= w^2 (1 + 1e-7)')
        c.le_boxes(1 - r, 1e-7, 'g k tanh(k h) >= w^2 (1 - 1e-7)')
        c.le_boxes(0.0, k, 'sign of the wave number')
    return f


def D(c, w, h, g=None):
    return c.lst(c.m.disp.disper(w, h) if g is None else c.m.disp.disper(w, h, g))


def wide(n, j, lo, hi, h):
    """one element of an array with widely different others"""
    def f(c):
        c.lazy(names=True)
        w = [0.05 + 0.37 * i for i in range(n)]
        w[j] = c.real('w', lo, hi)
        c.boxes('w', lo, hi, 1.04)
        k = D(c, c.vec(w), h)
        c.eq(len(k), n, 'size')
        for i in range(n):
            if i != j:
                c.le(abs(9.81 * k[i] * math.tanh(k[i] * h) / w[i] ** 2 - 1), 1e-7, f'element {i}')
        r = 9.81 * k[j] * c.fn('tanh', k[j] * h) / (w[j] * w[j])
        c.le_boxes(r - 1, 1e-7, 'g k tanh(k h) <= w^2 (1 + 1e-7)')
        c.le_boxes(1 - r, 1e-7, 'g k tanh(k h) >= w^2 (1 - 1e-7)')
    return f


def cases(tier):
    th = tier == 'thorough'
    e = [1e-9, 1e-6, 0.0001, 0.01, 0.1, 0.3, 0.6, 0.9, 1.0, 1.1, 1.3, 1.7, 2.3, 3.2, 4.5, 10, 100]
    r = [Case(f'accuracy-{a}', acc(a, b), f'w sqrt(h/g) in [{a},{b}]', 200) for a, b in zip(e, e[1:])]
    for h in (0.05, 2.0, 30.0, 4000.0) + ((0.001, 0.3, 7.0, 11000.0) if th else ()):
        s = math.sqrt(9.81 / h)
        r.append(Case(f'depth-{h}', acc(0.01 * s, 4.5 * s, h, 9.81, default=True), f'depth {h}, w sqrt(h/g) in [0.01,4.5], g left out', 200))
        r.append(Case(f'negative-{h}', acc(0.01 * s, 4.5 * s, h, 9.81, True), f'depth {h}, -w sqrt(h/g) in [0.01,4.5]', 200))
    for g in (1.62, 25.0) + ((3.7, 9.8) if th else ()):
        s = math.sqrt(g / 12.0)
        r.append(Case(f'gravity-{g}', acc(0.01 * s, 4.5 * s, 12.0, g), f'depth 12, g = {g}', 200))
    r.append(Case('wide-4', wide(4, 2, 0.2, 4, 5.0), 'one of 4 frequencies in [0.2,4], depth 5', 200))
    r.append(Case('wide-30', wide(30, 0, 0.2, 4, 5.0), 'one of 30 frequencies in [0.2,4], depth 5', 200))
    if th:
        r.append(Case('wide-300', wide(300, 299, 0.1, 3, 20.0), 'one of 300 frequencies in [0.1,3], depth 20', 600))
    return r
