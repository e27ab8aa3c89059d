from .common import *
from .units import unit_cases
NOTE = '''Per case: every array of 1 to 5 values (thorough 6) in [-8,8], in any order, and every value looked up in [-16,16]; every value for uniform, growing and repeated axes of up to 200 values; integers; one symbolic entry in an array of 200.'''
ASSUME = ['exact real arithmetic: distances that differ by less than rounding are not told apart in replays']


def dist(a, b):
    return a - b if a >= b else b - a


def judge(c, x, v, i, label):
    """i is the first position at minimal distance"""
    c.ok(type(i) is int or hasattr(i, '__index__'), label + ': an integer', repr(i))
    i = int(i)
    c.ok(0 <= i < len(x), label + ': a position', str(i))
    d = dist(x[i], v)
    for j, y in enumerate(x):
        if j < i:
            c.ok(d < dist(y, v), f'{label}: nearer than entry {j}')
        elif j > i:
            c.ok(d <= dist(y, v), f'{label}: not farther than entry {j}')


def every(n, form):
    def g(c):
        x = [c.real(f'x{i}', -8, 8) for i in range(n)]
        v = c.real('v', -16, 16)
        i = c.m.eng.approx_array_index(c.vec(x) if form == 'array' else list(x), v)
        judge(c, x, v, i, 'nearest')
    return g


AXES = {'uniform-20': [0.25 * i for i in range(20)], 'uniform-200': [0.125 * i for i in range(200)], 'shifted-50': [3.0 + 0.5 * i for i in range(50)],
        'growing-30': [0.0625 * i * i for i in range(30)], 'falling-20': [5.0 - 0.25 * i for i in range(20)], 'two': [1.0, 2.0], 'one': [4.0], 'same-5': [2.0] * 5,
        'pairs-10': [0.5 * (i // 2) for i in range(10)], 'mixed': [3.0, -1.0, 2.0, 3.0, -1.0, 0.5]}


def axes(name):
    """every value on a given axis, also exactly half-way between two entries"""
    def g(c):
        x = AXES[name]
        v = c.real('v', x[0] - 4, x[0] + 12)
        judge(c, x, v, c.m.eng.approx_array_index(c.vec(x), v), name)
    return g


def ties(c):
    """half-way between entries"""
    n = c.choice('n', [2, 3, 5, 8])
    d = c.choice('d', [0.5, 0.25, 3.0])
    t0 = c.real('t0', -8, 8)
    k = c.choice('k', list(range(n - 1)))
    x = [t0 + i * d for i in range(n)]
    i = c.m.eng.approx_array_index(c.vec(x), t0 + (k + 0.5) * d)
    c.ok(i in (k, k + 1) if not c.sym else i == k, 'first of two', f'{i} instead of {k}')
    z = [0.25 * round(i * d * 4) for i in range(n)]
    c.ok(c.m.eng.approx_array_index(c.vec(z), (z[k] + z[k + 1]) / 2) == k, 'first of two, dyadic axis')
    r = z[::-1]
    c.ok(c.m.eng.approx_array_index(c.vec(r), (r[k] + r[k + 1]) / 2) == k, 'first of two, falling axis')
    s = [t0] * n
    c.ok(c.m.eng.approx_array_index(c.vec(s), t0 + d) == 0, 'first of equal entries')


def entry(n):
    """one symbolic entry in a long array"""
    def g(c):
        x = pseudo(n, n)
        p = c.choice('p', [0, 1, n // 2, n - 1])
        x[p] = c.real('x', -8, 8)
        v = c.choice('v', [-6.0, -0.125, 0.0, 2.375, 7.0])
        judge(c, x, v, c.m.eng.approx_array_index(c.vec(x), v), 'nearest')
    return g


def whole(c):
    """integer arrays and values"""
    x = [c.int(f'k{i}', -5, 5) for i in range(3)]
    v = c.int('v', -8, 8)
    judge(c, x, v, c.m.eng.approx_array_index(c.ivec(x), v), 'integers')
    w = v + 0.5
    judge(c, x, w, c.m.eng.approx_array_index(c.ivec(x), w), 'integer array')
    judge(c, x, w, c.m.eng.approx_array_index(list(x), w), 'list of integers')


def cases(tier):
    th = tier == 'thorough'
    r = []
    for n in (1, 2, 3, 4) + ((5,) if th else ()):
        r.append(Case(f'every-{n}', every(n, 'array'), f'every array of {n} values', 120 if n < 5 else 900))
    r.append(Case('every-list', every(3, 'list'), 'every list of 3 values', 60))
    for k in AXES:
        r.append(Case(k, axes(k), f'{len(AXES[k])} entries, every value', 150))
    r.append(Case('ties', ties, 'half-way values', 60))
    r.append(Case('entry-200', entry(200), '200 entries, one symbolic', 120))
    r.append(Case('entry-1500', entry(1500), '1500 entries, one symbolic', 120))
    r.append(Case('whole', whole, 'three integers', 90))
    r.append(Case('sizes', over('n', range(5, 41), lambda n: entry(n)), '5 to 40 entries, one symbolic', 120))
    r += unit_cases('C30')
    return r
