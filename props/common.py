"""helpers shared by the cases: oracles in plain Python on scalars"""
from harness import Case
import math


def q(*v):
    """dyadic constants"""
    return list(v)


def pseudo(n, k=0, den=4):
    """deterministic dyadic sequence, values in about [-5, 5]"""
    r, s = [], 12345 + 7919 * k
    for _ in range(n):
        s = (s * 1103515245 + 12345) % 2 ** 31
        r.append(((s >> 16) % 41 - 20) / den)
    return r


DTS = (3600.0, 128.0, 2.0 ** -12, 3.40625)   # sampling steps far from one second
# one case over a list of settings
def over(name, opts, mk):
    return lambda c: mk(c.choice(name, list(opts)))(c)


T0S = (2.0 ** 21 + 0.5, -65536.0, 1.75 * 2 ** 30)   # time origins far away (seconds since some epoch)


def perm_pairs(c, ha, ta, hb, tb, label):
    """the pairs (ha, ta) are the pairs (hb, tb) in some order"""
    c.asserts += 1
    if not (len(ha) == len(hb) == len(ta) == len(tb)):
        c.fail(label, f'{len(ha)}/{len(ta)} values instead of {len(hb)}/{len(tb)}')
    rest = list(zip(hb, tb))
    for h, t in zip(ha, ta):
        for k, (x, y) in enumerate(rest):
            if c.ident(h, x) and c.ident(t, y):
                del rest[k]
                break
        else:
            for k, (x, y) in enumerate(rest):
                if c.same(h, x) and c.same(t, y):
                    del rest[k]
                    break
            else:
                c.fail(label, 'a pair is not one of the given pairs')


def unchanged(c, arr, copy, label):
    c.eq(c.lst(arr), copy, label)


def crossings(x, typ):
    """indices i with a crossing between i and i+1"""
    r = []
    for i in range(len(x) - 1):
        if typ == 'down':
            if x[i] >= 0 and x[i + 1] < 0:
                r.append(i)
        elif x[i] <= 0 and x[i + 1] > 0:
            r.append(i)
    return r


def cross_time(t, x, i, dt):
    return t[i] + dt * x[i] / (x[i] - x[i + 1])


def waves(t, x, tc):
    """(h, T, crest, trough, tcrest, ttrough) per pair of consecutive crossing times"""
    out = []
    for a, b in zip(tc[:-1], tc[1:]):
        idx = [j for j in range(len(t)) if t[j] >= a and t[j] <= b]
        im = mi = idx[0]
        for j in idx[1:]:
            if x[j] > x[im]:
                im = j
            if x[j] < x[mi]:
                mi = j
        out.append((x[im] - x[mi], b - a, x[im], x[mi], t[im], t[mi]))
    return out


def desc_sorted(v):
    """values in descending order (forks on comparisons)"""
    r = []
    for x in v:
        k = 0
        while k < len(r) and not (x > r[k]):
            k += 1
        r.insert(k, x)
    return r


def total(v):
    s = 0.0
    for x in v:
        s = s + x
    return s


def mean(v):
    return total(v) / len(v)


def off_boundary(c, n, p, k, scale=1):
    """leave out fractions so close to a multiple of 1/n that rounding decides the count, unless n*p/scale is exact"""
    from fractions import Fraction as F
    for j in (k, k + 1):
        b = j * scale / n
        lo, hi = b * (1 - 1e-12), b * (1 + 1e-12)
        exact = F(b) * n == j * scale
        c.assume(p < lo or p > hi or (exact and p == b))


def dft(x):
    """[(re, im)] of sum_j x_j exp(-2 pi i j k / n)"""
    n = len(x)
    out = []
    if n > 256:
        # linear in the inputs: one transform per input
        import symnp
        return [reim(z) for z in symnp.dft_fast([(v, 0.0) for v in x], -1, n)]
    for k in range(n):
        re = im = 0.0
        for j in range(n):
            a = (j * k) % n
            cs, sn = _cs(a, n)
            if cs:
                re = re + x[j] * cs
            if sn:
                im = im - x[j] * sn
        out.append((re, im))
    return out


def _cs(a, n):
    if a * 4 % n == 0:
        q4 = a * 4 // n % 4
        return (1.0, 0.0, -1.0, 0.0)[q4], (0.0, 1.0, 0.0, -1.0)[q4]
    return math.cos(2 * math.pi * a / n), math.sin(2 * math.pi * a / n)


def signal(c, n, sym=None, k=0, name='x', lo=-4, hi=4):
    """n samples, those at positions sym symbolic (all if None), the others a fixed dyadic sequence"""
    x = pseudo(n, k)
    for j in range(n) if sym is None else sym:
        x[j] = c.real(f'{name}{j}', lo, hi)
    return x


def loud(c, n, sym, k=0, big=16384.0):
    """a large offset and a large oscillation of four samples with weak values of about 0.01 on top: large dynamic range"""
    w = [v / 256 for v in pseudo(n, k)]
    for j in sym:
        w[j] = c.real(f'x{j}', -0.03125, 0.03125)
    return [big + big * (0.5, 0.0, -0.5, 0.0)[i % 4] + v for i, v in enumerate(w)]


def axis(n, t0=0.0, dt=0.5):
    return [t0 + i * dt for i in range(n)]


def reim(z):
    """(re, im) of an element in either mode"""
    import symeng as E
    return E.cparts(z)


def eqc(c, a, re, im, label, tol=None):
    r, i = reim(a)
    c.eq(r, re, label + '.re', tol)
    c.eq(i, im, label + '.im', tol)
