from .common import *
from .units import unit_cases
NOTE = '''Per case: every incident and reflected amplitude (or every record, every weight) within the stated ranges on concrete gauge layouts and depths, even and odd record lengths up to 21 (thorough 41), wide up to 100 points with a few symbolic amplitudes; exact real arithmetic with rounded cosines and sines of the concrete phases (tolerance 1e-9).'''
ASSUME = ['exact real arithmetic; the phases k x of the concrete layouts are rounded to double precision']
TOL = 1e-7


def wavenumber(w, h, g=9.81):
    """Newton on k tanh(k h) = w^2/g"""
    if w == 0:
        return 0.0
    k = max(w * w / g, w / math.sqrt(g * h))
    for _ in range(200):
        th = math.tanh(k * h)
        f = k * th - w * w / g
        d = th + k * h * (1 - th * th)
        k -= f / d
    return k


def setup(n, dt, h, d, weights, det=0.125):
    """frequency, wave number and conditioning per frequency"""
    out = []
    for j in range(n // 2 + 1):
        k = wavenumber(2 * math.pi * j / (n * dt), h)
        z = sum(w * complex(math.cos(2 * k * x), math.sin(2 * k * x)) for w, x in zip(weights, d))
        out.append((j, k, 0.25 * (sum(weights) ** 2 - abs(z) ** 2)))
    assert all(abs(s - det) > 1e-6 for _, _, s in out), [s for _, _, s in out]
    return out


def train(c, n, js, name, sym, lo=-2, hi=2, big=1.0):
    """complex amplitudes of the components"""
    A = {}
    for i, j in enumerate(js):
        if sym is None or j in sym:
            A[j] = (c.real(f'{name}c{j}', lo, hi), c.real(f'{name}s{j}', lo, hi))
        else:
            A[j] = (0.25 * (i + 1) * (-1) ** i * big, (0.5 - 0.125 * i) * big)
    return A


def elevation(A, m, n, phase):
    """sum of Re(A exp(i (2 pi j m/n + phase_j)))"""
    s = 0.0
    for j, (a, b) in A.items():
        p = 2 * math.pi * j * m / n + phase(j)
        s = s + a * math.cos(p) - b * math.sin(p)
    return s


def ZS(c, t, rec, h, xloc, w, *a):
    n = len(t)
    x = c.arr([[r[i] for r in rec] for i in range(n)])
    i, r = c.m.dec.decompose_linear_ZS(c.vec(t), x, h, c.vec(xloc), c.vec(w), *a)
    i, r = c.lst(i), c.lst(r)
    c.eq(len(i), n, 'length of the incident record')
    c.eq(len(r), n, 'length of the reflected record')
    return i, r


def series_ZS(c, t, rec, h, xloc, w, *a):
    ser = [c.m.series.Series(c.vec(t), c.vec(r)) for r in rec]
    i, r = c.m.dec.decompose_linear_ZS_series(ser, h, c.vec(xloc), c.vec(w), *a)
    c.eq(c.lst(i.time), t, 'time of the incident series')
    c.eq(c.lst(r.time), t, 'time of the reflected series')
    return c.lst(i.xTime), c.lst(r.xTime)


def recover(n, d, h, w, dt=0.5, t0=0.0, x0=0.0, sym=None, det=None, series=False, off=False, rng=(-2, 2), big=1.0):
    def f(c):
        o = c.real('x0', -100, 100) if off else x0
        s = setup(n, dt, h, d, w, 0.125 if det is None else det)
        good = [j for j, k, q in s if q > (0.125 if det is None else det) and 2 * j != n]
        bad = [j for j, k, q in s if q < (0.125 if det is None else det) and 2 * j != n]
        kk = {j: k for j, k, q in s}
        A, B = train(c, n, good, 'a', sym, *rng, big), train(c, n, good, 'b', sym, *rng, big)
        # components outside the well-conditioned range do not show up in either result
        Z = train(c, n, bad, 'z', sym, *rng) if bad else {}
        t = axis(n, t0, dt)
        rec = [[elevation(A, m, n, lambda j: -kk[j] * x) + elevation(B, m, n, lambda j: kk[j] * x) + elevation(Z, m, n, lambda j: -kk[j] * x)
                for m in range(n)] for x in d]
        inc, ref = (series_ZS if series else ZS)(c, t, rec, h, [o + x for x in d], w, *([] if det is None else [det]))
        c.eq(inc, [elevation(A, m, n, lambda j: 0.0) for m in range(n)], 'incident train', TOL)
        c.eq(ref, [elevation(B, m, n, lambda j: 0.0) for m in range(n)], 'reflected train', TOL)
    return f


def nyquist(n, d, h, w, dt=0.5):
    """a standing wave (reflected amplitude the conjugate of the incident one) at the Nyquist frequency of an even record"""
    def f(c):
        s = setup(n, dt, h, d, w)
        j, k, q = s[-1]
        assert 2 * j == n and q > 0.125
        a, b = c.real('a', -2, 2), c.real('b', -2, 2)
        t = axis(n, 0.0, dt)
        rec = [[(-1) ** m * 2 * (a * math.cos(k * x) + b * math.sin(k * x)) for m in range(n)] for x in d]
        inc, ref = ZS(c, t, rec, h, d, w)
        c.eq(inc, [(-1) ** m * a for m in range(n)], 'incident train at Nyquist', TOL)
        c.eq(ref, [(-1) ** m * a for m in range(n)], 'reflected train at Nyquist', TOL)
    return f


def weights(n, d, h, j, dt=0.5, fixed=None, lo=0.5):
    """every weight of a gauge array, one component; lower limit on the conditioning from the range of weights"""
    def f(c):
        g = len(d)
        w = [c.real(f'w{i}', lo, 1) if fixed is None or fixed[i] is None else fixed[i] for i in range(g)]
        s = setup(n, dt, h, d, [1] * g)
        kk = {i: k for i, k, q in s}
        # conditioning as a function of the weights: sum of w_a w_b sin^2(k (x_a - x_b))
        for i in range(1, (n + 1) // 2):
            q = 0.0
            for a in range(g):
                for b in range(a):
                    q = q + w[a] * w[b] * math.sin(kk[i] * (d[a] - d[b])) ** 2
            if i == j:
                c.assume_rel(q, '>=', 0.1875)
            else:
                c.assume(q > 0.126 or q < 0.124)
        A, B = train(c, n, [j], 'a', None), train(c, n, [j], 'b', None)
        rec = [[elevation(A, m, n, lambda j: -kk[j] * x) + elevation(B, m, n, lambda j: kk[j] * x) for m in range(n)] for x in d]
        inc, ref = ZS(c, axis(n, 0.0, dt), rec, h, d, w)
        c.eq(inc, [elevation(A, m, n, lambda j: 0.0) for m in range(n)], 'incident train', TOL)
        c.eq(ref, [elevation(B, m, n, lambda j: 0.0) for m in range(n)], 'reflected train', TOL)
    return f


def linear(n, d, h, w, dt=0.5, sym=None):
    def f(c):
        t = axis(n, 0.0, dt)
        p = [signal(c, n, sym, k=i, name=f'p{i}_') for i in range(len(d))]
        q = [signal(c, n, sym, k=9 + i, name=f'q{i}_') for i in range(len(d))]
        al, be = c.real('al', -3, 3), c.real('be', -3, 3)
        pi, pr = ZS(c, t, p, h, d, w)
        qi, qr = ZS(c, t, q, h, d, w)
        si, sr = ZS(c, t, [[al * a + be * b for a, b in zip(u, v)] for u, v in zip(p, q)], h, d, w)
        c.eq(si, [al * a + be * b for a, b in zip(pi, qi)], 'incident part is linear', TOL)
        c.eq(sr, [al * a + be * b for a, b in zip(pr, qr)], 'reflected part is linear', TOL)
    return f


def same_series(n, d, h, w, dt=0.5, t0=2.0, sym=None):
    def f(c):
        t = axis(n, t0, dt)
        p = [signal(c, n, sym if i == 1 else (), k=i, name=f'p{i}_') for i in range(len(d))]
        for a in ((), (0.5,)):
            i, r = ZS(c, t, p, h, d, w, *a)
            si, sr = series_ZS(c, t, p, h, d, w, *a)
            c.eq(si, i, 'incident series')
            c.eq(sr, r, 'reflected series')
    return f


def zero(n, d, h, w, dt=0.5, det=0.125, sym=None):
    """arbitrary records: nothing at ill-conditioned frequencies"""
    def f(c):
        t = axis(n, 0.0, dt)
        p = [signal(c, n, sym, k=i, name=f'p{i}_') for i in range(len(d))]
        s = setup(n, dt, h, d, w, det)
        i, r = ZS(c, t, p, h, d, w, det)
        for y, l in ((i, 'incident'), (r, 'reflected')):
            Y = dft(y)
            for j, k, q in s:
                if q < det:
                    c.eq(list(Y[j]), [0.0, 0.0], f'{l} part at ill-conditioned frequency {j}', TOL)
        # the fit reproduces the records best: with two gauges exactly
        if len(d) == 2:
            I, R = dft(i), dft(r)
            for g, x in enumerate(d):
                P = dft(p[g])
                for j, k, q in s:
                    if q > det and 2 * j == n:
                        if g == 0:
                            c.eq(I[j][0] + R[j][0], P[j][0], 'first gauge at Nyquist', TOL)
                    elif q > det:
                        cs, sn = math.cos(k * x), math.sin(k * x)
                        re = I[j][0] * cs + I[j][1] * sn + R[j][0] * cs - R[j][1] * sn
                        im = I[j][1] * cs - I[j][0] * sn + R[j][1] * cs + R[j][0] * sn
                        c.eq([re, im], list(P[j]), f'gauge {g} frequency {j}', TOL)
    return f


def reject(c):
    n = 6
    t = axis(n)
    g = c.choice('gauges', [2, 3])
    d = [0.0, 0.75, 1.75][:g]
    p = [signal(c, n, (1,), k=i, name=f'p{i}_') for i in range(g)]
    w = [1.0] * g
    f = lambda *a: lambda: ZS(c, *a)
    c.raises(f(t, p, 2.0, d[:-1], w), 'a position missing')
    c.raises(f(t, p, 2.0, d + [9.0], w), 'a position too many')
    c.raises(f(t, p, 2.0, d, w[:-1]), 'a weight missing')
    c.raises(f(t, p, 2.0, d, w + [1.0]), 'a weight too many')
    c.raises(f(t, p[:-1] if g > 2 else p[:1], 2.0, d, w), 'a record missing')
    c.raises(f(t, p[:1], 2.0, d[:1], w[:1]), 'one gauge')
    x = c.arr([[r[i] for r in p] for i in range(n)])
    for tt, l in ((t[:-1], 'a time missing'), (t + [n * 0.5], 'a time too many'), (t[:-1] + [n * 0.5], 'time axis not uniform'), (t[::-1], 'time axis decreasing')):
        c.raises(lambda: c.m.dec.decompose_linear_ZS(c.vec(tt), x, 2.0, c.vec(d), c.vec(w)), l)
    i = c.choice('i', list(range(g)))
    over, neg = list(w), list(w)
    over[i] = c.real('over', 1.0, 8, True)
    neg[i] = c.real('neg', -8, -0.0078125)
    c.raises(f(t, p, 2.0, d, over), 'weight above one')
    c.raises(f(t, p, 2.0, d, neg + [] if g > 2 else neg), 'negative weight')
    j = c.choice('j', list(range(1, g)))
    s = list(d)
    s[j] = d[j - 1] - c.real('back', 0, 8)
    c.raises(f(t, p, 2.0, s, w), 'positions not increasing')
    c.raises(f(t, p, 2.0, d[::-1], w), 'positions decreasing')


L2, L3, L5 = [0.0, 0.75], [0.0, 0.75, 1.75], [0.0, 0.5, 1.25, 2.5, 3.75]


def cases(tier):
    th = tier == 'thorough'
    r = []
    rr = lambda nm, *a, b=60, **k: r.append(Case(nm, recover(*a, **k), f'{a[0]} samples, {len(a[1])} gauges, depth {a[2]}, weights {a[3]}, every amplitude in [-2,2]', b))
    for n in (6, 7, 8, 11, 12, 16, 21) + ((32, 41) if th else ()):
        rr(f'two-{n}', n, L2, 2.0, [1.0, 1.0], x0=-3.0)
        rr(f'three-{n}', n, L3, 0.75, [1.0, 1.0, 0.5], t0=4.0)
        rr(f'five-{n}', n, L5, 5.0, [1.0, 0.5, 0.75, 1.0, 0.25], dt=0.75)
    rr('zero-weight', 8, L3, 1.5, [0.0, 1.0, 1.0])
    rr('zero-weight-mid', 9, L3, 1.5, [1.0, 0.0, 1.0])
    rr('deep', 9, L3, 60.0, [1.0, 1.0, 1.0])
    rr('shallow', 8, [0.0, 0.5, 1.0], 0.125, [1.0, 1.0, 1.0])
    rr('detlim-low', 8, L3, 2.0, [1.0, 1.0, 1.0], det=0.01)
    rr('detlim-high', 8, L3, 2.0, [1.0, 1.0, 1.0], det=0.8)
    rr('series-8', 8, L3, 2.0, [1.0, 1.0, 1.0], series=True, t0=3.0, sym=(1, 2), rng=(1.0, 1.01))
    rr('series-9', 9, L2, 2.0, [1.0, 1.0], series=True, sym=(2,), rng=(0.75, 0.76))
    rr('offset-8', 8, L3, 2.0, [1.0, 1.0, 1.0], off=True)
    rr('offset-9', 9, L2, 0.5, [1.0, 1.0], off=True)
    rr('wide-40', 40, L3, 2.0, [1.0, 0.5, 1.0], dt=0.25, sym=(3, 11), b=150)
    rr('wide-41', 41, L2, 2.0, [1.0, 1.0], dt=0.25, sym=(2, 20), b=150)
    rr('wide-100', 100, L3, 4.0, [1.0, 1.0, 0.75], dt=0.125, sym=(5, 20), b=150)
    rr('loud-16', 16, L3, 2.0, [1.0, 1.0, 0.5], sym=(2, 5), rng=(-0.0078125, 0.0078125), big=4096.0)
    rr('loud-65', 65, L2, 2.0, [1.0, 1.0], dt=0.25, sym=(4, 20), rng=(-0.0078125, 0.0078125), big=1024.0)
    if th:
        rr('wide-60', 60, L5, 8.0, [1.0, 0.5, 1.0, 1.0, 1.0], dt=0.25, sym=(3, 11, 29), b=600)
    W = lambda nm, *a, b=150, **k: r.append(Case(nm, weights(*a, **k), f'{a[0]} samples, {len(a[1])} gauges, every weight in [0.5,1], component {a[3]}', b))
    W('weights-2', 4, L2, 2.0, 1)
    W('weights-3', 4, L3, 2.0, 1)
    W('weights-3-odd', 5, L3, 0.75, 2)
    W('weights-5', 4, L5, 2.0, 1, fixed=[None, 0.5, None, 1.0, 0.0])
    for n, d, h, w in ((4, L2, 2.0, [1.0, 1.0]), (8, L3, 0.75, [1.0, 1.0, 0.5]), (12, L5, 5.0, [1.0, 0.5, 0.75, 1.0, 0.25])):
        r.append(Case(f'nyquist-{n}', nyquist(n, d, h, w, 0.75), f'{n} samples, {len(d)} gauges, standing wave at Nyquist', 60))
    for n, sym in ((4, None), (5, None)) + (((8, (0, 3)), (9, (1, 2, 8))) if th else ()):
        r.append(Case(f'linear-{n}', linear(n, L3, 2.0, [1.0, 0.5, 1.0], sym=sym), f'{n} samples, 3 gauges, two sets of records and two factors symbolic', 120))
    r.append(Case('linear-2', linear(6, L2, 0.5, [1.0, 1.0], sym=(1, 4)), '6 samples, 2 gauges', 120))
    for n, sym in ((6, (3, 4)), (7, (0,)), (12, (5,))):
        r.append(Case(f'series-same-{n}', same_series(n, L3, 2.0, [1.0, 0.5, 1.0], sym=sym), f'{n} samples, 3 gauges, samples of one record', 120))
    for n, d, det in ((8, L2, 0.125), (8, L2, 0.01), (9, L2, 0.4), (8, L3, 0.5), (9, L3, 0.01), (7, L5, 1.5)):
        r.append(Case(f'zero-{n}-{len(d)}-{det}', zero(n, d, 2.0, [1.0] * len(d), det=det), f'{n} samples, {len(d)} gauges, every record, limit {det}', 120))
    r.append(Case('reject', reject, 'inconsistent, unsorted and inadmissible input', 60))
    r += unit_cases('C22')
    return r
