from .common import *
from .units import unit_cases

NOTE = '''Per case: every complex component in the stated ranges for 2 to 6 components and blocks of 1 to 3 (thorough 5), long signals (to 1025 components) with one symbolic component; exact real arithmetic.'''
ASSUME = ['components in exact real arithmetic', 'Cauchy-Schwarz cases: components given by magnitude (symbolic) and one of a few phases',
          'energies are called present when the block mean of |X|^2 is at least 1e-10, the limit used by the code']
SMALL = 1e-10
PH = [(1.0, 0.0, 1.0), (0.0, 1.0, 1.0), (-0.75, 1.0, 1.25), (0.4375, -1.5, 1.5625), (-1.0, 0.0, 1.0)]     # real, imaginary, norm (exact)


def comp(c, nm, n, lim=4):
    re, im = c.real_list(nm + 'r', n, -lim, lim), c.real_list(nm + 'i', n, -lim, lim)
    return re, im, c.vec([c.cplx(a, b) for a, b in zip(re, im)])


def energies(re, im):
    return [a * a + b * b for a, b in zip(re, im)]


def noavg(n):
    def f(c):
        xr, xi, X = comp(c, 'x', n)
        yr, yi, Y = comp(c, 'y', n)
        A, B = energies(xr, xi), energies(yr, yi)
        fx = c.vec(axis(n, 0.0, 0.25))
        f1, C = c.m.spec.coherence(fx, X, Y)
        f2, D = c.m.spec.coherence(fx, Y, X)
        c.eq(c.lst(f1), axis(n, 0.0, 0.25), 'frequencies')
        C, D = c.lst(C), c.lst(D)
        c.eq(len(C), n, 'number of values')
        c.eq(C, D, 'symmetric')
        for i in range(n):
            if A[i] >= SMALL and B[i] >= SMALL:
                c.eq(C[i], 1.0, f'coherence {i}')
            else:
                c.le(0, C[i], 'non-negative')
                c.le(C[i], 1.0, 'at most one')
    return f


def formula(n, r, full=True):
    """block coherence is the ratio of the squared mean cross magnitude to the product of mean energies"""
    def f(c):
        xr, xi, X = comp(c, 'x', n)
        yr, yi, Y = comp(c, 'y', n)
        A, B = energies(xr, xi), energies(yr, yi)
        if full:
            for v in A + B:
                c.lower_bound(v, 1 / 64)
        fx = c.vec(axis(n, 0.0, 0.25))
        f1, C = c.m.spec.coherence(fx, X, Y, 0.25 * r)
        f2, D = c.m.spec.coherence(fx, Y, X, 0.25 * r)
        C, D = c.lst(C), c.lst(D)
        c.eq(len(C), n // r, 'number of values')
        for k in range(n // r):
            b = slice(k * r, (k + 1) * r)
            a, e = mean(A[b]), mean(B[b])
            x = mean([c.sqrt(p * q) for p, q in zip(A[b], B[b])])
            a = a if a >= SMALL else SMALL
            e = e if e >= SMALL else SMALL
            c.eq(C[k] * a * e, x * x, f'coherence {k}')
            c.eq(D[k] * a * e, x * x, f'coherence {k}, other order')
            c.le(0, C[k], 'non-negative')
    return f


def schwarz(n, r, ph):
    """0 <= coherence <= 1 for any magnitudes"""
    def f(c):
        a, b = c.real_list('a', n, 1 / 64, 4), c.real_list('b', n, 1 / 64, 4)
        P = [PH[(i * ph + 1) % 5] for i in range(n)]
        Q = [PH[(i * i + ph) % 5] for i in range(n)]
        X = c.vec([c.cplx(u * p[0], u * p[1]) for u, p in zip(a, P)])
        Y = c.vec([c.cplx(u * p[0], u * p[1]) for u, p in zip(b, Q)])
        fx = c.vec(axis(n, 0.0, 0.25))
        f1, C = c.m.spec.coherence(fx, X, Y, 0.25 * r)
        f2, D = c.m.spec.coherence(fx, Y, X, 0.25 * r)
        a, b = [u * p[2] for u, p in zip(a, P)], [u * p[2] for u, p in zip(b, Q)]
        C = c.lst(C)
        c.eq(len(C), n // r, 'number of values')
        c.eq(C, c.lst(D), 'symmetric')
        for k in range(n // r):
            for i in range(k * r, (k + 1) * r):
                for j in range(k * r, i):
                    d = a[i] * b[j] - a[j] * b[i]
                    c.hint_nonneg(d * d)
        for k in range(n // r):
            s = slice(k * r, (k + 1) * r)
            A, B = mean([u * u for u in a[s]]), mean([u * u for u in b[s]])
            x = mean([u * v for u, v in zip(a[s], b[s])])
            c.le(0, C[k], 'non-negative')
            A1 = A if A >= SMALL else SMALL
            B1 = B if B >= SMALL else SMALL
            c.eq(C[k] * A1 * B1, x * x, f'coherence {k}')
            c.le(x * x, A * B, f'at most one {k}')
    return f


def multiple(n, r, sym):
    """a signal and a constant multiple of it"""
    def f(c):
        xr, xi = [v for v in pseudo(n, 3)], [v for v in pseudo(n, 4)]
        for j in sym:
            xr[j], xi[j] = c.real(f'xr{j}', -4, 4), c.real(f'xi{j}', -4, 4)
        p, q, _ = PH[c.choice('phase', [0, 1, 2, 3])]
        mag = c.real('mag', 1 / 64, 4)
        kr, ki = mag * p, mag * q
        K2 = mag * mag * (p * p + q * q)
        X = [c.cplx(p, q) for p, q in zip(xr, xi)]
        kap = c.cplx(kr, ki)
        Y = [kap * v for v in X]
        A = energies(xr, xi)
        fx = c.vec(axis(n, 0.0, 0.25))
        f1, C = c.m.spec.coherence(fx, c.vec(X), c.vec(Y), 0.25 * r)
        C = c.lst(C)
        for k in range(n // r):
            a = mean(A[k * r:(k + 1) * r])
            if a >= SMALL and a * K2 >= SMALL:
                c.eq(C[k], 1.0, f'coherence {k}', tol=1e-6)
            else:
                c.le(0, C[k], 'non-negative')
                c.le(C[k], 1.0, 'at most one')
    return f


def wide(n, r, sym, k, f0=0.0):
    def f(c):
        xr, xi, yr, yi = (pseudo(n, 4 * k + j) for j in range(4))
        for j in sym:
            xr[j], yi[j] = c.real(f'xr{j}', -4, 4), c.real(f'yi{j}', -4, 4)
            xi[j] = yr[j] = 0.0
        X, Y = [c.cplx(p, q) for p, q in zip(xr, xi)], [c.cplx(p, q) for p, q in zip(yr, yi)]
        A, B = energies(xr, xi), energies(yr, yi)
        df = 0.125
        f1, C = c.m.spec.coherence(c.vec(axis(n, f0, df)), c.vec(X), c.vec(Y), df * r)
        _, D = c.m.spec.coherence(c.vec(axis(n, 0.0, df)), c.vec(Y), c.vec(X), df * r)
        C = c.lst(C)
        c.eq(len(C), n // r, 'number of values')
        f1 = c.lst(f1)
        for b in range(n // r):
            c.eq(f1[b], f0 + df * (b * r + (r - 1) / 2), f'frequency {b}')
        c.eq(C, c.lst(D), 'symmetric')
        for b in range(n // r):
            s = slice(b * r, (b + 1) * r)
            a, e = mean(A[s]), mean(B[s])
            x = mean([c.sqrt(p * q) for p, q in zip(A[s], B[s])])
            a = a if a >= SMALL else SMALL
            e = e if e >= SMALL else SMALL
            c.eq(C[b] * a * e, x * x, f'coherence {b}')
            c.le(0, C[b], 'non-negative')
            c.le(x * x, a * e, f'at most one {b}')
    return f


def realmix(n, r, both):
    """one or both signals given with real components"""
    def f(c):
        xr = c.real_list('xr', n, -4, 4)
        yr, yi = c.real_list('yr', n, -4, 4), [0.0] * n
        X = c.vec(xr)
        if both:
            Y = c.vec(yr)
        else:
            yi = c.real_list('yi', n, -4, 4)
            Y = c.vec([c.cplx(a, b) for a, b in zip(yr, yi)])
        A, B = energies(xr, [0.0] * n), energies(yr, yi)
        fx = c.vec(axis(n, 0.0, 0.25))
        C = c.lst(c.m.spec.coherence(fx, X, Y, 0.25 * r)[1])
        D = c.lst(c.m.spec.coherence(fx, Y, X, 0.25 * r)[1])
        for k in range(n // r):
            b = slice(k * r, (k + 1) * r)
            a, e = mean(A[b]), mean(B[b])
            x = mean([c.sqrt(p * q) for p, q in zip(A[b], B[b])])
            a = a if a >= SMALL else SMALL
            e = e if e >= SMALL else SMALL
            c.eq(C[k] * a * e, x * x, f'coherence {k}')
            c.eq(D[k] * a * e, x * x, f'coherence {k}, other order')
    return f


def cases(tier):
    th = tier == 'thorough'
    r = [Case(f'noavg-n{n}', noavg(n), f'two signals of {n} components', 100) for n in (2, 3) + ((4,) if th else ())]
    r += [Case(f'formula-n{n}-r{q}', formula(n, q), f'two signals of {n} components with energy, blocks of {q}', 150) for n, q in ((2, 2), (4, 2), (3, 3), (5, 2))]
    r += [Case(f'small-n{n}-r{q}', formula(n, q, False), f'two signals of {n} components, also without energy, blocks of {q}', 150) for n, q in ((2, 2), (3, 2))]
    r += [Case(f'schwarz-n{n}-r{q}', schwarz(n, q, n), f'{n} components of any magnitude, blocks of {q}', 150) for n, q in ((2, 1), (2, 2), (3, 3), (4, 2), (5, 2)) + (((4, 4), (5, 5), (6, 3)) if th else ())]
    r += [Case(f'multiple-n{n}-r{q}', multiple(n, q, sym), f'{n} components, complex factor', 150) for n, q, sym in ((2, 1, (0, 1)), (4, 2, (1,)), (6, 3, (0,)), (6, 1, (2,)))]
    r += [Case(f'real-n{n}-r{q}-{b}', realmix(n, q, b), f'{n} components, {"both signals" if b else "one signal"} with real components, blocks of {q}', 100) for n, q, b in ((2, 1, 0), (2, 2, 0), (2, 1, 1), (2, 2, 1))]
    r += [Case(f'wide-n{n}-r{q}', wide(n, q, sym, k), f'{n} components, those at {sym} symbolic, blocks of {q}', 150) for k, (n, q, sym) in enumerate([(20, 4, (6,)), (33, 5, (0,)), (64, 1, (50,)), (129, 10, (120,)), (257, 16, (3,)), (1025, 7, (1020,))])]
    r.append(Case('sizes', over('n', [(n, q) for n in range(2, 19) for q in {1, 2, 3, n}], lambda v: wide(v[0], v[1], (v[0] // 2,), v[0], 0.5 * (v[0] % 3))), 'every number of components from 2 to 18, blocks of 1, 2, 3 and all', 100))
    r += unit_cases('C12')
    return r
