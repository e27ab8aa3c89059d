from .common import *
from .units import unit_cases

NOTE = '''Per case: every double fraction in [0,1] (IEEE semantics of floor(n*p)) with sorted heights of 1 to 7 waves (thorough 20), every order of up to 5 waves at stated fractions; heights in exact real arithmetic.'''
ASSUME = ['heights and periods in exact real arithmetic; the fraction is an IEEE double (z3 floating-point theory)']


def count(c, n, p):
    """floor(n*p)"""
    v = n * p
    return math.floor(v)


def fn_case(n, wrap='vec'):
    def f(c):
        h, T = c.real_list('h', n, -4, 16), c.real_list('T', n, 0, 16)
        for a, b in zip(h[1:], h[:-1]):
            c.assume_rel(a, '<=', b)
        p = c.fp('p', 0.0, 1.0)
        H, P = c.m.time.highest_waves_params(getattr(c, wrap)(h), getattr(c, wrap)(T), p)
        k = count(c, n, p)
        off_boundary(c, n, p, k)
        c.eq(H, mean(h[:k]) if k else 0.0, 'mean height')
        c.eq(P, mean(T[:k]) if k else 0.0, 'mean period')
    return f


def wide_fp(n, k, lo=0.0, hi=1.0):
    """concrete heights, any double fraction"""
    def f(c):
        h = sorted((abs(v) + i / 4096 for i, v in enumerate(pseudo(n, k))), reverse=True)
        T = [1.0 + 0.125 * ((7 * i) % 11) for i in range(n)]
        p = c.fp('p', lo, hi)
        H, P = c.m.time.highest_waves_params(c.vec(h), c.vec(T), p)
        w = c.m.series.WaveHeights(c.vec(h[::-1]), c.vec(T[::-1]))
        H2, P2 = w.highest_waves(p)
        m = count(c, n, p)
        off_boundary(c, n, p, m)
        for a, b in ((H, P), (H2, P2)):
            c.eq(a, mean(h[:m]) if m else 0.0, 'mean height')
            c.eq(b, mean(T[:m]) if m else 0.0, 'mean period')
    return f


def obj(n, hfix=()):
    """any order of storing; periods distinguish the waves"""
    def f(c):
        h, T = c.real_list('h', n, 0, 16), c.real_list('T', n, 0, 16)
        for i, v in hfix:
            h[i] = v
        for i in range(n):
            for j in range(i):
                if isinstance(h[i], float) and isinstance(h[j], float):
                    continue
                c.assume_rel(h[i], '!=', h[j])
        p = c.choice('p', [i / n for i in range(n + 1)] + [0.3, 0.999])
        w = c.m.series.WaveHeights(c.vec(h), c.vec(T))
        H, P = w.highest_waves(p)
        k = count(c, n, p)
        o = sorted_pairs(h, T)
        c.eq(H, mean([a for a, _ in o[:k]]) if k else 0.0, 'mean height')
        c.eq(P, mean([b for _, b in o[:k]]) if k else 0.0, 'mean period')
        c.eq(w.nwave, n, 'number of waves')
    return f


def sorted_pairs(h, T):
    r = []
    for x in zip(h, T):
        k = 0
        while k < len(r) and not (x[0] > r[k][0]):
            k += 1
        r.insert(k, x)
    return r


def hs(n, hfix=()):
    def f(c):
        h, T = c.real_list('h', n, 0, 16), c.real_list('T', n, 0, 16)
        for i, v in hfix:
            h[i] = v
        for i in range(n):
            for j in range(i):
                if isinstance(h[i], float) and isinstance(h[j], float):
                    continue
                c.assume_rel(h[i], '!=', h[j])
        w = c.m.series.WaveHeights(c.vec(h), c.vec(T))
        H, P = w.get_Hs()
        o = sorted_pairs(h, T)
        k = n // 3
        Hx, Px = (mean([a for a, _ in o[:k]]), mean([b for _, b in o[:k]])) if k else (0.0, 0.0)
        c.eq(H, Hx, 'significant height')
        c.eq(P, Px, 'significant period')
        w2 = c.m.series.WaveHeights(c.vec(h), c.vec(T))
        c.eq(w2.get_H2p_Rayleigh(), Hx * (math.sqrt(-math.log(0.02)) / math.sqrt(2)), 'Rayleigh 2% height')
        w3 = c.m.series.WaveHeights(c.vec(h[::-1]), c.vec(T[::-1]))
        c.eq(w3.get_Hs()[0], Hx, 'independent of storing order')
        c.eq(w3.get_Hs()[1], Px, 'independent of storing order')
    return f


def wide(n, pos, k):
    def f(c):
        h = [abs(v) + i / 4096 for i, v in enumerate(pseudo(n, k))]
        T = [1.0 + 0.125 * ((7 * i) % 11) for i in range(n)]
        for j in pos:
            h[j] = c.real(f'h{j}', 0, 16)
        for j in pos:
            for i in range(n):
                if i not in pos or i < j:
                    c.assume_rel(h[j], '!=', h[i])
        o = sorted_pairs(h, T)
        w = c.m.series.WaveHeights(c.vec(h), c.vec(T))
        for p in (None, 0.1, 0.5, 0.02, 1.0, 2 / 3):
            if p is None:
                H, P = w.get_Hs()
                m = n // 3
            else:
                H, P = w.highest_waves(p)
                m = math.floor(n * p)
            c.eq(H, mean([a for a, _ in o[:m]]) if m else 0.0, f'mean height {p}')
            c.eq(P, mean([b for _, b in o[:m]]) if m else 0.0, f'mean period {p}')
    return f


def sizes(ns, ties):
    """the waves at the border of the highest third are symbolic"""
    def f(c):
        n = c.choice('n', ns)
        k = n // 3
        h = [2.0 * (n - i) for i in range(n)]
        T = [1.0 + 0.125 * ((7 * i) % 11) for i in range(n)]
        j = max(0, k - 1)
        h[j] = c.real('h', h[j] - 3, h[j] + 1)
        if not ties:
            for i in range(max(0, j - 1), min(n, j + 3)):
                if i != j:
                    c.assume_rel(h[j], '!=', h[i])
        p = c.real('p', 0.5, 16)
        T[j] = p
        o = sorted_pairs(h, T)
        perm = [(5 * i + 2) % n for i in range(n)] if n % 5 else list(range(n))[::-1]
        w = c.m.series.WaveHeights(c.vec([h[i] for i in perm]), c.vec([T[i] for i in perm]))
        H, P = w.get_Hs()
        c.eq(H, mean([a for a, _ in o[:k]]) if k else 0.0, 'significant height')
        if not ties:
            c.eq(P, mean([b for _, b in o[:k]]) if k else 0.0, 'significant period')
        for m in sorted({0, 1, k, n // 2, n - 1, n}):
            q = min(1.0, (m + 0.25) / n)
            H, P = w.highest_waves(q)
            c.eq(H, mean([a for a, _ in o[:m]]) if m else 0.0, f'mean of the {m} highest')
            if not ties:
                c.eq(P, mean([b for _, b in o[:m]]) if m else 0.0, f'mean period of the {m} highest')
    return f


def bad_fraction(c):
    h, T = c.real_list('h', 2, 0, 16), c.real_list('T', 2, 0, 16)
    c.assume_rel(h[1], '<=', h[0])
    if c.choice('side', [0, 1]):
        p = c.fp('p', 1.0, 1e6)
        c.assume(p > 1.0)
    else:
        p = c.fp('p', -1e6, 0.0)
        c.assume(p < 0.0)
    c.raises(lambda: c.m.time.highest_waves_params(c.vec(h), c.vec(T), p), 'fraction outside [0,1]')


def unsorted(n):
    def f(c):
        h, T = c.real_list('h', n, 0, 16), c.real_list('T', n, 0, 16)
        k = c.choice('k', list(range(n - 1)))
        c.assume_rel(h[k], '<', h[k + 1])
        p = c.choice('p', [0.0, 0.4, 1.0])
        c.raises(lambda: c.m.time.highest_waves_params(c.vec(h), c.vec(T), p), 'heights not sorted')
    return f


def bad_shape(c):
    h, T = [4.0, 3.0, 2.0], c.real_list('T', 3, 0, 16)
    k = c.choice('k', list(range(5)))
    a = [(c.vec(h[:2]), c.vec(T)), (c.vec(h), c.vec(T[:2])), (c.arr([h]), c.arr([T])), (c.arr([h]), c.vec(T)), (c.vec(h), c.arr([T]))][k]
    c.raises(lambda: c.m.time.highest_waves_params(a[0], a[1], 0.5), 'inconsistent arrays')


def none(c):
    p = c.fp('p', 0.0, 1.0)
    H, P = c.m.time.highest_waves_params(c.vec([]), c.vec([]), p)
    c.eq(H, 0.0, 'no waves')
    c.eq(P, 0.0, 'no waves')
    x = c.real_list('x', 3, 0, 16)
    s = c.m.series.Series(c.vec([0.0, 0.5, 1.0]), c.vec(x))
    for v in s.get_Hs():
        c.eq(v, 0.0, 'record without waves')
    c.eq(s.get_H2p_Rayleigh(), 0.0, 'record without waves')


def cases(tier):
    th = tier == 'thorough'
    r = [Case(f'func-n{n}', fn_case(n), f'{n} sorted waves, any double fraction in [0,1]', 150) for n in (1, 2, 3, 5, 7) + ((10, 20) if th else ())]
    r += [Case(f'object-n{n}', obj(n), f'{n} waves in any order, {n + 3} fractions', 150) for n in (1, 2, 3) + ((4, 5) if th else ())]
    r.append(Case('object-n5', obj(5, ((0, 2.0), (3, 5.0))), '5 waves, 3 symbolic, in any order', 150)) if not th else None
    r += [Case(f'hs-n{n}', hs(n, fx), f'{n} waves', 150) for n, fx in ((1, ()), (3, ()), (4, ()), (6, ((0, 1.0), (2, 3.0), (3, 2.0))), (9, tuple((i, 1.0 + i) for i in range(1, 8))))]
    for k, (n, pos) in enumerate([(20, (3, 11)), (49, (48,)), (150, (75,)), (299, (150,))]):
        r.append(Case(f'wide{n}', wide(n, pos, k), f'{n} waves, heights at {pos} symbolic', 150))
    r += [Case(f'fp-wide{n}', wide_fp(n, k), f'{n} concrete waves, any double fraction in [0,1]', 150) for k, n in enumerate((10, 30, 49, 100) + ((300, 1000) if th else ()))]
    r += [Case('fp-wide300', wide_fp(300, 9, 0.3, 0.4), '300 concrete waves, any double fraction in [0.3,0.4]', 150),
          Case('fp-wide300-few', wide_fp(300, 9, 0.0, 0.02), '300 concrete waves, any double fraction in [0,0.02]', 150)] if not th else []
    r += [Case('fp-wide2000', wide_fp(2000, 10, 0.3325, 0.334), '2000 concrete waves, any double fraction in [0.3325,0.334]', 150), Case('fp-wide2000-few', wide_fp(2000, 10, 0.0, 0.001), '2000 concrete waves, any double fraction in [0,0.001]', 150)]
    r += [Case(f'sizes-{a}-{b}', sizes(list(range(a, b)), False), f'{a} to {b - 1} waves, the height at the border of the highest third and its period symbolic', 150) for a, b in ((1, 9), (9, 17), (17, 25)) + (((25, 33), (33, 41)) if th else ())]
    r.append(Case('sizes-ties', sizes([2, 3, 4, 5, 6, 9], True), 'the same with ties', 150))
    for nm in ('bad_fraction', 'bad_shape', 'none'):
        r.append(Case(nm, globals()[nm], '', 60))
    r += [Case(f'unsorted-n{n}', unsorted(n), f'{n} waves, heights not descending', 100) for n in (2, 3, 4)]
    r += unit_cases('C05')
    return [x for x in r if x]
