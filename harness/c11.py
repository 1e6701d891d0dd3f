import numpy as np

from engine.harness import Item


def run(h, gid, f, zs=None):
    """f with a generator of its own whose normals are given (in the order drawn)"""
    if zs is not None:
        for i, z in enumerate(zs):
            h.script[f'{gid}.z{i}'] = z
    return np.asarray(f(h.gen(gid)))


def affine(h, f):
    """f(generator) -> (shape, mean, coefficients, number of normals); checks that f is affine in its normals"""
    y = run(h, 'g', f)
    zs = h.flat_prims('z', 'g')
    h.check('only normals are drawn', h.const(len(h.drawn(gen='g')) == len(h.drawn('z', 'g'))))
    n = len(zs)
    mean = run(h, 'm', f, [h.num(0)] * n)
    cols = [run(h, f'e{k}', f, [h.num(int(i == k)) for i in range(n)]) - mean for k in range(n)]
    tot = mean
    for z, c in zip(zs, cols):
        tot = tot + c * z
    h.check('affine in the normals', h.eq_all(y.reshape(-1), np.asarray(tot).reshape(-1)))
    h.observe('y', list(y.reshape(-1)))
    return y, mean, cols, n


def cov(h, cols, i, j):
    s = h.num(0)
    for c in cols:
        s = s + c.reshape(-1)[i] * c.reshape(-1)[j]
    return s


def least(h, i, j, ts):
    return ts[min(i, j)]


def wiener(h):
    pa, mo = h.mod('sdelib.paths'), h.mod('sdelib.moments')
    n, d = h.p['n'], h.p['d']
    ts = list(h.times('t', n))
    x0 = h.vec('x', d)
    mu = h.vec('mu', d) if h.choose('drift', ['given', 'none']) == 'given' else None
    f = (lambda g: pa.sample_wiener(h.arr(ts), x0, mu, g)) if mu is not None else \
        (lambda g: pa.sample_wiener(h.arr(ts), x0, ome=g))
    y, mean, cols, _ = affine(h, f)
    h.check('shape', h.const(y.shape == (n, d)))
    for j in range(d):
        b = mu[j] if mu is not None else h.num(0)
        for i in range(n):
            h.check('mean', h.eq(mean[i, j], x0[j] + b * ts[i]))
        m, c = mo.moments_wiener(h.arr(ts), x0[j], b)
        h.check('stated mean', h.eq_all(m, [x0[j] + b * t for t in ts]))
        for i in range(n):
            for k in range(n):
                h.check('stated covariance', h.eq(c[i, k], least(h, i, k, ts)))
                for l in range(d):
                    h.check('covariance', h.eq(cov(h, cols, i * d + j, k * d + l), least(h, i, k, ts) if j == l else 0))


def bridge(h):
    pa, mo = h.mod('sdelib.paths'), h.mod('sdelib.moments')
    n = h.p['n']
    ts = list(h.times('t', n))
    T = ts[-1] + h.pos('gT')
    x0, xT = h.real('x0'), h.real('xT')
    y, mean, cols, _ = affine(h, lambda g: pa.sample_brownbr(h.arr(ts), T, x0, xT, g))
    h.check('shape', h.const(y.shape == (n,)))
    m, c = mo.moments_brownbr(h.arr(ts), T, x0, xT)
    for i in range(n):
        want = x0 + (xT - x0) * ts[i] / T
        h.check('mean', h.eq(mean[i], want))
        h.check('stated mean', h.eq(m[i], want))
        for k in range(n):
            s, t = ts[min(i, k)], ts[max(i, k)]
            h.check('covariance', h.eq(cov(h, cols, i, k), s * (T - t) / T))
            h.check('stated covariance', h.eq(c[i, k], s * (T - t) / T))


def defaults(h):
    """unit bridge from zero to zero, standard Wiener process"""
    mo = h.mod('sdelib.moments')
    n = h.p['n']
    w = [h.unit('w0')]
    for i in range(1, n):
        w.append(w[-1] + (1 - w[-1]) * h.unit(f'w{i}'))
    m, c = mo.moments_brownbr(h.arr(w))
    h.check('zero mean', h.all([h.eq(x, 0) for x in m]))
    h.check('covariance', h.all([h.eq(c[i, j], w[min(i, j)] * (1 - w[max(i, j)])) for i in range(n) for j in range(n)]))
    m, c = mo.moments_wiener(h.arr(w))
    h.check('zero mean', h.all([h.eq(x, 0) for x in m]))
    h.check('covariance', h.all([h.eq(c[i, j], w[min(i, j)]) for i in range(n) for j in range(n)]))


def bessel(h):
    pa = h.mod('sdelib.paths')
    n, d = h.p['n'], h.p['d']
    ts = list(h.times('t', n))
    br = h.p['bridge']
    x = h.pos('x')
    mu = h.real('mu') if not br and h.choose('drift', ['given', 'none']) == 'given' else None
    T = ts[-1] + h.pos('gT')
    if br:
        y = np.asarray(pa.sample_besselbr(h.arr(ts), T, x, d, h.gen()))
    else:
        y = np.asarray(pa.sample_bessel(h.arr(ts), x, d, mu, h.gen()) if mu is not None else
                       pa.sample_bessel(h.arr(ts), x, d, ome=h.gen()))
    zs = h.flat_prims('z', 'g')
    h.check('one normal per time and dimension', h.const(len(zs) == n * d and len(h.draws) == len(h.drawn('z'))))
    h.check('one value per time', h.const(y.shape == (n,)))
    if len(zs) != n * d or y.shape != (n,):
        return
    # the same normals arranged by time or by dimension, the displaced coordinate first or last
    ok = []
    for lay in (0, 1):
        for pos in (d - 1, 0):
            sq = [h.num(0)] * n
            for j in range(d):
                z = [zs[i * d + j] if lay == 0 else zs[j * n + i] for i in range(n)]
                e = x if j == pos else h.num(0)
                gid = f'b{lay}{pos}{j}'
                if br:
                    v = run(h, gid, lambda g: pa.sample_brownbr(h.arr(ts), T, h.num(0), e, g), z)
                else:
                    v = run(h, gid, lambda g: pa.sample_wiener(
                        h.arr(ts), h.arr([e]), h.arr([mu if mu is not None and j == pos else 0]), g), z).reshape(-1)
                sq = [s + a * a for s, a in zip(sq, v)]
            ok.append(h.all([h.eq(a * a, s) for a, s in zip(y, sq)]))
            if d == 1:
                break
    h.check('norm of such a vector', h.any(ok))
    h.check('non-negative', h.all([h.le(0, v) for v in y]))
    h.observe('y', list(y))


def conditioning(h):
    """conditioning on the last coordinate of an arbitrary Gaussian vector"""
    mo = h.mod('sdelib.moments')
    n = h.p['n']
    mean = h.vec('m', n)
    # covariance L L^T of an arbitrary lower triangular factor
    L = [[(h.pos if i == j else h.real)(f'l{i}{j}') if j <= i else h.num(0) for j in range(n)] for i in range(n)]
    C = [[sum((L[i][k] * L[j][k] for k in range(n)), h.num(0)) for j in range(n)] for i in range(n)]
    x = h.real('x')
    m, c = mo.moments_gaussian_bridge(x, mean, h.mat(C))
    m, c = np.asarray(m), np.asarray(c)
    h.check('shape', h.const(m.shape == (n - 1,) and c.shape == (n - 1, n - 1)))
    last = n - 1
    for i in range(n - 1):
        b = C[i][last] / C[last][last]
        h.check('regression on the last coordinate', h.eq(m[i], mean[i] + b * (x - mean[last])))
        for j in range(n - 1):
            h.check('residual covariance', h.eq(c[i, j] + b * C[j][last], C[i][j]))
    h.observe('moments', list(m) + list(c.reshape(-1)))


def wiener_to_bridge(h):
    mo = h.mod('sdelib.moments')
    n = h.p['n']
    ts = list(h.times('t', n))
    T = ts[-1] + h.pos('gT')
    x0, xT, mu = h.real('x0'), h.real('xT'), h.real('mu')
    m, c = mo.moments_gaussian_bridge(xT, *mo.moments_wiener(h.arr(ts + [T]), x0, mu))
    m2, c2 = mo.moments_brownbr(h.arr(ts), T, x0, xT)
    h.check('same mean', h.eq_all(m, m2))
    h.check('same covariance', h.eq_all(np.asarray(c).reshape(-1), np.asarray(c2).reshape(-1)))


def fill(h):
    """interpolating a Wiener vector: known values stay, new ones are independent bridges between neighbours in every coordinate"""
    it = h.mod('sdelib.interpolators')
    d, want = h.p['d'], h.p['new']
    n = len(want)
    ts = [h.num(0)] + list(h.times('t', n))
    x = h.mat([[h.real(f'x{i}{j}') for j in range(d)] for i in range(n + 1)])
    new, seg = [], []
    for i, k in enumerate(want):
        a = ts[i]
        for q in range(k):
            a = a + (ts[i + 1] - a) * h.unit(f's{i}{q}')
            new.append(a)
            seg.append(i)
    out = []

    def run_fill(g):
        t, v, at = it.fill_wiener_vector(h.arr(ts), x, h.arr(new), g)
        out.append((t, np.asarray(v), at))
        return v
    y, mean, cols, _ = affine(h, run_fill)
    t, _, at = out[0]
    grid, known, fresh = [], {}, []
    for i in range(n + 1):
        known[len(grid)] = i
        grid.append(ts[i])
        for a, b in zip(new, seg):
            if b == i:
                fresh.append(len(grid))
                grid.append(a)
    h.check('known and new times in order', h.all([h.const(len(t) == len(grid))] + [h.eq(a, b) for a, b in zip(t, grid)]))
    h.check('where the new ones are', h.const([int(i) for i in at] == fresh))
    h.check('one vector per time', h.const(y.shape == (len(grid), d)))
    if y.shape != (len(grid), d):
        return
    for k, i in known.items():
        h.check('known values stay', h.eq_all(y[k], x[i]))
    for a, k in enumerate(fresh):
        i = seg[a]
        T = ts[i + 1] - ts[i]
        s = new[a] - ts[i]
        for j in range(d):
            h.check('mean of a bridge', h.eq(mean[k, j], x[i, j] + (x[i + 1, j] - x[i, j]) * s / T))
            for b, l in enumerate(fresh[:a + 1]):
                for m in range(d):
                    c = (new[b] - ts[i]) * (T - s) / T if seg[b] == i and m == j else h.num(0)
                    h.check('covariance of a bridge', h.eq(cov(h, cols, k * d + j, l * d + m), c))


def guards(h):
    pa, mo = h.mod('sdelib.paths'), h.mod('sdelib.moments')
    T = h.pos('T')
    bad = h.choose('bad', ['early', 'late'])
    good = T * h.unit('w')
    ts = [h.real('e', None, 0, hi_strict=False), good] if bad == 'early' else [good, T + h.real('e', 0, None, lo_strict=False)]
    x0, xT = h.real('x0'), h.real('xT')
    g = h.gen()
    fs = [lambda: pa.sample_brownbr(h.arr(ts), T, x0, xT, g), lambda: pa.sample_besselbr(h.arr(ts), T, h.pos('xp'), 3, g),
          lambda: mo.moments_brownbr(h.arr(ts), T, x0, xT)]
    if bad == 'early':
        fs += [lambda: pa.sample_wiener(h.arr(ts), h.arr([x0]), ome=g), lambda: mo.moments_wiener(h.arr(ts), x0),
               lambda: pa.sample_bessel(h.arr(ts), h.pos('xp'), 2, ome=g)]
    for f in fs:
        h.check('times outside the horizon are refused', h.const(isinstance(h.call(f, allow=(AssertionError, ValueError)), Exception)))


def items(tier):
    q = tier == 'quick'
    b = 30 if q else 240
    N = (1, 2, 3) if q else (1, 2, 3, 4, 5)
    out = []
    for n in N:
        out += [Item(f'wiener[{n}]', wiener, n=n, d=1 if n > 2 else 2, budget=b, max_draws=400),
                Item(f'bridge[{n}]', bridge, n=n, budget=b, max_draws=400),
                Item(f'conditioning[{n + 1}]', conditioning, n=n + 1, budget=b),
                Item(f'wiener to bridge[{n}]', wiener_to_bridge, n=n, budget=b),
                Item(f'defaults[{n}]', defaults, n=n, budget=b)]
        for d in ((1, 3) if q else (1, 2, 3, 4)):
            out += [Item(f'bessel[{n},{d}]', bessel, n=n, d=d, bridge=False, budget=b, max_draws=400),
                    Item(f'bessel bridge[{n},{d}]', bessel, n=n, d=d, bridge=True, budget=b, max_draws=400)]
    for d in (1, 2) if q else (1, 2, 3):
        for new in [(), (1,), (2,), (1, 2), (0, 1, 1)] + ([] if q else [(3,), (2, 2), (1, 0, 2)]):
            out.append(Item(f'fill[{d};{new}]', fill, d=d, new=new, budget=b, max_draws=400))
    return out + [Item('guards', guards, budget=b)]
