import numpy as np

from engine.harness import Item

ITO = ['ito.models.ou', 'ito.models.cir']
SWITCHING = ['switching.models.ou', 'switching.models.ou2', 'switching.models.ou3']


def params(h, model, n_regimes=2):
    """arbitrary positive parameters"""
    if model in ITO:
        return h.vec('thi', 3 if model.endswith('cir') else 2, 0, None)
    return h.mat([[h.pos(f'thi{i}{j}') for j in range(2)] for i in range(n_regimes)])


def reduced(h, model, thi, v):
    """oracle: observation in the coordinates with unit (or regime) volatility"""
    if model.endswith('cir'):
        return 2 * h.sqrt(v) / thi[2]
    if model in ITO:
        return v / thi[1]
    return v


def volatility(h, model, thi, y):
    if model in ITO:
        return h.num(1)
    a, b = thi[y, 0], thi[y, 1]
    return {'ou': 1 / b, 'ou2': a / b, 'ou3': a}[model.rsplit('.', 1)[1]]


def observations(h, model, n):
    ts = [h.num(0)] + list(h.times('t', n - 1))
    if h.choose('start', ['zero', 'late']) == 'late':
        s = h.pos('start')
        ts = [t + s for t in ts]
    vs = [h.pos(f'v{i}') if model.endswith('cir') else h.real(f'v{i}') for i in range(n)]
    ys = None
    if model in SWITCHING:
        ys = [h.choose(f'y{i}', [0, 1]) for i in range(n - 1)]
        ys.append(ys[-1])
    return ts, vs, ys


def operators(h, model, thi, ts, vs, ys):
    m = h.mod(model)
    if ys is None:
        return m.gen_normops(thi, h.arr(ts), h.arr(vs))
    return m.gen_normops(thi, h.arr(ts), np.array(ys), h.arr(vs))


def intervals(h):
    model = h.p['model']
    thi = params(h, model)
    n = h.p['n']
    ts, vs, ys = observations(h, model, n)
    ops = list(operators(h, model, thi, ts, vs, ys))
    h.check('one pair of maps per interval', h.const(len(ops) == n - 1))
    k = h.p['k']
    for i, (norm, denorm) in enumerate(ops):
        dt = ts[i + 1] - ts[i]
        x0, x1 = [reduced(h, model, thi, v) for v in vs[i:i + 2]]
        vol = volatility(h, model, thi, None if ys is None else ys[i])
        scale = h.sqrt(dt) * vol
        # the end points
        s, z = norm(h.arr([0, dt]), h.arr([x0, x1]))
        h.check('end points to zero', h.all([h.eq_all(s, [0, 1]), h.eq_all(z, [0, 0])]))
        t, x = denorm(h.arr([0, 1]), h.arr([0, 0]))
        h.check('zeros to the end points', h.all([h.eq_all(t, [0, dt]), h.eq_all(x, [x0, x1])]))
        # arbitrary points
        w = list(h.vec(f'w{i}', k, 0, 1))
        xs = list(h.vec(f'x{i}', k))
        s, z = norm(h.arr([dt * a for a in w]), h.arr(xs))
        h.check('time is mapped linearly onto the unit interval', h.eq_all(s, w))
        h.check('deviation from the line, scaled', h.all([
            h.eq(c * scale, x - x0 - a * (x1 - x0)) for a, x, c in zip(w, xs, z)]))
        t, x = denorm(s, z)
        h.check('denormalising inverts normalising', h.all([h.eq_all(t, [dt * a for a in w]), h.eq_all(x, xs)]))
        zs = list(h.vec(f'z{i}', k))
        t, x = denorm(h.arr(w), h.arr(zs))
        h.check('normalised path to the reduced path', h.all([h.eq_all(t, [dt * a for a in w]), h.eq_all(
            x, [x0 + a * (x1 - x0) + scale * c for a, c in zip(w, zs)])]))
        s2, z2 = norm(t, x)
        h.check('normalising inverts denormalising', h.all([h.eq_all(s2, w), h.eq_all(z2, zs)]))
        s, z = norm(h.arr([dt * a for a in w]), None)
        t, x = denorm(h.arr(w), None)
        h.check('times alone', h.all([h.eq_all(s, w), h.eq_all(t, [dt * a for a in w]), h.const(z is None and x is None)]))
        h.observe('z', list(z2))


def pivot(h):
    """unit Brownian bridge to an arbitrary bridge, also on a transformed clock"""
    tr = h.mod('sdelib.transforms')
    k = h.p['k']
    w, z = list(h.vec('w', k, 0, 1)), list(h.vec('z', k))
    T, x0, xT = h.pos('T'), h.real('x0'), h.real('xT')
    c = h.pos('c')
    clock = h.choose('clock', ['plain', 'scaled', 'square'])
    kw = {} if clock == 'plain' else dict(norm_time=lambda t: t * c, denorm_time=lambda u: u / c) if clock == 'scaled' else \
        dict(norm_time=lambda t: t * t, denorm_time=lambda u: h.sqrt(u))
    amp = T if clock == 'plain' else T * c if clock == 'scaled' else T * T
    t, x = tr.pivot_brownbr(h.arr(w), h.arr(z), T, x0, xT, **kw)
    h.check('times', h.all([h.eq(a, b * T) if clock != 'square' else h.all([h.eq(a * a, b * T * T), h.le(0, a)]) for a, b in zip(t, w)]))
    h.check('values', h.eq_all(x, [x0 + a * (xT - x0) + h.sqrt(amp) * b for a, b in zip(w, z)]))
    t, x = tr.pivot_brownbr(h.arr([0, 1]), h.arr([0, 0]), T, x0, xT, **kw)
    h.check('end points', h.all([h.eq_all(t, [0, T]), h.eq_all(x, [x0, xT])]))
    h.observe('x', list(x))


def bessel(h):
    """three unit bridges to a 3-d Bessel bridge from zero"""
    tr = h.mod('sdelib.transforms')
    k = h.p['k']
    w = list(h.vec('w', k, 0, 1))
    z = [[h.real(f'z{i}{j}') for j in range(3)] for i in range(k)]
    T, xT = h.pos('T'), h.pos('xT')
    t, x = tr.gen_seeded_bessel3br(h.arr(w), h.mat(z), T, xT)
    h.check('times', h.eq_all(t, [a * T for a in w]))
    for i in range(k):
        d = [h.sqrt(T) * z[i][j] for j in range(3)]
        h.check('norm of three bridges', h.eq(x[i] * x[i], (d[0] + w[i] * xT) ** 2 + d[1] ** 2 + d[2] ** 2))
        h.check('non-negative', h.le(0, x[i]))


def items(tier):
    q = tier == 'quick'
    b = 30 if q else 240
    out = []
    for m in ITO + SWITCHING:
        for n in ((2, 3) if q else (2, 3, 4, 5)):
            out.append(Item(f'{m}[{n}]', intervals, model=m, n=n, k=2 if q else 3, budget=b))
    for k in ((1, 2) if q else (1, 2, 3)):
        out += [Item(f'pivot[{k}]', pivot, k=k, budget=b), Item(f'bessel[{k}]', bessel, k=k, budget=b)]
    return out
