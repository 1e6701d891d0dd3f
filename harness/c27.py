"""Shipped models: the processes they are named after, their priors and their starting points"""
import numpy as np

from engine.harness import Item
from .c12 import ITO, SWITCHING, params, volatility
from .c13 import state


def process(h):
    """reduced drift = Ito's formula applied to the named process"""
    model = h.p['model']
    m = h.mod(model)
    if model in ITO:
        thi = params(h, model)
        v = state(h, model, 'v')
        if model.endswith('cir'):
            mu, vol = thi[0] * (thi[1] - v), thi[2] * h.sqrt(v)
        else:
            mu, vol = -thi[0] * v, thi[1]
        one = lambda f, x: np.asarray(f(thi, h.arr([x]))).reshape(-1)[0]
        d = h.derivative(lambda v: one(m.reduce, v), v)
        dd = h.derivative(lambda v: one(m.dv_reduce, v), v)
        h.check('unit volatility', h.eq(d * vol, h.num(1), tol=1e-5))
        h.check('drift of the named process', h.eq(one(m.eval_drift, one(m.reduce, v)), d * mu + dd * vol ** 2 / 2, tol=1e-4))
        h.observe('drift', one(m.eval_drift, one(m.reduce, v)))
        return
    k = h.p['regimes']
    thi = params(h, model, k)
    ys = [h.choose(f'y{i}', range(k)) for i in range(2)]
    vs = [h.real(f'v{i}') for i in range(2)]
    vol = m.eval_vol(thi, np.array(ys))
    drift = m.eval_drift(thi, np.array(ys), m.reduce(h.arr(vs)))
    for i, (y, v) in enumerate(zip(ys, vs)):
        rate = thi[y, 0] * thi[y, 1] if model.endswith('ou3') else thi[y, 0]
        h.check('volatility of the regime', h.eq(vol[i], volatility(h, model, thi, y)))
        h.check('drift of the regime', h.eq(drift[i], -rate * v))
    h.observe('values', [vol, drift])


def log_density(h, model, row, s, r):
    """log prior of one regime up to a constant"""
    if model.endswith('cir'):
        bet, mu, sig = row
        return -bet - mu - 1 / sig ** 2 - 3 * h.log(sig)
    a, b = h.log(row[0]), h.log(row[1])
    return -a - a ** 2 / (2 * s ** 2) - b - (2 * b) ** 2 / (2 * r ** 2)


def prior(h):
    model, k = h.p['model'], h.p.get('regimes')
    m = h.mod(model)
    kw, s, r = {}, h.num(1), h.num(1)
    if h.p.get('scaled'):
        s, r = h.pos('s'), h.pos('r')
        kw = dict(scale_bet=s, scale_rho=r)
    thi = params(h, model) if model in ITO else params(h, model, k)
    base = np.asarray(h.arr([1] * thi.size)).reshape(thi.shape)
    rows = [list(thi)] if model in ITO else [list(x) for x in thi]
    got = h.call(lambda: m.eval_log_prior(thi, **kw)) - h.call(lambda: m.eval_log_prior(base, **kw))
    want = h.num(0)
    for row in rows:
        want = want + log_density(h, model, row, s, r) - log_density(h, model, [h.num(1)] * len(row), s, r)
    h.check('log prior density up to a constant', h.eq(got, want))
    h.observe('value', got)


def outside(h):
    """no prior mass where a parameter is negative"""
    model, k = h.p['model'], h.p.get('regimes')
    m = h.mod(model)
    thi = params(h, model) if model in ITO else params(h, model, k)
    flat = list(thi.reshape(-1))
    j = h.choose('negative', range(len(flat)))
    both = h.choose('more', [False, True])
    flat[j] = -flat[j]
    if both:
        flat[j - 1] = -flat[j - 1]
    got = h.call(lambda: m.eval_log_prior(h.arr(flat).reshape(thi.shape)))
    h.check('no mass outside the domain', h.const(isinstance(got, float) and got == -np.inf))
    h.observe('minus infinity', h.const(isinstance(got, float) and got == -np.inf))


def start(h):
    """default start: strictly inside the bounds, which lie in the domain of the prior"""
    model = h.p['model']
    m = h.mod(model)
    lo, hi = (np.asarray(b, dtype=float) for b in m.bounds_thi)
    x = np.asarray(m.init_thi, dtype=float)
    h.check('one bound per parameter', h.const(lo.shape == hi.shape == x.shape))
    h.check('starts inside the bounds', h.const(bool(np.all(lo < x) and np.all(x < hi))))
    u = h.vec('u', x.size, 0, 1)
    w = [h.num(float(a)) + (h.num(float(b - a)) if np.isfinite(b) else h.pos(f'w{i}')) * u[i] for i, (a, b) in enumerate(zip(lo, hi))]
    h.check('bounds admit positive parameters only', h.all([h.lt(h.num(0), v) for v in w]))
    h.observe('bounds', [lo, x])


def items(tier):
    q = tier == 'quick'
    b = 30 if q else 240
    out = []
    for m in ITO:
        out += [Item(f'{m}:process', process, model=m, budget=b), Item(f'{m}:prior', prior, model=m, budget=b),
                Item(f'{m}:outside', outside, model=m, budget=b), Item(f'{m}:start', start, model=m, budget=b)]
    out.append(Item('ito.models.ou:prior,scaled', prior, model='ito.models.ou', scaled=True, budget=b))
    for m in SWITCHING:
        for k in (1, 2, 3) if q else (1, 2, 3, 4):
            out += [Item(f'{m}:process[{k}]', process, model=m, regimes=k, budget=b),
                    Item(f'{m}:prior[{k}]', prior, model=m, regimes=k, budget=b),
                    Item(f'{m}:prior,scaled[{k}]', prior, model=m, regimes=k, scaled=True, budget=b)]
        out += [Item(f'{m}:outside', outside, model=m, regimes=2, budget=b), Item(f'{m}:start', start, model=m, budget=b)]
    return out
