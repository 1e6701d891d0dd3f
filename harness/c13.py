import math
from fractions import Fraction

import numpy as np

from engine.harness import Item
from .c12 import ITO, SWITCHING, params, reduced, volatility


def funcs(h, model, thi, y):
    """name -> function of one reduced state"""
    m = h.mod(model)

    def lift(f):
        if y is None:
            return lambda x: np.asarray(f(thi, h.arr([x]))).reshape(-1)[0]
        return lambda x: np.asarray(f(thi, y, h.arr([x]))).reshape(-1)[0]
    return m, lift(m.eval_drift), lift(m.sx_eval_drift), lift(m.dx_eval_drift), lift(m.eval_disc)


def state(h, model, name='x'):
    return h.pos(name) if model.endswith('cir') else h.real(name)


def same(h, a, b):
    return h.eq(np.asarray(a).reshape(-1)[0], b)


def calculus(h):
    model = h.p['model']
    thi = params(h, model)
    y = None if model in ITO else h.choose('y', [0, 1])
    m, drift, sx, dx, disc = funcs(h, model, thi, y)
    x = state(h, model)
    vol = volatility(h, model, thi, y)
    h.check('drift potential differentiates to the drift', h.eq(h.derivative(sx, x), drift(x), tol=1e-5))
    h.check('drift derivative', h.eq(h.derivative(drift, x), dx(x), tol=1e-5))
    h.check('discrepancy', h.eq(disc(x), (drift(x) ** 2 / vol ** 2 + dx(x)) / 2))
    h.observe('values', [drift(x), sx(x), dx(x), disc(x)])


def reduction(h):
    model = h.p['model']
    thi = params(h, model)
    m = h.mod(model)
    v = state(h, model, 'v')
    if model in ITO:
        red, der, dv = (lambda v: m.reduce(thi, h.arr([v]))[0]), (lambda x: m.dereduce(thi, h.arr([x]))[0]), \
            (lambda v: m.dv_reduce(thi, h.arr([v]))[0])
    else:
        red, der, dv = (lambda v: m.reduce(h.arr([v]))[0]), (lambda x: m.dereduce(h.arr([x]))[0]), (lambda v: m.dv_reduce(h.arr([v]))[0])
    x = red(v)
    h.check('inverse cancels the reduction', h.eq(der(x), v))
    z = state(h, model, 'z')
    h.check('reduction cancels the inverse', h.eq(red(der(z)), z))
    h.check('derivative of the reduction', h.eq(h.derivative(red, v), dv(v), tol=1e-5))
    h.observe('x', [x, dv(v)])


def labels(h):
    """vectorised regime labels"""
    model = h.p['model']
    n, k = h.p['n'], h.p['regimes']
    thi = params(h, model, k)
    m = h.mod(model)
    ys = [h.choose(f'y{i}', range(k)) for i in range(n)]
    xs = list(h.vec('x', n))
    for name in ('eval_drift', 'sx_eval_drift', 'dx_eval_drift', 'eval_disc'):
        f = getattr(m, name)
        got = np.asarray(f(thi, np.array(ys), h.arr(xs)))
        h.check('one value per label', h.const(got.shape == (n,)))
        if got.shape == (n,):
            for i in range(n):
                h.check(f'vectorised {name}', same(h, f(thi, ys[i], h.arr([xs[i]])), got[i]))
    got = np.asarray(m.eval_vol(thi, np.array(ys)))
    h.check('vectorised volatility', h.eq_all(got.reshape(-1), [volatility(h, model, thi, y) for y in ys]))


def logdensity(h, dx, var, jac):
    """Gaussian increment log-density plus log-Jacobian"""
    return h.log(jac) - h.log(2 * math.pi * var if not h.sym else 2 * Fraction(math.pi) * var) / 2 - dx * dx / (2 * var)


def loglik(h):
    model = h.p['model']
    thi = params(h, model)
    m = h.mod(model)
    n = h.p['n']
    ts = [h.real('t0', 0, None, lo_strict=False)]
    ts += list(h.times('d', n - 1, ts[0]))
    vs = [state(h, model, f'v{i}') for i in range(n)]
    got = m.eval_biased_log_lik(thi, h.arr(ts), h.arr(vs))
    _, drift, sx, _, _ = funcs(h, model, thi, None)
    want = h.num(0)
    for i in range(n - 1):
        a, b = reduced(h, model, thi, vs[i]), reduced(h, model, thi, vs[i + 1])
        jac = 1 / (h.sqrt(vs[i + 1]) * thi[2]) if model.endswith('cir') else 1 / thi[1]
        want = want + logdensity(h, b - a, ts[i + 1] - ts[i], jac) + sx(b) - sx(a)
    h.check('biased log-likelihood', h.eq(got, want))
    h.observe('value', got)


def switching_loglik(h):
    """grid of observations (no change of regime) and regime changes"""
    model = h.p['model']
    ys = h.p['ys']
    n = len(ys)
    thi = params(h, model)
    m = h.mod(model)
    ts = [h.num(0)] + list(h.times('d', n - 1))
    vs = [state(h, model, f'v{i}') for i in range(n)]
    part = h.choose('restrict', [None, 0, 1])
    args = (thi, h.arr(ts), np.array(ys), h.arr(vs))
    got = m.eval_biased_log_lik(*args) if part is None else m.eval_biased_log_lik(*args, part)
    own, rest = got
    S = lambda y, x: np.asarray(m.sx_eval_drift(thi, y, h.arr([x]))).reshape(-1)[0]
    var = [(ts[i + 1] - ts[i]) * volatility(h, model, thi, ys[i]) ** 2 for i in range(n - 1)]
    inc = [logdensity(h, vs[i + 1] - vs[i], var[i], h.num(1)) for i in range(n - 1)]
    pot = [(S(ys[i], vs[i + 1]) - S(ys[i], vs[i])) / volatility(h, model, thi, ys[i]) ** 2 for i in range(n - 1)]
    sel = [i for i in range(n - 1) if part is None or ys[i] == part]
    obs = [i for i in range(n) if i == 0 or ys[i] == ys[i - 1]]
    dens = h.num(0)
    for a, b in zip(obs, obs[1:]):
        v = h.num(0)
        for i in range(a, b):
            v = v + var[i]
        dens = dens + logdensity(h, vs[b] - vs[a], v, h.num(1))
    tot = lambda xs: sum(xs, h.num(0))
    h.check('restricted part', h.eq(own, tot(inc[i] + pot[i] for i in sel)))
    h.check('remainder', h.eq(rest, dens - tot(inc[i] for i in sel)))
    if part is None:
        h.check('whole likelihood', h.eq(own + rest, dens + tot(pot)))
    h.observe('value', [own, rest])


GRIDS = [(0, 0), (0, 1, 1), (1, 1, 0, 0), (0, 1, 1, 1, 0, 0), (0, 1, 0, 0)]


def items(tier):
    q = tier == 'quick'
    b = 30 if q else 240
    out = []
    for m in ITO + SWITCHING:
        out += [Item(f'{m}:calculus', calculus, model=m, budget=b), Item(f'{m}:reduction', reduction, model=m, budget=b)]
    for m in ITO:
        out += [Item(f'{m}:loglik[{n}]', loglik, model=m, n=n, budget=b) for n in ((2, 3) if q else (2, 3, 4, 5))]
    for m in SWITCHING:
        out += [Item(f'{m}:labels[{k},{n}]', labels, model=m, n=n, regimes=k, budget=b)
                for k, n in (((2, 2), (3, 2)) if q else ((2, 2), (2, 3), (3, 2), (3, 3)))]
        out += [Item(f'{m}:loglik{g}'.replace(' ', ''), switching_loglik, model=m, ys=g, budget=b) for g in (GRIDS[:4] if q else GRIDS)]
    return out
