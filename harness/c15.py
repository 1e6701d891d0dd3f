"""Parameter moves: the bounds reported for the gradient of the discrepancy, and the intensity of the acceptance flips."""
from fractions import Fraction

import numpy as np

from engine.harness import Item
from .c12 import SWITCHING, params, volatility

MODELS = ['ito.models.ou'] + SWITCHING


def pairs(h, changed):
    """two parameter values differing in the given coordinates"""
    nil = [h.pos('a0'), h.pos('a1')]
    prime = [h.pos(f'b{i}') if i in changed else nil[i] for i in range(2)]
    for i in changed:
        h.assume(h.neg(h.eq(nil[i], prime[i])))
    return nil, prime


def full(h, model, thi, y):
    """parameter array of a model, the other regime arbitrary"""
    if model.startswith('ito'):
        return h.arr(thi)
    rows = [[h.pos('o0'), h.pos('o1')] for _ in range(2)]
    rows[y] = list(thi)
    return h.mat(rows)


def scaled(h, model, thi, r, v0, v1, s, z):
    """oracle: the reduced state at normalised time s and normalised value z"""
    line = (1 - s) * v0 + s * v1
    if model.startswith('ito'):
        return r * z + line / thi[1]
    a, b = thi
    vol = {'ou': 1 / b, 'ou2': a / b, 'ou3': a}[model.rsplit('.', 1)[1]]
    return r * vol * z + line


def oracle(h, model, thi, r, v0, v1, s, z):
    """the discrepancy at fixed normalised path"""
    x = scaled(h, model, thi, r, v0, v1, s, z)
    a, b = thi
    k = model.rsplit('.', 1)[1]
    if model.startswith('ito'):
        return (a * a * x * x - a) / 2
    return {'ou': ((a * b * x) ** 2 - a) / 2, 'ou2': ((b * x) ** 2 - a) / 2, 'ou3': ((b * x) ** 2 - a * b) / 2}[k]


def gradient(h):
    model = h.p['model']
    i = h.p['i']
    y = 0
    m = h.mod(model)
    nil, prime = pairs(h, h.p['changed'])
    r = h.pos('r')
    T = r * r
    v0, v1 = h.real('v0'), h.real('v1')
    le, ue = -h.pos('below'), h.pos('above')
    ub = m.eval_bounds_grad(h.arr(nil), h.arr(prime), T, v0, v1, *((le, ue) if h.choose('order', [0, 1]) else (ue, le)))
    h.check('one bound per parameter', h.const(np.shape(ub) == (2,)))
    s = h.real('s', 0, 1, lo_strict=False, hi_strict=False)
    z = le + h.real('wz', 0, 1, lo_strict=False, hi_strict=False) * (ue - le)
    w = [h.real(f'w{j}', 0, 1, lo_strict=False, hi_strict=False) for j in range(2)]
    thi = [nil[j] + w[j] * (prime[j] - nil[j]) for j in range(2)]
    thi_i = h.pos('p')
    d = None
    if h.sym:
        f = lambda p: oracle(h, model, [p if j == i else thi[j] for j in range(2)], r, v0, v1, s, z)
        h.assume(h.eq(thi_i, thi[i]))
        d = h.derivative(f, thi_i)
    else:
        d = h.derivative(lambda p: oracle(h, model, [p if j == i else thi[j] for j in range(2)], r, v0, v1, s, z), thi[i])
    if model == 'ito.models.ou':
        h.check('gradient', h.eq(m.eval_grad(h.arr(thi), T, v0, v1, h.arr([s * T]), h.arr([z]))[i, 0], d, tol=1e-5))
    h.check('dominates the partial derivative from above', h.le(d, ub[i]))
    h.check('dominates the partial derivative from below', h.le(-ub[i], d))


def cir(h):
    """the square-root model reports bounds too, and its chain uses them"""
    m = h.mod('ito.models.cir')
    i = h.p['i']
    nil = [h.pos(f'a{j}') for j in range(3)]
    prime = list(nil)
    prime[i] = h.pos('b')
    h.assume(h.neg(h.eq(prime[i], nil[i])))
    v0, v1 = h.num(1), h.num(Fraction(9, 4))
    ub = m.eval_bounds_grad(h.arr(nil), h.arr(prime), h.num(1), v0, v1, -h.num(Fraction(1, 2)), h.num(1))
    s, z = h.unit('s'), h.unit('z')

    def disc(p):
        k, mu, sg = [p if j == i else nil[j] for j in range(3)]
        x = z + 2 * (1 + s * Fraction(1, 2)) / sg
        a = 2 * k * mu / sg ** 2 - Fraction(1, 2)
        return ((a / x - k * x / 2) ** 2 - a / x ** 2 - k / 2) / 2
    d = h.derivative(disc, nil[i])
    h.check('dominates the partial derivative', h.all([h.le(d, ub[i]), h.le(-ub[i], d)]))


def model_of(h, model, t, vt):
    """the collection of functions the samplers work with"""
    m = h.mod(model)
    ito = model.startswith('ito')
    mc = h.mod('ito.mcmc' if ito else 'switching.mcmc')
    fs = [m.eval_log_prior, m.sample_aug, m.gen_normops, m.eval_biased_log_lik, m.eval_disc, m.eval_bounds_disc, m.eval_bounds_grad]
    if ito:
        return mc, mc.Model(h.arr(t), h.arr(vt), m.bounds_thi, *fs)
    return mc, mc.Model(h.arr(t), h.arr(vt), m.bounds_thi, (h.mat([[h.num(1)] * 2] * 2),) * 2, *fs)


def flip(h):
    """one acceptance flip of one bridge: marks at times where the path is known, anywhere in its range"""
    model = h.p['model']
    ms = h.mod('ea3lib.seed')
    if h.p.get('wide'):
        # both contributions at their largest at the same place: only their sum covers the change
        nil = [h.num(1), h.num(h.choose('second', [1, 2]))]
        prime = [a * Fraction(c) for a, c in zip(nil, h.choose('ratio', [('11/10', '11/10'), ('11/10', '10/11'), ('10/11', '10/11')]))]
    elif h.p['free'] or len(h.p['changed']) == 1:
        nil, prime = pairs(h, h.p['changed'])
    else:
        nil = [h.pos('a0'), h.pos('a1')]
        prime = [a * Fraction(c) for a, c in zip(nil, h.choose('ratio', [('2', '1/2'), ('3/4', '3'), ('3/2', '3/2'), ('1/4', '2/3')]))]
    y = 0
    thi_nil, thi_prime = full(h, model, nil, y), full(h, model, prime, y)
    r = h.num(h.choose('r', [2, 1][:h.p['geo']]))
    T = r * r
    if h.p['free']:
        v0, v1 = h.real('v0'), h.real('v1')
        le, ue = -h.pos('below'), h.pos('above')
    elif h.p.get('wide'):
        v0 = v1 = h.num(10)
        le, ue = h.num(-1), h.num(10)
    else:
        v0, v1 = [h.num(Fraction(v)) for v in h.choose('v', [('1/2', '-1/3'), ('1', '3/2'), ('-1', '0')][:h.p['geo']])]
        le, ue = [h.num(Fraction(v)) for v in h.choose('range', [('-1', '3/2'), ('-3/2', '1/2')][:h.p['geo']])]
    # the time of the mark is the time of a stored point, whose value is arbitrary
    s = h.unit('g.u0')
    z = le + h.unit('wz') * (ue - le)
    up = h.choose('upside', [True, False])
    low = h.choose('anchored', ['below', 'above']) == 'below'
    tight, loose = (le, ue) if low else (ue, le)
    seed = ms.SeedSkeleton(h.arr([0, s, 1]), h.arr([0, z, 0]), tight, loose, (le + ue) / 2, [True, True])
    mc, mod = model_of(h, model, [h.num(0), T], [v0, v1])
    ctrl = mc.Controls(ea_batch_size=3)
    if model.startswith('ito'):
        ok, new = mc.flip_param_coin(thi_nil, thi_prime, seed, mod, ctrl, up, h.gen())
        ub = mod.eval_bounds_grad(thi_nil, thi_prime, T, v0, v1, loose, tight)
    else:
        ok, new = mc.flip_param_coin(thi_nil, thi_prime, T, y, v0, v1, seed, mod, ctrl, up, h.gen())
        ub = mod.eval_bounds_grad(thi_nil[y], thi_prime[y], T, v0, v1, loose, tight)
    ps = h.drawn('p')
    h.check('one Poisson count', h.const(len(ps) == 1))
    rate = ps[0].par['lam'] / T
    a, b = oracle(h, model, nil, r, v0, v1, s, z), oracle(h, model, prime, r, v0, v1, s, z)
    gap = b - a if up else a - b
    h.check('intensity covers the change of the discrepancy', h.le(gap, rate))
    # sharp up to the reported bounds: coordinates that stay put contribute nothing
    ch = h.p['changed']
    absd = lambda i: nil[i] - prime[i] if h.decide(h.lt(prime[i], nil[i])) else prime[i] - nil[i]
    tot = h.num(0)
    for i in ch:
        tot = tot + absd(i)
    h.check('only changing coordinates contribute', h.le(rate, tot * sum((ub[i] for i in ch), h.num(0))))
    n = int(ps[0].value)
    if n == 0:
        h.check('no mark, success', h.const(bool(ok)))
    else:
        crit = h.flat_prims('b')[0] * rate
        h.check('succeeds unless the mark lies below the change', h.le(gap, crit) if ok else h.le(crit, gap))
    h.check('path unchanged', h.all([h.eq_all(new.s, seed.s), h.eq_all(new.z, seed.z)]))
    h.observe('outcome', [bool(ok), rate])


def items(tier):
    q = tier == 'quick'
    b = 30 if q else 400
    out = []
    for m in MODELS:
        for i in (0, 1):
            out.append(Item(f'{m}:gradient[{i}]', gradient, model=m, i=i, changed=(0, 1), budget=b))
        for ch in ((0,), (1,), (0, 1)):
            for free in ((False,) if q else (False, True)):
                out.append(Item(f"{m}:flip{list(ch)}{'*' if free else ''}".replace(' ', ''), flip, model=m, changed=ch, free=free, geo=1 if q else 3, pois_max=1,
                                max_draws=4, budget=b / 2, branch_timeout=4, check_timeout=8))
        out.append(Item(f'{m}:flip[together]', flip, model=m, changed=(0, 1), free=False, wide=True, geo=1, pois_max=1, max_draws=4, budget=b / 2,
                        branch_timeout=4, check_timeout=8))
    out += [Item(f'ito.models.cir:gradient[{i}]', cir, i=i, budget=b) for i in range(3)]
    return out
