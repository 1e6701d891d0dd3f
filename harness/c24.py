"""Rejection sampling of whole diffusion paths: which proposals are kept, where they end, and what the model reports of them"""
from fractions import Fraction
from itertools import repeat

import numpy as np
from scipy.optimize import OptimizeResult

from engine.harness import Item
from .lib import abstract_escapes

INF = float('inf')


class Never:
    """every escape comes out negative"""

    def __contains__(self, name):
        return True

    def __getitem__(self, name):
        return False


def settle(h):
    """the next proposal: first layer, anchored below or above, minimum half way into its sector, hit flags negative"""
    k, w = h.counters.get(('g', 'u'), 0), h.counters.get(('g', 'w'), 0)
    h.script[f'g.u{k}'] = h.num(Fraction(99, 100))
    h.script[f'g.u{k + 1}'] = h.num(Fraction(1, 1000) if h.p.get('low', True) else Fraction(999, 1000))
    h.script[f'g.u{k + 2}'] = h.num(Fraction(1, 2))
    h.script[f'g.u{k + 3}'] = h.num(Fraction(1, 3))
    h.script[f'g.w{w}'] = h.num(1)


def still(h):
    """revealed values without noise, marks at two thirds of the horizon"""
    for k in range(40):
        h.script[f'g.z{k}'] = h.num(0)


def mark_times(h, f):
    def bounds(a, b):
        k = h.counters.get(('g', 'u'), 0)
        h.script[f'g.u{k}'] = h.num(Fraction(2, 3))
        return f(a, b)
    return bounds


def rejection(h):
    """proposals are tried in turn, each towards the next end point, until one passes; then the next one starts over"""
    abstract_escapes(h, Never())
    sk = h.mod('ea3lib.skeleton')
    over = h.mod('misc.exceptions').BudgetConstraintError
    T, gap, cent = h.num(1), h.pos('gap'), h.real('cent')
    d = h.unit('d')
    ends = [Fraction(0), Fraction(1, 2), Fraction(-1, 4), Fraction(1, 3), Fraction(1), Fraction(3, 4)]
    asked = []

    def endpoints():
        for e in ends:
            asked.append((e, len(h.drawn('b')), h.counters.get(('g', 'u'), 0)))
            settle(h)
            yield h.num(e)
    n, budget = h.p['yields'], h.p['budget_props']
    still(h)
    it = sk.sample_skeleton(T, h.num(0), (-INF, INF), endpoints(), lambda x: x * 0 + cent + gap * d,
                            mark_times(h, lambda a, b: (cent, cent - 1, cent + gap)), h.gen(), budget)
    got = []
    for _ in range(n):
        r = h.call(lambda: next(it), allow=(over,))
        got.append((r, len(asked)))
        if isinstance(r, over):
            break
    # oracle: the marks of every proposal against the discrepancy
    ps = h.drawn('p')
    h.check('one cloud per proposal', h.const(len(ps) == len(asked)))
    if len(ps) != len(asked):
        return
    h.check('marks up to the gap over the horizon', h.all([h.eq(p.par['lam'], gap * T) for p in ps]))
    bs, j, passes = h.flat_prims('b'), 0, []
    for p in ps:
        ok = True
        if int(np.ravel(p.value)[0]):
            h.assume(h.neg(h.eq(bs[j], d)))
            ok = h.decide(h.lt(d, bs[j]))
            j += 1
        passes.append(ok)
    start = 0
    for r, upto in got:
        tried = passes[start:upto]
        if isinstance(r, over):
            h.check('gives up when the budget is spent', h.const(len(tried) == budget and not any(tried)))
        else:
            h.check('the first proposal that passes', h.const(0 < len(tried) <= budget and tried[-1] and not any(tried[:-1])))
            e = asked[upto - 1][0]
            h.check('from the start to its end point', h.all([h.eq(r.t[0], 0), h.eq(r.t[-1], T), h.eq(r.x[0], 0), h.eq(r.x[-1], e)]))
            grid = list(r.t)
            h.check('a path', h.all([h.increasing(grid), h.const(len(r.x) == len(grid))]))
        start = upto
    h.observe('tried', [u for _, u in got])


def numbers(h, model):
    """parameters and data of a model, as numbers (the draws stay symbolic)"""
    if model == 'ou':
        return h.arr([h.num(Fraction(1, 2)), h.num(2)]), h.num(Fraction(1, 2)), h.num(-1), (-INF, INF)
    return h.arr([h.num(1), h.num(3), h.num(1)]), h.num(1), h.num(Fraction(9, 4)), (h.num(0), INF)


def bridges(h):
    """with the end point given, the reported values are those of a kept path on the scale of the data"""
    abstract_escapes(h, Never())
    sk = h.mod('ea3lib.skeleton')
    m = h.mod('ito.models.' + h.p['model'])
    thi, v0, v1, box = numbers(h, h.p['model'])
    T = h.num(Fraction(1, 4))
    s = [h.num(0), T * Fraction(1, 3), T] if h.p['inner'] else [h.num(0), T]
    t = h.arr(s)
    settle(h)
    still(h)
    h.limit = {'w': h.p['props']}
    h.script['g.w1'] = h.num(1)
    for k in range(60):
        # further proposals are anchored below or above as it happens; marks fall on two thirds of the horizon
        h.script[f'g.u{k}'] = h.script.get(f'g.u{k}', h.num(Fraction(2, 3)))
    got = next(m.sample_sde(thi, t, T, v0, v1, h.gen()))
    vals = list(np.asarray(got))
    h.check('one value per time', h.const(len(vals) == len(s)))
    if len(vals) != len(s):
        return
    h.check('starts and ends on the data', h.all([h.eq(vals[0], v0), h.eq(vals[-1], v1)]))

    def manual():
        x0, x1 = m.reduce(thi, h.arr([v0, v1]))
        path = next(sk.sample_skeleton(T, x0, box, repeat(x1), m.eval_disc(thi), m.eval_bounds_disc(thi), h.gen()))
        return m.dereduce(thi, sk.interpolate_skeleton(path, t, h.gen())[1])
    h.check('values of the kept path', h.eq_all(vals, list(h.again(manual))))
    h.observe('values', vals)


def open_end(h):
    """without an end point, it is drawn in proportion to exp(potential - squared distance / 2T)"""
    m = h.mod('ito.models.' + h.p['model'])
    sk, ars = h.mod('ea3lib.skeleton'), h.mod('misc.ars')
    cir = h.p['model'] == 'cir'
    if cir:
        # concave potential: 4*rate*mean > vol^2
        sig = h.pos('sig')
        thi = [h.pos('rate'), None, sig]
        thi[1] = sig ** 2 * (1 + h.pos('extra')) / thi[0]
        v0 = sig ** 2 * h.pos('x0') ** 2 / 4
    else:
        thi = [h.pos('rate'), h.pos('sig')]
        v0 = h.real('v0')
    thi = h.arr(thi)
    T = h.pos('T')
    box = (0, INF) if cir else (-INF, INF)
    x0, = m.reduce(thi, h.arr([v0]))
    A = lambda x: m.sx_eval_drift(thi, x)
    probes = [h.pos(f'probe{i}') if cir else h.real(f'probe{i}') for i in range(2)]
    asked = []

    class Stop(Exception):
        pass

    def hook(h_, fun, start, k, index):
        asked.append([fun(h.arr([p])) for p in probes])
        raise Stop
    h.min_hook = hook
    settle(h)
    try:
        next(m.sample_sde(thi, h.arr([h.num(0), T]), T, v0, None, h.gen()))
    except Stop:
        pass
    h.check('the mode of the end point is searched', h.const(len(asked) == 1))
    if len(asked) != 1:
        return
    a, b = [np.ravel(h.asarray(v))[0] for v in asked[0]]
    want = [A(p) - (p - x0) ** 2 / (2 * T) for p in probes]
    h.check('log density of the end point', h.eq(b - a, want[0] - want[1]))


def drawn_end(h):
    """the end point is the first draw of rejection sampling from that density"""
    m = h.mod('ito.models.' + h.p['model'])
    sk, ars = h.mod('ea3lib.skeleton'), h.mod('misc.ars')
    cir = h.p['model'] == 'cir'

    def proposal(T, a, b, box, ome):
        lo, hi = (h.num(Fraction(1, 100)), h.num(20)) if cir else (-1 - a * a - b * b, 1 + a * a + b * b)
        return sk.Skeleton(h.arr([0, T / 2, T]), h.arr([a, lo, b]), lo, hi, (lo + hi) / 2, None)
    h.summarise('ea3lib.skeleton', 'sample_raw_skeleton', lambda old: proposal)
    h.loose = True
    thi = h.arr([h.num(1), h.num(3), h.num(1)] if cir else [h.num(Fraction(1, 2)), h.num(2)])
    T = h.num(Fraction(1, 2))
    x0 = h.num(2)
    v0, = m.dereduce(thi, h.arr([x0]))
    box = (h.num(0), INF) if cir else (-INF, INF)
    mode = h.num(Fraction(h.choose('mode', ['1/2', '3/2', '4'])))
    h.min_hook = lambda h_, fun, start, k, i: OptimizeResult(x=h.arr([mode]), fun=h.num(0))
    if cir:
        # draws at a few quantiles, whatever the test draw
        h.script['g.u0'] = h.num(Fraction(h.choose('quantile', [1, 4, 9]), 10))
    if h.sym:
        h.limit = {'u': 2}
    got = next(m.sample_sde(thi, h.arr([h.num(0), T]), T, v0, None, h.gen()))

    def f(x):
        A = 11 * np.log(x) / 2 - np.square(x) / 4 if cir else -np.square(x) / 4
        return A - np.square(x - x0) / (2 * T)

    def df(x):
        A = h.num(Fraction(11, 2)) / x - x / 2 if cir else -x / 2
        return A - (x - x0) / T
    want = h.again(lambda: m.dereduce(thi, h.arr([next(ars.sample(f, df, *box, ome=h.gen()))]))[0])
    h.check('ends on the drawn end point', h.eq(np.asarray(got)[-1], want))
    h.check('starts on the data', h.eq(np.asarray(got)[0], v0))


def items(tier):
    q = tier == 'quick'
    b = 30 if q else 240
    out = []
    for n, k in ((1, 1), (2, 1), (1, 2), (2, 2)) + (() if q else ((3, 2), (1, 3))):
        out.append(Item(f'rejection[{n},{k}]', rejection, yields=n, budget_props=k, low=k % 2 == 1, pois_max=1, max_draws=80, budget=b))
    for model in ('ou', 'cir'):
        for inner in (False, True):
            out.append(Item(f'bridges[{model},{int(inner)}]', bridges, model=model, inner=inner, props=2, pois_max=1, max_draws=60, budget=b))
        out.append(Item(f'drawn end[{model}]', drawn_end, model=model, pois_max=0, budget=b))
        out.append(Item(f'open end[{model}]', open_end, model=model, budget=b))
    return out
