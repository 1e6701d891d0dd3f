"""Rejection budgets: what a sampler that may run out of proposals does with them"""
from fractions import Fraction

import numpy as np

from engine.harness import Item
from .lib import EPS, abstract_escapes


def flat(x):
    """a result as (kind, numbers)"""
    if x is None:
        return [('none', None)]
    if isinstance(x, (tuple, list)):
        return [('seq', len(x))] + [y for a in x for y in flat(a)]
    if isinstance(x, np.ndarray):
        return [('arr', x.shape)] + [('num', v) for v in x.reshape(-1)]
    if isinstance(x, (bool, np.bool_)):
        return [('flag', bool(x))]
    return [('num', x)]


def same(h, a, b):
    a, b = flat(a), flat(b)
    if [(k, v) for k, v in a if k != 'num'] != [(k, v) for k, v in b if k != 'num'] or len(a) != len(b):
        return h.const(False)
    return h.all([h.eq(x, y) for (k, x), (_, y) in zip(a, b) if k == 'num'])


def minima(h):
    """interior minima half way into their range, at fixed times"""
    def make(old):
        def sample_brownbr_min(*a, **k):
            u, w = h.counters.get(('g', 'u'), 0), h.counters.get(('g', 'w'), 0)
            h.script[f'g.u{u}'] = h.num(Fraction(1, 2) - Fraction(w, 16))
            h.script[f'g.u{u + 1}'] = h.num(Fraction(1, 100))
            h.script[f'g.w{w}'] = h.num(Fraction(1 + w, 2))
            return old(*a, **k)
        return sample_brownbr_min
    h.summarise('sdelib.hitting', 'sample_brownbr_min', make, both=True)


def layerbr_min(h):
    """minima of a bridge that stays below a level"""
    abstract_escapes(h)
    f = h.mod('sdelib.hitting').sample_layerbr_min
    T, a, b = h.num(2), h.num(Fraction(1, 2)), h.num(1)
    ub = h.pos('gap') + 1 if h.p['bounded'] else None
    minima(h)
    kw = dict(lb_min_x=h.num(-3), ub_min_x=h.num(0)) if h.p.get('sector') else {}
    return lambda k, ome: f(T, a, b, ub, ome=ome, max_props=k, **kw)


def layer(h):
    """layers of a bridge between two bounds: draws that escape from both bounds are thrown away"""
    f = h.mod('sdelib.layers').sample_layer
    T, a, b = h.num(1), h.num(0), h.num(Fraction(1, 4))
    for k in range(h.p['n']):
        out = h.choose(f'out{k}', [True, False])
        h.script[f'g.u{k}'] = h.real(f'u{k}', 0, EPS, default=EPS / 4) if out else h.real(f'u{k}', 1 - EPS, 1, default=1 - EPS / 4)
    return lambda k, ome: f(T, a, b, h.num(Fraction(-3, 4)), h.num(1), ome=ome, max_props=k)


def edges(h):
    """anchors: what hits the other side twice over is kept, half the rest is thrown away"""
    abstract_escapes(h)
    f = h.mod('sdelib.layers').sample_edges
    T, a, b = h.num(1), h.num(Fraction(1, 4)), h.num(0)
    lo, hi = (h.num(-1), h.num(Fraction(-1, 4))), (h.num(Fraction(1, 2)), h.num(1))
    minima(h)
    return lambda k, ome: f(T, a, b, lo, hi, ome=ome, max_props=k)


def layerbr(h):
    """a segment that hits a level somewhere"""
    abstract_escapes(h)
    f = h.mod('sdelib.paths').sample_layerbr
    T, e, ub, hit = h.num(1), h.num(Fraction(1, 4)), h.num(1), h.num(Fraction(3, 4))
    for k in range(60):
        h.script[f'g.z{k}'] = h.num(Fraction(k % 3, 7))
    return lambda k, ome: f(h.arr([Fraction(1, 3)]), T, h.num(0), e, h.num(0), ub, hit, ome=ome, max_props=k)


def edge(h):
    """a segment off its minimum that stays below a level"""
    abstract_escapes(h)
    f = h.mod('sdelib.paths').propose_layerbr_edge
    T, e, ub = h.num(1), h.num(Fraction(1, 4)), h.num(1)
    for k in range(60):
        h.script[f'g.z{k}'] = h.num(Fraction(k % 3, 7))
    hit = h.num(Fraction(3, 4)) if h.p.get('hit') else None
    s = [Fraction(1, 3)] if h.p.get('inner') else []
    return lambda k, ome: f(h.arr(s), T, e, ub, hit, ome=ome, max_props=k)


MAKE = dict(layerbr_min=layerbr_min, layer=layer, edges=edges, layerbr=layerbr, edge=edge)


def budget(h):
    """n proposals are one proposal, n times over; none left is an error, not an answer"""
    over = h.mod('misc.exceptions').BudgetConstraintError
    n = h.p['n']
    f = MAKE[h.p['what']](h)
    got = h.call(lambda: f(n, h.gen()), allow=(over, AssertionError))
    used = dict(h.counters)
    if n == 0:
        h.check('no budget, no answer', h.const(isinstance(got, (over, AssertionError))))
        h.check('no budget, no draws', h.const(not used))
        return

    def composed():
        ome, r = h.gen(), None
        for _ in range(n):
            r = h.call(lambda: f(1, ome), allow=(over,))
            if not isinstance(r, over):
                break
        return r, dict(h.counters)
    want, need = h.again(composed)
    h.check('runs out exactly when every proposal fails', h.const(isinstance(got, over) == isinstance(want, over)))
    if not isinstance(got, over) and not isinstance(want, over):
        h.check('returns the first accepted proposal', same(h, got, want))
    h.check('as many draws as its proposals take', h.const(used == need))
    h.observe('answer', not isinstance(got, over))


def items(tier):
    q = tier == 'quick'
    out = []
    for n in (0, 1, 2) if q else (0, 1, 2, 3):
        for what, kw in [('layerbr_min', dict(bounded=True)), ('layerbr_min', dict(bounded=False)), ('layerbr_min', dict(bounded=True, sector=True)),
                         ('layer', {}), ('edges', {}), ('layerbr', {}), ('edge', {}), ('edge', dict(inner=True)), ('edge', dict(inner=True, hit=True))]:
            tag = ','.join([what] + [k for k, v in kw.items() if v])
            out.append(Item(f'{tag}[{n}]', budget, what=what, n=n, max_draws=24, budget=12 if q else 200, **kw))
    return out
