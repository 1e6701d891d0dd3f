"""Bounds on the discrepancy: over an interval of states, over the whole state space, and along a bridge with a certified range."""
import numpy as np

from engine.harness import Item
from .c12 import ITO, SWITCHING, params, observations, operators, reduced
from .c13 import funcs, state


def bounds_of(h, model, thi, y):
    m = h.mod(model)
    f = m.eval_bounds_disc
    return (lambda a, b: f(thi, a, b)) if y is None else (lambda a, b: f(thi, y, a, b))


def interval(h):
    model = h.p['model']
    thi = params(h, model)
    y = None if model in ITO else h.choose('y', [0, 1])
    lo = state(h, model, 'lo')
    hi = lo + h.pos('width')
    w = h.real('w', 0, 1, lo_strict=False, hi_strict=False)
    if model.endswith('cir'):
        # one dimensionless rate decides the shape of the discrepancy
        k, mu, s = thi
        e = 4 * k * mu / s ** 2
        part = h.choose('part', ['low', 'mid', 'high'])
        h.assume(h.all({'low': [h.lt(e, 1)], 'mid': [h.lt(1, e), h.lt(e, 3)], 'high': [h.lt(3, e)]}[part]))
    _, _, _, _, disc = funcs(h, model, thi, y)
    inf, le, ue = bounds_of(h, model, thi, y)(lo, hi)
    x = lo + w * (hi - lo)
    d = disc(x)
    h.check('lower bound holds on the interval', h.le(le, d))
    h.check('upper bound holds on the interval', h.le(d, ue))
    z = state(h, model, 'z')
    h.check('global infimum lies below the discrepancy everywhere', h.le(inf, disc(z)))
    if not model.endswith('cir') or part != 'mid':
        m = h.mod(model)
        g = m.eval_inf_disc(thi) if y is None else m.eval_inf_disc(thi, y)
        h.check('infimum alone', h.le(g, disc(z)))
    h.check('lower bound is attained', attained(h, model, thi, disc, le, lo, hi))
    h.check('upper bound is attained', h.any([h.eq(disc(lo), ue), h.eq(disc(hi), ue)]))
    h.observe('bounds', [le, ue])


def outside(h):
    """an interval reaching out of a bounded state space: the bounds still hold on the part inside"""
    model = 'ito.models.cir'
    thi = params(h, model)
    k, mu, s = thi
    e = 4 * k * mu / s ** 2
    part = h.p['part']
    h.assume(h.all({'low': [h.lt(e, 1)], 'mid': [h.lt(1, e), h.lt(e, 3)], 'high': [h.lt(3, e)]}[part]))
    _, _, _, _, disc = funcs(h, model, thi, None)
    hi = h.pos('hi')
    lo = -h.pos('below')
    inf, le, ue = bounds_of(h, model, thi, None)(lo, hi)
    x = h.unit('w') * hi
    d = disc(x)
    h.check('lower bound holds inside the state space', h.le(le, d))
    if part == 'high':
        # unbounded towards the edge: no finite upper bound can hold
        h.check('no finite upper bound', h.isinf(ue))
    else:
        h.check('upper bound holds inside the state space', h.le(d, ue))
    h.check('global infimum lies below the discrepancy everywhere', h.le(inf, d))


def attained(h, model, thi, disc, le, lo, hi):
    ends = [h.eq(disc(lo), le), h.eq(disc(hi), le)]
    if model.endswith('cir'):
        k, mu, s = thi
        a = 2 * k * mu / s ** 2 - h.num(1) / 2
        p4 = 4 * a * (a - 1) / k ** 2
        if h.decide(h.le(p4, 0)):
            return h.any(ends)
        p = h.sqrt(h.sqrt(p4))
        return h.any(ends + [h.all([h.le(lo, p), h.le(p, hi), h.eq(disc(p), le)])])
    return h.any(ends + [h.all([h.le(lo, 0), h.le(0, hi), h.eq(disc(h.num(0)), le)])])


def seed_of(h, name='', order=None):
    """a bridge in normalised coordinates with a certified range, anchored from below or from above"""
    ms = h.mod('ea3lib.seed')
    lo = -h.pos('below')
    hi = h.pos('above')
    hit = h.pos('hit')
    w = h.unit('ws')
    if h.choose('anchored', ['below', 'above']) == 'below':
        return ms.SeedSkeleton(h.arr([0, w, 1]), h.arr([0, lo, 0]), lo, hi, hi - hit, [True, True]), lo, hi
    return ms.SeedSkeleton(h.arr([0, w, 1]), h.arr([0, hi, 0]), hi, lo, lo + hit, [True, True]), lo, hi


def grid(h, dt):
    """how many pieces, or which times, the bridge is bounded on"""
    kind = h.choose('grid', ['whole', 'default', 'two', 'three', 'times'])
    if kind in ('whole', 'default'):
        return kind, 1, [h.num(0), dt]
    if kind in ('two', 'three'):
        n = {'two': 2, 'three': 3}[kind]
        return kind, n, [dt * i / n for i in range(n + 1)]
    a = h.unit('cut0')
    return kind, h.arr([0, dt * a, dt]), [h.num(0), dt * a, dt]


def bridge(h):
    """bounds along a bridge: the discrepancy bounds are asked for over intervals holding every value the bridge can take"""
    model = h.p['model']
    ms = h.mod('ea3lib.seed')
    thi = params(h, model)
    ts, vs, ys = observations(h, model, 2)
    (norm, denorm), = operators(h, model, thi, ts, vs, ys)
    dt = ts[1] - ts[0]
    seed, le_z, ue_z = seed_of(h)
    kind, arg, cuts = grid(h, dt)
    asked = []

    def bounds(lo, hi):
        k = len(asked)
        asked.append((lo, hi))
        return h.num(-1000), h.real(f'lo{k}'), h.real(f'up{k}')
    args = (seed, norm, denorm, bounds)
    t, le, ue = ms.bound_disc_path(*args) if kind == 'default' else ms.bound_disc_path(*args, arg)
    h.check('grid of times', h.eq_all(t, cuts))
    h.check('one pair of bounds per piece', h.const(len(le) == len(ue) == len(cuts) - 1))
    w = h.real('w', 0, 1, lo_strict=False, hi_strict=False)
    z = le_z + h.real('wz', 0, 1, lo_strict=False, hi_strict=False) * (ue_z - le_z)
    for k in range(len(cuts) - 1):
        s = (cuts[k] + w * (cuts[k + 1] - cuts[k])) / dt
        x, = denorm(h.arr([s]), h.arr([z]))[1]
        # the bounds returned for this piece come from an interval that holds every value on it
        h.check('every value lies in the interval the bounds are for', h.any([
            h.all([h.eq(le[k], h.real(f'lo{j}')), h.eq(ue[k], h.real(f'up{j}')), h.le(lo, x), h.le(x, hi)])
            for j, (lo, hi) in enumerate(asked)]))
    h.observe('asked', [v for p in asked for v in p])


def exact(h):
    """the same with the model's own bounds"""
    model = h.p['model']
    ms = h.mod('ea3lib.seed')
    thi = params(h, model)
    ts, vs, ys = observations(h, model, 2)
    (norm, denorm), = operators(h, model, thi, ts, vs, ys)
    y = None if ys is None else ys[0]
    dt = ts[1] - ts[0]
    seed, le_z, ue_z = seed_of(h)
    _, _, _, _, disc = funcs(h, model, thi, y)
    m = h.mod(model)
    f = m.eval_bounds_disc(thi) if y is None else m.eval_bounds_disc(thi, y)
    t, le, ue = ms.bound_disc_path(seed, norm, denorm, f)
    w = h.real('w', 0, 1, lo_strict=False, hi_strict=False)
    z = le_z + h.real('wz', 0, 1, lo_strict=False, hi_strict=False) * (ue_z - le_z)
    x, = denorm(h.arr([w]), h.arr([z]))[1]
    h.check('lower bound along the bridge', h.le(le[0], disc(x)))
    h.check('upper bound along the bridge', h.le(disc(x), ue[0]))
    got = ms.integrate_disc_bound(seed, norm, denorm, f)
    h.check('integrated lower bound', h.eq(got, -dt * le[0]))
    h.observe('bounds', [le[0], ue[0]])


def items(tier):
    q = tier == 'quick'
    b = 60 if q else 300
    out = []
    out += [Item(f'ito.models.cir:outside[{p}]', outside, part=p, budget=b) for p in ('low', 'mid', 'high')]
    for m in ITO + SWITCHING:
        out.append(Item(f'{m}:interval', interval, model=m, budget=b))
        out.append(Item(f'{m}:bridge', bridge, model=m, budget=b))
        if not m.endswith('cir'):
            out.append(Item(f'{m}:exact', exact, model=m, budget=b))
    return out
