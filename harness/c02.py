import numpy as np

from engine.harness import Item
from .lib import skeleton, ints, same_skel, well_formed


def distinct_times(h):
    """uniform draws coincide with probability zero"""
    for d in h.drawn('u'):
        ps = d.prim if isinstance(d.prim, list) else [d.prim]
        for i in range(len(ps)):
            for j in range(i):
                h.assume(h.neg(h.eq(ps[i], ps[j])))


def setup(h):
    ms = h.mod('mjplib.skeleton')
    dim = h.p['dim']
    if h.p.get('rates'):
        # one rate symbolic, the others fixed: keeps the deep paths tractable
        m = h.empty((dim, dim))
        for i in range(dim):
            for j in range(dim):
                if i != j:
                    m[i, j] = h.num((1 + (2 * i + j) % 3) / 2)
        m[0, 1] = h.pos('q01', nice=(0.25, 3))
        for i in range(dim):
            m[i, i] = -sum(m[i, j] for j in range(dim) if j != i)
        q = h.finish(m)
    else:
        q = h.generator_matrix('q', dim)
    return ms, q, h.pos('T')


def forwards(h):
    ms, q, T = setup(h)
    x0 = h.choose('x0', range(h.p['dim'])) if h.p.get('start', True) else None
    s = ms.sample_forwards(T, x0, q, h.gen())
    h.check('well formed', well_formed(h, s, T))
    h.check('states in range', h.const(all(0 <= int(x) < h.p['dim'] for x in s.xt)))
    if x0 is not None:
        h.check('start state', h.const(int(s.xt[0]) == x0))
    h.observe('path', [s.t, s.xt])


def bridge(h):
    ms, q, T = setup(h)
    x0, x1 = h.choose('ends', h.p['ends'])
    s = ms.sample_bridge(T, x0, x1, q, h.gen())
    distinct_times(h)
    h.check('well formed', well_formed(h, s, T))
    h.check('start state', h.const(int(s.xt[0]) == x0))
    h.check('end state', h.const(int(s.xt[-1]) == x1))
    h.check('lookup at ends', h.const(int(s(h.num(0))) == x0 and int(s(T)) == x1))
    h.observe('path', [s.t, s.xt])


def backwards(h):
    ms, q, T = setup(h)
    x1 = h.choose('x1', range(h.p['dim']))
    s = ms.sample_backwards(T, x1, q, h.gen())
    distinct_times(h)
    h.check('well formed', well_formed(h, s, T))
    h.check('end state', h.const(int(s.xt[-1]) == x1))


def mutate(h):
    ms, q, T = setup(h)
    n = h.p['pieces']
    shapes = {1: [[(0, 1)]], 2: [[(0, 1), (1,)], [(1,), (1, 0)], [(0,), (1,)]],
              3: [[(0,), (0, 1), (1,)], [(1, 0), (0,), (0,)], [(0,), (1,), (0,)]]}[n]
    states = shapes[h.choose('shape', range(len(shapes)))]
    ps = [skeleton(h, f'p{i}', len(s) - 1, states=s) for i, s in enumerate(states)]
    new = ms.mutate_partition(ps, q, h.gen())
    distinct_times(h)
    h.check('piece count', h.const(len(new) == n))
    for a, b in zip(new, ps):
        h.check('piece well formed', well_formed(h, a, b.fin_t))
    for i in range(n - 1):
        # the two differ where the path jumps at the cut
        h.check('state kept before the cut', h.const(int(new[i].xt[-1]) == int(ps[i].xt[-1])))
        h.check('state kept after the cut', h.const(int(new[i + 1].xt[0]) == int(ps[i + 1].xt[0])))
    whole = ms.paste_partition(new)
    tot = ps[0].fin_t
    for p in ps[1:]:
        tot = tot + p.fin_t
    h.check('re-joined path', well_formed(h, whole, tot))


def items(tier):
    q = tier == 'quick'
    b = 30 if q else 240
    out = [Item('forwards[2]', forwards, dim=2, budget=b, max_draws=5 if q else 8),
           Item('forwards[3]', forwards, dim=3, budget=b, max_draws=6 if q else 10),
           Item('forwards[2,stationary]', forwards, dim=2, start=False, budget=b, max_draws=5),
           Item('forwards[3,stationary]', forwards, dim=3, start=False, rates=1, budget=b, max_draws=6),
           Item('bridge[2]', bridge, dim=2, ends=[(0, 0), (0, 1)], budget=b, max_branches=11 if q else 16),
           Item('bridge[3]', bridge, dim=3, rates=1, ends=[(0, 0), (0, 1), (2, 1)], budget=b,
                max_branches=11 if q else 16),
           Item('backwards[2]', backwards, dim=2, budget=b, max_branches=10 if q else 14),
           Item('mutate[1]', mutate, dim=2, pieces=1, budget=b, max_draws=5),
           Item('mutate[2]', mutate, dim=2, pieces=2, rates=1, budget=b, max_branches=11 if q else 15, max_draws=12),
           Item('mutate[3]', mutate, dim=2, pieces=3, rates=1, budget=b, max_branches=11 if q else 15, max_draws=16)]
    return out
