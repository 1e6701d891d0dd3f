import math
from itertools import permutations

import numpy as np

from engine.harness import Item
from .c02 import setup, distinct_times
from .lib import ints, same_skel, skeleton


def forwards(h):
    """replays the competing clocks from the raw exponential draws"""
    ms, q, T = setup(h)
    dim = h.p['dim']
    x = h.choose('x0', range(dim))
    s = ms.sample_forwards(T, x, q, h.gen())
    e = h.flat_prims('e')
    t, ts, xs, k = h.num(0), [h.num(0)], [x], 0
    while True:
        if k + dim - 1 > len(e):
            h.check('clock draws', h.const(False))
            return
        others = [j for j in range(dim) if j != x]
        clock = [e[k + i] / q[x, j] for i, j in enumerate(others)]
        k += dim - 1
        b = 0
        for i in range(1, len(clock)):
            if h.decide(h.lt(clock[i], clock[b])):
                b = i
        t, x = t + clock[b], others[b]
        if not h.decide(h.lt(t, T)):
            break
        ts.append(t)
        xs.append(x)
    h.check('all clock draws used', h.const(k == len(e)))
    h.check('jump times', h.eq_all(s.t, ts))
    h.check('jump states', ints(h, s.xt, xs))
    h.observe('path', [s.t, s.xt])


def powers(h, p, n):
    dim = p.shape[0]
    out = [[[h.num(1 if i == j else 0) for j in range(dim)] for i in range(dim)]]
    for _ in range(n):
        m = out[-1]
        out.append([[sum((m[i][k] * p[k, j] for k in range(dim)), h.num(0)) for j in range(dim)] for i in range(dim)])
    return out


def bridge(h, given=None):
    if given is None:
        ms, q, T = setup(h)
        x0, x1 = h.choose('ends', h.p['ends'])
        s = ms.sample_bridge(T, x0, x1, q, h.gen())
        log = h.draws
    else:
        q, T, x0, x1, s, log = given
    dim = q.shape[0]
    lam = -q[0, 0]
    for i in range(1, dim):
        if h.decide(h.lt(lam, -q[i, i])):
            lam = -q[i, i]
    p = h.empty((dim, dim))
    for i in range(dim):
        for j in range(dim):
            p[i, j] = (1 if i == j else 0) + q[i, j] / lam
    h.check('transition matrix argument', h.all([h.eq(h.expms[0][0][i, j], T * q[i, j])
                                                for i in range(dim) for j in range(dim)]))
    c = h.expms[0][1]
    us = [d for d in log if d.kind == 'u']
    ch = [d for d in log if d.kind == 'c']
    prims = []
    for d in us:
        prims += d.prim if isinstance(d.prim, list) else [d.prim]
    u, times = prims[0], prims[1:]
    n = len(times)
    pw = powers(h, p, n + 2)
    mass = []
    for k in range(n + 2):
        mass.append(h.num(1) * (lam * T) ** k / math.factorial(k) * pw[k][x0][x1])
    level = u * c[x0, x1] * h.exp(lam * T)
    if n:
        h.check('number of transitions: reached', h.le(level, sum(mass[:n + 1])))
        h.check('number of transitions: not earlier', h.lt(sum(mass[:n], h.num(0)), level))
    else:
        h.check('no transition', h.const(x0 == x1))
        h.check('number of transitions: none', h.le(level, mass[0] + mass[1]))
    h.check('number of state draws', h.const(len(ch) == max(n - 1, 0)))
    xs = [x0]
    for i in range(1, n):
        d = ch[i - 1]
        pr = d.par['p']
        x = xs[-1]
        for j in range(dim):
            h.check('state probabilities', h.eq(pr[j], p[x, j] * pw[n - i][j][x1] / pw[n - i + 1][x][x1]))
        xs.append(int(np.asarray(d.value).reshape(-1)[0]))
    if n:
        xs.append(x1)
    distinct_times(h)
    order = list(times)
    for i in range(len(order)):
        for j in range(i, 0, -1):
            if h.decide(h.lt(order[j], order[j - 1])):
                order[j], order[j - 1] = order[j - 1], order[j]
            else:
                break
    t = [h.num(0)] + [v * T for v in order]
    keep = [i for i in range(len(xs)) if i == 0 or xs[i] != xs[i - 1]]
    h.check('path times', h.eq_all(s.t, [t[i] for i in keep]))
    h.check('path states', ints(h, s.xt, [xs[i] for i in keep]))


def backwards(h):
    ms, q, T = setup(h)
    x1 = h.choose('x1', range(h.p['dim']))
    s = ms.sample_backwards(T, x1, q, h.gen())
    dim = h.p['dim']
    c = h.expms[0][1]
    tot = sum(c[i, x1] for i in range(dim))
    d = h.drawn('c')[0]
    for i in range(dim):
        h.check('start state odds', h.eq(d.par['p'][i], c[i, x1] / tot))
    x0 = int(np.asarray(d.value).reshape(-1)[0])
    h.check('start state', h.const(int(s.xt[0]) == x0))
    rest = [e for e in h.draws if e is not d]
    bridge(h, (q, T, x0, x1, s, rest))


def stationary(h):
    ms = h.mod('mjplib.skeleton')
    dim = h.p['dim']
    q = h.generator_matrix('q', dim)
    pi = ms.get_stat(q)
    h.check('sums to one', h.eq(sum(pi[i] for i in range(dim)), 1))
    h.check('positive', h.all([h.gt(x, 0) for x in pi]))
    for j in range(dim):
        h.check('annihilated', h.eq(sum(pi[i] * q[i, j] for i in range(dim)), 0))
    h.observe('pi', pi)


def start(h):
    ms, q, T = setup(h)
    dim = h.p['dim']
    s = ms.sample_forwards(T, None, q, h.gen())
    d = h.drawn('c')[0]
    pr = d.par['p']
    h.check('start law sums to one', h.eq(sum(pr[i] for i in range(dim)), 1))
    for j in range(dim):
        h.check('start law stationary', h.eq(sum(pr[i] * q[i, j] for i in range(dim)), 0))
    h.check('start state', h.const(int(s.xt[0]) == int(np.asarray(d.value).reshape(-1)[0])))


def resample(h):
    """every piece of a partition is drawn anew: the last from its start state, the first towards its end state, the others as
    bridges between their own end states (a single piece from the stationary law); pieces may be drawn in any order"""
    ms, q, T = setup(h)
    n = h.p['pieces']
    shapes = {1: [[(0, 1)], [(1,)]], 2: [[(0, 1), (1,)], [(0,), (1,)]],
              3: [[(0,), (0,), (0,)], [(1, 0), (0,), (1,)], [(0,), (0, 1), (1,)]]}[n]
    states = shapes[h.choose('shape', range(len(shapes)))]
    ps = [skeleton(h, f'p{i}', len(s) - 1, states=s) for i, s in enumerate(states)]
    new = ms.mutate_partition(ps, q, h.gen())
    h.check('piece count', h.const(len(new) == n))

    def piece(i, ome):
        if n == 1:
            return ms.sample_forwards(ps[0].fin_t, None, q, ome)
        if i == 0:
            return ms.sample_backwards(ps[0].fin_t, states[0][-1], q, ome)
        if i == n - 1:
            return ms.sample_forwards(ps[i].fin_t, states[i][0], q, ome)
        return ms.sample_bridge(ps[i].fin_t, states[i][0], states[i][-1], q, ome)

    def draw(order):
        ome, out = h.gen(), {}
        for i in order:
            out[i] = piece(i, ome)
        return [out[i] for i in range(n)]
    orders = sorted(permutations(range(n)), key=lambda o: (o != (0, n - 1) + tuple(range(1, n - 1)), o))
    hits = []
    for o in orders:
        want = h.again(lambda: draw(o))
        hits.append(h.all([same_skel(h, a, b) for a, b in zip(new, want)]))
        if h.decide(hits[-1]):
            break
    h.check('pieces are drawn by the exact samplers', h.any(hits))


def trial(h):
    """trial rate matrices are generators"""
    ms = h.mod('mjplib.skeleton')
    dim = h.p['dim']
    q = ms.sample_trial_generator(dim, h.gen())
    h.check('square', h.const(np.shape(q) == (dim, dim)))
    for i in range(dim):
        h.check('rows sum to zero', h.eq(sum(q[i, j] for j in range(dim)), 0))
        h.check('positive rates', h.all([h.gt(q[i, j], 0) for j in range(dim) if j != i]))
    h.observe('q', [q[i, j] for i in range(dim) for j in range(dim)])


def items(tier):
    q = tier == 'quick'
    b = 40 if q else 240
    return [Item(f'trial[{d}]', trial, dim=d, budget=b) for d in (1, 2, 3, 4)] + [Item('forwards[2]', forwards, dim=2, budget=b, max_draws=5 if q else 8),
            Item('forwards[3]', forwards, dim=3, budget=b, max_draws=6 if q else 10),
            Item('bridge[2]', bridge, dim=2, ends=[(0, 0), (0, 1)], budget=b, max_branches=11 if q else 16),
            Item('bridge[3,one rate]', bridge, dim=3, rates=1, ends=[(0, 0), (0, 1), (2, 1)], budget=b,
                 max_branches=11 if q else 16),
            Item('bridge[3]', bridge, dim=3, ends=[(0, 0), (0, 1)], budget=b, max_branches=9 if q else 12),
            Item('backwards[2]', backwards, dim=2, budget=b, max_branches=10 if q else 14),
            Item('backwards[3]', backwards, dim=3, rates=1, budget=b, max_branches=10 if q else 14),
            Item('resample[1]', resample, dim=2, pieces=1, rates=1, budget=b, max_draws=5),
            Item('resample[2]', resample, dim=2, pieces=2, rates=1, budget=b, max_branches=10 if q else 14, max_draws=12),
            Item('resample[3]', resample, dim=2, pieces=3, rates=1, budget=12 if q else b, max_branches=10 if q else 14, max_draws=16),
            Item('start[2]', start, dim=2, budget=b, max_draws=4),
            Item('start[3]', start, dim=3, rates=1, budget=b, max_draws=6),
            Item('stationary[2]', stationary, dim=2), Item('stationary[3]', stationary, dim=3),
            ] + ([] if q else [Item('stationary[4]', stationary, dim=4, budget=120)])
