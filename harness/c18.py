"""Augmented regime-switching states: grid, values, regimes and pieces; splitting, pasting, mixing and pruning"""
import itertools
from fractions import Fraction

import numpy as np

from engine.harness import Item

from .c11 import cov, run
from .c12 import params, volatility
from .lib import ints, well_formed

EPS = Fraction(1, 10 ** 9)
MODELS = ['switching.models.ou', 'switching.models.ou2', 'switching.models.ou3']


class Grid:
    """times of observations (O) and regime changes (J), in order, with the regime after each"""

    def __init__(self, h, plan, regimes, name='d'):
        self.plan = plan
        self.t = [h.num(0)] + list(h.times(name, len(plan) - 1))
        self.y, k = [], 0
        for i, c in enumerate(plan):
            k += c == 'J'
            self.y.append(regimes[k])
        self.obs = [i for i, c in enumerate(plan) if c == 'O']
        self.jumps = [i for i, c in enumerate(plan) if c == 'J']

    def skeleton(self, h):
        ms = h.mod('mjplib.skeleton')
        at = [0] + self.jumps
        return ms.Skeleton(h.arr([self.t[i] for i in at]), np.array([self.y[i] for i in at]), self.t[-1])


def augment(h):
    model = h.p['model']
    m = h.mod(model)
    g = Grid(h, h.p['plan'], h.p['regimes'])
    thi = params(h, model, 1 + max(h.p['regimes']))
    v = [h.real(f'v{i}') for i in range(len(g.obs))]
    y = g.skeleton(h)
    tobs = h.arr([g.t[i] for i in g.obs])
    h.summarise('ea3lib.seed', 'sample_raw_seed', lambda old: (lambda *a, **k: ('piece',)))
    h.loose = True
    z, a = m.sample_aug(thi, y, tobs, h.arr(v), h.gen('g'))
    n = len(g.plan)
    h.check('every observation and every change once, in order', h.all([h.const(len(a.t) == n), h.eq_all(a.t, g.t)]))
    h.check('regime just after each time', ints(h, a.yt, g.y))
    h.check('one value per grid time', h.const(len(a.vt) == n))
    h.check('one piece per interval', h.const(len(z) == n - 1))
    if len(a.vt) != n:
        return
    h.check('observed values at the observations', h.eq_all([a.vt[i] for i in g.obs], v))
    # law of the values at the changes: bridge in the clock that runs with the squared volatility
    zs = h.flat_prims('z', 'g')
    if not zs:
        return
    f = lambda gen: np.asarray(m.sample_aug(thi, y, tobs, h.arr(v), gen)[1].vt)
    mean = run(h, 'm', f, [h.num(0)] * len(zs))
    K = min(len(zs), n)
    cols = [run(h, f'e{k}', f, [h.num(int(i == k)) for i in range(len(zs))]) - mean for k in range(K)]
    tot = mean
    for x, c in zip(zs, cols):
        tot = tot + c * x
    h.check('affine in the normals', h.eq_all(a.vt, tot))
    clock = [h.num(0)]
    for i in range(n - 1):
        clock.append(clock[-1] + (g.t[i + 1] - g.t[i]) * volatility(h, model, thi, g.y[i]) ** 2)
    seg = {i: max(k for k, o in enumerate(g.obs) if o <= i) for i in g.jumps}
    for i in g.jumps:
        lo, hi = g.obs[seg[i]], g.obs[seg[i] + 1]
        S = clock[hi] - clock[lo]
        want = v[seg[i]] + (v[seg[i] + 1] - v[seg[i]]) * (clock[i] - clock[lo]) / S
        h.check('mean of the value at a change', h.eq(mean[i], want))
        for j in g.jumps:
            if j < i:
                continue
            w = (clock[i] - clock[lo]) * (clock[hi] - clock[j]) / S if seg[i] == seg[j] else h.num(0)
            h.check('covariance of the values at changes', h.eq(cov(h, cols, i, j), w))


def pruned(h):
    ty = h.mod('switching.types')
    g = Grid(h, h.p['plan'], h.p['regimes'])
    out = ty.prune_anchorage(ty.Anchorage(h.arr(g.t), np.array(g.y), h.vec('v', len(g.t))))
    y = g.skeleton(h)
    h.check('regime path', h.all([h.const(len(out.t) == len(y.t)), h.eq_all(out.t, y.t), ints(h, out.xt, y.xt), h.eq(out.fin_t, y.fin_t)]))
    h.check('well formed', well_formed(h, out))


def same_state(h, z, a, zs, t, y, v):
    return h.all([h.const(list(z) == list(zs)), h.const(len(a.t) == len(t)), h.eq_all(a.t, t), ints(h, a.yt, y), h.eq_all(a.vt, v)])


def split(h):
    mc, ty = h.mod('switching.mcmc'), h.mod('switching.types')
    g = Grid(h, h.p['plan'], h.p['regimes'])
    n = len(g.t)
    v = list(h.vec('v', n))
    cand = [i for i in range(1, n - 1)]
    cuts = h.choose('cuts', [c for k in range(len(cand) + 1) for c in itertools.combinations(cand, k)])
    z = [f'piece{i}' for i in range(n - 1)]
    a = ty.Anchorage(h.arr(g.t), np.array(g.y), h.arr(v))
    zp, ap = mc.split_hidden(list(z), a, h.arr([g.t[i] for i in cuts]))
    ends = [0] + list(cuts) + [n - 1]
    h.check('one part per section', h.const(len(zp) == len(ap) == len(ends) - 1))
    if len(zp) != len(ends) - 1 or len(ap) != len(zp):
        return
    for lo, hi, zs, b in zip(ends, ends[1:], zp, ap):
        h.check('part of the state', same_state(h, zs, b, z[lo:hi], [x - g.t[lo] for x in g.t[lo:hi + 1]], g.y[lo:hi + 1], v[lo:hi + 1]))
    zb, ab = mc.paste_hidden([list(x) for x in zp], list(ap))
    h.check('pasting returns the state', same_state(h, zb, ab, z, g.t, g.y, v))
    for lo, hi, zs, b in zip(ends, ends[1:], zp, ap):
        h.check('parts left alone', same_state(h, zs, b, z[lo:hi], [x - g.t[lo] for x in g.t[lo:hi + 1]], g.y[lo:hi + 1], v[lo:hi + 1]))


def drift(h):
    """grid times that differ from the conditioning times by rounding errors, as after pasting"""
    mc, ty = h.mod('switching.mcmc'), h.mod('switching.types')
    g = Grid(h, h.p['plan'], h.p['regimes'])
    n = len(g.t)
    for a, b in zip(g.t, g.t[1:]):
        h.assume(h.gt(b - a, EPS * 1000))
    cand = [i for i in g.obs if 0 < i < n - 1]
    cuts = h.choose('cuts', [c for k in range(1, len(cand) + 1) for c in itertools.combinations(cand, k)])
    new = [g.t[i] + h.real(f'e{i}', -EPS, EPS) for i in cuts]
    z = [f'piece{i}' for i in range(n - 1)]
    zp, ap = mc.split_hidden(list(z), ty.Anchorage(h.arr(g.t), np.array(g.y), h.vec('v', n)), h.arr(new))
    ends = [0] + list(cuts) + [n - 1]
    h.check('one part per section despite rounding', h.const([list(x) for x in zp] == [z[a:b] for a, b in zip(ends, ends[1:])]))


def mixed(h):
    """two states with the same observations and the same regimes at the conditioning times"""
    mc, ty = h.mod('switching.mcmc'), h.mod('switching.types')
    sections = h.p['sections']          # per section: the two plans, each (kinds of the inner points, regimes from its start)
    T = [h.pos(f'T{s}') for s in range(len(sections))]
    starts = [h.num(0)]
    for x in T:
        starts.append(starts[-1] + x)
    # inner observations of a section sit at given fractions, shared by both states; changes lie in between
    obs_v = {}

    def build(k):
        t, y, v, z, kinds = [], [], [], [], []
        for s, plans in enumerate(sections):
            inner, reg = plans[k]
            w, c, q = h.num(0), 0, 0
            nobs = inner.count('O')
            t.append(starts[s])
            y.append(reg[0])
            v.append(obs_v.setdefault((s, 0), h.real(f'o{s}.0')))
            kinds.append('O')
            for i, ch in enumerate(inner):
                if ch == 'O':
                    c += 1
                    w = h.num(c) / (nobs + 1)
                    v.append(obs_v.setdefault((s, c), h.real(f'o{s}.{c}')))
                else:
                    q += 1
                    w = w + (h.num(c + 1) / (nobs + 1) - w) * h.unit(f'k{k}.{s}.{i}')
                    v.append(h.real(f'a{k}.{s}.{i}'))
                t.append(starts[s] + w * T[s])
                y.append(reg[q])
                kinds.append(ch)
        t.append(starts[-1])
        y.append(y[-1])
        v.append(h.real('o.end'))
        kinds.append('O')
        z = [f'{"np"[k]}{i}' for i in range(len(t) - 1)]
        return t, y, v, z, kinds
    both = [build(0), build(1)]
    cond = h.arr(starts[1:-1])
    parts = []
    for t, y, v, z, kinds in both:
        parts.append(mc.split_hidden(list(z), ty.Anchorage(h.arr(t), np.array(y), h.arr(v)), cond))
    S = len(sections)
    h.check('same number of parts', h.const(all(len(p[0]) == S and len(p[1]) == S for p in parts)))
    pickd = h.choose('accepted', list(itertools.product((0, 1), repeat=S)))
    z, a = mc.paste_hidden([list(parts[k][0][s]) for s, k in enumerate(pickd)], [parts[k][1][s] for s, k in enumerate(pickd)])
    # oracle: concatenate
    wt, wy, wv, wz, wk = [], [], [], [], []
    pos = [[0], [0]]
    for k in (0, 1):
        for s in range(S):
            pos[k].append(pos[k][-1] + 1 + len(sections[s][k][0]))
    for s, k in enumerate(pickd):
        t, y, v, zz, kinds = both[k]
        lo, hi = pos[k][s], pos[k][s + 1]
        wt += t[lo:hi]
        wy += y[lo:hi]
        wv += v[lo:hi]
        wz += zz[lo:hi]
        wk += kinds[lo:hi]
    wt.append(starts[-1])
    wy.append(wy[-1])
    wv.append(both[0][2][-1])
    h.check('accepted parts in order, observations kept', same_state(h, z, a, wz, wt, wy, wv))
    p = ty.prune_anchorage(a)
    at = [i for i in range(len(wt)) if i == 0 or (i < len(wk) and wk[i] == 'J')]
    h.check('regime path of the mixture', h.all([h.const(len(p.t) == len(at)), h.eq_all(p.t, [wt[i] for i in at]),
                                                ints(h, p.xt, [wy[i] for i in at]), h.eq(p.fin_t, starts[-1])]))
    h.check('well formed', well_formed(h, p, starts[-1]))


def consistent():
    """plans whose regimes agree at the conditioning times"""
    a = [[('J', (0, 1)), ('JJ', (0, 2, 1))], [('', (1,)), ('JJ', (1, 0, 1))]]
    b = [[('O', (0,)), ('JOJ', (0, 1, 0))], [('J', (0, 1)), ('JJJ', (0, 1, 2, 1))]]
    c = [[('OJ', (2, 0)), ('JO', (2, 0))], [('', (0,)), ('', (0,))], [('J', (0, 1)), ('', (0,))]]
    d = [[('JOJ', (0, 1, 2)), ('OJ', (0, 2))], [('JO', (2, 0)), ('OJ', (2, 0))], [('J', (0, 1)), ('JOO', (0, 1))]]
    return [a, b, c], [d]


def items(tier):
    deep = tier == 'thorough'
    out = []
    plans = [('OO', (0,)), ('OJO', (0, 1)), ('OJJO', (1, 0, 1)), ('OJOO', (0, 1)), ('OOJO', (1, 0)), ('OJOJO', (0, 1, 0)), ('OJJOJO', (0, 1, 0, 1))]
    if deep:
        plans += [('OJJJO', (0, 1, 2, 0)), ('OJJOOJJO', (2, 1, 0, 1, 0)), ('OOOJO', (0, 1)), ('OJOJOJO', (0, 1, 2, 0))]
    for m in MODELS:
        for p, r in plans:
            out.append(Item(f'{m}:augment:{p}', augment, model=m, plan=p, regimes=r, budget=300 if deep else 40, max_draws=400))
    more = plans + [('OJJOOJO', (0, 1, 2, 0)), ('OOOO', (1,))]
    for p, r in more:
        out.append(Item(f'prune:{p}', pruned, plan=p, regimes=r))
        out.append(Item(f'split:{p}', split, plan=p, regimes=r, max_paths=20000, budget=120 if deep else 30))
    for p, r in more:
        if p.count('O') > 2:
            out.append(Item(f'rounding:{p}', drift, plan=p, regimes=r, budget=120 if deep else 30))
    quick, extra = consistent()
    for i, s in enumerate(quick + (extra if deep else [])):
        out.append(Item(f'mixture:{i}', mixed, sections=s, budget=120 if deep else 30))
    return out
