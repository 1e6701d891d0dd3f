"""Poisson thinning coins on paths that are known at the times of their marks (so that the path is arbitrary there), the
unbiased estimators built from the same clouds, and the mark-by-mark revelation of a path."""
from fractions import Fraction

import numpy as np

from engine.harness import Item
from .c07 import cdf0
from .lib import abstract_escapes

INF = float('inf')


class Case:
    pass


def order(h, ts):
    """sorted times (distinct), by case distinction"""
    out = []
    for t in ts:
        k = 0
        while k < len(out) and h.decide(h.lt(out[k], t)):
            k += 1
        out.insert(k, t)
    for a, b in zip(out, out[1:]):
        h.assume(h.lt(a, b))
    return out


def cloud_of(h, rate, T, bs):
    ms = h.mod('mjplib.skeleton')
    if bs is None:
        pts = h.again(lambda: ms.sample_ppp(rate, (T,), h.gen()))
        return [[(None, p[0]) for p in pts]] if len(pts) else []
    return [[(p[0], p[1]) for p in b] for b in h.again(lambda: list(ms.sample_batch_ppp(1, (rate, T), bs, h.gen())))]


def setting(h, gap, bs, seeded):
    """horizon, cloud and a path through arbitrary values at the times of the marks"""
    c = Case()
    c.T = h.pos('T')
    c.batches = cloud_of(h, gap, c.T, bs)
    c.ts = [t for b in c.batches for _, t in b]
    c.sorted = order(h, c.ts)
    c.le, c.ue = -h.pos('below'), h.pos('above')
    zs = [c.le + (c.ue - c.le) * h.unit(f'w{i}') for i in range(len(c.ts))]
    low = h.choose('anchored', ['below', 'above']) == 'below'
    tight, loose = (c.le, c.ue) if low else (c.ue, c.le)
    mod = h.mod('ea3lib.seed' if seeded else 'ea3lib.skeleton')
    cls = mod.SeedSkeleton if seeded else mod.Skeleton
    # positions on the path: normalised for a seed
    sc = (lambda t: t / c.T) if seeded else (lambda t: t)
    grid = [h.num(0)] + [sc(t) for t in c.sorted] + [sc(c.T)]
    c.z = [h.num(0)] + zs + [h.num(0)]
    c.path = cls(h.arr(grid), h.arr(c.z), tight, loose, (c.le + c.ue) / 2, [True] * (len(grid) - 1))
    c.zs = zs
    c.mod = mod
    return c


def value(h, c, t):
    """stored value at a mark's time"""
    for s, z in zip(c.sorted, c.zs):
        if s is t or h.decide(h.eq(s, t)):
            return z
    raise AssertionError


def operators(h, c, name):
    """an arbitrary affine bridge built on the normalised path"""
    a, b, k = h.real(name + 'a'), h.real(name + 'b'), h.pos(name + 'k')

    def norm(t, x):
        s = t / c.T
        return s, None if x is None else (x - a - s * (b - a)) / k

    def denorm(s, z):
        return s * c.T, None if z is None else z * k + a + s * (b - a)
    return norm, denorm, lambda t, z: z * k + a + t / c.T * (b - a)


def disc(h, name):
    """an arbitrary discrepancy (a bijective image of the path value)"""
    q = h.real(name + 'q')
    return lambda x: 2 * x + q


def stages(h, c, below):
    """batches that get revealed, and whether the coin succeeds: below(level, t) tells whether a mark lies under the curve"""
    for k, b in enumerate(c.batches):
        bad = [below(l, t) for l, t in b]
        if any(bad):
            return k + 1, False
    return len(c.batches), True


def outcome(h, c, ok, new, below, grid, vals):
    k, want = stages(h, c, below)
    h.check('succeeds exactly when no mark lies below the discrepancy', h.const(bool(ok) == want))
    h.check('stops at the first failing batch', h.const(len(h.drawn('b')) == k))
    h.check('revealed points are kept', h.all([h.eq_all(grid, c.path[0]), h.eq_all(vals, c.path[1]), h.eq(new[2], c.path[2]), h.eq(new[3], c.path[3])]))


def poisson_mean(h, want):
    ps = h.drawn('p')
    h.check('one Poisson count', h.const(len(ps) == 1))
    h.check('mean number of marks', h.eq(ps[0].par['lam'], want))


def below_of(h, curve, level):
    def below(l, t):
        d = curve(t) - level - l
        h.assume(h.neg(h.eq(d, 0)))
        return h.decide(h.lt(0, d))
    return below


def seed_coin(h):
    gap, le = h.pos('gap'), h.real('le')
    c = setting(h, gap, h.p['bs'], True)
    norm, denorm, at = operators(h, c, 'n')
    phi = disc(h, 'f')
    bounds = lambda a, b: (h.real('cent'), le, le + gap)
    ok, lw, new = c.mod.flip_poisson_coin(c.path, norm, denorm, phi, bounds, h.gen(), h.p['bs'])
    poisson_mean(h, gap * c.T)
    outcome(h, c, ok, new, below_of(h, lambda t: phi(at(t, value(h, c, t))), le), new.s, new.z)
    h.check('log weight of the lower bound', h.eq(lw, -c.T * le))
    h.check('integrated lower bound', h.eq(c.mod.integrate_disc_bound(c.path, norm, denorm, bounds), -c.T * le))
    h.observe('ok', bool(ok))


def skeleton_coin(h):
    gap, cent = h.pos('gap'), h.real('cent')
    c = setting(h, gap, h.p['bs'], False)
    phi = disc(h, 'f')
    asked = []

    def bounds(a, b):
        asked.append((a, b))
        return cent, cent + h.real('off'), cent + gap
    ok, new = c.mod.flip_poisson_coin(c.path, phi, bounds, h.gen(), h.p['bs'])
    poisson_mean(h, gap * c.T)
    outcome(h, c, ok, new, below_of(h, lambda t: phi(value(h, c, t)), cent), new.t, new.x)
    h.check('bounds over the certified range', h.all([h.all([h.le(a, c.le), h.le(c.ue, b)]) for a, b in asked]))
    h.observe('ok', bool(ok))


def dual_coin(h):
    gap = h.pos('gap')
    c = setting(h, gap, h.p['bs'], True)
    n0, d0, at0 = operators(h, c, 'n')
    n1, d1, at1 = operators(h, c, 'm')
    f0, f1 = disc(h, 'f'), disc(h, 'g')
    up = h.choose('upside', [True, False])
    # the intensity dominates the change in either direction
    for t in c.sorted:
        d = f1(at1(t, value(h, c, t))) - f0(at0(t, value(h, c, t)))
        h.assume(h.all([h.le(d, gap), h.le(-gap, d)]))
    ok, new = c.mod.flip_dual_coin(c.path, gap, n0, d0, f0, n1, d1, f1, up, h.gen(), h.p['bs'])
    poisson_mean(h, gap * c.T)
    sign = 1 if up else -1

    def below(l, t):
        d = sign * (f1(at1(t, value(h, c, t))) - f0(at0(t, value(h, c, t)))) - l
        h.assume(h.neg(h.eq(d, 0)))
        return h.decide(h.lt(0, d))
    outcome(h, c, ok, new, below, new.s, new.z)
    h.observe('ok', bool(ok))


def estimate(h, c, phi, ue, gap):
    want = h.num(0)
    for t in c.ts:
        d = ue - phi(t)
        h.assume(h.lt(0, d))
        want = want + h.log(d) - h.log(gap)
    return want


def seed_estimator(h):
    gap, le = h.pos('gap'), h.real('le')
    c = setting(h, gap, None, True)
    norm, denorm, at = operators(h, c, 'n')
    phi = disc(h, 'f')
    want = estimate(h, c, lambda t: phi(at(t, value(h, c, t))), le + gap, gap)
    got, lw, new = c.mod.est_poisson_coin(c.path, norm, denorm, phi, lambda a, b: (h.real('cent'), le, le + gap), h.gen())
    poisson_mean(h, gap * c.T)
    h.check('log ratio of every mark', h.eq(got, want))
    h.check('log weight of the lower bound', h.eq(lw, -c.T * le))
    h.check('path kept', h.all([h.eq_all(new.s, c.path.s), h.eq_all(new.z, c.path.z)]))
    h.observe('value', got)


def skeleton_estimator(h):
    gap, le, cent = h.pos('gap'), h.real('le'), h.real('cent')
    c = setting(h, gap, None, False)
    phi = disc(h, 'f')
    want = estimate(h, c, lambda t: phi(value(h, c, t)), le + gap, gap)
    got, new = c.mod.est_poisson_coin(c.path, phi, lambda a, b: (cent, le, le + gap), h.gen())
    poisson_mean(h, gap * c.T)
    # unbiased for exp(-integral of (discrepancy - cent)): the mean over the marks is exp(-integral of (discrepancy - le))
    h.check('log ratio of every mark and the offset', h.eq(got, want + (cent - le) * c.T))
    h.check('path kept', h.all([h.eq_all(new.t, c.path.t), h.eq_all(new.x, c.path.x)]))
    h.observe('value', got)


def unbounded(h):
    """a certified range on which the discrepancy is unbounded cannot be accepted"""
    c = setting(h, h.pos('gap'), 2, True)
    norm, denorm, _ = operators(h, c, 'n')
    le = h.real('le')
    bounds = lambda a, b: (le, le, INF)
    phi = disc(h, 'f')
    ok, lw, new = c.mod.flip_poisson_coin(c.path, norm, denorm, phi, bounds, h.gen(), 2)
    h.check('fails', h.const(not ok))
    h.check('log weight of the lower bound', h.eq(lw, -c.T * le))
    got, lw, new = c.mod.est_poisson_coin(c.path, norm, denorm, phi, bounds, h.gen())
    h.check('no weight', h.const(h.isinf(got) and bool(got < 0)))
    h.check('log weight of the lower bound', h.eq(lw, -c.T * le))
    h.check('nothing drawn', h.const(not h.draws))


def reveal(h):
    """a mark at a time where the path is not known yet: the value drawn there is the one compared, and it is kept"""
    abstract_escapes(h)
    ms = h.mod('ea3lib.seed')
    T = h.pos('T')
    gap, le = h.pos('gap'), h.real('le')
    batches = cloud_of(h, gap, T, 2)
    ts = [t for b in batches for _, t in b]
    s1 = h.num(Fraction(1, 2))
    tight = h.num(-1)
    for t in ts:
        h.assume(h.neg(h.eq(t, s1 * T)))
    seed = ms.SeedSkeleton(h.arr([0, s1, 1]), h.arr([0, tight, 0]), tight, h.num(2), h.num(1), None)
    if h.choose('anchored', ['below', 'above']) == 'above':
        seed = ms.SeedSkeleton(h.arr([0, s1, 1]), h.arr([0, -tight, 0]), -tight, h.num(-2), h.num(-1), None)
    c = Case()
    c.T = T
    norm, denorm, at = operators(h, c, 'n')
    q = h.real('q')
    phi = lambda x: 2 * x + q
    ok, lw, new = ms.flip_poisson_coin(seed, norm, denorm, phi, lambda a, b: (h.real('cent'), le, le + gap), h.gen(), 2)
    poisson_mean(h, gap * T)
    grid, vals = list(new.s), list(new.z)
    h.check('grid increases', h.increasing(grid))
    h.check('end points kept', h.all([h.eq(grid[0], 0), h.eq(grid[-1], 1), h.eq(vals[0], 0), h.eq(vals[-1], 0)]))
    known = [h.any([h.all([h.eq(g * T, t), h.const(True)]) for g in grid]) for t in ts]
    h.check('times of the marks are on the path', h.all(known))
    h.check('nothing else is', h.const(len(grid) == 3 + len(ts)))
    bad = []
    for l, t in [p for b in batches for p in b]:
        for g, z in zip(grid, vals):
            if h.decide(h.eq(g * T, t)):
                bad.append(h.lt(le + l, phi(at(t, z))))
                h.assume(h.neg(h.eq(le + l, phi(at(t, z)))))
    h.check('outcome follows the values on the path', h.all([h.neg(b) for b in bad]) if ok else h.any(bad))
    h.observe('ok', bool(ok))


def bridge(h):
    """rejection sampling of a diffusion bridge: a proposal is accepted with probability proportional to
    exp(-integral of the discrepancy), that is relative to one bound that holds for every proposal"""
    abstract_escapes(h, {'g.u4': False, 'g.u5': False})
    ms = h.mod('ea3lib.seed')
    c = Case()
    c.T = T = h.pos('T')
    gap, slack, cent = h.pos('gap'), h.pos('slack'), h.real('cent')
    le = cent + slack
    norm, denorm, at = operators(h, c, 'n')
    # one layer of proposals, kept as drawn: a minimum of -1/2 on the unit interval
    h.limit = {'w': 1, 'u': 7}
    low = h.choose('anchor', [True, False])
    h.script['g.u0'] = h.num(Fraction(99, 100))
    h.script['g.u1'] = h.num(Fraction(1, 1000) if low else Fraction(999, 1000))
    far = cdf0(h, -h.sqrt(2 * h.log(h.num(2))) / 2, 1, 0, 0)
    h.script['g.u2'] = (cdf0(h, h.num(Fraction(-1, 2)), 1, 0, 0) - far) / (1 - far)
    bounds = lambda a, b: (cent, le, le + gap)
    over = h.mod('misc.exceptions').BudgetConstraintError
    got = h.call(lambda: next(ms.sample_bridge((-INF, INF), norm, denorm, lambda x: 2 * x, bounds, h.gen(), 1)), allow=(over,))
    poisson_mean(h, gap * T)
    us = h.flat_prims('u')
    h.check('one more draw decides', h.const(len(us) == 7))
    if len(us) != 7:
        return
    p = h.exp(-slack * T)
    h.assume(h.neg(h.eq(us[-1], p)))
    taken = not isinstance(got, over)
    h.check('accepted with the weight of the range', h.lt(us[-1], p) if taken else h.lt(p, us[-1]))
    if taken:
        h.check('a bridge', h.all([h.eq(got.s[0], 0), h.eq(got.s[-1], 1), h.eq(got.z[0], 0), h.eq(got.z[-1], 0)]))
    h.observe('accepted', taken)


def items(tier):
    q = tier == 'quick'
    b = 30 if q else 300
    out = []
    for name, fn in (('seed', seed_coin), ('skeleton', skeleton_coin), ('dual', dual_coin)):
        for bs in ((1, 2) if q else (1, 2, 3)):
            out.append(Item(f'{name}[{bs}]', fn, bs=bs, pois_max=2 if q else 3, budget=b))
    out += [Item('estimator[seed]', seed_estimator, pois_max=2 if q else 3, budget=b),
            Item('estimator[skeleton]', skeleton_estimator, pois_max=2 if q else 3, budget=b),
            Item('bridge', bridge, pois_max=0, max_draws=10, budget=b),
            Item('unbounded', unbounded, pois_max=0, budget=b),
            Item('reveal', reveal, pois_max=1 if q else 2, max_draws=12, budget=b)]
    return out
