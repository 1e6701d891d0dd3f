"""Adaptive proposals: maps to the real line, their corrections, running moments, schedule and direction of the scale"""
from fractions import Fraction

import numpy as np

from engine.harness import Gap, Item

SIDES = ('none', 'lower', 'upper', 'both')
INF = float('inf')
TINY = Fraction(1, 10 ** 9)


def limits(h, side, name=''):
    """bounds and a state strictly inside"""
    lb, ub = h.real(f'lb{name}'), None
    gap = h.pos(f'dist{name}')
    if side == 'none':
        return -INF, INF, lb, lambda x: lb * 0 + x, lambda x: x * 0 + 1
    if side == 'lower':
        return lb, INF, lb + gap, lambda x: h.log(x - lb), lambda x: 1 / (x - lb)
    if side == 'upper':
        ub = lb
        return -INF, ub, ub - gap, lambda x: h.log(ub - x), lambda x: 1 / (ub - x)
    ub = lb + gap + h.pos(f'room{name}')
    return lb, ub, lb + gap, lambda x: lb * 0 + x, lambda x: x * 0 + 1


def inside(h, side, lb, ub, x):
    """two finite bounds leave the scale of the parameter alone"""
    if side == 'lower':
        return h.gt(x, lb)
    if side == 'upper':
        return h.lt(x, ub)
    return h.const(True)


def transforms(h):
    ad = h.mod('misc.adapt')
    side = h.p['side']
    lb, ub, x, real, slope = limits(h, side)
    y, j = ad.transform_to_reals(x, lb, ub)
    h.check('log-Jacobian of the map to the real line', h.eq(h.exp(j), slope(x)))
    if side == 'none':
        d = h.derivative(lambda v: ad.transform_to_reals(v, lb, ub)[0], x)
    else:
        d = h.derivative(lambda g: ad.transform_to_reals(ub - g if side == 'upper' else lb + g, lb, ub)[0], h.pos('dist'))
    h.check('derivative of the map', h.any([h.eq(d, slope(x)), h.eq(d, -slope(x))]))
    back, jb = ad.transform_to_const(y, lb, ub)
    h.check('back to where it came from', h.eq(back, x))
    h.check('same correction both ways', h.eq(h.exp(jb), slope(x)))
    v = h.real('v', nice=True)
    x1, j1 = ad.transform_to_const(v, lb, ub)
    h.check('inside the bounds', inside(h, side, lb, ub, x1))
    h.check('inverse', h.eq(ad.transform_to_reals(x1, lb, ub)[0], v))
    h.check('correction at the image', h.eq(h.exp(j1), slope(x1)))
    d = h.derivative(lambda w: ad.transform_to_const(w, lb, ub)[0], v)
    h.check('correction is the inverse derivative', h.any([h.eq(d * h.exp(j1), 1), h.eq(d * h.exp(j1), -1)]))


def moments(h):
    """one-step updates reproduce the batch"""
    ad = h.mod('misc.adapt')
    n, dim = h.p['n'], h.p['dim']
    xs = [[h.real(f'x{i}{k}', -5, 5) for k in range(dim)] for i in range(n)]

    def batch(rows):
        m = len(rows)
        mean = [sum(r[k] for r in rows) / m for k in range(dim)]
        cov = [[sum((r[a] - mean[a]) * (r[b] - mean[b]) for r in rows) / (m - 1) for b in range(dim)] for a in range(dim)]
        return mean, cov
    mean, cov = batch(xs[:2])
    mean, cov = h.arr(mean), h.mat(cov)
    for i in range(2, n):
        mean, cov = ad.seq_update_normal(h.arr(xs[i]), i, mean, cov)
        wm, wc = batch(xs[:i + 1])
        h.check('batch mean', h.eq_all(mean, wm))
        for a in range(dim):
            for b in range(dim):
                h.check('batch covariance', h.eq(cov[a][b], wc[a][b]))


def steps(calls, air):
    """calls at which the scale is due"""
    out, k, at = [], 1, 1
    while at <= calls:
        out.append(at)
        k += 1
        at += k ** air
    return out


def schedule(h, probs, target, air, scales, window):
    """scales[k]: log-scale after k reports"""
    due = steps(len(probs), air)
    emp = [target] + probs
    last = 0
    for k in range(1, len(probs) + 1):
        move = scales[k] - scales[k - 1]
        if k not in due:
            h.check('scale kept between scheduled times', h.eq(move, 0))
            continue
        # the reports since the last change, its own included
        recent = emp[last:k + 1] if window else [probs[k - 1]]
        mean = sum(recent[1:], recent[0]) / len(recent)
        gap = mean - target
        h.check('moves with the recent acceptance rate', h.all([
            h.implies(h.gt(gap, Fraction(1, 10 ** 6)), h.gt(move, 0)), h.implies(h.lt(gap, -Fraction(1, 10 ** 6)), h.lt(move, 0)),
            h.implies(h.eq(gap, 0), h.eq(move, 0))]))
        rate = Fraction(float(due.index(k) + 2) ** -.66)
        h.check('decaying learning rate', h.all([h.le(move, gap * rate + TINY), h.ge(move, gap * rate - TINY)]))
        last = k


def rw(h):
    ad = h.mod('misc.adapt')
    side, air, n = h.p['side'], h.p['air'], h.p['calls']
    lb, ub, x, real, slope = limits(h, side)
    target = h.num(Fraction(1, 4))
    s = ad.MyopicRwSampler(x, (lb, ub), target, air=air)
    probs = [h.unit(f'p{i}') for i in range(n)]
    scales = []
    for k in range(n + 1):
        y, fwd, back = s.propose(h.gen())
        z = h.flat_prims('z')
        h.check('one normal draw per proposal', h.const(len(z) == k + 1))
        if len(z) != k + 1:
            return
        h.check('proposal inside the bounds', inside(h, side, lb, ub, y))
        h.check('forward correction', h.eq(h.exp(fwd), slope(y)))
        h.check('backward correction', h.eq(h.exp(back), slope(x)))
        step = real(y) - real(x)
        # symmetric on the real line: a multiple of the draw
        scale = s.log_prop_scale[-1]
        h.check('random walk on the real line', h.any([h.eq(step, h.exp(scale) * z[-1]), h.eq(step, -h.exp(scale) * z[-1])]))
        scales.append(scale)
        if k < n:
            if h.choose(f'accept{k}', [0, 1]):
                x = y
            s.adapt(x, probs[k])
    schedule(h, probs, target, air, scales, True)


def mv(h):
    ad = h.mod('misc.adapt')
    sides, air, n = h.p['sides'], h.p['air'], h.p['calls']
    lims = [limits(h, side, i) for i, side in enumerate(sides)]
    dim = len(sides)
    lb, ub = [l[0] for l in lims], [l[1] for l in lims]
    x = [l[2] for l in lims]
    target = h.num(Fraction(1, 4))
    s = ad.MyopicMvRwSampler(h.arr(x), (h.arr(lb), h.arr(ub)), target, air=air)
    probs = [h.unit(f'p{i}') for i in range(n)]
    scales = []
    # running moments of the states on the real line, from two pseudo-observations of mean zero and unit covariance
    mean, cov, w = [h.num(0)] * dim, [[h.num(int(a == b)) for b in range(dim)] for a in range(dim)], 2
    used = cov
    due = steps(n, air)
    for k in range(n + 1):
        y, fwd, back = s.propose(h.gen())
        ds = h.drawn('m')
        h.check('one joint draw per proposal', h.const(len(ds) == k + 1 and len(y) == dim))
        if len(ds) != k + 1:
            return
        for i, side in enumerate(sides):
            h.check('proposal inside the bounds', inside(h, side, lb[i], ub[i], y[i]))
        f, b = h.num(1), h.num(1)
        for i, l in enumerate(lims):
            f, b = f * l[4](y[i]), b * l[4](x[i])
        h.check('forward correction', h.eq(h.exp(fwd), f))
        h.check('backward correction', h.eq(h.exp(back), b))
        scale = s.log_prop_scale[-1]
        dev = [l[3](y[i]) - l[3](x[i]) for i, l in enumerate(lims)]
        h.check('random walk on the real line', h.any([h.eq_all(dev, ds[-1].prim), h.eq_all([-e for e in dev], ds[-1].prim)]))
        c = h.asarray(ds[-1].par['cov'])
        for i in range(dim):
            for j in range(dim):
                h.check('covariance of the walk', h.eq(c[i, j], used[i][j] * h.exp(scale)))
        scales.append(scale)
        if k < n:
            if h.choose(f'accept{k}', [0, 1]):
                x = list(y)
            s.adapt(h.arr(x), probs[k])
            at = [l[3](x[i]) for i, l in enumerate(lims)]
            d = [a - m for a, m in zip(at, mean)]
            mean = [m + e / (w + 1) for m, e in zip(mean, d)]
            cov = [[cov[i][j] * Fraction(w - 1, w) + d[i] * d[j] / (w + 1) for j in range(dim)] for i in range(dim)]
            w += 1
            if k + 1 in due:
                used = cov
    schedule(h, probs, target, air, scales, True)


def regimes(h):
    """conditioning times of the regime proposal"""
    ad, ms = h.mod('misc.adapt'), h.mod('mjplib.skeleton')
    n, air, calls = h.p['times'], h.p['air'], h.p['calls']
    t = [h.num(0)]
    for i in range(n - 1):
        t.append(t[-1] + h.pos(f'dt{i}'))
    # one jump between the first two observations
    state = ms.Skeleton(h.arr([0, t[1] * h.unit('jump')]), np.array([0, 1]), t[-1])
    target = h.num(Fraction(1, 4))
    s = ad.MyopicMjpSampler(state, target, air=air)
    seen = []

    def mutate(*a, **k):
        # any resampling that keeps the states at the cuts: only what it is given matters
        part = a[0] if a else k['partition']
        seen.append(part)
        return part
    h.summarise('mjplib.skeleton', 'mutate_partition', lambda real: mutate)
    h.loose = True
    lam = h.generator_matrix('q', 2)
    w = h.pos('w')
    s.log_prop_scale = [h.log(w)]
    prop, cond = s.propose(lam, h.arr(t), h.gen())
    h.loose = False
    m = max(n - 2, 0)
    us = h.flat_prims('u')[:m]
    h.check('one draw per interior time', h.const(len(us) == m))
    if len(us) != m:
        return
    want = []
    for i, u in enumerate(us):
        h.assume(h.neg(h.eq(u * (1 + w), 1)))
        if h.decide(h.lt(u * (1 + w), 1)):
            want.append(t[1 + i])
    h.check('interior observation times only', h.eq_all(cond, want))
    for part in seen:
        h.check('pieces between conditioning times', h.all([h.const(len(part) == len(want) + 1)] + [
            h.eq(p.fin_t, b - a) for p, a, b in zip(part, [t[0]] + want, want + [t[-1]])]))
    for x in want:
        h.check('keeps the regime at conditioning times', h.const(int(prop(x)) == int(state(x))))
    h.check('proposal covers the horizon', h.eq(prop.fin_t, t[-1]))
    # schedule
    s = ad.MyopicMjpSampler(state, target, air=air)
    probs = [h.unit(f'p{i}') for i in range(calls)]
    scales = [s.log_prop_scale[-1]]
    for p in probs:
        s.adapt(state, p)
        scales.append(s.log_prop_scale[-1])
    schedule(h, probs, target, air, scales, False)


def items(tier):
    q = tier == 'quick'
    b = 30 if q else 200
    out = [Item(f'transform[{s}]', transforms, side=s, budget=b) for s in SIDES]
    for n, dim in [(3, 1), (4, 1), (3, 2), (4, 2)] + ([] if q else [(5, 2), (6, 1), (4, 3)]):
        out.append(Item(f'moments[{n},{dim}]', moments, n=n, dim=dim, budget=b))
    calls = 4 if q else 6
    out += [Item(f'walk[{s}]', rw, side=s, air=1, calls=calls, budget=b) for s in SIDES]
    out.append(Item('walk[lower,air0]', rw, side='lower', air=0, calls=calls, budget=b))
    for sides in [('lower', 'lower'), ('upper', 'none'), ('both', 'lower')]:
        out.append(Item(f"joint[{','.join(sides)}]", mv, sides=sides, air=1, calls=3 if q else 6, budget=b))
    for n in (2, 3, 4) if q else (2, 3, 4, 5, 6):
        out.append(Item(f'regimes[{n}]', regimes, times=n, air=1, calls=7 if q else 11, budget=b))
    out.append(Item('regimes[3,air2]', regimes, times=3, air=2, calls=7, budget=b))
    return out
