"""EM: rate-matrix step, parameter step, likelihood estimates, particles and stopping, with arbitrary models"""
from fractions import Fraction

import numpy as np
from scipy.optimize import OptimizeResult

from engine.harness import Gap, Item

from .c17 import V, Pieces, Regime, bounds_fn, disc_fn, line, tasks, which
from .c18 import Grid
from .lib import ints

INF = float('inf')


def total(h, xs):
    return sum(xs, h.num(0))


# --------------------------------------------------------------------------------------------------------------- rates

def rates(h):
    """stationary point of the mean complete-data log posterior"""
    em, ty = h.mod('switching.mcem'), h.mod('switching.types')
    R = h.p['R']
    hyper = []
    for nm, lo in (('a', 1), ('b', 0)):
        x = h.empty((R, R))
        for i in range(R):
            for j in range(R):
                x[i, j] = h.num(float('nan')) if i == j else h.real(f'{nm}{i}{j}', lo, None)
        hyper.append(h.finish(x))
    hh, gs = [], []
    for k, (p, r) in enumerate(h.p['particles']):
        g = Grid(h, p, r, name=f'd{k}.')
        gs.append(g)
        hh.append(ty.Anchorage(h.arr(g.t), np.array(g.y), h.vec(f'v{k}.', len(g.t))))
    keep = [x.copy() for x in hyper]
    lam, obj = em.update_generator(hh, tuple(hyper))
    K = len(gs)
    want = h.num(0)
    for i in range(R):
        h.check('rows sum to zero', h.eq(total(h, [lam[i, j] for j in range(R)]), 0))
        hold = total(h, [g.t[q + 1] - g.t[q] for g in gs for q in range(len(g.t) - 1) if g.y[q] == i]) / K
        for j in range(R):
            if i == j:
                continue
            n = h.num(Fraction(sum(1 for g in gs for q in range(len(g.y) - 1) if (g.y[q], g.y[q + 1]) == (i, j)), K))
            h.check('zero gradient', h.eq(lam[i, j] * (hyper[1][i, j] + hold), hyper[0][i, j] - 1 + n))
            want = want + (n + hyper[0][i, j] - 1) * h.log(lam[i, j]) - (hold + hyper[1][i, j]) * lam[i, j]
    h.check('reports the mean complete-data log posterior', h.eq(obj, want))
    for x, y in zip(hyper, keep):
        h.check('prior left alone', h.eq_all([x[i, j] for i in range(R) for j in range(R) if i != j],
                                             [y[i, j] for i in range(R) for j in range(R) if i != j]))


# --------------------------------------------------------------------------------------------------------------- bounds

def limits_of(h, side, d):
    """bounds of each coordinate; None where the model gives none"""
    if side == 'absent':
        return None, None
    lo, hi = [], []
    for i in range(d):
        s = side if side != 'mixed' else ('lower', 'both', 'none')[i % 3]
        a = h.real(f'lb{i}')
        lo.append(a if s in ('lower', 'both') else -INF)
        hi.append(a + h.pos(f'wide{i}') if s in ('upper', 'both') else INF)
    if side in ('upper', 'none'):
        lo = None if h.choose('none', [0, 1]) else lo
    if side in ('lower', 'none'):
        hi = None if h.choose('none', [0, 1]) else hi
    mk = lambda xs: None if xs is None else np.array(xs) if all(isinstance(x, float) for x in xs) else h.arr(xs)
    return mk(lo), mk(hi)


def check_bounds(h, got, lo, hi, buf, d):
    """got: (lower, upper)"""
    a, b = [list(np.asarray(x, dtype=object).reshape(-1)) for x in got]
    h.check('one pair of bounds per parameter', h.const(len(a) == len(b) == d))
    if not len(a) == len(b) == d:
        return

    def none(x):
        return x is None or h.isinf(x)
    for i in range(d):
        l, u = -INF if lo is None else lo[i], INF if hi is None else hi[i]
        shrink = buf
        if not h.isinf(l) and not h.isinf(u):
            half = (u - l) / 2
            if h.decide(h.lt(half, buf)):
                shrink = half
        for got_, raw, sign in ((a[i], l, 1), (b[i], u, -1)):
            if h.isinf(raw):
                h.check('open side stays open', h.const(none(got_)))
            else:
                h.check('bound moved inwards by the buffer, at most to the midpoint',
                        h.const(False) if none(got_) else h.eq(got_, raw + sign * shrink))


def buffers(h):
    em = h.mod(h.p['kind'] + '.mcem')
    d = h.p['d']
    lo, hi = limits_of(h, h.p['side'], d)
    buf = h.pos('buffer')
    check_bounds(h, em.buffer_bounds(lo, hi, d, buf), lo, hi, buf, d)


def bounds_pair(k, d):
    b = k.get('bounds')
    if b is None:
        return [-INF] * d, [INF] * d
    if hasattr(b, 'lb'):
        return np.broadcast_to(np.asarray(b.lb, dtype=object), (d,)), np.broadcast_to(np.asarray(b.ub, dtype=object), (d,))
    b = list(b)
    return [x[0] for x in b], [x[1] for x in b]


# --------------------------------------------------------------------------------------------------------------- estimates

def stored(h, marks, zs, k):
    """a path stored at the given times (fractions, increasing), identified by its outer bounds"""
    ms = h.mod('ea3lib.seed')
    s = [h.num(0)] + list(marks) + [h.num(1)]
    return ms.SeedSkeleton(h.arr(s), h.arr([h.num(0)] + list(zs) + [h.num(0)]), h.num(-3 - k), h.num(4 + k), h.num(Fraction(1, 2)), [True] * (len(s) - 1))


class Fractions:
    """support times: the uniforms of the generator, sorted within each interval"""

    def __init__(self, h, gid, n):
        self.h, self.gid, self.n, self.k = h, gid, n, 0

    def next(self):
        h = self.h
        us = [h.unit(f'{self.gid}.u{self.k + i}') for i in range(self.n)]
        self.k += self.n
        out = []
        for u in us:
            at = len(out)
            for i, x in enumerate(out):
                h.assume(h.neg(h.eq(u, x)))
                if h.decide(h.lt(u, x)):
                    at = i
                    break
            out.insert(at, u)
        return out


def value_at(h, k, i, q, free):
    # arbitrary, or fixed where there are many (their order would fork)
    return 3 * h.unit(f'z{k}{i}{q}') - 1 if free else h.num(Fraction(2 * k - 3 * i + 5 * q - 1, 11))


class Ito:
    """pieces with symbolic durations; path values at the support points are known; the likelihood, the discrepancy and the
    prior are polynomials in the parameter with arbitrary coefficients"""

    def __init__(self, h, m, d, K, ns, share=True):
        self.h, self.m, self.d, self.K = h, m, d, K
        self.T = [h.pos(f'T{i}') for i in range(m)]
        self.t = [h.num(0)]
        for x in self.T:
            self.t.append(self.t[-1] + x)
        self.v = [h.real(f'v{i}') for i in range(m + 1)]
        fr = Fractions(h, 'g', ns)
        self.fr = [fr.next() for _ in range(m)]
        self.z = [[[value_at(h, k, i, q, m * K * ns == 1) for q in range(ns)] for i in range(m)] for k in range(K)]
        self.zz = [[stored(h, self.fr[i], self.z[k][i], k) for i in range(m)] for k in range(K)]

    def loglik(self, thi, t, v):
        h = self.h
        if len(t) != self.m + 1 or not h.decide(h.all([h.eq_all(t, self.t), h.eq_all(v, self.v)])):
            raise Gap('likelihood of other data')
        return total(h, [h.real(f'l{i}') * thi[i] for i in range(self.d)]) + h.real('l')

    def prior(self, thi):
        h = self.h
        return total(h, [h.real(f'p{i}') * thi[i] * thi[i] for i in range(self.d)])

    def disc(self, thi, x=None):
        h = self.h
        f = lambda x: x * thi[0] * h.real('c0') + thi[-1] * h.real('c1')
        return f if x is None else f(x)

    def ops(self, thi, t, v):
        # the bridge operators move with the parameter
        return [bent(t[i + 1] - t[i], v[i], v[i + 1], thi[0]) for i in range(len(t) - 1)]

    def value(self, thi, k, prior=False):
        """oracle"""
        h = self.h
        out = self.loglik(thi, self.t, self.v)
        for i in range(self.m):
            xs = [(z * thi[0] + self.v[i] + s * (self.v[i + 1] - self.v[i])) for s, z in zip(self.fr[i], self.z[k][i])]
            ph = [self.disc(thi)(x) for x in xs]
            out = out - self.T[i] * total(h, ph) / len(ph)
        return out + self.prior(thi) if prior else out

    def model(self, em, bounds):
        return em.Model(self.h.arr(self.t), self.h.arr(self.v), bounds, self.prior, None, self.ops, self.loglik, self.disc, None)


def bent(dt, v0, v1, scale):
    def norm(t, x):
        s = t / dt
        return s, None if x is None else (x - v0 - s * (v1 - v0)) / scale

    def denorm(s, z):
        return s * dt, None if z is None else z * scale + v0 + s * (v1 - v0)
    return norm, denorm


def known(h, seeds, want):
    return h.all([h.const(len(seeds) == len(want))] + [
        h.all([h.const(len(a[0]) == len(b[0])), h.eq_all(a[0], b[0]), h.eq_all(a[1], b[1])]) for a, b in zip(seeds, want)])


def ito_estimate(h):
    em = h.mod('ito.mcem')
    s = Ito(h, h.p['pieces'], 2, 1, h.p['supports'])
    thi = [h.pos('a0'), h.real('a1')]
    supp = [h.arr([f * d for f in fr]) for fr, d in zip(s.fr, s.T)]
    got, z = em.est_log_aug_lik(h.arr(thi), list(s.zz[0]), s.model(em, (None, None)), supp, h.gen('g'))
    h.check('biased log-likelihood minus integrated discrepancy', h.eq(got, s.value(thi, 0)))
    h.check('paths known at the supports are kept', known(h, z, s.zz[0]))
    h.check('nothing is drawn for them', h.const(len(h.drawn()) == 0))


def ito_param(h):
    """the optimiser sees the negated mean objective"""
    em = h.mod('ito.mcem')
    d, K, ns = h.p['d'], h.p['K'], h.p['supports']
    s = Ito(h, h.p['pieces'], d, K, ns)
    lo, hi = limits_of(h, h.p['side'], d)
    buf = h.pos('buffer')
    thi = [h.pos('a0')] + [h.real(f'a{i}') for i in range(1, d)]
    opt = [h.pos('o0')] + [h.real(f'o{i}') for i in range(1, d)]
    fun = h.real('fun')

    def hook(h, f, x0, k, index):
        h.mins.append(1)
        h.check('starts from the current value', h.eq_all(np.asarray(x0).reshape(-1), thi))
        check_bounds(h, bounds_pair(k, d), lo, hi, buf, d)
        n = len(h.draws)
        for j in range(2):
            probe = [h.pos(f'x{j}0')] + [h.real(f'x{j}{i}') for i in range(1, d)]
            args = k.get('args', ())
            val = f(h.arr(probe), *(args if isinstance(args, tuple) else (args,)))
            want = total(h, [s.value(probe, q, True) for q in range(K)]) / K
            h.check('negated mean of estimate plus prior', h.eq(np.asarray(val).reshape(-1)[0], -want))
        h.check('objective draws nothing', h.const(len(h.draws) == n))
        return OptimizeResult(x=h.arr(opt), fun=fun, success=True)
    h.min_hook = hook
    ctrl = em.Controls(n_disc_supports=ns, bound_buffer=buf)
    got, obj = em.update_param(h.arr(thi), [list(z) for z in s.zz], s.model(em, (lo, hi)), ctrl, h.gen('g'), tasks)
    h.check('optimised once', h.const(len(h.mins) == 1))
    h.check('the optimum', h.eq_all(got, opt))
    h.check('its objective', h.eq(obj, -fun))


class Switching:
    """as above, with regimes: coefficients of the regime of the piece"""

    def __init__(self, h, plans, R, ns):
        self.h, self.R, self.ns = h, R, ns
        self.K = len(plans)
        fr = Fractions(h, 'g', ns)
        self.ys, self.T, self.t, self.v, self.fr, self.z, self.zz = [], [], [], [], [], [], []
        for k, ys in enumerate(plans):
            m = len(ys)
            T = [h.pos(f'T{k}{i}') for i in range(m)]
            t = [h.num(0)]
            for x in T:
                t.append(t[-1] + x)
            self.ys.append(list(ys) + [ys[-1]])
            self.T.append(T)
            self.t.append(t)
            self.v.append([h.real(f'v{k}{i}') for i in range(m + 1)])
            self.fr.append([fr.next() for _ in range(m)])
            self.z.append([[value_at(h, k, i, q, len(plans) * m * ns == 1) for q in range(ns)] for i in range(m)])
            self.zz.append([stored(h, f, z, k) for f, z in zip(self.fr[k], self.z[k])])

    def state(self, ty, k):
        return ty.Anchorage(self.h.arr(self.t[k]), np.array(self.ys[k]), self.h.arr(self.v[k]))

    def part(self, thi, k, y):
        """log-likelihood of the pieces of particle k spent in regime y"""
        h = self.h
        return h.real(f'l{k}{y}') * thi[y][0] + h.real(f'm{k}{y}')

    def loglik(self, thi, t, y, v, restrict=None):
        h = self.h
        for k in range(self.K):
            if len(t) == len(self.t[k]) and [int(x) for x in y] == self.ys[k] and \
                    h.decide(h.all([h.eq_all(t, self.t[k]), h.eq_all(v, self.v[k])])):
                rs = range(self.R) if restrict is None else [int(restrict)]
                return total(h, [self.part(thi, k, r) for r in rs]), h.real(f'rest{k}')
        raise Gap('likelihood of other data')

    def prior(self, thi):
        return total(self.h, [self.h.real(f'p{r}') * thi[r][0] * thi[r][1] for r in range(self.R)])

    def disc(self, thi, y, x=None):
        y = int(y)
        f = lambda x: x * thi[y][0] * self.h.real('c0') + thi[y][1] * self.h.real('c1')
        return f if x is None else f(x)

    def ops(self, thi, t, y, v):
        return [bent(t[i + 1] - t[i], v[i], v[i + 1], thi[int(y[i])][0]) for i in range(len(t) - 1)]

    def value(self, thi, k, restrict=None, prior=False):
        h = self.h
        out = self.loglik(thi, self.t[k], self.ys[k], self.v[k], restrict)[0]
        for i, y in enumerate(self.ys[k][:-1]):
            if restrict is not None and y != restrict:
                continue
            v = self.v[k]
            ph = [self.disc(thi, y)(z * thi[y][0] + v[i] + s * (v[i + 1] - v[i])) for s, z in zip(self.fr[k][i], self.z[k][i])]
            out = out - self.T[k][i] * total(h, ph) / len(ph)
        return out + self.prior(thi) if prior else out

    def model(self, em, bounds):
        h = self.h
        return em.Model(h.arr(self.t[0]), h.arr(self.v[0]), bounds, None, self.prior, None, self.ops, self.loglik, self.disc, None)


def unbiased(h):
    """biased likelihood times the exponential of the lower bounds times the Poisson estimators of the pieces"""
    sw = h.p['switching']
    em = h.mod('switching.mcem' if sw else 'ito.mcem')
    m = h.p['pieces']
    T = [h.pos(f'T{i}') for i in range(m)]
    t = [h.num(0)]
    for x in T:
        t.append(t[-1] + x)
    v = [h.num(x) for x in V[:m + 1]]
    n = [h.choose(f'g.p{i}', [0, 1]) for i in range(m)]
    marks = [h.unit(f'g.u{sum(n[:i])}') if n[i] else None for i in range(m)]
    p = Pieces(h, 'x', T, v, 1, marks)
    for d in p.d:
        if d is not None:
            h.assume(h.lt(d, 1))
    like, rest = h.pos('like'), h.pos('rest')
    ops = lambda thi, t_, *r: [line(t_[i + 1] - t_[i], r[-1][i], r[-1][i + 1]) for i in range(len(t_) - 1)]
    thi = h.mat(table(h, 'a', 2)) if sw else h.vec('a', 2)
    if sw:
        ty = h.mod('switching.types')
        ys = [0, 1, 1, 0][:m] + [1]
        mod = em.Model(h.arr(t), h.arr(v), (None, None), None, None, None, ops, lambda *a, **k: (h.log(like), h.log(rest)),
                       lambda th, y: disc_fn(h, [p]), lambda th, y: bounds_fn(h, [p]))
        got, z = em.est_aug_lik(thi, list(p.seeds), ty.Anchorage(h.arr(t), np.array(ys), h.arr(v)), mod, h.gen('g'))
        want = h.log(like) + h.log(rest)
    else:
        mod = em.Model(h.arr(t), h.arr(v), (None, None), None, None, ops, lambda *a: h.log(like), lambda th: disc_fn(h, [p]),
                       lambda th: bounds_fn(h, [p]))
        got, z = em.est_aug_lik(thi, list(p.seeds), mod, h.gen('g'))
        want = h.log(like)
    ps = h.drawn('p')
    h.check('marks over the duration and range of the pieces', h.all([h.const(len(ps) == m)] + [
        h.eq(q.par['lam'], p.gap * d) for q, d in zip(ps, T)]))
    for i in range(m):
        want = want + h.log(p.w[i])
        if n[i]:
            want = want + h.log(1 - p.d[i])
    h.check('likelihood, lower bounds and Poisson estimators', h.eq(got, want))
    h.check('paths known at the marks are kept', known(h, z, p.seeds))


def table(h, name, R):
    return [[h.pos(f'{name}{r}0'), h.real(f'{name}{r}1')] for r in range(R)]


def switching_estimate(h):
    em, ty = h.mod('switching.mcem'), h.mod('switching.types')
    s = Switching(h, [h.p['regimes']], 2, h.p['supports'])
    thi = table(h, 'a', 2)
    supp = [h.arr([f * d for f in fr]) for fr, d in zip(s.fr[0], s.T[0])]
    restrict = h.choose('restrict', [None, 0, 1])
    args = (h.mat(thi), list(s.zz[0]), s.state(ty, 0), s.model(em, (None, None)), supp, h.gen('g'))
    got, z = em.est_log_aug_lik(*args) if restrict is None else em.est_log_aug_lik(*args, restrict)
    h.check('biased log-likelihood minus integrated discrepancy', h.eq(got, s.value(thi, 0, restrict)))
    h.check('paths known at the supports are kept', known(h, z, s.zz[0]))
    h.check('nothing is drawn for them', h.const(len(h.drawn()) == 0))


def switching_param(h):
    em, ty = h.mod('switching.mcem'), h.mod('switching.types')
    R, ns = 2, h.p['supports']
    s = Switching(h, h.p['particles'], R, ns)
    lo, hi = limits_of(h, h.p['side'], 2)
    buf = h.pos('buffer')
    thi, opt = table(h, 'a', R), table(h, 'o', R)
    fun = [h.real(f'fun{r}') for r in range(R)]
    met = []

    def hook(h, f, x0, k, index):
        h.mins.append(1)
        x0 = np.asarray(x0).reshape(-1)
        r = next((r for r in range(R) if len(x0) == 2 and all(h.same(a, b) for a, b in zip(x0, thi[r]))), None)
        h.check('starts from the current value of one regime', h.const(r is not None and r not in met))
        if r is None or r in met:
            raise Gap('optimisation of something else')
        met.append(r)
        check_bounds(h, bounds_pair(k, 2), lo, hi, buf, 2)
        n = len(h.draws)
        args = k.get('args', ())
        probe = [h.pos(f'x{r}0'), h.real(f'x{r}1')]
        val = f(h.arr(probe), *(args if isinstance(args, tuple) else (args,)))
        row = [probe if q == r else thi[q] for q in range(R)]
        want = total(h, [s.value(row, q, r, True) for q in range(s.K)]) / s.K
        h.check('negated mean of estimate plus prior', h.eq(np.asarray(val).reshape(-1)[0], -want))
        h.check('objective draws nothing', h.const(len(h.draws) == n))
        return OptimizeResult(x=h.arr(opt[r]), fun=fun[r], success=True)
    h.min_hook = hook
    ctrl = em.Controls(n_disc_supports=ns, bound_buffer=buf)
    got, obj = em.update_param(h.mat(thi), [list(z) for z in s.zz], [s.state(ty, k) for k in range(s.K)],
                               s.model(em, (lo, hi)), ctrl, h.gen('g'), tasks)
    h.check('every regime optimised once', h.const(sorted(met) == list(range(R))))
    h.check('the optimum', h.all([h.eq_all(got[r], opt[r]) for r in range(R)]))
    h.check('its objective', h.eq(obj, -total(h, fun)))


# --------------------------------------------------------------------------------------------------------------- particles

def marked(h, k):
    ms = h.mod('ea3lib.seed')
    return ms.SeedSkeleton(h.arr([h.num(0), h.num(Fraction(1, 4)), h.num(1)]), h.arr([0, 0, 0]), h.num(-3 - k), h.num(4 + k), h.num(Fraction(1, 2)), [True] * 2)


def mark_of(h, seed):
    """which proposal a path came from"""
    for k in range(-1, 40):
        if h.same(seed[2], -3 - k):
            return k
    raise Gap('a path that was never proposed')


class Chain:
    """a model whose k-th proposed path carries the number k, accepted according to a plan"""

    def __init__(self, h, switching, T=None):
        self.h, self.switching, self.n, self.asked, self.ys = h, switching, 0, [], []
        self.T = h.pos('T') if T is None else T
        self.v = [h.real('v0'), h.real('v1')]
        self.want_thi = None

    def sample_aug(self, *a):
        h = self.h
        k = self.n - 1
        self.n += 1
        self.asked.append(a[0])
        if len(a) > 1:
            t, v = a[-3], a[-2]
            right = len(t) == 2 and len(v) == 2
            h.check('paths proposed for the data', h.all([h.const(right)] + ([h.eq_all(t, [h.num(0), self.T]), h.eq_all(v, self.v)] if right else [])))
        self.ys.append(a[1] if self.switching and len(a) > 1 else None)
        if not self.switching:
            return [marked(h, k)]
        ty = h.mod('switching.types')
        return [marked(h, k)], ty.Anchorage(h.arr([h.num(0), self.T]), np.array([0, 0]), h.arr(self.v))

    def model(self, em, **kw):
        h = self.h
        ops = lambda thi, t, *r: [line(t[i + 1] - t[i], r[-1][i], r[-1][i + 1]) for i in range(len(t) - 1)]
        flat = lambda *a: (h.num(-1), h.num(0), h.num(0))

        def disc(*a):
            f = lambda x: np.asarray(x) * 0
            return f if len(a) == 1 + self.switching else f(a[-1])
        if self.switching:
            return em.Model(h.arr([h.num(0), self.T]), h.arr(self.v), kw.get('bounds', (None, None)), kw.get('hyper'), lambda thi: h.num(0),
                            self.sample_aug, ops, lambda *a, **k: (h.num(0), h.num(0)), disc, lambda thi, y: flat)
        return em.Model(h.arr([h.num(0), self.T]), h.arr(self.v), kw.get('bounds', (None, None)), lambda thi: h.num(0), self.sample_aug, ops,
                        lambda *a, **k: h.num(0), disc, lambda thi: flat)


def accept_plan(h, gid, yes, pre):
    """first uniform decides (equal weights on both sides)"""
    h.script[f'{gid}.u0'] = h.num(Fraction(1, 4) if yes else Fraction(3, 4))
    if pre:
        h.script[f'{gid}.u1'] = h.num(Fraction(1, 4))


def particles(h):
    sw = h.p['switching']
    em = h.mod('switching.mcem' if sw else 'ito.mcem')
    n, thin = h.p['n'], h.p['thin']
    c = Chain(h, sw)
    first = c.sample_aug(None)
    steps = n * thin
    plan = [h.choose(f'acc{i}', [True, False]) for i in range(steps)]
    for i, yes in enumerate(plan):
        accept_plan(h, f'g/{i}', yes, sw)
    thi = h.mat(table(h, 'a', 2)) if sw else h.vec('a', 2)
    ctrl = em.Controls(n_thin_mcmc=thin)
    if sw:
        ms = h.mod('mjplib.skeleton')
        y = ms.Skeleton(h.arr([h.num(0)]), np.array([0]), c.T)
        zz, hh = em.update_particles(thi, h.generator_matrix('q', 2), first[0], first[1], n, c.model(em), ctrl, Regime(y, np.array([])), h.gen('g'), tasks)
        h.check('one grid per particle', h.const(len(hh) == len(zz)))
    else:
        zz = em.update_particles(thi, first, n, c.model(em), ctrl, h.gen('g'), tasks)
    h.check('one particle per configured number of steps', h.const(len(zz) == n))
    cur, chain = -1, []
    for i, yes in enumerate(plan):
        cur = i if yes else cur
        chain.append(cur)
    h.check('particles are the states after every n-th step, from the first', h.const([mark_of(h, z[0]) for z in zz] == chain[::thin]))
    h.check('steps run at the given parameters', h.const(all(a is thi or h.decide(h.eq_all(np.asarray(a).reshape(-1), thi.reshape(-1))) for a in c.asked[1:])))
    h.check('one chain step each', h.const(c.n == steps + 1))


class Onward(Exception):
    """one more iteration was begun"""


def maximise(h):
    """each iteration starts from the optimum and the particles of the one before; stops once objectives differ by less than the tolerance"""
    sw = h.p['switching']
    em = h.mod('switching.mcem' if sw else 'ito.mcem')
    R = 2
    its = h.p['its']
    EARLY = h.num(Fraction(1, 100))
    c = Chain(h, sw, T=h.num(1) if sw else None)
    init = h.vec('a', 2, 0, None)
    opt = [[h.vec(f'o{k}{r}', 2, 0, None) for r in range(R if sw else 1)] for k in range(its)]
    fun = [[h.real(f'fun{k}{r}') for r in range(R if sw else 1)] for k in range(its)]
    x0s = []

    def hook(h, f, x0, k, index):
        i = len(x0s)
        x0s.append(x0)
        h.mins.append(1)
        w = R if sw else 1
        if i // w >= its:
            raise Onward()
        return OptimizeResult(x=opt[i // w][i % w], fun=fun[i // w][i % w], success=True)
    h.min_hook = hook
    # first iteration accepts, later ones reject: their particles are the last one of the first iteration
    later = h.p['later']
    # paths are known at the support points
    for i in range(100):
        h.script[f'g.u{i}'] = h.num(Fraction(1, 4))
    for i in range(60):
        gid = f'g/{i}'
        h.script[f'{gid}.u0'] = h.num(Fraction(1, 4) if i == 0 or later else Fraction(3, 4))
        h.script[f'{gid}.u1'] = h.num(Fraction(1, 4))
    hyper = None
    if sw:
        # the first path has no change of regime, proposed ones have one, at an early time that tells the rate
        for i in range(200):
            h.script[f'g.e{i}'] = EARLY if i % 2 else h.num(1000)
            if i == 1:
                h.choose('g.c1', [0, 1])
            else:
                h.pin(f'g.c{i}', i % 2)
        hyper = (np.array([[np.nan, 2.0], [4.0, np.nan]]), np.array([[np.nan, 2.0], [1.0, np.nan]]))
    lams = []
    tol = h.pos('tol')
    ctrl = em.Controls(n_thin_mcmc=1, n_disc_supports=1, ftol=tol, learning_rate=1)
    outs, last = [], None
    it = em.maximize_posterior(init, c.model(em, hyper=hyper), ctrl, h.gen('g'))
    objs, seen = [], 0
    stop = None
    for k in range(its + 1):
        before = c.n
        try:
            out = next(it)
        except StopIteration:
            stop = k
            break
        except Onward:
            h.check('goes on only after the last', h.const(k == its))
            break
        obj, thi = out[0], out[1]
        zz = out[-2] if sw else out[-1]
        objs.append(obj)
        w = R if sw else 1
        rows = [thi[r] for r in range(w)] if sw else [thi]
        h.check('optimum of the iteration', h.all([h.eq_all(a, b) for a, b in zip(rows, opt[k])]))
        base = [init] * w if k == 0 else opt[k - 1]
        h.check('starts from the previous optimum', h.all([h.const(len(x0s) == w * (k + 1))] + [
            h.eq_all(np.asarray(x).reshape(-1), b) for x, b in zip(x0s[w * k:], base)]))
        want = np.concatenate([np.asarray(b).reshape(-1) for b in base])
        h.check('particles drawn at the previous optimum', h.all([h.eq_all(np.asarray(a).reshape(-1), want) for a in c.asked[before if k else 0:]]))
        if sw and k:
            for y in c.ys[before:]:
                a, b = int(y.xt[0]), int(y.xt[-1])
                h.check('regimes proposed at the previous rates', h.all([h.const(len(y.t) == 2), h.eq(y.t[-1] * lams[-1][a, b], EARLY)]))
        if sw:
            lams.append(out[2])
        marks = [mark_of(h, z[0]) for z in zz]
        h.check('particles continue the chain', h.const(marks == ([m - 1 for m in range(max(before, 1), c.n)] if k == 0 or later else [0] * len(zz))))
        if not sw:
            h.check('objective of the iteration', h.eq(obj, -total(h, fun[k])))
    # stopping rule
    n = len(objs)
    if stop is not None:
        h.check('stops only when the objective settles', h.const(n > 1))
        if n > 1:
            h.check('stops only when the objective settles', h.all([h.lt(objs[-1] - objs[-2], tol), h.lt(objs[-2] - objs[-1], tol)]))
    for k in range(1, n - 1 if stop is not None else n):
        d = objs[k] - objs[k - 1]
        h.check('goes on while the objective moves', h.any([h.ge(d, tol), h.ge(-d, tol)]))
    h.observe('iterations', [n, stop is None])


def wiring(h):
    """the model's EM runs on its own functions, data and prior, with the settings it is given"""
    sw = h.p['switching']
    name = 'switching' if sw else 'ito'
    m, em, sd = h.mod(f"{name}.models.{h.p['model']}"), h.mod(f'{name}.mcem'), h.mod('ea3lib.seed')

    def piece(*a, **k):
        # known at every support point, over a numeric range
        return sd.SeedSkeleton(h.arr([0, Fraction(1, 4), 1]), h.arr([0, Fraction(1, 8), 0]), h.num(Fraction(-1, 2)), h.num(1),
                               h.num(Fraction(-1, 4)), [True, True])
    h.summarise('ea3lib.seed', 'sample_raw_seed', lambda real: piece, both=True)
    for k in range(120):
        h.script[f'g.u{k}'] = h.num(Fraction(1, 4))
    gids = ['g'] + [f'g/{k}' for k in range(40)]
    for g in gids:
        for k in range(16):
            h.pin(f'{g}.p{k}', 0)
    for g in gids[1:]:
        for k, u in enumerate([Fraction(1, 4) if int(g[2:]) % 3 else Fraction(3, 4)] + 2 * [Fraction(1, 4), Fraction(1, 8), Fraction(7, 8)]):
            h.script[f'{g}.u{k}'] = h.num(u)
    d = len(m.init_thi)
    its = h.p['its']
    settings = dict(n_thin_mcmc=2, n_disc_supports=1, learning_rate=2, ftol=h.num(Fraction(1, 100)), bound_buffer=h.num(Fraction(1, 20)))
    x = h.vec('x', d, 1, 3)
    calls = []

    def hook(h, f, x0, k, index):
        h.mins.append(1)
        args = k.get('args', ())
        args = args if isinstance(args, tuple) else (args,)
        lb, ub = bounds_pair(k, d)
        calls[-1].append([list(np.asarray(x0).reshape(-1)), list(lb), list(ub), [k.get('tol', h.num(-1))],
                          list(np.asarray(f(x, *args)).reshape(-1))])
        i = len(calls[-1])
        return OptimizeResult(x=h.arr([h.num(Fraction(j + i + 3, i + 3)) for j in range(d)]), fun=h.num(i), success=True)
    h.min_hook = hook

    def collect(it):
        calls.append([])
        return [next(it) for _ in range(its)]
    if not sw:
        t, v = h.arr([0, Fraction(1, 4), Fraction(3, 4)]), h.arr([Fraction(1, 2), 1, Fraction(3, 4)])
        got = collect(m.maximize_posterior(t, v, ome=h.gen(), **settings))
        mod = em.Model(t=t, vt=v, bounds_thi=m.bounds_thi, eval_log_prior=m.eval_log_prior, sample_aug=m.sample_aug,
                       gen_normops=m.gen_normops, eval_biased_loglik=m.eval_biased_log_lik, eval_disc=m.eval_disc,
                       eval_bounds_disc=m.eval_bounds_disc)
    else:
        t, v = h.arr([0, Fraction(3, 4), 1]), h.arr([Fraction(1, 2), Fraction(-1, 3), Fraction(3, 4)])

        def mutate(*a, **k):
            return a[0] if a else k['partition']
        h.summarise('mjplib.skeleton', 'mutate_partition', lambda real: mutate, both=True)
        # with rates of one half: a change after a third of the first interval, a stay until after the end
        h.script['g.e0'], h.script['g.e1'] = h.num(Fraction(1, 8)), h.num(50)
        h.pin('g.i0', 0)
        h.pin('g.c0', 0)
        for k in range(60):
            h.script[f'g.z{k}'] = h.num(Fraction((7 * k) % 5 - 2, 5 + k % 3))
        a0, b0 = h.num(2), h.num(4)
        hyper = (np.array([[np.nan, 2.0], [2.0, np.nan]]), np.array([[np.nan, 4.0], [4.0, np.nan]]))
        got = collect(m.maximize_posterior(t, v, 2, a0, b0, ome=h.gen(), **settings))
        mod = em.Model(t=t, vt=v, bounds_thi=m.bounds_thi, hyper_lam=hyper, eval_log_prior=m.eval_log_prior, sample_aug=m.sample_aug,
                       gen_normops=m.gen_normops, eval_biased_loglik=m.eval_biased_log_lik, eval_disc=m.eval_disc,
                       eval_bounds_disc=m.eval_bounds_disc)
    want = h.again(lambda: collect(em.maximize_posterior(np.array(m.init_thi), mod, em.Controls(**settings), h.gen())))
    seen, need = calls
    h.check('optimised as often', h.const(len(seen) == len(need)))
    for a, b in zip(seen, need):
        h.check('same optimisation problem', h.all([h.all([h.const(len(p) == len(q)), h.eq_all(p, q)]) for p, q in zip(a, b)]))
    for a, b in zip(got, want):
        h.check('same iterate', h.all([h.eq(a[0], b[0]), h.eq_all(np.ravel(a[1]), np.ravel(b[1])), h.const(len(a[-1]) == len(b[-1]))]))
        if sw:
            h.check('same rates', h.eq_all(np.ravel(a[2]), np.ravel(b[2])))
    h.observe('calls', len(seen))


def items(tier):
    deep = tier == 'thorough'
    b = 300 if deep else 30
    out = []
    parts = [[('OJO', (0, 1))], [('OJJO', (0, 1, 0)), ('OO', (1,))], [('OJOJO', (0, 1, 0)), ('OJO', (1, 0))]]
    for i, p in enumerate(parts):
        out.append(Item(f'rates:2:{i}', rates, R=2, particles=p, budget=b))
    three = [[('OJJO', (0, 2, 1)), ('OJO', (1, 0))]] + ([[('OJJO', (0, 2, 1)), ('OJO', (1, 0)), ('OJOJJO', (2, 0, 2, 1))]] if deep else [])
    for i, p in enumerate(three):
        out.append(Item(f'rates:3:{i}', rates, R=3, particles=p, budget=b))
    for kind in ('ito', 'switching'):
        for s in ('absent', 'lower', 'upper', 'both', 'none', 'mixed'):
            out.append(Item(f'{kind}:bounds:{s}', buffers, kind=kind, side=s, d=3 if s == 'mixed' else 2))
    for m, ns in ((1, 1), (2, 2), (3, 1)) + (((3, 3), (4, 2)) if deep else ()):
        out.append(Item(f'ito:estimate:{m}:{ns}', ito_estimate, pieces=m, supports=ns, budget=b))
    for m, K, ns, s in ((1, 1, 2, 'both'), (2, 2, 1, 'lower'), (1, 3, 1, 'absent')) + (((2, 3, 2, 'mixed'),) if deep else ()):
        out.append(Item(f'ito:step:{m}:{K}:{ns}:{s}', ito_param, pieces=m, K=K, supports=ns, side=s, d=2, budget=b))
    for ys, ns in (((0, 1), 1), ((0, 1, 0), 2), ((1,), 1)) + (((0, 0, 1, 1), 2),) * deep:
        out.append(Item(f'switching:estimate:{"".join(map(str, ys))}:{ns}', switching_estimate, regimes=ys, supports=ns, budget=b))
    for ps, ns, s in (([(0, 1)], 2, 'both'), ([(0, 1, 0), (1, 0)], 1, 'lower')) + ((([(0, 1, 0), (1, 0), (0, 1)], 2, 'both'),) if deep else ()):
        out.append(Item(f'switching:step:{len(ps)}:{ns}:{s}', switching_param, particles=ps, supports=ns, side=s, budget=b))
    for sw in (False, True):
        k = 'switching' if sw else 'ito'
        for n, thin in ((1, 1), (2, 2), (1, 3), (3, 1)) + (((2, 3), (3, 2)) if deep else ()):
            out.append(Item(f'{k}:particles:{n}:{thin}', particles, switching=sw, n=n, thin=thin, budget=b, max_draws=400, pois_max=0))
        for m in (1, 2) + (3,) * deep:
            out.append(Item(f'{k}:unbiased:{m}', unbiased, switching=sw, pieces=m, budget=b, pois_max=1))
        for later in (True, False):
            out.append(Item(f'{k}:iterations:{"accept" if later else "reject"}', maximise, switching=sw, its=4 if deep else 3, later=later, budget=b,
                            max_draws=600, pois_max=0))
    for sw, ms in ((False, ('ou', 'cir')), (True, ('ou', 'ou2', 'ou3'))):
        for mname in ms:
            out.append(Item(f"{'switching' if sw else 'ito'}:model:{mname}", wiring, switching=sw, model=mname, its=3 if deep else 2, budget=b,
                            max_draws=900, pois_max=0))
    return out
