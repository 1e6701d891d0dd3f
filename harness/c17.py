"""Chain updates with arbitrary models: prior, likelihood, discrepancy and proposal are arbitrary values supplied by the harness;
the coins' marks fall on times where the paths are known."""
from fractions import Fraction

import numpy as np

from engine import rng
from engine.harness import Gap, Item


EPS = Fraction(1, 10 ** 9)


def tasks(ts):
    """runs delayed calls in order"""
    return rng.run_tasks(ts)


class Sampler:
    """any proposal with any corrections"""

    def __init__(self, prop, fwd, back):
        self.out, self.asked, self.seen = (prop, fwd, back), 0, []

    def propose(self, ome):
        self.asked += 1
        return self.out

    def adapt(self, *a):
        self.seen.append(a)


def which(h, x, cands):
    x = list(np.ravel(np.asarray(x)))
    for k, c in enumerate(cands):
        if len(c) == len(x) and h.decide(h.eq_all(x, c)):
            return k
    raise Gap('a function of the model was asked about something else than the current and the proposed state')


def line(dt, v0, v1):
    """operators of a piece: time and state relative to the straight line between its end points"""
    def norm(t, x):
        s = t / dt
        return s, None if x is None else x - v0 - s * (v1 - v0)

    def denorm(s, z):
        return s * dt, None if z is None else z + v0 + s * (v1 - v0)
    return norm, denorm


def counts(h, gid, n, rounds=1):
    """number of marks per flip: free in the first round, none after"""
    first = [h.choose(f'{gid}.p{i}', [0, 1]) for i in range(n)]
    for i in range(n, 4 * n):
        h.pin(f'{gid}.p{i}', 0)
    return first


def pick(h, u, a, b):
    """a draw below a/(a+b); ties excluded (near-ties where the threshold is a number, which the code may round)"""
    if not isinstance(a, int):
        h.assume(h.neg(h.eq(u * (a + b), a)))
    else:
        h.assume(h.any([h.lt(u, Fraction(a, a + b) - EPS), h.gt(u, Fraction(a, a + b) + EPS)]))
    return h.decide(h.lt(u * (a + b), a))


class Log:
    def __init__(self, us, bs=()):
        self.us, self.bs, self.i, self.j = us, bs, 0, 0

    def u(self):
        self.i += 1
        return self.us[self.i - 1] if self.i <= len(self.us) else None

    def b(self):
        self.j += 1
        return self.bs[self.j - 1] if self.j <= len(self.bs) else None


def twocoin(h, log, a, b, pk, flip):
    """oracle: which side the coins settle on; flip(side, round) -> success (consumes its own draws)"""
    for r in range(3):
        u = log.u()
        if u is None:
            return None
        side = pick(h, u, a, b)
        if flip(side, r):
            return side, False
        u = log.u()
        if u is None:
            return None
        h.assume(h.neg(h.eq(u, pk)))
        if h.decide(h.lt(u, pk)):
            return False, True
    return None


def same_seed(h, a, b):
    return h.all([h.eq_all(a[0], b[0]), h.eq_all(a[1], b[1]), h.eq(a[2], b[2]), h.eq(a[3], b[3])])


# --------------------------------------------------------------------------------------------------------------- parameters

def make_seed(h, dt, T=None, mark=None, z=0, lo=-1, hi=2):
    """a path known at the time of its mark (if any)"""
    ms = h.mod('ea3lib.seed')
    grid = [h.num(0), h.num(Fraction(1, 2)), h.num(1)] if mark is None else [h.num(0), mark, h.num(1)]
    return ms.SeedSkeleton(h.arr(grid), h.arr([0, z, 0]), h.num(lo), h.num(hi), h.num(Fraction(1, 2)), [True, True])


def ito_params(h):
    mc = h.mod('ito.mcmc')
    m, pre = h.p['pieces'], h.p['precoin']
    h.limit = {'u': 1 + 2 * (1 + m) + 1}
    T = [h.pos(f'T{i}') for i in range(m)]
    t = [h.num(0)]
    for d in T:
        t.append(t[-1] + d)
    v = [h.real(f'v{i}') for i in range(m + 1)]
    sector = h.choose('g.i0', [0, 1])
    nil = [h.pos('a0'), h.pos('a1')]
    prime = list(nil)
    delta = h.pos('delta')
    prime[sector] = nil[sector] + (delta if h.choose('direction', ['up', 'down']) == 'up' else -delta)
    cands = [nil, prime]
    like, prior = [h.pos('l0'), h.pos('l1')], [h.pos('p0'), h.pos('p1')]
    cf, cb = h.pos('cf'), h.pos('cb')
    n = counts(h, 'g', m)
    k = 2 if pre else 1
    zs = []
    for i in range(m):
        zs.append(make_seed(h, T[i], mark=h.unit(f'g.u{k}') if n[i] else None, z=3 * h.unit(f'z{i}') - 1))
        k += n[i]
    G, d = h.pos('G'), h.real('d', -1, 1)
    D = [h.real('D0')]
    D.append(D[0] + delta * G * d)

    def loglik(thi, t_, v_):
        if len(t_) != m + 1 or not h.decide(h.all([h.eq_all(t_, t), h.eq_all(v_, v)])):
            raise Gap('likelihood of other data')
        return h.log(like[which(h, thi, cands)])

    def normops(thi, t_, v_):
        which(h, thi, cands)
        return [line(t_[i + 1] - t_[i], v_[i], v_[i + 1]) for i in range(len(t_) - 1)]
    mod = mc.Model(h.arr(t), h.arr(v), (h.arr([0, 0]), h.arr([9, 9])), lambda thi: h.log(prior[which(h, thi, cands)]), None, normops,
                   loglik, lambda thi: lambda x: x * 0 + D[which(h, thi, cands)], None,
                   lambda *a: h.arr([G, G]))
    pk = h.unit('pk')
    ctrl = mc.Controls(pr_portkey=pk, ea_batch_size=3, precoin=pre)
    sm = [Sampler(prime[i] if i == sector else h.num(-7), h.log(cf) if i == sector else h.num(3), h.log(cb) if i == sector else h.num(3))
          for i in range(2)]
    got, new_z = mc.update_params(h.arr(nil), zs, mod, ctrl, sm, h.gen())
    h.check('the sector proposes once', h.const([s.asked for s in sm] == [1 - sector, sector]))
    # oracle
    log = Log(h.flat_prims('u'), h.flat_prims('b'))
    W0, W1 = like[0] * prior[0] * cf, like[1] * prior[1] * cb
    go = True
    if pre:
        u = log.u()
        h.check('early rejection draws', h.const(u is not None))
        go = pick(h, u, W1, W0)

    def flip(side, r):
        ok = True
        for i in range(m):
            if r == 0 and n[i]:
                log.u()
                b = log.b()
                gap = d if side else -d
                h.assume(h.neg(h.eq(gap, b)))
                ok = ok and not h.decide(h.lt(b, gap))
        return ok
    out = (False, False)
    if go:
        out = twocoin(h, log, *((1, 1) if pre else (W1, W0)), pk, flip)
    h.check('draws follow the stages', h.const(out is not None and log.i == len(log.us) and log.j == len(log.bs)))
    if out is None:
        return
    acc = out[0]
    h.check('accepted value' if acc else 'retained value', h.eq_all(got, prime if acc else nil))
    ps = h.drawn('p')
    h.check('flips of the pieces in order', h.all([h.eq(p.par['lam'], delta * G * T[i % m]) for i, p in enumerate(ps)]))
    h.check('paths kept', h.all([h.const(len(new_z) == m)] + [same_seed(h, a, b) for a, b in zip(new_z, zs)]))
    h.observe('accepted', acc)


def switching_params(h):
    """all regimes move in parallel, each with the pieces spent in it"""
    mc, ty = h.mod('switching.mcmc'), h.mod('switching.types')
    pre = h.p['precoin']
    ys = h.p['regimes']
    m, R = len(ys), 2
    h.limit = {'u': 16}
    T = [h.pos(f'T{i}') for i in range(m)]
    t = [h.num(0)]
    for d in T:
        t.append(t[-1] + d)
    v = [h.real(f'v{i}') for i in range(m + 1)]
    yt = np.array(list(ys) + [ys[-1]])
    nil = [[h.pos(f'a{i}0'), h.pos(f'a{i}1')] for i in range(R)]
    flat = lambda rows: [x for r in rows for x in r]
    cands = [flat(nil)]
    delta = [h.pos(f'delta{i}') for i in range(R)]
    props = []
    for i in range(R):
        # the second regime moves downwards, in the other coordinate
        row = list(nil[i])
        row[i] = nil[i][i] + (delta[i] if i == 0 else -delta[i])
        props.append(row)
        cands.append(flat([row if j == i else nil[j] for j in range(R)]))
    like = [[h.pos(f'l{i}{k}') for k in range(2)] for i in range(R)]
    prior = [h.pos(f'p{i}') for i in range(1 + R)]
    corr = [[h.pos(f'c{i}{k}') for k in range(2)] for i in range(R)]
    G = h.pos('G')
    d = [h.real(f'd{i}', -1, 1) for i in range(R)]
    D0 = [h.real(f'D{i}') for i in range(R)]
    own = [[j for j in range(m) if ys[j] == i] for i in range(R)]
    n = {}
    zs = [None] * m
    for i in range(R):
        k = 2 if pre else 1
        c = counts(h, f'g/{i}', len(own[i])) if i in h.p['marks'] else [0] * len(own[i])
        if i not in h.p['marks']:
            for q in range(4 * len(own[i])):
                h.pin(f'g/{i}.p{q}', 0)
        for j, cj in zip(own[i], c):
            n[j] = cj
            zs[j] = make_seed(h, T[j], mark=h.unit(f'g/{i}.u{k}') if cj else None, z=3 * h.unit(f'z{j}') - 1)
            k += cj

    def loglik(thi, t_, y_, v_, restrict=None):
        if len(t_) != m + 1 or list(y_) != list(yt) or not h.decide(h.all([h.eq_all(t_, t), h.eq_all(v_, v)])):
            raise Gap('likelihood of other data')
        w = which(h, thi, cands)
        if restrict is None:
            out = h.num(0)
            for i in range(R):
                out = out + h.log(like[i][w == i + 1])
            return out, h.num(11)
        return h.log(like[int(restrict)][w == int(restrict) + 1]), h.num(5)

    def disc(thi, y):
        w = which(h, thi, cands)
        y = int(y)
        return lambda x: x * 0 + D0[y] + (delta[y] * G * d[y] if w == y + 1 else 0)

    def normops(thi, t_, y_, v_):
        which(h, thi, cands)
        return [line(t_[i + 1] - t_[i], v_[i], v_[i + 1]) for i in range(len(t_) - 1)]
    mod = mc.Model(h.arr(t), h.arr(v), (h.arr([0, 0]), h.arr([9, 9])), None, lambda thi: h.log(prior[which(h, thi, cands)]), None,
                   normops, loglik, disc, None, lambda *a: h.arr([G, G]))
    pk = h.unit('pk')
    ctrl = mc.Controls(pr_portkey=pk, ea_batch_size=3, precoin=pre)
    sm = [Sampler(h.arr(props[i]), h.log(corr[i][0]), h.log(corr[i][1])) for i in range(R)]
    anch = ty.Anchorage(h.arr(t), yt, h.arr(v))
    got, new_z = mc.update_params(h.mat(nil), zs, anch, mod, ctrl, sm, h.gen(), tasks)
    h.check('every regime proposes once', h.const([s.asked for s in sm] == [1] * R))
    for i in range(R):
        log = Log(h.flat_prims('u', f'g/{i}'), h.flat_prims('b', f'g/{i}'))
        W0, W1 = like[i][0] * prior[0] * corr[i][0], like[i][1] * prior[1 + i] * corr[i][1]
        go = True
        if pre:
            u = log.u()
            h.check('early rejection draws', h.const(u is not None))
            go = pick(h, u, W1, W0)

        def flip(side, r):
            ok = True
            for j in own[i]:
                if r == 0 and n[j]:
                    log.u()
                    b = log.b()
                    gap = d[i] if side else -d[i]
                    h.assume(h.neg(h.eq(gap, b)))
                    ok = ok and not h.decide(h.lt(b, gap))
            return ok
        out = (False, False)
        if go:
            out = twocoin(h, log, *((1, 1) if pre else (W1, W0)), pk, flip)
        h.check('draws follow the stages', h.const(out is not None and log.i == len(log.us) and log.j == len(log.bs)))
        if out is None:
            return
        h.check('accepted value' if out[0] else 'retained value', h.eq_all(got[i], props[i] if out[0] else nil[i]))
        ps = h.drawn('p', f'g/{i}')
        h.check('flips of the pieces spent in the regime', h.all([h.const(bool(own[i]))] * bool(ps) + [
            h.eq(p.par['lam'], delta[i] * G * T[own[i][q % len(own[i])]]) for q, p in enumerate(ps)]))
        h.observe(f'accepted{i}', out[0])
    h.check('paths kept', h.all([h.const(len(new_z) == m)] + [same_seed(h, a, b) for a, b in zip(new_z, zs)]))


# --------------------------------------------------------------------------------------------------------------- paths

class Pieces:
    """a sequence of path pieces whose discrepancy is bounded by [le, le + gap], and whose marks (if any) find it at le + gap*d"""

    def __init__(self, h, name, T, v, level, marks):
        m = len(T)
        self.T, self.v, self.marks = T, v, marks
        self.gap = h.pos(f'{name}.gap')
        self.lo = [h.num(-10 * level - 1 - j) for j in range(m)]
        self.hi = [h.num(10 * level + 2 + j) for j in range(m)]
        self.w = [h.pos(f'{name}.w{j}') for j in range(m)]
        self.le = [-h.log(w) / x for w, x in zip(self.w, T)]
        self.d, self.x, self.seeds = [], [], []
        for j, s in enumerate(marks):
            z = h.num(Fraction(2 * level + 3 * j, 7))
            self.d.append(h.unit(f'{name}.d{j}') if s is not None else None)
            self.x.append(z + v[j] + s * (v[j + 1] - v[j]) if s is not None else None)
            self.seeds.append(make_seed(h, T[j], mark=s, z=z if s is not None else 0, lo=self.lo[j], hi=self.hi[j]))
        self.ends = [(self.lo[j] + min(v[j], v[j + 1]), self.hi[j] + max(v[j], v[j + 1])) for j in range(m)]


def bounds_fn(h, paths):
    def bounds(a, b):
        for p in paths:
            for j, (lo, hi) in enumerate(p.ends):
                if h.same(a, lo) and h.same(b, hi):
                    return p.le[j] - 1, p.le[j], p.le[j] + p.gap
        raise Gap('bounds over a range that no piece has')
    return bounds


def disc_fn(h, paths):
    def disc(x):
        out = []
        for a in np.ravel(h.asarray(x)):
            for p, j in [(p, j) for p in paths for j in range(len(p.x)) if p.x[j] is not None]:
                if h.same(a, p.x[j]):
                    out.append(p.le[j] + p.gap * p.d[j])
                    break
            else:
                raise Gap('discrepancy of a state that is no mark')
        return h.arr(out)
    return disc


V = [Fraction(1, 2), Fraction(-1, 3), Fraction(2), Fraction(0)]


def ito_paths(h):
    """every bridge is updated on its own"""
    mc = h.mod('ito.mcmc')
    m = h.p['pieces']
    T = [h.pos(f'T{i}') for i in range(m)]
    t = [h.num(0)]
    for x in T:
        t.append(t[-1] + x)
    v = [h.num(x) for x in V[:m + 1]]
    n = []
    for j in range(m):
        if j in h.p['marks']:
            n += counts(h, f'g/{j}', 1)
        else:
            n.append(0)
            for q in range(4):
                h.pin(f'g/{j}.p{q}', 0)
    marks = [h.unit(f'g/{j}.u1') if n[j] else None for j in range(m)]
    nil, prime = Pieces(h, 'nil', T, v, 1, marks), Pieces(h, 'prime', T, v, 2, marks)
    h.limit = {'u': 5}
    thi = [h.pos('a')]

    def sample_aug(thi_, t_, v_, ome):
        right = [len(thi_) == len(thi), len(t_) == len(t), len(v_) == len(v)]
        h.check('proposes for the data at the current parameters', h.all([h.const(all(right))] + (
            [h.eq_all(thi_, thi), h.eq_all(t_, t), h.eq_all(v_, v)] if all(right) else [])))
        return list(prime.seeds)

    def normops(thi_, t_, v_):
        return [line(t_[i + 1] - t_[i], v_[i], v_[i + 1]) for i in range(len(t_) - 1)]
    mod = mc.Model(h.arr(t), h.arr(v), (None, None), None, sample_aug, normops, None, lambda th: disc_fn(h, [nil, prime]),
                   lambda th: bounds_fn(h, [nil, prime]), None)
    pk = h.unit('pk')
    out = mc.update_sde(h.arr(thi), list(nil.seeds), mod, mc.Controls(pr_portkey=pk, ea_batch_size=3), h.gen(), tasks)
    h.check('one piece per interval', h.const(len(out) == m))
    for j in range(m):
        log = Log(h.flat_prims('u', f'g/{j}'), h.flat_prims('b', f'g/{j}'))

        def flip(side, r):
            if r or not n[j]:
                return True
            log.u()
            b = log.b()
            p = prime if side else nil
            h.assume(h.neg(h.eq(p.d[j], b)))
            return not h.decide(h.lt(b, p.d[j]))
        got = twocoin(h, log, prime.w[j], nil.w[j], pk, flip)
        h.check('draws follow the stages', h.const(got is not None and log.i == len(log.us) and log.j == len(log.bs)))
        if got is None:
            return
        ps = h.drawn('p', f'g/{j}')
        h.check('marks over the duration and range of the piece', h.all([
            h.any([h.eq(q.par['lam'], p.gap * T[j]) for p in (nil, prime)]) for q in ps]))
        h.check('accepted piece' if got[0] else 'retained piece', same_seed(h, out[j], (prime if got[0] else nil).seeds[j]))
        h.observe(f'accepted{j}', got[0])


class Regime:
    """stands for the regime proposal"""

    def __init__(self, y, t_cond):
        self.out, self.seen, self.asked = (y, t_cond), [], []

    def propose(self, lam, t, ome):
        self.asked.append(t)
        return self.out

    def adapt(self, *a):
        self.seen.append(a)


def switching_hidden(h):
    """sections between conditioning times are accepted on their own, the rest of the state is kept"""
    mc, ty = h.mod('switching.mcmc'), h.mod('switching.types')
    pre = h.p['precoin']
    # section s of path k: regimes of its pieces, and whether the piece starts at an observation
    plan = h.p['plan']
    S = len(plan)
    h.limit = {'u': 6}
    O = [h.pos(f'O{s}') for s in range(S)]          # durations of the sections
    like = [[h.pos(f'l{s}{k}') for k in range(2)] for s in range(S)]
    rest = [[h.pos(f'r{s}{k}') for k in range(2)] for s in range(S)]
    for s in range(S):
        if plan[s][0] == plan[s][1]:  # the same data either way
            like[s], rest[s] = [like[s][0]] * 2, [rest[s][0]] * 2
    obs = [h.num(x) for x in V[:S + 1]]
    paths = [[None] * S for _ in range(2)]
    grids = [[h.num(0)], [h.num(0)]]
    vals, ys = [[obs[0]], [obs[0]]], [[], []]
    t0 = h.num(0)
    tobs, vobs, tcond = [t0], [obs[0]], []
    for s in range(S):
        at = h.p.get('at', 0)
        n = [h.choose(f'g/{s}.p{at}', [0, 1])] if s in h.p['marks'] else [0]
        for q in range(12):
            if q != at or s not in h.p['marks']:
                h.pin(f'g/{s}.p{q}', 0)
        for k in range(2):
            y = plan[s][k]
            m = len(y)
            # a piece that ends without a change of regime ends at an observation
            same = y[0] == y[-1]
            cuts = [h.unit(f'c{s}' if same else f'c{s}{k}')] if m == 2 else [h.num(Fraction(q, m)) for q in range(1, m)]
            assert m <= 2 or same
            ts = [t0] + [t0 + O[s] * c for c in cuts] + [t0 + O[s]]
            vs = [obs[s]] + [h.num(Fraction(1 + q, 7) if same else Fraction(3 * k - 1, 5)) for q in range(len(cuts))] + [obs[s + 1]]
            if k == 0 and same and cuts:
                tobs += ts[1:-1]
                vobs += vs[1:-1]
            T = [b - a for a, b in zip(ts, ts[1:])]
            # the mark of the first piece that is flipped
            p = Pieces(h, f's{s}{k}', T, vs, 2 * s + k + 1,
                       [h.unit(f'g/{s}.u{2 if pre else 1}') if n[0] and j == at else None for j in range(m)])
            p.n = n[0] if at < m else 0
            paths[k][s] = p
            grids[k] += ts[1:]
            vals[k] += vs[1:]
            ys[k] += list(y)
        t0 = t0 + O[s]
        tobs.append(t0)
        vobs.append(obs[s + 1])
        tcond.append(t0)
    for k in range(2):
        ys[k].append(ys[k][-1])
    anch = [ty.Anchorage(h.arr(grids[k]), np.array(ys[k]), h.arr(vals[k])) for k in range(2)]
    seeds = [sum([list(p.seeds) for p in paths[k]], []) for k in range(2)]
    thi = [h.pos('a')]

    def loglik(thi_, t_, y_, v_, restrict=None):
        for k in range(2):
            for s in range(S):
                p = paths[k][s]
                if len(t_) == len(p.T) + 1 and h.decide(h.eq_all(v_, p.v)) and \
                        [int(x) for x in y_[:-1]] == list(plan[s][k]) and h.decide(h.eq_all(np.diff(t_), p.T)):
                    return h.log(like[s][k]), h.log(rest[s][k])
        raise Gap('likelihood of something that is no section')

    def normops(thi_, t_, y_, v_):
        return [line(t_[i + 1] - t_[i], v_[i], v_[i + 1]) for i in range(len(t_) - 1)]
    y_prime = h.mod('mjplib.skeleton').Skeleton(h.arr([0]), np.array([plan[0][1][0]]), t0)

    def sample_aug(thi_, y, t_, v_, ome):
        right = [len(y.t) == len(y_prime.t), list(y.xt) == list(y_prime.xt), len(t_) == len(tobs), len(v_) == len(vobs)]
        h.check('augments the proposed regimes and the data', h.all([h.const(all(right))] + (
            [h.eq_all(y.t, y_prime.t), h.eq(y.fin_t, y_prime.fin_t), h.eq_all(t_, tobs), h.eq_all(v_, vobs)] if all(right) else [])))
        return list(seeds[1]), anch[1]
    every = [p for k in range(2) for p in paths[k]]
    mod = mc.Model(h.arr(tobs), h.arr(vobs), (None, None), None, None, sample_aug, normops, loglik,
                   lambda th, y: disc_fn(h, every), lambda th, y: bounds_fn(h, every), None)
    pk = h.unit('pk')
    rs = Regime(y_prime, h.arr(tcond[:-1]) if S > 1 else np.array([]))
    z, a = mc.update_hidden(h.arr(thi), h.generator_matrix('q', 2), list(seeds[0]), anch[0], mod,
                            mc.Controls(pr_portkey=pk, ea_batch_size=3, precoin=pre), rs, h.gen(), tasks)
    want_z, want_t, want_y, want_v = [], [h.num(0)], [], [obs[0]]
    t0 = h.num(0)
    acc = []
    for s in range(S):
        log = Log(h.flat_prims('u', f'g/{s}'), h.flat_prims('b', f'g/{s}'))
        W = []
        for k in range(2):
            w = like[s][k] * rest[s][k]
            for x in paths[k][s].w:
                w = w * x
            W.append(w)
        go = True
        if pre:
            u = log.u()
            h.check('early rejection draws', h.const(u is not None))
            go = pick(h, u, W[1], W[0])

        def flip(side, r):
            p = paths[1 if side else 0][s]
            if r or not p.n:
                return True
            log.u()
            b = log.b()
            h.assume(h.neg(h.eq(p.d[at], b)))
            return not h.decide(h.lt(b, p.d[at]))
        out = (False, False)
        if go:
            out = twocoin(h, log, *((1, 1) if pre else (W[1], W[0])), pk, flip)
        h.check('draws follow the stages', h.const(out is not None and log.i == len(log.us) and log.j == len(log.bs)))
        if out is None:
            return
        k = 1 if out[0] else 0
        acc.append(k)
        p = paths[k][s]
        want_z += p.seeds
        for d, y, x in zip(p.T, plan[s][k], p.v[1:]):
            want_t.append(want_t[-1] + d)
            want_y.append(y)
            want_v.append(x)
    h.check('times', h.eq_all(a.t, want_t))
    h.check('regimes', h.const([int(x) for x in a.yt[:-1]] == want_y and len(a.yt) == len(want_y) + 1 and int(a.yt[-1]) == want_y[-1]))
    h.check('values', h.eq_all(a.vt, want_v))
    h.check('pieces', h.all([h.const(len(z) == len(want_z))] + [same_seed(h, p, q) for p, q in zip(z, want_z)]))
    h.check('adapts to the new regimes', h.const(len(rs.seen) == 1))
    if rs.seen:
        y = rs.seen[0][0]
        kt, ky = [], []
        for tt, yy in zip(want_t, want_y):
            if not ky or ky[-1] != yy:
                kt.append(tt)
                ky.append(yy)
        h.check('regime path handed to the next proposal', h.all([
            h.eq_all(y.t, kt), h.const([int(x) for x in y.xt] == ky), h.eq(y.fin_t, want_t[-1])]))
    h.observe('accepted', acc)


def rates(h):
    """rates are drawn given the regime path of the state"""
    mc, ty = h.mod('switching.mcmc'), h.mod('switching.types')
    ys = h.p['regimes']
    m = len(ys)
    T = [h.pos(f'T{i}') for i in range(m)]
    t = [h.num(0)]
    for d in T:
        t.append(t[-1] + d)
    anch = ty.Anchorage(h.arr(t), np.array(list(ys) + [ys[-1]]), h.arr([h.real(f'v{i}') for i in range(m + 1)]))
    R = 3
    hyper = []
    for nm in 'ab':
        x = h.empty((R, R))
        for i in range(R):
            for j in range(R):
                x[i, j] = h.num(float('nan')) if i == j else h.pos(f'{nm}{i}{j}')
        hyper.append(h.finish(x))
    lam = mc.update_generator(anch, tuple(hyper), h.gen())
    g = h.drawn('g')
    h.check('one gamma draw', h.const(len(g) == 1))
    shape = np.broadcast_to(h.asarray(g[0].par['shape']), (R, R))
    for i in range(R):
        hold = h.num(0)
        for y, d in zip(ys, T):
            if y == i:
                hold = hold + d
        h.check('rows sum to zero', h.eq(sum(lam[i, j] for j in range(R)), 0))
        for j in range(R):
            if i != j:
                jumps = sum(1 for a, b in zip(ys, ys[1:]) if (a, b) == (i, j))
                h.check('jumps counted once', h.eq(shape[i, j], hyper[0][i, j] + jumps))
                h.check('holding times', h.eq(lam[i, j] * (hyper[1][i, j] + hold), g[0].prim[i * R + j]))


def items(tier):
    q = tier == 'quick'
    b = 16 if q else 300
    out = []
    o = dict(budget=b, pois_max=1)
    for pre in (True, False):
        p = 'precoin' if pre else 'plain'
        for m in (1, 2) if q else (1, 2, 3):
            out.append(Item(f'ito:params[{p},{m}]', ito_params, precoin=pre, pieces=m, **o))
        for ys, marks in [((0, 1, 0), (0,)), ((1, 0), (0, 1)), ((0, 0), (0,)), ((0, 0, 0), (0,))]:
            out.append(Item(f"switching:params[{p},{''.join(map(str, ys))}]", switching_params, precoin=pre, regimes=ys, marks=marks, **o))
        plans = [(((0, 1), (1,)), ((1,), (1, 0))), (((0,), (1, 0)), ((0, 1), (0,))), (((0, 0), (0, 0)),), (((0, 0, 0), (0, 0, 0)),)]
        for i, plan in enumerate(plans):
            out.append(Item(f'switching:hidden[{p},{i}]', switching_hidden, precoin=pre, plan=plan, marks=(0,) if q else (0, 1), **o))
        for i, at, plan in ((0, 1, plans[0]), (2, 1, plans[2]), (3, 2, plans[3])):
            out.append(Item(f'switching:hidden[{p},{i},mark in piece {at}]', switching_hidden, precoin=pre, plan=plan, at=at, marks=(0,), **o))
    out += [Item(f'ito:paths[{m}]', ito_paths, pieces=m, marks=(0,) if q else (0, 1), **o) for m in (1, 2)]
    out += [Item(f"rates[{''.join(map(str, ys))}]", rates, regimes=ys, budget=b) for ys in ((0, 1, 1, 0), (2, 2), (0, 2, 1))]
    return out
