"""What acceptance coins have seen of a path stays part of the path"""
from fractions import Fraction

import numpy as np

from engine.harness import Item
from .c17 import V, Regime, Sampler, line, tasks

HALF = Fraction(1, 2)


class Reveal:
    """stands for the interpolation of a path: new times get values of their own, all of which are written down"""

    def __init__(self, h):
        self.h, self.log, self.n = h, {}, 0
        self.ms = h.mod('ea3lib.skeleton')
        h.summarise('ea3lib.skeleton', 'interpolate_skeleton', lambda real: self.interpolate, both=True)

    def piece(self, label, T=None):
        """an untouched piece; its tight bound tells which one it is"""
        h = self.h
        return h.mod('ea3lib.seed').SeedSkeleton(h.arr([0, 1]), h.arr([0, 0]), h.num(-label), h.num(label + 1), h.num(HALF), [True])

    def knows(self, p, t, x):
        """the piece takes value x at time t"""
        h = self.h
        for a, b in zip(p[0], p[1]):
            if h.same(a, t):
                return h.eq(b, x)
        return h.const(False)

    def complete(self, p):
        """the piece contains everything seen of it, and its ends"""
        h = self.h
        seen = self.seen(p)
        return h.all([h.const(len(p[0]) == len(seen) + 2 and len(p[1]) == len(seen) + 2)] + [self.knows(p, t, x) for t, x in seen] +
                     [self.knows(p, h.num(0), h.num(0)), self.knows(p, h.num(1), h.num(0))])

    def seen(self, p):
        for lab, entries in self.log.items():
            if self.h.same(p[2], self.h.num(-lab)):
                return entries
        return []

    def interpolate(self, skel, new_t, ome):
        h = self.h
        h.check('coins look at the path as known so far', self.complete(skel))
        t, x, out = list(skel[0]), list(skel[1]), []
        entries = next((e for lab, e in self.log.items() if h.same(skel[2], h.num(-lab))), None)
        for s in new_t:
            at = next((i for i, a in enumerate(t) if h.same(a, s)), None)
            if at is None:
                self.n += 1
                v = h.num(Fraction(self.n, 100))
                at = len(t) - 1
                for i in range(1, len(t) - 1):
                    h.assume(h.neg(h.eq(s, t[i])))
                    if h.decide(h.lt(s, t[i])):
                        at = i
                        break
                t.insert(at, s)
                x.insert(at, v)
                if entries is not None:
                    entries.append((s, v))
            out.append(x[at])
        return self.ms.Skeleton(h.arr(t), h.arr(x), *skel[2:5], [True] * (len(t) - 1)), h.arr(out)

    def pieces(self, labels):
        for k in labels:
            self.log[k] = []
        return [self.piece(k) for k in labels]

    def verdict(self, out):
        h = self.h
        for p in out:
            h.check('the values seen stay part of the piece', self.complete(p))
        h.observe('points', [len(p[0]) for p in out])


def marks(h, gids, n):
    """up to one mark per flip, for as many flips as given"""
    for g in gids:
        for i in range(n):
            h.choose(f'{g}.p{i}', [0, 1])
        for i in range(n, 60):
            h.pin(f'{g}.p{i}', 0)


def pool(h, ys):
    out = [h.num(x) for x in V]
    return [out[k % len(out)] for k in range(ys)]


def normops(thi, t, *r):
    v = r[-1]
    return [line(t[i + 1] - t[i], v[i], v[i + 1]) for i in range(len(t) - 1)]


def grid(h, m):
    return h.arr(list(range(m + 1))), h.arr(pool(h, m + 1))


def params(h):
    """parameter moves flip the coins of the pieces, once or twice"""
    sw, pre = h.p['switching'], h.p['precoin']
    mc = h.mod('switching.mcmc' if sw else 'ito.mcmc')
    ys = h.p['regimes']
    m = len(ys)
    rv = Reveal(h)
    gids = ['g/0', 'g/1'] if sw else ['g']
    for i, g in enumerate(gids):
        own = sum(1 for y in ys if y == i) if sw else m
        marks(h, [g], (1 + h.p['rounds']) * own if i == 0 else 0)
        # one coin fails, the next one may not
        h.limit['u'] = h.p['limit']
    t, v = grid(h, m)
    nil = [[h.num(1), h.num(2)], [h.num(3), h.num(4)]] if sw else [h.num(1), h.num(2)]
    up = Fraction(1, 2)
    # which of the two sides' coins can fail
    by = Fraction(1, 4) * h.choose('larger under the proposal', [1, -1])

    def is_prime(thi, y=0):
        a = thi[y] if sw else thi
        base = nil[y] if sw else nil
        return not h.same(a[0], base[0])
    if sw:
        disc = lambda thi, y: (lambda x: x * 0 + (by if is_prime(thi, int(y)) else 0))
        sm = [Sampler(h.arr([nil[i][0] + up, nil[i][1]]), h.num(0), h.num(0)) for i in range(2)]
        mod = mc.Model(t, v, (None, None), None, lambda thi: h.num(0), None, normops, lambda *a, **k: (h.num(0), h.num(0)), disc, None,
                       lambda *a: h.arr([1, 1]))
    else:
        disc = lambda thi: (lambda x: x * 0 + (by if is_prime(thi) else 0))
        h.pin('g.i0', 0)
        sm = [Sampler(nil[0] + up, h.num(0), h.num(0)), None]
        mod = mc.Model(t, v, (None, None), lambda thi: h.num(0), None, normops, lambda *a: h.num(0), disc, None, lambda *a: h.arr([1, 1]))
    ctrl = mc.Controls(pr_portkey=h.num(Fraction(1, 3)), ea_batch_size=2, precoin=pre)
    zs = rv.pieces(range(1, m + 1))
    if sw:
        ty = h.mod('switching.types')
        anch = ty.Anchorage(t, np.array(list(ys) + [ys[-1]]), v)
        _, out = mc.update_params(h.mat(nil), zs, anch, mod, ctrl, sm, h.gen(), tasks)
    else:
        _, out = mc.update_params(h.arr(nil), zs, mod, ctrl, sm, h.gen())
    h.check('one piece each, in order', h.all([h.const(len(out) == m)] + [h.eq(p[2], -k) for p, k in zip(out, range(1, m + 1))]))
    rv.verdict(out)


def bounds(lo, hi):
    return -1, -HALF, HALF


def paths(h):
    mc = h.mod('ito.mcmc')
    m = h.p['pieces']
    rv = Reveal(h)
    for j in range(m):
        marks(h, [f'g/{j}'], 2 if j == 0 else 0)
    h.limit['u'] = h.p['limit']
    t, v = grid(h, m)
    nil, prime = rv.pieces(range(1, m + 1)), rv.pieces(range(11, m + 11))
    ops = lambda thi, t, v: normops(thi, t, v)
    num = lambda x: tuple(h.num(a) for a in bounds(0, 0))
    mod = mc.Model(t, v, (None, None), None, lambda *a: list(prime), ops, None, lambda thi: (lambda x: x * 0),
                   lambda thi: (lambda lo, hi: num(0)), None)
    out = mc.update_sde(h.arr([1]), nil, mod, mc.Controls(pr_portkey=h.num(Fraction(1, 3)), ea_batch_size=2), h.gen(), tasks)
    h.check('one piece each', h.all([h.const(len(out) == m)] + [h.any([h.eq(p[2], -k), h.eq(p[2], -10 - k)]) for p, k in zip(out, range(1, m + 1))]))
    rv.verdict(out)


def hidden(h):
    mc, ty = h.mod('switching.mcmc'), h.mod('switching.types')
    pre = h.p['precoin']
    rv = Reveal(h)
    # regimes of the current and the proposed path over one unit, the change (if any) half way
    plan = h.p['plan']
    S = len(plan)
    for s in range(S):
        marks(h, [f'g/{s}'], h.p['flips'] if s == 0 else 0)
    h.limit['u'] = h.p['limit']
    tobs, vobs = grid(h, S)
    state = []
    for k in range(2):
        ts, ys, vs, labels = [h.num(0)], [], [vobs[0]], []
        for s in range(S):
            y = plan[s][k]
            if len(y) == 2:
                ts.append(h.num(s + HALF))
                vs.append(h.num(Fraction(k + 1, 5)))
            ts.append(h.num(s + 1))
            vs.append(vobs[s + 1])
            labels += [100 * k + 10 * s + i + 1 for i in range(len(y))]
            ys += list(y)
        state.append((rv.pieces(labels), ty.Anchorage(h.arr(ts), np.array(ys + [ys[-1]]), h.arr(vs)), labels))
    num = tuple(h.num(a) for a in bounds(0, 0))
    mod = mc.Model(tobs, vobs, (None, None), None, None, lambda *a: (list(state[1][0]), state[1][1]), normops,
                   lambda *a, **k: (h.num(0), h.num(0)), lambda thi, y: (lambda x: x * 0), lambda thi, y: (lambda lo, hi: num), None)
    y_prime = h.mod('mjplib.skeleton').Skeleton(h.arr([0]), np.array([plan[0][1][0]]), h.num(S))
    rs = Regime(y_prime, h.arr(list(range(1, S))) if S > 1 else np.array([]))
    z, a = mc.update_hidden(h.arr([1]), h.generator_matrix('q', 2), state[0][0], state[0][1], mod,
                            mc.Controls(pr_portkey=h.num(Fraction(1, 3)), ea_batch_size=2, precoin=pre), rs, h.gen(), tasks)
    h.check('pieces of the two states', h.all([h.any([h.eq(p[2], -lab) for _, _, ls in state for lab in ls]) for p in z]))
    h.check('one piece per interval of the grid', h.const(len(z) == len(a.t) - 1))
    rv.verdict(z)


def items(tier):
    q = tier == 'quick'
    b = 12 if q else 240
    out = []
    for pre in (True, False):
        p = 'precoin' if pre else 'plain'
        for m in (1, 2):
            out.append(Item(f'ito:params[{p},{m}]', params, switching=False, precoin=pre, regimes=(0,) * m, rounds=1, limit=4 + pre + 2 * m, budget=b))
        for ys in ((0, 1), (0, 1, 0), (1, 0, 0)):
            out.append(Item(f"switching:params[{p},{''.join(map(str, ys))}]", params, switching=True, precoin=pre, regimes=ys, rounds=1,
                            limit=5 + pre + 2 * ys.count(0), budget=b))
        for i, plan in enumerate(((((0,), (1,)),), (((0, 1), (1,)),), (((0,), (1,)), ((0, 1), (0,))))):
            out.append(Item(f'switching:hidden[{p},{i}]', hidden, precoin=pre, plan=plan, flips=3, limit=7 + pre, budget=b))
    for m in (1, 2):
        out.append(Item(f'ito:paths[{m}]', paths, pieces=m, limit=6, budget=b))
    return out
