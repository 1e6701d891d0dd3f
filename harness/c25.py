"""Posterior chains: what successive sweeps start from, what they use, and what they report"""
from fractions import Fraction

import numpy as np

from engine.harness import Gap, Item
from . import c17

INF = float('inf')
V = [Fraction(1, 2), Fraction(-1, 3), Fraction(2), Fraction(0)]


class Table:
    """an arbitrary positive function of what it is asked about"""

    def __init__(self, h, name):
        self.h, self.name, self.rows, self.flat = h, name, [], False

    def __call__(self, tag, *parts):
        h = self.h
        key = [x for p in parts for x in np.ravel(np.asarray(p, dtype=object))]
        for g, k, v in self.rows:
            if g == tag and len(k) == len(key) and all(h.same(a, b) for a, b in zip(k, key)):
                return v
        v = h.num(1) if self.flat else h.pos(f'{self.name}{len(self.rows)}')
        self.rows.append((tag, key, v))
        return v


class Labels:
    """path pieces told apart by their ranges"""

    def __init__(self, h, table):
        self.h, self.table, self.known = h, table, []

    def fresh(self, tag, dts, vs):
        """pieces over the given durations between the given values"""
        for g, seeds in self.known:
            if g == tag:
                return list(seeds)
        out = []
        for d, a, b in zip(dts, vs, vs[1:]):
            k = 1 + sum(len(s) for _, s in self.known) + len(out)
            out.append(c17.make_seed(self.h, d, lo=-10 * k, hi=10 * k + 1))
        self.known.append((tag, out))
        return list(out)

    def le(self, thi, lo, hi, ends):
        """arbitrary lower bound of the discrepancy over the range of one of the pieces"""
        h = self.h
        for tag, seeds in self.known:
            for j, s in enumerate(seeds):
                for d, a, b in ends:
                    if h.same(lo, s.tight_z + min(a, b)) and h.same(hi, s.loose_z + max(a, b)):
                        return -h.log(self.table(('le', tag, j), thi)) / d
        raise Gap('bounds over a range that no piece has')


def copy(x):
    return np.array(x, dtype=object)


def same_state(h, a, b):
    """parameters and pieces (and rates and grid)"""
    cs = []
    for x, y in zip(a, b):
        if isinstance(x, list):
            cs.append(h.const(len(x) == len(y)))
            cs += [c17.same_seed(h, p, q) for p, q in zip(x, y)]
        elif isinstance(x, tuple):
            cs += [h.eq_all(np.ravel(p), np.ravel(q)) for p, q in zip(x, y)]
        else:
            cs.append(h.const(np.shape(x) == np.shape(y)))
            cs.append(h.eq_all(np.ravel(x), np.ravel(y)))
    return h.all(cs)


def frozen(st):
    """a copy that later sweeps cannot reach"""
    return tuple([p for p in x] if isinstance(x, list) else tuple(copy(p) for p in x) if isinstance(x, tuple) else copy(x) for x in st)


def run_chain(h, make, chain, sweeps):
    """reported states next to those of the same sweeps composed by hand, on the same draws"""
    def collect(it):
        out = []
        for k in range(sweeps):
            make.sweep(k)
            st = next(it)
            out.append((st, frozen(st)))
        return out
    make.start()
    got = collect(chain())
    make.start()
    want = h.again(lambda: collect(make.composed()))
    for k in range(sweeps):
        h.check(f'state after sweep {k + 1}', same_state(h, got[k][0], want[k][1]))
        h.check('reported states are left alone', same_state(h, got[k][0], got[k][1]))
    a, b = make.logs
    h.check('regimes move at the rates of the sweep', h.all([h.const(len(a) == len(b))] + [h.eq_all(x, y) for x, y in zip(a, b)]))
    return got


class Ito:
    def __init__(self, h, pieces, precoin):
        self.h, self.m = h, pieces
        mc = self.mc = h.mod('ito.mcmc')
        T = [h.num(1), h.num(2)][:pieces]
        self.t = [h.num(x) for x in (0, 1, 3)][:pieces + 1]
        self.v = [h.num(x) for x in V[:pieces + 1]]
        ends = [(T[j], self.v[j], self.v[j + 1]) for j in range(pieces)]
        like, prior = Table(h, 'l'), Table(h, 'p')
        self.tables = [like, prior, Table(h, 'w')]
        self.labels = Labels(h, self.tables[2])
        self.calls, self.logs = 0, []
        self.bounds = (h.arr([h.num(-INF), h.num(0)]), h.arr([h.num(INF), h.num(INF)]))
        self.init = h.arr([h.real('a0'), h.pos('a1')])

        def sample_aug(thi, t, vt, ome):
            self.calls += 1
            return self.labels.fresh((self.calls, self.seen(thi, t, vt)), T, self.v)

        def normops(thi, t, v):
            return [c17.line(t[i + 1] - t[i], v[i], v[i + 1]) for i in range(len(t) - 1)]

        def loglik(thi, t, v):
            return h.log(like(len(t), thi, t, v))
        self.mod = mc.Model(
            t=h.arr(self.t), vt=h.arr(self.v), bounds_thi=self.bounds, eval_log_prior=lambda thi: h.log(prior(0, thi)),
            sample_aug=sample_aug, gen_normops=normops, eval_biased_loglik=loglik, eval_disc=lambda thi: lambda x: x * 0,
            eval_bounds_disc=lambda thi: lambda lo, hi: self.flatbounds(thi, lo, hi, ends),
            eval_bounds_grad=lambda *a: h.arr([1, 1]))
        self.ctrl = mc.Controls(opt_acc_prob=h.num(Fraction(3, 10)), pr_portkey=h.num(Fraction(1, 3)), precoin=precoin)
        self.thetas = []

    def flatbounds(self, thi, lo, hi, ends):
        x = self.labels.le(thi, lo, hi, ends)
        return x - 1, x, x

    def seen(self, *args):
        """a number for the arguments of a call, the same one whenever they are the same"""
        key = [list(np.ravel(a)) for a in args]
        for k, x in enumerate(self.thetas):
            if [len(a) for a in x] == [len(a) for a in key] and all(self.h.same(a, b) for u, v in zip(x, key) for a, b in zip(u, v)):
                return k
        self.thetas.append(key)
        return len(self.thetas) - 1

    def start(self):
        self.calls = 0
        self.logs.append([])

    def sweep(self, k):
        for x in self.tables:
            x.flat = k < self.h.p['flat']

    def chain(self):
        return self.mc.sample_posterior(self.init, self.mod, self.ctrl, self.h.gen())

    def composed(self):
        h, mc = self.h, self.mc
        ad = h.mod('misc.adapt')
        ome = h.gen()
        thi = copy(self.init)
        z = self.mod.sample_aug(thi, self.mod.t, self.mod.vt, ome)
        sm = [ad.MyopicRwSampler(thi[i], (self.bounds[0][i], self.bounds[1][i]), opt_prob=self.ctrl.opt_acc_prob) for i in range(2)]
        while True:
            thi, z = mc.update_params(thi, z, self.mod, self.ctrl, sm, ome)
            z = mc.update_sde(thi, z, self.mod, self.ctrl, ome, c17.tasks)
            yield thi, z


def quiet(h, gids):
    """no marks anywhere"""
    for g in gids:
        for k in range(16):
            h.pin(f'{g}.p{k}', 0)


def scripted(h, gids, n, value):
    for g in gids:
        for k in range(n):
            h.script[f'{g}.u{k}'] = h.num(value)


def ito_chain(h):
    m, pre, sweeps = h.p['pieces'], h.p['precoin'], h.p['sweeps']
    quiet(h, ['g'] + [f'g/{k}' for k in range(m * sweeps)])
    for k in range(sweeps):
        h.script[f'g.z{k}'] = h.pos(f'step{k}')
    # the sweeps before the last one go through with, or come to nothing, at uniforms on either side of an even coin
    flat = h.p['flat']
    if flat:
        how = h.choose('before', ['all', 'none', 'parameters', 'paths'])
        up, down = Fraction(1, 10), Fraction(9, 10)
        scripted(h, ['g'], flat * (2 if pre else 1) if how in ('all', 'parameters') else flat, up if how in ('all', 'parameters') else down)
        scripted(h, [f'g/{k}' for k in range(m * flat)], 2, up if how in ('all', 'paths') else down)
    x = Ito(h, m, pre)
    got = run_chain(h, x, x.chain, sweeps)
    h.observe('parameters', [float(len(st[1])) for st, _ in got])


class Switching:
    """two regimes, three observations, one parameter per regime"""

    def __init__(self, h, precoin, obs):
        self.h = h
        mc, ty, ms = h.mod('switching.mcmc'), h.mod('switching.types'), h.mod('mjplib.skeleton')
        self.mc, self.ms = mc, ms
        self.t = [h.num(x) for x in range(obs)]
        self.v = [h.num(x) for x in V[:obs]]
        like, rest, prior = Table(h, 'l'), Table(h, 'r'), Table(h, 'p')
        self.tables = [like, rest, prior, Table(h, 'w')]
        self.labels = Labels(h, self.tables[3])
        self.calls, self.logs, self.thetas, self.ends = 0, [], [], []
        self.bounds = (h.arr([h.num(-INF)]), h.arr([h.num(INF)]))
        self.init = h.arr([h.real('a0')])

        def sample_aug(thi, y, t, v, ome):
            """observations and changes, with a value of its own at every change"""
            self.calls += 1
            jumps = [(s, int(b)) for s, b in zip(y.t[1:], y.xt[1:])]
            grid, j = [], 0
            now = int(y.xt[0])
            for s, x in zip(self.t, self.v):
                while j < len(jumps) and h.decide(h.lt(jumps[j][0], s)):
                    now = jumps[j][1]
                    grid.append((jumps[j][0], now, h.num(Fraction(self.calls + 3 * j, 7))))
                    j += 1
                grid.append((s, now, x))
            tt, yy, vv = zip(*grid)
            T = [b - a for a, b in zip(tt, tt[1:])]
            self.ends += [(d, a, b) for d, a, b in zip(T, vv, vv[1:])]
            z = self.labels.fresh((self.calls, self.seen(thi, t, v)), T, list(vv))
            return z, ty.Anchorage(h.arr(tt), np.array(yy), h.arr(vv))

        def normops(thi, t, y, v):
            return [c17.line(t[i + 1] - t[i], v[i], v[i + 1]) for i in range(len(t) - 1)]

        def loglik(thi, t, y, v, restrict=None):
            tag = (len(t), None if restrict is None else int(restrict), tuple(int(a) for a in y))
            return h.log(like(tag, thi, v)), h.log(rest(tag, thi, v))

        def mutate(*a, **k):
            part = a[0] if a else k['partition']
            lam = a[1] if len(a) > 1 else k['gen']
            self.logs[-1].append([x for x in np.ravel(lam)])
            return part
        h.summarise('mjplib.skeleton', 'mutate_partition', lambda real: mutate, both=True)
        a, b = h.empty((2, 2)), h.empty((2, 2))
        for i in range(2):
            for j in range(2):
                a[i, j], b[i, j] = h.num(float('nan') if i == j else 2 + i), h.num(float('nan') if i == j else 1 + 2 * i)
        self.hyper = (h.finish(a), h.finish(b))
        self.mod = mc.Model(
            t=h.arr(self.t), vt=h.arr(self.v), bounds_thi=self.bounds, hyper_lam=self.hyper,
            eval_log_prior=lambda thi: h.log(prior(0, thi)), sample_aug=sample_aug, gen_normops=normops, eval_biased_loglik=loglik,
            eval_disc=lambda thi, y: lambda x: x * 0, eval_bounds_disc=lambda thi, y: lambda lo, hi: self.flatbounds(thi, y, lo, hi),
            eval_bounds_grad=lambda *a: h.arr([1]))
        self.ctrl = mc.Controls(opt_acc_prob=h.num(Fraction(3, 10)), pr_portkey=h.num(Fraction(1, 3)), precoin=precoin)

    seen, sweep = Ito.seen, Ito.sweep

    def flatbounds(self, thi, y, lo, hi):
        x = self.labels.le(thi, lo, hi, self.ends)
        return x - 1, x, x

    def start(self):
        self.calls = 0
        self.logs.append([])

    def chain(self):
        return self.mc.sample_posterior(self.init, self.mod, self.ctrl, self.h.gen())

    def first(self, ome):
        """rates at their prior mean, a regime path under them, its augmentation"""
        h = self.h
        lam = h.empty((2, 2))
        for i in range(2):
            lam[i, 1 - i] = self.hyper[0][i, 1 - i] / self.hyper[1][i, 1 - i]
            lam[i, i] = -lam[i, 1 - i]
        lam = h.finish(lam)
        y = self.ms.sample_forwards(self.t[-1], None, lam, ome)
        thi = h.mat([[self.init[0]], [self.init[0]]])
        z, a = self.mod.sample_aug(thi, y, self.mod.t, self.mod.vt, ome)
        return thi, lam, z, a, self.samplers(y)

    def samplers(self, y):
        ad = self.h.mod('misc.adapt')
        return ([ad.MyopicMvRwSampler(copy(self.init), self.bounds, opt_prob=self.ctrl.opt_acc_prob) for _ in range(2)],
                ad.MyopicMjpSampler(y, opt_prob=self.ctrl.opt_acc_prob))

    def sweeps(self, thi, lam, z, a, samplers, ome):
        mc = self.mc
        params, regimes = samplers
        while True:
            lam = mc.update_generator(a, self.hyper, ome)
            thi, z = mc.update_params(thi, z, a, self.mod, self.ctrl, params, ome, c17.tasks)
            z, a = mc.update_hidden(thi, lam, z, a, self.mod, self.ctrl, regimes, ome, c17.tasks)
            yield thi, lam, z, a

    def composed(self):
        ome = self.h.gen()
        return self.sweeps(*self.first(ome), ome)


def switching_setup(h):
    sweeps, flat, obs = h.p['sweeps'], h.p['flat'], h.p['obs']
    gids = [f'g/{k}' for k in range(8 * sweeps)]
    quiet(h, gids)
    # one change of regime, between the first two observations
    h.pin('g.c0', h.p['start'])
    h.script['g.e0'], h.script['g.e1'] = h.num(1), h.num(50)
    cut = h.choose('cut', [True, False]) if obs > 2 else False
    # whether the last sweep cuts may be left open, to see what the sweeps before taught the regime sampler
    scripted(h, ['g'], (obs - 2) * (sweeps - bool(h.p.get('open'))), Fraction(1, 10) if cut else Fraction(9, 10))
    for g in gids:
        h.script[f'{g}.m0'] = h.pos('step' + g[2:])
    if flat:
        how = h.choose('before', ['all', 'none'] if h.p.get('open') else ['all', 'none', 'parameters', 'regimes', 'mixed'])
        up, down = Fraction(1, 10), Fraction(9, 10)
        for s in range(flat):
            n = 2 + (2 if cut else 1)
            for i in range(n):
                good = how == 'all' or how == 'parameters' and i < 2 or how == 'regimes' and i >= 2 or how == 'mixed' and i % 2
                scripted(h, [f'g/{s * n + i}'], 2, up if good else down)


def switching_chain(h):
    switching_setup(h)
    x = Switching(h, h.p['precoin'], h.p['obs'])
    run_chain(h, x, x.chain, h.p['sweeps'])


def switching_resume(h):
    """a chain picked up from a reported state goes on as if it had not been interrupted"""
    switching_setup(h)
    x = Switching(h, h.p['precoin'], h.p['obs'])

    def interrupted():
        ome = h.gen()
        thi, lam, z, a, (params, regimes) = x.first(ome)
        first = next(x.sweeps(thi, lam, z, a, (params, regimes), ome))
        yield first
        yield from x.mc.resume_sampling(*first, x.mod, x.ctrl, params, regimes, ome)
    run_chain(h, x, interrupted, h.p['sweeps'])


# ------------------------------------------------------------------------------------------------------- models of the library

def pieces_of(h):
    """pieces known half way, over a numeric range; what they look like is another property's business"""
    ms = h.mod('ea3lib.seed')

    def piece(*a, **k):
        return ms.SeedSkeleton(h.arr([0, Fraction(1, 2), 1]), h.arr([0, Fraction(1, 8), 0]), h.num(Fraction(-1, 2)), h.num(1),
                               h.num(Fraction(-1, 4)), [True, True])
    h.summarise('ea3lib.seed', 'sample_raw_seed', lambda real: piece, both=True)


def ito_model(h):
    """the model's posterior sampler runs the chain of its own functions, with the settings it is given"""
    m, mc, ad = h.mod('ito.models.' + h.p['model']), h.mod('ito.mcmc'), h.mod('misc.adapt')
    pieces_of(h)
    pre = h.p['precoin']
    quiet(h, ['g', 'g/0', 'g/1'])
    init = list(m.init_thi)
    h.pin('g.i0', h.p['sector'])
    t, v = h.arr([0, Fraction(1, 4), Fraction(3, 4)]), h.arr([Fraction(1, 2), 1, Fraction(3, 4)])
    h.script['g.z0'] = h.num(Fraction(1, 3))
    settings = dict(opt_acc_prob=h.num(Fraction(3, 10)), pr_portkey=h.unit('pk'), precoin=pre, ea_batch_size=2)
    got = next(m.sample_posterior(t, v, ome=h.gen(), **settings))

    def composed():
        mod = mc.Model(t=t, vt=v, bounds_thi=m.bounds_thi, eval_log_prior=m.eval_log_prior, sample_aug=m.sample_aug,
                       gen_normops=m.gen_normops, eval_biased_loglik=m.eval_biased_log_lik, eval_disc=m.eval_disc,
                       eval_bounds_disc=m.eval_bounds_disc, eval_bounds_grad=m.eval_bounds_grad)
        ctrl, ome = mc.Controls(**settings), h.gen()
        thi = np.array(init)
        z = m.sample_aug(thi, t, v, ome)
        sm = [ad.MyopicRwSampler(a, (lo, hi), opt_prob=settings['opt_acc_prob']) for a, lo, hi in zip(init, *m.bounds_thi)]
        thi, z = mc.update_params(thi, z, mod, ctrl, sm, ome)
        return thi, mc.update_sde(thi, z, mod, ctrl, ome, c17.tasks)
    want = h.again(composed)
    h.check('state after a sweep', same_state(h, got, want))


def switching_model(h):
    """likewise for regime-switching models, afresh or from a reported state"""
    m, mc, ad = h.mod('switching.models.' + h.p['model']), h.mod('switching.mcmc'), h.mod('misc.adapt')
    inf, sk = h.mod('mjplib.inference'), h.mod('mjplib.skeleton')
    pieces_of(h)
    pre = h.p['precoin']
    gids = [f'g/{k}' for k in range(5)]
    quiet(h, ['g'] + gids)
    lams = []

    def mutate(*a, **k):
        lams.append(a[1] if len(a) > 1 else k['gen'])
        return a[0] if a else k['partition']
    h.summarise('mjplib.skeleton', 'mutate_partition', lambda real: mutate, both=True)
    h.pin('g.c0', int(pre))
    # with rates of one half: a change after a third of the first interval, a stay until after the end
    t, v = h.arr([0, Fraction(3, 4), 1]), h.arr([Fraction(1, 2), Fraction(-1, 3), Fraction(3, 4)])
    h.script['g.e0'], h.script['g.e1'] = h.num(Fraction(1, 8)), h.num(50)
    h.pin('g.i0', 0)
    cut = h.choose('cut', [True, False])
    scripted(h, ['g'], 1, Fraction(1, 10) if cut else Fraction(9, 10))
    for k in range(4):
        h.script[f'g.z{k}'] = h.num(Fraction(1, 5 + k))
    for k in range(2):
        for i in range(2):
            h.script[f'g/{k}.m{i}'] = h.num(Fraction(1, 3 + k + i))
    # the first regime's move comes to nothing
    scripted(h, ['g/0'], 2, Fraction(999999, 1000000))
    settings = dict(opt_acc_prob=h.num(Fraction(3, 10)), pr_portkey=h.unit('pk'), precoin=pre, ea_batch_size=2)
    init = np.array(m.init_thi)
    a0, b0 = h.num(2), h.num(4)
    hyper = tuple(h.empty((2, 2)) for _ in range(2))
    for x, c in zip(hyper, (a0, b0)):
        for i in range(2):
            for j in range(2):
                x[i, j] = h.num(float('nan')) if i == j else c
    hyper = tuple(h.finish(x) for x in hyper)

    def begin(ome):
        lam = h.empty((2, 2))
        for i in range(2):
            for j in range(2):
                lam[i, j] = (-1 if i == j else 1) * a0 / b0
        lam = h.finish(lam)
        thi = np.array([init, init])
        y = sk.sample_forwards(t[-1], None, lam, ome)
        z, a = m.sample_aug(thi, y, t, v, ome)
        pm = [ad.MyopicMvRwSampler(np.array(init), m.bounds_thi, opt_prob=settings['opt_acc_prob']) for _ in range(2)]
        return thi, lam, z, a, pm, ad.MyopicMjpSampler(y, opt_prob=settings['opt_acc_prob'])
    if h.p['resume']:
        ome = h.gen()
        names = ('thi', 'lam', 'z', 'h', 'param_samplers', 'regime_sampler')
        state = dict(zip(names, begin(ome)), ome=ome)
        got = next(m.sample_posterior(t, v, 2, a0, b0, state=state, **settings))
    else:
        got = next(m.sample_posterior(t, v, 2, a0, b0, ome=h.gen(), **settings))
    used = [np.array(x) for x in lams]

    def composed():
        mod = mc.Model(t=t, vt=v, bounds_thi=m.bounds_thi, hyper_lam=hyper, eval_log_prior=m.eval_log_prior, sample_aug=m.sample_aug,
                       gen_normops=m.gen_normops, eval_biased_loglik=m.eval_biased_log_lik, eval_disc=m.eval_disc,
                       eval_bounds_disc=m.eval_bounds_disc, eval_bounds_grad=m.eval_bounds_grad)
        ctrl, ome = mc.Controls(**settings), h.gen()
        thi, lam, z, a, pm, rm = begin(ome)
        lam = mc.update_generator(a, hyper, ome)
        thi, z = mc.update_params(thi, z, a, mod, ctrl, pm, ome, c17.tasks)
        z, a = mc.update_hidden(thi, lam, z, a, mod, ctrl, rm, ome, c17.tasks)
        return thi, lam, z, a
    want = h.again(composed)
    h.check('state after a sweep', same_state(h, got, want))
    h.check('regimes move at the rates of the sweep', h.all([h.const(len(used) == 1)] + [h.eq_all(np.ravel(x), np.ravel(want[1])) for x in used]))


def items(tier):
    q = tier == 'quick'
    b = 16 if q else 300
    o = dict(budget=b, pois_max=1)
    out = []
    for pre in (True, False):
        p = 'precoin' if pre else 'plain'
        for m, sweeps, flat in [(1, 1, 0), (2, 1, 0), (1, 2, 1), (2, 2, 1)] + ([] if q else [(1, 3, 2), (1, 2, 0), (2, 2, 0)]):
            out.append(Item(f'ito:chain[{p},{m},{sweeps},{flat}]', ito_chain, precoin=pre, pieces=m, sweeps=sweeps, flat=flat, **o))
        for obs, sweeps, flat in [(2, 1, 0), (3, 1, 0), (3, 2, 1)]:
            out.append(Item(f'switching:chain[{p},{obs},{sweeps},{flat}]', switching_chain, precoin=pre, obs=obs, sweeps=sweeps, flat=flat,
                            start=int(pre), **o))
        out.append(Item(f'switching:tuned[{p}]', switching_chain, precoin=pre, obs=3, sweeps=2, flat=2, open=True, start=int(pre), **o))
        for sweeps in (2,) if q else (2, 3):
            out.append(Item(f'switching:resume[{p},{sweeps}]', switching_resume, precoin=pre, obs=2, sweeps=sweeps, flat=1, start=int(pre), **o))
        for model in ('ou', 'cir'):
            for k in range(2 if model == 'ou' else 3):
                out.append(Item(f'ito:model[{model},{p},{k}]', ito_model, model=model, precoin=pre, sector=k, **o))
        for model in ('ou', 'ou2', 'ou3'):
            for resume in (False, True):
                out.append(Item(f"switching:model[{model},{p},{'resumed' if resume else 'new'}]", switching_model, model=model, precoin=pre,
                                resume=resume, **o))
    return out
