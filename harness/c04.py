import numpy as np

from engine.harness import Item
from .lib import skeleton


def nan_diag(h, name, dim):
    m = h.empty((dim, dim))
    for i in range(dim):
        for j in range(dim):
            m[i, j] = h.num(float('nan')) if i == j else h.pos(f'{name}{i}{j}')
    return h.finish(m)


def holds(h, s, dim):
    t = list(s.t) + [s.fin_t]
    out = [h.num(0)] * dim
    for i, x in enumerate(s.xt):
        out[int(x)] = out[int(x)] + (t[i + 1] - t[i])
    return out


def counts(s, dim):
    n = np.zeros((dim, dim), int)
    for a, b in zip(s.xt, s.xt[1:]):
        n[int(a), int(b)] += 1
    return n


def update(h):
    inf = h.mod('mjplib.inference')
    dim = 3
    s = skeleton(h, 's', h.p['nj'], int_start=h.p.get('int_start', False))
    a0, b0 = nan_diag(h, 'a', dim), nan_diag(h, 'b', dim)
    a1, b1 = inf.update(s, a0, b0)
    n, hd = counts(s, dim), holds(h, s, dim)
    for i in range(dim):
        for j in range(dim):
            if i != j:
                h.check('jump counts', h.eq(a1[i, j], a0[i, j] + int(n[i, j])))
                h.check('occupation time', h.eq(b1[i, j], b0[i, j] + hd[i]))
    h.observe('b1', [b1[i, j] for i in range(dim) for j in range(dim) if i != j])


def loglik(h):
    inf = h.mod('mjplib.inference')
    dim = 3
    s = skeleton(h, 's', h.p['nj'], int_start=h.p.get('int_start', False))
    q = h.generator_matrix('q', dim)
    n, hd = counts(s, dim), holds(h, s, dim)
    want = h.num(0)
    for i in range(dim):
        want = want + hd[i] * q[i, i]
        for j in range(dim):
            if n[i, j]:
                want = want + int(n[i, j]) * h.log(q[i, j])
    got = inf.eval_loglik(s, q)
    h.check('path log-likelihood', h.eq(got, want))
    h.observe('ll', got)


def bayes(h):
    """posterior - prior - likelihood does not depend on the rates"""
    inf = h.mod('mjplib.inference')
    dim = h.p['dim']
    s = skeleton(h, 's', h.p['nj'], states=h.p.get('states'))
    a0, b0 = nan_diag(h, 'a', dim), nan_diag(h, 'b', dim)
    a1, b1 = inf.update(s, a0, b0)
    d = []
    for k in range(2):
        q = h.generator_matrix(f'q{k}', dim)
        d.append(inf.eval_logprior(q, a1, b1) - inf.eval_logprior(q, a0, b0) - inf.eval_loglik(s, q))
    h.check('posterior identity', h.eq(d[0], d[1]))


def logprior(h):
    inf = h.mod('mjplib.inference')
    dim = h.p['dim']
    a, b = nan_diag(h, 'a', dim), nan_diag(h, 'b', dim)
    q = [h.generator_matrix(f'q{k}', dim) for k in range(2)]
    got = [inf.eval_logprior(x, a, b) for x in q]
    want = []
    for x in q:
        w = h.num(0)
        for i in range(dim):
            for j in range(dim):
                if i != j:
                    w = w + (a[i, j] - 1) * h.log(x[i, j]) - b[i, j] * x[i, j]
        want.append(w)
    h.check('gamma log-density up to a constant', h.eq(got[0] - got[1], want[0] - want[1]))


def summary(h):
    inf = h.mod('mjplib.inference')
    dim = h.p['dim']
    a, b = nan_diag(h, 'a', dim), nan_diag(h, 'b', dim)
    ka, kb = a.copy(), b.copy()
    for name, f, want in (('mean', inf.get_ev, lambda i, j: a[i, j] / b[i, j]),
                          ('mode', inf.get_mode, lambda i, j: (a[i, j] - 1) / b[i, j])):
        m = f(a, b)
        for i in range(dim):
            h.check(name + ' rows sum to zero', h.eq(sum(m[i, j] for j in range(dim)), 0))
            h.check(name + ' rates', h.all([h.eq(m[i, j], want(i, j)) for j in range(dim) if j != i]))
    m = inf.sample_param(a, b, h.gen())
    g = h.drawn('g')
    for i in range(dim):
        h.check('draw rows sum to zero', h.eq(sum(m[i, j] for j in range(dim)), 0))
    h.check('one gamma draw', h.const(len(g) == 1))
    d = g[0]
    for i in range(dim):
        for j in range(dim):
            if i != j:
                k = i * dim + j
                sh = np.broadcast_to(h.asarray(d.par['shape']), (dim, dim))[i, j]
                h.check('draw shape', h.eq(sh, a[i, j]))
                h.check('draw rate', h.eq(m[i, j] * b[i, j], d.prim[k]))
    off = [(i, j) for i in range(dim) for j in range(dim) if i != j]
    h.check('inputs untouched', h.all([h.eq(a[o], ka[o]) for o in off] + [h.eq(b[o], kb[o]) for o in off]))


def items(tier):
    q = tier == 'quick'
    top = 3 if q else 4
    out = []
    for nj in range(top + 1):
        out += [Item(f'update[{nj}]', update, nj=nj), Item(f'loglik[{nj}]', loglik, nj=nj)]
    out += [Item('update[int start]', update, nj=0, int_start=True), Item('loglik[int start]', loglik, nj=0, int_start=True),
            Item('logprior[2]', logprior, dim=2), Item('logprior[3]', logprior, dim=3),
            Item('summary[2]', summary, dim=2), Item('summary[3]', summary, dim=3)]
    for nj in range(0, 3 if q else 4):
        out.append(Item(f'bayes[3,{nj}]', bayes, nj=nj, dim=3))
    out.append(Item('bayes[2,3]', bayes, nj=3, dim=2, states=(0, 1, 0, 1)))
    return out
