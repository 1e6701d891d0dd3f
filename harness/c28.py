"""Standard errors: Louis's information of the particles, inverted"""
from fractions import Fraction

import numpy as np

from engine.harness import Item
from .c17 import tasks
from .c19 import Ito, Switching, table


def derivatives(h, where):
    """exact derivatives stand for the numerical ones (numdifftools, used as it is in replays)"""
    def jacobian(f, x, a):
        r = np.ravel(np.asarray(f(x, *a), dtype=object))
        out = h.empty((len(r), len(x)))
        for i in range(len(r)):
            for j in range(len(x)):
                out[i, j] = h.derivative(lambda _: r[i], x[j])
        return out

    def gradient(f, *_, **__):
        return lambda x, *a, **k: h.finish(jacobian(f, x, a)).squeeze()

    def hessian(f, *_, **__):
        def run(x, *a, **k):
            g = jacobian(f, x, a)[0]
            out = h.empty((len(x), len(x)))
            for i in range(len(x)):
                for j in range(len(x)):
                    out[i, j] = h.derivative(lambda _, i=i: g[i], x[j])
            return h.finish(out)
        return run
    for name, f in (('Gradient', gradient), ('Hessian', hessian)):
        h.summarise(where, name, lambda old, f=f: f)


def information(h, f, thi, K):
    """minus the mean second derivative of the particles' log densities minus the covariance of their scores"""
    d = len(thi)

    def at(k, j, x):
        return f(k, [x if i == j else thi[i] for i in range(d)])
    score = [[h.derivative(lambda x: at(k, j, x), thi[j]) for j in range(d)] for k in range(K)]

    def second(k, i, j):
        if i == j:
            return h.derivative(lambda y: h.derivative(lambda x: at(k, i, x), y), thi[i])
        return h.derivative(lambda y: h.derivative(lambda x: f(k, [x if q == i else y if q == j else thi[q] for q in range(d)]), thi[i]), thi[j])
    out = [[None] * d for _ in range(d)]
    for i in range(d):
        for j in range(d):
            curve, cov = h.num(0), h.num(0)
            mi, mj = (sum((s[q] for s in score), h.num(0)) / K for q in (i, j))
            for k in range(K):
                curve = curve - second(k, i, j) / K
                cov = cov + (score[k][i] - mi) * (score[k][j] - mj) / (K - 1)
            out[i][j] = curve - cov
    det = out[0][0] * out[1][1] - out[0][1] * out[1][0]
    for x in (det, out[0][0], out[1][1]):
        # away from singular information
        if h.decide(h.le(h.num(0), x)):
            h.assume(h.le(h.num(Fraction(1, 8)), x))
        else:
            h.assume(h.le(x, h.num(Fraction(-1, 8))))
    return out


def verdict(h, got, info):
    """the inverse of the information, if all its variances are positive"""
    (a, b), (c, d) = info
    det = a * d - b * c
    good = h.any([h.all([h.lt(h.num(0), det), h.lt(h.num(0), a), h.lt(h.num(0), d)]),
                  h.all([h.lt(det, h.num(0)), h.lt(a, h.num(0)), h.lt(d, h.num(0))])])
    if got is None:
        h.check('given up only if a variance is not positive', h.neg(good))
        return
    h.check('variances are positive', good)
    want = [d / det, -b / det, -c / det, a / det]
    h.check('inverse of the information', h.all([h.eq(x, y, tol=1e-4) for x, y in zip(np.ravel(got), want)]))




def ito(h):
    em = h.mod('ito.mcem')
    derivatives(h, 'ito.mcem')
    K = h.p['K']
    s = Ito(h, h.p['pieces'], 2, K, 1)
    thi = [h.real('a0', 1, 2), h.real('a1', 1, 2)]
    bounds = {'none': (None, None), 'lower': (h.arr([Fraction(-1), Fraction(1, 2)]), h.arr([float('inf'), float('inf')]))}[h.p['side']]
    zz = [list(z) for z in s.zz]
    info = information(h, lambda k, x: s.value(x, k, True), thi, K)
    got = em.est_se(h.arr(thi), zz, s.model(em, bounds), em.Controls(n_disc_supports=1), h.gen('g'), tasks)
    verdict(h, got, info)
    h.observe('given', got is not None)


def positive(h, where):
    """an information that is positive away from the edge"""
    h.summarise(where, 'Hessian', lambda old: lambda f, *_, **__: lambda x, *a, **k: np.diag([3., 2.]), both=True)
    h.summarise(where, 'Gradient', lambda old: lambda f, *_, **__: lambda x, *a, **k: np.zeros((2, 2)), both=True)


def switching_edge(h):
    em, ty = h.mod('switching.mcem'), h.mod('switching.types')
    positive(h, 'switching.mcem')
    s = Switching(h, [(0, 1), (1, 0)], 2, 1)
    buf, lo, hi = h.num(Fraction(1, 4)), [h.num(-1), h.num(0)], [h.num(2), h.num(3)]
    r, j, side = h.choose('regime', [0, 1]), h.choose('coordinate', [0, 1]), h.choose('side', [0, 1])
    thi = [[h.num(Fraction(3, 4)), h.num(Fraction(5, 4))], [h.num(Fraction(1, 2)), h.num(Fraction(3, 2))]]
    thi[r][j] = (lo[j] + buf, hi[j] - buf)[side]
    got = em.est_se(h.mat(thi), [list(z) for z in s.zz], [s.state(ty, k) for k in range(s.K)],
                    s.model(em, (h.arr(lo), h.arr(hi))), em.Controls(n_disc_supports=1, bound_buffer=buf), h.gen('g'), tasks)
    h.check('one per regime', h.const(len(got) == 2))
    h.check('none at the edge of the search', h.const(got[r] is None))
    h.check('given inside the search region', h.const(got[1 - r] is not None))
    h.observe('given', [float(x is not None) for x in got])


def ito_edge(h):
    em = h.mod('ito.mcem')
    positive(h, 'ito.mcem')
    s = Ito(h, 1, 2, 2, 1)
    buf, lo, hi = h.num(Fraction(1, 4)), [h.num(-1), h.num(0)], [h.num(2), h.num(3)]
    inner = [(a + buf, b - buf) for a, b in zip(lo, hi)]
    j = h.choose('coordinate', [0, 1])
    thi = [h.num(Fraction(3, 4)), h.num(Fraction(5, 4))]
    side = h.choose('side', [0, 1, None])
    if side is not None:
        thi[j] = inner[j][side]
    got = em.est_se(h.arr(thi), [list(z) for z in s.zz], s.model(em, (h.arr(lo), h.arr(hi))),
                    em.Controls(n_disc_supports=1, bound_buffer=buf), h.gen('g'), tasks)
    if side is None:
        h.check('given inside the search region', h.const(got is not None))
    else:
        h.check('none at the edge of the search', h.const(got is None))
    h.observe('given', float(got is not None))


def switching(h):
    em, ty = h.mod('switching.mcem'), h.mod('switching.types')
    derivatives(h, 'switching.mcem')
    plans = h.p['particles']
    s = Switching(h, plans, 2, 1)
    thi = [[h.real(f'a{r}{i}', 1, 2) for i in range(2)] for r in range(2)]
    bounds = (None, None)
    edge = h.p.get('edge')
    if edge is not None:
        bounds = (h.arr([h.num(Fraction(1, 4)), h.num(-1)]), h.arr([float('inf'), float('inf')]))
        thi[edge][0] = h.num(Fraction(1, 2))
    ctrl = em.Controls(n_disc_supports=1, bound_buffer=h.num(Fraction(1, 4)))
    info = [None if r == edge else information(
        h, lambda k, x: s.value([x if q == r else thi[q] for q in range(2)], k, r, True), thi[r], s.K) for r in range(2)]
    got = em.est_se(h.mat(thi), [list(z) for z in s.zz], [s.state(ty, k) for k in range(s.K)], s.model(em, bounds), ctrl, h.gen('g'), tasks)
    h.check('one per regime', h.const(len(got) == 2))
    for r in range(2):
        if r == edge:
            h.check('none at the edge of the search', h.const(got[r] is None))
            continue
        verdict(h, got[r], info[r])
    h.observe('given', [float(x is not None) for x in got])


def items(tier):
    q = tier == 'quick'
    b = 40 if q else 300
    out = [Item('ito:edge', ito_edge, budget=b), Item('switching:sides', switching_edge, budget=b)]
    for m, K, side in ((1, 2, 'none'), (1, 2, 'lower'), (2, 2, 'none'), (1, 3, 'none')) + (() if q else ((2, 3, 'lower'),)):
        out.append(Item(f'ito[{m},{K},{side}]', ito, pieces=m, K=K, side=side, budget=b))
    for ps in ([(0, 1), (1, 0)],) if q else ([(0, 1), (1, 0)], [(0, 1, 0), (1,)]):
        out.append(Item(f"switching[{','.join(''.join(map(str, p)) for p in ps)}]", switching, particles=ps, budget=b))
    for e in (0, 1):
        out.append(Item(f'switching:edge[{e}]', switching, particles=[(0, 1), (1, 0)], edge=e, budget=b))
    return out
