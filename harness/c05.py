import itertools

import numpy as np

from engine.harness import Item


def box(h):
    d = h.p['dim']
    return tuple(h.pos(f'w{i}') for i in range(d))


def volume(w):
    v = w[0]
    for x in w[1:]:
        v = v * x
    return v


def mean_check(h, lam, w):
    ds = h.drawn('p')
    h.check('one Poisson draw', h.const(len(ds) == 1))
    h.check('Poisson mean', h.eq(ds[0].par['lam'], lam * volume(w)))
    return int(ds[0].value)


def inside(h, pts, w):
    return h.all([h.all([h.le(0, p[j]), h.le(p[j], w[j])]) for p in pts for j in range(len(w))])


def cloud(h):
    ms = h.mod('mjplib.skeleton')
    w, lam = box(h), h.pos('lam')
    pts = ms.sample_ppp(lam, w, h.gen())
    n = mean_check(h, lam, w)
    d = len(w)
    h.check('number of points', h.const(np.shape(pts) == (n, d)))
    h.check('inside the box', inside(h, pts, w))
    h.check('ordered by the first coordinate', h.increasing([p[0] for p in pts], strict=False))
    us = h.flat_prims('u')
    h.check('number of uniforms', h.const(len(us) == n * d))
    if n:
        # the returned rows are a permutation of independent uniform rows
        opts = []
        for pm in itertools.permutations(range(n)):
            opts.append(h.all([h.eq(pts[i][j], w[j] * us[pm[i] * d + j]) for i in range(n) for j in range(d)]))
        h.check('uniform placement', h.any(opts))
    h.observe('pts', pts)


def batches(h):
    ms = h.mod('mjplib.skeleton')
    w, lam, bs = box(h), h.pos('lam'), h.p['bs']
    got = list(ms.sample_batch_ppp(lam, w, bs, h.gen()))
    n = mean_check(h, lam, w)
    d = len(w)
    sizes = [bs] * (n // bs) + ([n % bs] if n % bs else [])
    h.check('batch sizes', h.const([np.shape(b)[0] for b in got] == sizes and all(np.shape(b)[1] == d for b in got)))
    pts = [p for b in got for p in b]
    h.check('inside the box', inside(h, pts, w))
    # distinct draws
    us = h.flat_prims('u')
    for a, b in itertools.combinations(us, 2):
        h.assume(h.neg(h.eq(a, b)))
    h.check('ordered within and across batches', h.increasing([p[0] for p in pts]))
    # exact order-statistic law: the last point of a batch of i out of r remaining points splits (lo, w0) by Beta(i, r+1-i)
    lo, left = h.num(0), n
    bd = h.drawn('b')
    h.check('one split draw per batch', h.const(len(bd) == len(got)))
    lead = []
    for b, dr in zip(got, bd):
        i = len(b)
        h.check('split law', h.all([h.eq(h.num(dr.par['a']), i), h.eq(h.num(dr.par['b']), left + 1 - i)]))
        hi = b[-1][0]
        h.check('last point of a batch', h.eq(hi, lo + (w[0] - lo) * dr.prim))
        lead.append((lo, hi, b))
        lo, left = hi, left - i
    # the remaining first coordinates and all other coordinates are uniform in their interval
    k = 0
    good = []
    for lo, hi, b in lead:
        i = len(b)
        pool = us[k:k + i * d - 1]
        k += i * d - 1
        if len(pool) != i * d - 1:
            h.check('number of uniforms', h.const(False))
            return
        first = [p[0] for p in b[:-1]]
        opts = []
        for pm in itertools.permutations(range(i - 1)):
            opts.append(h.all([h.eq(first[a], lo + (hi - lo) * pool[pm[a]]) for a in range(i - 1)]))
        if opts and i > 1:
            h.check('points uniform below the last one', h.any(opts))
        rest = pool[i - 1:]
        for a in range(i):
            for j in range(1, d):
                h.check('other coordinates uniform', h.eq(b[a][j], w[j] * rest[a * (d - 1) + j - 1]))
    h.observe('pts', pts)


def guards(h):
    """a negative intensity or side, or an empty batch size, is refused"""
    ms = h.mod('mjplib.skeleton')
    what = h.choose('what', ['intensity', 'side', 'batch'])
    lam = h.real('lam', None, 0) if what == 'intensity' else h.pos('lam')
    w = (h.pos('w0'), h.real('w1', None, 0) if what == 'side' else h.pos('w1'))
    if what != 'batch':
        r = h.call(ms.sample_ppp, lam, w, h.gen(), allow=(AssertionError, ValueError))
        h.check('refused', h.const(isinstance(r, Exception)))
    r = h.call(lambda: list(ms.sample_batch_ppp(lam, w, 0 if what == 'batch' else 2, h.gen())),
               allow=(AssertionError, ValueError, ZeroDivisionError))
    h.check('batched refused', h.const(isinstance(r, Exception)))


def items(tier):
    q = tier == 'quick'
    out = []
    for d in (1, 2, 3):
        out.append(Item(f'cloud[{d}]', cloud, dim=d, pois_max=3 if q and d < 3 else 2 if q else 4, max_draws=30,
                        budget=30 if q else 200))
    for d in (1, 2, 3):
        for bs in (1, 2, 3) if q else (1, 2, 3, 4):
            out.append(Item(f'batches[{d},{bs}]', batches, dim=d, bs=bs, pois_max=4 if q else 6, max_draws=40,
                            budget=30 if q else 200))
    out.append(Item('guards', guards))
    return out
