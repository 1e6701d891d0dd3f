import numpy as np

from engine.harness import Item
from .lib import skeleton, state_at, ints, same_skel, well_formed


def cuts(h, n, fin):
    c = list(h.times('c', n))
    if c:
        h.assume(h.lt(c[-1], fin))
    return h.arr(c)


def partition(h):
    ms = h.mod('mjplib.skeleton')
    sk = skeleton(h, 's', h.p['nj'], int_start=h.p.get('int_start', False))
    c = cuts(h, h.p['nc'], sk.fin_t)
    pieces = ms.partition_skeleton(sk, c)
    edges = [h.num(0)] + list(c) + [sk.fin_t]
    h.check('number of pieces', h.const(len(pieces) == len(edges) - 1))
    t, x = list(sk.t), list(sk.xt)
    for k, p in enumerate(pieces):
        lo, hi = edges[k], edges[k + 1]
        inside = [i for i in range(1, len(t)) if h.decide(h.lt(lo, t[i])) and h.decide(h.lt(t[i], hi))]
        h.check('piece length', h.eq(p.fin_t, hi - lo))
        h.check('piece times', h.eq_all(p.t, [h.num(0)] + [t[i] - lo for i in inside]))
        h.check('piece states', ints(h, p.xt, [state_at(h, t, x, lo)] + [x[i] for i in inside]))
    back = ms.paste_partition(pieces)
    h.check('paste restores', same_skel(h, back, sk))
    again = ms.repartition_skeleton(pieces, c)
    h.check('re-cut same number', h.const(len(again) == len(pieces)))
    for a, b in zip(again, pieces):
        h.check('re-cut same pieces', same_skel(h, a, b))
    h.observe('pieces', [[p.t, p.fin_t] for p in pieces])


def recut(h):
    """pieces cut at one vector, re-cut at another: equals cutting the original path directly"""
    ms = h.mod('mjplib.skeleton')
    sk = skeleton(h, 's', h.p['nj'])
    c1 = cuts(h, 1, sk.fin_t)
    d = h.pos('e0')
    h.assume(h.lt(d, sk.fin_t))
    c2 = h.arr([d])
    a = ms.repartition_skeleton(ms.partition_skeleton(sk, c1), c2)
    b = ms.partition_skeleton(sk, c2)
    h.check('re-cut elsewhere', h.all([h.const(len(a) == len(b))] + [same_skel(h, x, y) for x, y in zip(a, b)]))


def paste(h):
    """pasting arbitrary compatible pieces: the path follows each piece in turn"""
    ms = h.mod('mjplib.skeleton')
    states = [(0, 1), (1,), (1, 0)] if h.choose('shape', [0, 1]) == 0 else [(2,), (2, 0), (0,)]
    ps = [skeleton(h, f'p{i}', len(s) - 1, states=s) for i, s in enumerate(states[:h.p['np']])]
    out = ms.paste_partition(ps)
    h.check('pasted path well formed', well_formed(h, out))
    tot, ts, xs = h.num(0), [], []
    for p in ps:
        for i, (t, x) in enumerate(zip(p.t, p.xt)):
            if not xs or xs[-1] != int(x):
                ts.append(tot + t)
                xs.append(int(x))
        tot = tot + p.fin_t
    h.check('pasted path', h.all([h.eq_all(out.t, ts), ints(h, out.xt, xs), h.eq(out.fin_t, tot)]))


def lookup(h):
    sk = skeleton(h, 's', h.p['nj'])
    qs = [h.real(f'q{i}', 0, None, lo_strict=False) for i in range(h.p['nq'])]
    late = [h.decide(h.gt(q, sk.fin_t)) for q in qs]
    r = h.call(sk, h.arr(qs), allow=ValueError)
    if any(late):
        h.check('late lookup rejected', h.const(isinstance(r, ValueError)))
    else:
        if isinstance(r, ValueError):
            h.check('lookup accepted', h.const(False))
            return
        h.check('lookup', ints(h, r, [state_at(h, sk.t, sk.xt, q) for q in qs]))
        one = sk(qs[0])
        h.check('scalar lookup', ints(h, one, [state_at(h, sk.t, sk.xt, qs[0])]))


def occupancy(h):
    ms = h.mod('mjplib.skeleton')
    sk = skeleton(h, 's', h.p['nj'], int_start=h.p.get('int_start', False))
    states = h.choose('states', [(0, 1, 2), (2, 0), (1,)])
    r = ms.est_stat(sk, np.array(states))
    h.check('one share per state', h.const(np.shape(r) == (len(states),)))
    t = list(sk.t) + [sk.fin_t]
    for k, s in enumerate(states):
        tot = h.num(0)
        for i in range(len(sk.xt)):
            if int(sk.xt[i]) == s:
                tot = tot + (t[i + 1] - t[i])
        h.check('occupancy', h.eq(r[k], tot / sk.fin_t))
    h.observe('occ', r)


def grid(h):
    ms = h.mod('mjplib.skeleton')
    sk = skeleton(h, 's', h.p['nj'])
    inten = h.pos('rate')
    pieces, new_t = ms.sample_partition(sk, inten, h.gen())
    n = len(new_t)
    h.check('grid size', h.const(len(pieces) == n + 1))
    h.check('grid inside', h.all([h.lt(0, x) for x in new_t] + [h.lt(x, sk.fin_t) for x in new_t]))
    h.check('grid increasing', h.increasing(new_t))
    h.check('pieces rejoin', same_skel(h, ms.paste_partition(pieces), sk))
    h.check('piece lengths', h.eq_all([p.fin_t for p in pieces],
                                      [b - a for a, b in zip([h.num(0)] + list(new_t), list(new_t) + [sk.fin_t])]))


def equality(h):
    nj = h.p['nj']
    a, b = skeleton(h, 'a', nj), skeleton(h, 'b', nj)
    r = bool(a == b)
    h.check('equality test', h.iff(h.const(r), same_skel(h, a, b)))


def items(tier):
    out = []
    top = (2, 2) if tier == 'quick' else (4, 3)
    for nj in range(top[0] + 1):
        for nc in range(top[1] + 1):
            out.append(Item(f'partition[{nj},{nc}]', partition, nj=nj, nc=nc, budget=40 if tier == 'quick' else 240,
                            expect=('paste restores', 'piece times')))
    out.append(Item('partition[int start]', partition, nj=0, nc=2, int_start=True))
    if tier == 'quick':
        out.append(Item('partition[3,1]', partition, nj=3, nc=1, budget=40))
    for nj in (1, 2, 3)[:2 if tier == 'quick' else 3]:
        out.append(Item(f'recut[{nj}]', recut, nj=nj, budget=60))
    for n in (1, 2, 3):
        out.append(Item(f'paste[{n}]', paste, np=n))
    for nj in (0, 1, 2, 3):
        out.append(Item(f'lookup[{nj}]', lookup, nj=nj, nq=2 if nj < 3 else 1))
        out.append(Item(f'occupancy[{nj}]', occupancy, nj=nj))
    out.append(Item('occupancy[int start]', occupancy, nj=0, int_start=True))
    for nj in (0, 1, 2):
        out.append(Item(f'grid[{nj}]', grid, nj=nj, pois_max=2 if tier == 'quick' else 3))
        out.append(Item(f'equality[{nj}]', equality, nj=nj))
    return out
