import numpy as np

from engine.harness import Item


class Tag:
    def __init__(self, *a):
        self.a = a


def weights(h):
    """log weights; W are the weights themselves"""
    case = h.choose('weights', ['finite', 'w1=0', 'w2=0', 'large'])
    W1, W2 = h.pos('W1'), h.pos('W2')
    inf = float('inf')
    if case == 'w1=0':
        return h.num(-inf), h.log(W2), h.num(0), W2
    if case == 'w2=0':
        return h.log(W1), h.num(-inf), W1, h.num(0)
    if case == 'large':
        s = h.real('shift')
        return h.log(W1) + s, h.log(W2) + s, W1, W2
    return h.log(W1), h.log(W2), W1, W2


def twocoin(h):
    bf = h.mod('misc.bfactories')
    Budget = h.mod('misc.exceptions').BudgetConstraintError
    w1, w2, W1, W2 = weights(h)
    cap = h.p['cap']
    calls = []

    def coin(k):
        i = 0
        while True:
            r = (bool(h.choose(f'coin{k}.{i}', [0, 1])), Tag(k, i))
            calls.append((k,) + r)
            yield r
            i += 1
    esc = h.choose('escape', ['default', 'set'])
    pr = h.real('pr', 0, 1, lo_strict=False, hi_strict=False) if esc == 'set' else None
    retained = Tag('retained')
    kw = dict(max_props=cap, ome=h.gen())
    if pr is not None:
        kw['pr_portkey'] = pr
        if not h.p['joint']:
            kw['prop0'] = retained
    if h.p['joint']:
        def joint():
            cs = {1: coin(1), 2: coin(2)}
            want = yield
            while True:
                want = yield next(cs[1 if want else 2])
        r = h.call(bf.sample_twocoin_joint, w1, w2, joint(), allow=Budget, **kw)
    else:
        r = h.call(bf.sample_twocoin, w1, w2, coin(1), coin(2), allow=Budget, **kw)
    us = h.flat_prims('u')
    out, ncall = None, 0
    k = 0
    for rnd in range(cap):
        if k >= len(us):
            break
        pick = h.decide(h.lt(us[k] * (W1 + W2), W1))
        k += 1
        if ncall >= len(calls):
            h.check('picked coin is flipped', h.const(False))
            return
        c, good, tag = calls[ncall]
        ncall += 1
        h.check('picked coin', h.const((c == 1) == pick))
        if c == 2 and not h.p['joint']:
            # what coin 2 has revealed is not forgotten
            retained = tag
        if good:
            out = (c == 1, False, tag)
            break
        if k >= len(us):
            h.check('escape is drawn', h.const(pr is None))
            continue
        e = us[k]
        k += 1
        if pr is not None and h.decide(h.lt(e, pr)):
            out = (False, True, tag if h.p['joint'] else retained)
            break
    h.check('no extra flips', h.const(ncall == len(calls)))
    if out is None:
        h.check('budget error', h.const(isinstance(r, Budget) and ncall == cap))
    else:
        h.check('no budget error', h.const(not isinstance(r, Exception)))
        if isinstance(r, Exception):
            return
        h.check('answer', h.const(bool(r[0]) == out[0]))
        h.check('escape flag', h.const(bool(r[1]) == out[1]))
        h.check('proposal', h.const(r[2] is out[2]))


def items(tier):
    q = tier == 'quick'
    out = []
    for j in (False, True):
        n = 'joint' if j else 'plain'
        for cap in (1, 2, 3) if q else (1, 2, 3, 4, 5):
            out.append(Item(f'{n}[{cap}]', twocoin, joint=j, cap=cap, budget=40 if q else 300, max_paths=6000,
                            max_draws=12))
    return out
