from fractions import Fraction

import numpy as np

from engine.harness import Item
from .c07 import cdf0
from .lib import abstract_escapes

# (number of points left and right of the tight point, per-segment hits or None)


def path(h):
    """a path anchored at its minimum: grid (0, ..., T), tight point inside, certified range [m, m + D)"""
    abstract_escapes(h)
    sk = h.mod('ea3lib.skeleton')
    left, right = h.p['grid']
    m, D = h.real('m'), h.pos('D')
    n = left + right + 1
    ts = [h.num(0)] + list(h.times('t', n - 1))
    if h.p.get('normal'):
        ts = [h.num(Fraction(i, n - 1)) for i in range(n)]
    xs = []
    for i in range(n):
        if i == left:
            xs.append(m)
        else:
            w = h.unit(f'w{i}')
            xs.append(m + D * w)
    flags = h.p['hits']
    hit = m + D * h.unit('wh')
    if flags is not None:
        flags = [bool(f) for f in flags]
        for i, f in enumerate(flags):
            if not f:
                for j in (i, i + 1):
                    if j != left:
                        h.assume(h.lt(xs[j], hit))
    s = sk.Skeleton(h.arr(ts), h.arr(xs), m, m + D, hit, flags)
    return sk, s, ts, xs, m, D, hit, flags


def requests(h, ts):
    """requested times: positions in the grid ('p', i) or new ones inside segment i"""
    out, used = [], {}
    for r in h.p['req']:
        if isinstance(r, str):
            out.append((ts[int(r[1:])], False))
        else:
            a = used.get(r, ts[r])
            s = a + (ts[r + 1] - a) * h.unit(f's{len(out)}')
            used[r] = s
            out.append((s, True))
    return out


def exterior(h, xs, ts, m, order, want):
    """reparametrise the first uniform as the probability of the sub-minimum it selects (segments away from the tight point)"""
    i = h.p.get('ext')
    if i is None:
        return
    T, a, b = ts[i + 1] - ts[i], xs[i], xs[i + 1]
    lo = a if order == 'up' else b
    v = m + (lo - m) * h.unit('wv')
    f = cdf0(h, m, T, a, b)
    h.script['g.u0'] = (cdf0(h, v, T, a, b) - f) / (1 - f)
    # its time, on either side of the requested one, and the mixture component it comes from
    s = [t - ts[i] for t, new in want if new and h.decide(h.all([h.lt(ts[i], t), h.lt(t, ts[i + 1])]))]
    cut = [h.num(0)] + s + [T]
    h.limit['w'] = 1
    k = h.choose('side', range(len(cut) - 1))
    at = cut[k] + (cut[k + 1] - cut[k]) * h.unit('wt')
    r = (b - v) / (a - v)
    if h.choose('component', [1, 2]) == 1:
        h.script['g.u1'] = h.unit('wc') / (1 + r)
        h.script['g.w0'] = T / at - 1
    else:
        h.script['g.u1'] = 1 - h.unit('wc') * r / (1 + r)
        h.script['g.w0'] = 1 / (T / at - 1)
    return k, v


def order_of(h, xs):
    i = h.p.get('ext')
    if i is None:
        return None
    order = h.choose('order', ['up', 'down'])
    a, b = xs[i], xs[i + 1]
    h.assume(h.lt(a, b) if order == 'up' else h.lt(b, a))
    return order


def checks(h, old, new, want, vals, m, top, hit, flags, side):
    """side: +1 anchored from below, -1 mirror image"""
    grid = []
    pool = [(t, None) for t, isnew in want if isnew]
    t, x = list(np.asarray(new.t)), list(np.asarray(new.x))
    nseg = len(old.t) - 1
    # sorted union of old and new times, old values kept
    expect, seg = [], []
    k = 0
    for i in range(nseg):
        expect.append((old.t[i], old.x[i]))
        seg.append(i)
        for s, isnew in want:
            if isnew and h.decide(h.all([h.lt(old.t[i], s), h.lt(s, old.t[i + 1])])):
                expect.append((s, None))
                seg.append(i)
    expect.append((old.t[nseg], old.x[nseg]))
    h.check('time grid', h.const(len(t) == len(expect) == len(x)))
    if len(t) != len(expect) or len(x) != len(t):
        return
    h.check('time grid is the union', h.all([h.eq(a, b) for a, (b, _) in zip(t, expect)]))
    h.check('existing values kept', h.all([h.eq(a, b) for a, (_, b) in zip(x, expect) if b is not None]))
    h.check('certified range kept', h.all([h.eq(new.tight_x, old.tight_x), h.eq(new.loose_x, old.loose_x),
                                           h.eq(new.hit_x, old.hit_x)]))
    vals = list(np.asarray(vals))
    h.check('one value per requested time', h.const(len(vals) == len(want)))
    for (s, isnew), v in zip(want, vals):
        at = [b for a, b in zip([e[0] for e in expect], x) if h.decide(h.eq(a, s))]
        h.check('values are those of the stored path in time order', h.const(len(at) == 1) if len(at) != 1 else h.eq(at[0], v))
    for (s, v) in zip([e[1] for e in expect], x):
        if s is None:
            if side > 0:
                h.check('inside the certified range', h.all([h.le(m, v), h.lt(v, top)]))
            else:
                h.check('inside the certified range', h.all([h.lt(top, v), h.le(v, m)]))
    if flags is None:
        h.check('no hit information', h.const(new.hit_i is None))
        return
    hits = new.hit_i
    h.check('hit information aligned', h.const(hits is not None and len(hits) == len(expect) - 1))
    if hits is None or len(hits) != len(expect) - 1:
        return
    for i in range(nseg):
        mine = [bool(hits[k]) for k in range(len(hits)) if seg[k] == i]
        h.check('hitting segments keep a hit, others have none', h.const(any(mine) == bool(flags[i])))
    for k, f in enumerate(hits):
        if not f:
            for v in (x[k], x[k + 1]):
                h.check('segments without a hit stay inside the hit level', h.lt(v, hit) if side > 0 else h.lt(hit, v))
    h.observe('hits', [bool(f) for f in hits])


def below(h):
    sk, s, ts, xs, m, D, hit, flags = path(h)
    order = order_of(h, xs)
    want = requests(h, ts)
    exterior(h, xs, ts, m, order, want)
    new, vals = sk.interpolate_skeleton(s, h.arr([t for t, _ in want]), h.gen())
    if not any(n for _, n in want):
        h.check('draws nothing for times already present', h.const(not h.draws))
    else:
        h.check('one bridge per refined segment', h.const(bool(h.draws)))
    checks(h, s, new, want, vals, m, m + D, hit, flags, 1)
    h.observe('path', list(new.t) + list(new.x))


def above(h):
    """paths anchored at their maximum, against the mirror image anchored at its minimum refined with the same draws"""
    sk, s, ts, xs, m, D, hit, flags = path(h)
    order = order_of(h, xs)
    want = requests(h, ts)
    exterior(h, xs, ts, m, order, want)
    new, vals = sk.interpolate_skeleton(s, h.arr([t for t, _ in want]), h.gen())
    for k in ('u', 'z', 'w'):
        for i, v in enumerate(h.flat_prims(k)):
            h.script[f'k.{k}{i}'] = v
    n = len(h.draws)
    h.limit.clear()
    h.max_draws = 2 * h.counters.get('n', 0) + 1
    T = ts[-1]
    r = xs[0] + xs[-1]
    mx = [r - x for x in xs[::-1]]
    mt = [T - t for t in ts[::-1]]
    mir = sk.Skeleton(h.arr(mt), h.arr(mx), r - m, r - (m + D), r - hit, None if flags is None else flags[::-1])
    mwant = [(T - t, f) for t, f in want[::-1]]
    mnew, mvals = sk.interpolate_skeleton(mir, h.arr([t for t, _ in mwant]), h.gen('k'))
    h.check('same number of draws', h.const(len(h.draws) == 2 * n))
    checks(h, mir, mnew, mwant, mvals, r - m, r - (m + D), r - hit, None if flags is None else flags[::-1], -1)
    if len(new.t) == len(mnew.t):
        h.check('mirror image', h.all([h.eq_all(mnew.t, [T - t for t in list(new.t)[::-1]]),
                                       h.eq_all(mnew.x, [r - x for x in list(new.x)[::-1]])]))
        if flags is not None and new.hit_i is not None and mnew.hit_i is not None:
            h.check('mirrored hits', h.const([bool(f) for f in mnew.hit_i] == [bool(f) for f in new.hit_i][::-1]))
        h.check('mirrored values', h.eq_all(mvals, [r - x for x in list(vals)[::-1]]))
    h.observe('path', list(mnew.t) + list(mnew.x))


def mirror(h):
    """mirroring in time and space"""
    sk, s, ts, xs, m, D, hit, flags = path(h)
    T, r = ts[-1], xs[0] + xs[-1]
    f = sk.flip_skeleton(s)
    h.check('time grid', h.eq_all(f.t, [T - t for t in ts[::-1]]))
    h.check('values', h.eq_all(f.x, [r - x for x in xs[::-1]]))
    h.check('end points', h.all([h.eq(f.x[0], xs[0]), h.eq(f.x[-1], xs[-1]), h.eq(f.t[0], 0), h.eq(f.t[-1], T)]))
    h.check('certified range', h.all([h.eq(f.tight_x, r - m), h.eq(f.loose_x, r - (m + D)), h.eq(f.hit_x, r - hit)]))
    h.check('hits', h.const((f.hit_i is None) == (flags is None) and
                            (flags is None or [bool(x) for x in f.hit_i] == flags[::-1])))
    g = sk.flip_skeleton(f)
    h.check('involution', h.all([h.eq_all(g.t, ts), h.eq_all(g.x, xs), h.eq(g.tight_x, m), h.eq(g.loose_x, m + D),
                                 h.eq(g.hit_x, hit), h.const((g.hit_i is None) == (flags is None) and
                                                             (flags is None or [bool(x) for x in g.hit_i] == flags))]))
    h.observe('mirror', list(f.t) + list(f.x))


def maps(h):
    """time reversal and reflection"""
    tr = h.mod('sdelib.transforms')
    n = h.p['n']
    ts = list(h.times('t', n))
    T = ts[-1] + h.real('gT', 0, None, lo_strict=False) if n else h.pos('T')
    xs = list(h.vec('x', n))
    r = h.real('r')
    t, x = tr.reverse(h.arr(ts), h.arr(xs), T)
    h.check('reversed', h.all([h.eq_all(t, [T - v for v in ts[::-1]]), h.eq_all(x, xs[::-1])]))
    if n:
        t, x = tr.reflect(h.arr(ts), h.arr(xs), r)
        h.check('reflected', h.all([h.eq_all(t, ts), h.eq_all(x, [2 * r - v for v in xs])]))
        _, x = tr.reflect(None, h.arr(xs), r)
        h.check('reflected without times', h.all([h.const(_ is None), h.eq_all(x, [2 * r - v for v in xs])]))
        res = h.call(tr.reverse, h.arr(ts), h.arr(xs), ts[-1] * h.unit('q'), allow=(Exception,))
        h.check('times past the horizon are refused', h.const(isinstance(res, Exception)))


def guards(h):
    """a path is not evaluated past its horizon; nothing asked, nothing changed"""
    sk, s, ts, xs, m, D, hit, flags = path(h)
    res = h.call(s, h.arr([ts[-1] * h.unit('q'), ts[-1] + h.pos('e')]), h.gen(), allow=(ValueError, AssertionError))
    h.check('past the horizon', h.const(isinstance(res, Exception)))
    new, v = sk.interpolate_skeleton(s, h.arr([]), h.gen())
    h.check('nothing requested', h.all([h.const(len(v) == 0 and not h.draws), h.eq_all(new.t, ts), h.eq_all(new.x, xs)]))
    h.check('hits kept', h.const((new.hit_i is None) == (flags is None) and
                                 (flags is None or [bool(x) for x in new.hit_i] == flags)))
    vals = s(h.arr([ts[0], ts[1], ts[-1]]), h.gen())
    h.check('evaluated at stored times', h.all([h.eq_all(vals, [xs[0], xs[1], xs[-1]]), h.const(not h.draws)]))


def seeds(h):
    """a normalised path evaluated at times of its interval is its interpolation there, mapped back; never past the interval"""
    sk, s, ts, xs, m, D, hit, flags = path(h)
    sd = h.mod('ea3lib.seed')
    T, a, b = h.pos('T'), h.real('a'), h.real('b')

    def norm(t, x):
        return t / T, None if x is None else x - a - t / T * b

    def denorm(r, z):
        return r * T, None if z is None else z + a + r * b
    seed = sd.SeedSkeleton(*s)
    req = [r for r, _ in requests(h, ts)]
    at = h.arr([r * T for r in req])
    got = seed(at, norm, denorm, h.gen())

    def composed():
        _, z = sk.interpolate_skeleton(s, h.arr(req), h.gen())
        return list(z)
    want = h.again(composed)
    h.check('evaluates to the interpolated path on the scale of the operators', h.eq_all(got, [z + a + r * b for z, r in zip(want, req)]))
    res = h.call(seed, h.arr([T * h.unit('q'), T + h.pos('e')]), norm, denorm, h.gen(), allow=(ValueError, AssertionError))
    h.check('past the horizon', h.const(isinstance(res, Exception)))
    h.observe('values', list(got))


def segment(h):
    """a bounded segment next to its minimum: accepted only if no part escapes above the loose bound; flags are the parts' decisions"""
    abstract_escapes(h)
    pa = h.mod('sdelib.paths')
    T, m, D = h.pos('T'), h.real('m'), h.pos('D')
    e = m + D * h.unit('we')
    k = h.p['k']
    s = [T * h.unit('s0')]
    for i in range(1, k):
        s.append(s[-1] + (T - s[-1]) * h.unit(f's{i}'))
    end = h.choose('tight', ['left', 'right'])
    mode = h.p['mode']
    args = (m, e, m) if end == 'left' else (e, m, m)
    hit = m + D * h.unit('wh')
    extra = {'free': (), 'bounded': (m + D,), 'hit': (m + D, hit)}[mode]
    x, hits = pa.sample_layerbr(h.arr(s), T, *args, *extra, ome=h.gen())
    us = h.flat_prims('u')
    h.check('one value per time', h.const(len(x) == k))
    for v in x:
        h.check('above the tight point', h.le(m, v))
        if mode != 'free':
            h.check('below the loose bound', h.lt(v, m + D))
    if mode != 'hit':
        h.check('no hit information', h.const(hits is None))
    if mode == 'free':
        h.check('nothing to decide', h.const(not us))
    else:
        n = k + 1
        h.check('one decision per part', h.const(len(us) >= n * len(extra)))
        acc = us[-2 * n:-n] if mode == 'hit' else us[-n:]
        h.check('no part escapes', h.all([h.lt(Fraction(1, 2), u) for u in acc]))
        if mode == 'hit':
            h.check('one flag per part', h.const(hits is not None and len(hits) == n))
            dec = us[-n:] if end == 'left' else us[-n:][::-1]
            v = [args[0]] + list(x) + [args[1]]
            for i, (f, u) in enumerate(zip(hits, dec)):
                esc = h.any([h.lt(u, Fraction(1, 2)), h.le(hit, v[i]), h.le(hit, v[i + 1])])
                h.check('flags are the decisions of the parts', esc if f else h.neg(esc))
            h.check('some part hits', h.const(any(bool(f) for f in hits)))
    h.observe('x', list(x))


def outside(h):
    """a bounded segment away from the minimum: its own minimum is drawn above the certified one and both sides stay bounded"""
    abstract_escapes(h)
    pa = h.mod('sdelib.paths')
    T, m, D = h.pos('T'), h.real('m'), h.pos('D')
    a, b = m + D * h.unit('wa'), m + D * h.unit('wb')
    h.p['ext'] = 0
    order = order_of(h, [a, b])
    k = h.p['k']
    s = [T * h.unit('s0')]
    for i in range(1, k):
        s.append(s[-1] + (T - s[-1]) * h.unit(f's{i}'))
    side, low = exterior(h, [a, b], [h.num(0), T], m, order, [(v, True) for v in s])
    mode = h.p['mode']
    hit = m + D * h.unit('wh')
    extra = {'free': (), 'bounded': (m + D,), 'hit': (m + D, hit)}[mode]
    x, hits = pa.sample_layerbr(h.arr(s), T, a, b, m, *extra, ome=h.gen())
    us = h.flat_prims('u')[2:]
    h.check('one value per time', h.const(len(x) == k))
    for v in x:
        h.check('above the certified minimum', h.lt(m, v))
        if mode != 'free':
            h.check('below the loose bound', h.lt(v, m + D))
    if mode != 'hit':
        h.check('no hit information', h.const(hits is None))
    elif hits is not None:
        h.check('one flag per part', h.const(len(hits) == k + 1))
        v = [a] + list(x) + [b]
        us = us[len(us) - 2 * (k + 2):]
        if len(us) == 2 * (k + 2):
            # two parts meet at the minimum: accepted and decided part by part, the left ones seen from the minimum
            n0 = side + 1
            ends = v[:n0] + [low] + v[n0:]
            acc = us[:n0][::-1] + us[2 * n0:][:k + 2 - n0]
            dec = us[n0:2 * n0][::-1] + us[2 * n0:][k + 2 - n0:]
            h.check('no part escapes', h.all([h.lt(Fraction(1, 2), u) for u in acc]))
            esc = [h.any([h.lt(u, Fraction(1, 2)), h.le(hit, p), h.le(hit, q)]) for u, p, q in zip(dec, ends, ends[1:])]
            esc[n0 - 1:n0 + 1] = [h.any(esc[n0 - 1:n0 + 1])]
            for f, e in zip(hits, esc):
                h.check('flags are the decisions of the parts', e if f else h.neg(e))
        for i, f in enumerate(hits):
            if not f:
                h.check('parts without a hit stay inside the hit level', h.all([h.lt(v[i], hit), h.lt(v[i + 1], hit)]))
        h.check('some part hits', h.const(any(bool(f) for f in hits)))
    h.observe('x', list(x))


def items(tier):
    q = tier == 'quick'
    b = 25 if q else 240
    kw = dict(budget=b, max_branches=80)
    cfg = [
        ('fresh edge', dict(grid=(1, 1), hits=None, req=[0], max_draws=10)),
        ('fresh edges', dict(grid=(1, 1), hits=None, req=[0, 1], max_draws=16)),
        ('old and new', dict(grid=(1, 1), hits=None, req=['p0', 0, 'p1', 'p2'], max_draws=10)),
        ('old only', dict(grid=(2, 1), hits=None, req=['p1', 'p3'], max_draws=10)),
        ('away from the minimum', dict(grid=(2, 1), hits=None, req=[0], ext=0, max_draws=12)),
        ('hit left', dict(grid=(1, 1), hits=(1, 0), req=[0], max_draws=12)),
        ('hit right', dict(grid=(1, 1), hits=(0, 1), req=[0, 'p2'], max_draws=12)),
        ('hit both', dict(grid=(1, 1), hits=(1, 1), req=[1], max_draws=12)),
        ('hit mixed', dict(grid=(1, 1), hits=(1, 0), req=[0, 1], max_draws=20)),
        ('hit old only', dict(grid=(2, 1), hits=(0, 1, 0), req=['p1', 'p2'], max_draws=10)),
        ('hit away', dict(grid=(2, 1), hits=(0, 1, 0), req=[0], ext=0, max_draws=12)),
    ]
    if not q:
        cfg += [('two in one', dict(grid=(1, 1), hits=None, req=[0, 0], max_draws=16)),
                ('hit away yes', dict(grid=(2, 1), hits=(1, 1, 0), req=[0], ext=0, max_draws=16)),
                ('right away', dict(grid=(1, 2), hits=(1, 0, 1), req=[0, 'p1', 2], ext=None, max_draws=24))]
    out = []
    for name, c in cfg:
        out += [Item(f'below[{name}]', below, **c, **kw), Item(f'above[{name}]', above, **c, **kw)]
    for g, hs in (((1, 1), None), ((2, 1), (1, 0, 1)), ((1, 3), (0, 0, 1, 0))):
        out += [Item(f'mirror[{sum(g) + 1}]', mirror, grid=g, hits=hs, budget=b), Item(f'guards[{sum(g) + 1}]', guards, grid=g, hits=hs, budget=b)]
    out += [Item(f'maps[{n}]', maps, n=n, budget=b) for n in ((0, 1, 3) if q else (0, 1, 2, 3, 5))]
    for name, g, hs, req in (('fresh', (1, 1), None, [0]), ('mixed', (1, 1), None, ['p0', 1, 'p2']), ('hit', (1, 1), (1, 0), [0])):
        out.append(Item(f'seed[{name}]', seeds, grid=g, hits=hs, req=req, normal=True, max_draws=12, **kw))
    for mode, d in (('free', 0), ('bounded', 1), ('hit', 2)):
        for k in ((1, 2) if q else (1, 2, 3)):
            out.append(Item(f'segment[{mode},{k}]', segment, k=k, mode=mode, max_draws=3 * k + d * (k + 1) + (0 if q else 3 * k + 2), **kw))
        out.append(Item(f'outside[{mode}]', outside, k=1, mode=mode, max_draws=[6, 11, 15][d], **kw))
    return out
