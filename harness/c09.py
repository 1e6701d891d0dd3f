from fractions import Fraction

import numpy as np

from engine.harness import Item
from .c07 import cdf0, ends
from .c08 import brownian_terms, bessel_zero_terms, apart, verdict
from .lib import abstract_escapes

INF = float('inf')


def bounds(h, lo, hi):
    """state bounds around both end points"""
    kw = {}
    lb = ub = None
    if h.choose('lb', ['none', 'given']) == 'given':
        lb = kw['lb_x'] = lo - h.pos('lg')
    if h.choose('ub', ['none', 'given']) == 'given':
        ub = kw['ub_x'] = hi + h.pos('ug')
    return kw, lb, ub


def lower(h, m, T, x0, xT, lb):
    """probability that the bridge falls below m given that it stays above lb"""
    a = h.num(0) if lb is None else cdf0(h, lb, T, x0, xT)
    return (cdf0(h, m, T, x0, xT) - a) / (1 - a)


def edges(h):
    ly = h.mod('sdelib.layers')
    T, x0, xT, lo = ends(h)
    hi = x0 + xT - lo
    kw, lb, ub = bounds(h, lo, hi)
    n = h.p['n']
    es = [ly.compute_edges(i, T, x0, xT, **kw) for i in range(n)]
    h.check('layer zero', h.all([h.eq(es[0][0], lo), h.eq(es[0][1], hi)]))
    pl = [lower(h, e[0], T, x0, xT, lb) for e in es]
    pu = [lower(h, -e[1], T, -x0, -xT, None if ub is None else -ub) for e in es]
    for i in range(1, n):
        # (x0-m)(xT-m) >= 0 by the next checks, so the side of the midpoint decides on which side of both end points m lies
        h.check('outside the end points', h.all([h.le(es[i][0], (x0 + xT) / 2), h.le((x0 + xT) / 2, es[i][1])]))
        h.check('same exit probability below and above', h.eq(pl[i], pu[i]))
        # strict containment, through the strictly increasing distribution functions
        h.check('nested', h.all([h.lt(pl[i], pl[i - 1]), h.lt(pu[i], pu[i - 1])]))
        h.check('inside the state bounds', h.all([h.lt(0, pl[i]), h.lt(0, pu[i])]))
    h.observe('edges', [x for e in es for x in e])


def exhaust(h):
    """the layers exhaust the state space: the exit probability of layer i is 1/(i^2+1) of the admissible paths"""
    ly = h.mod('sdelib.layers')
    T, x0, xT, lo = ends(h)
    kw, lb, ub = bounds(h, lo, x0 + xT - lo)
    i = h.choose('i', h.p['far'])
    le, ue = ly.compute_edges(i, T, x0, xT, **kw)
    h.check('exit probability decreases to zero', h.le(lower(h, le, T, x0, xT, lb) * i, 1))
    h.check('outside the end points', h.le(le, (x0 + xT) / 2))


def guards(h):
    """end points outside the state bounds are refused"""
    ly = h.mod('sdelib.layers')
    T, x0, xT, lo = ends(h)
    what = h.choose('what', ['lower', 'upper', 'duration'])
    kw = dict(lb_x=lo + h.real('g', 0, None, lo_strict=False)) if what == 'lower' else \
        dict(ub_x=x0 + xT - lo - h.real('g', 0, None, lo_strict=False)) if what == 'upper' else {}
    if what == 'duration':
        T = h.real('badT', None, 0, hi_strict=False)
    r = h.call(ly.compute_edges, h.choose('i', [0, 1, 2]), T, x0, xT, allow=(AssertionError, ValueError), **kw)
    h.check('refused', h.const(isinstance(r, Exception)))


# ---------------------------------------------------------------------------- concrete geometries, every value of the draw

GEO = [(1, 0, 0), (1, 0, '1/2'), ('1/2', '1/2', '1/4')]


def geometry(h):
    T, x0, xT = [h.num(Fraction(x)) for x in h.choose('geometry', h.p['geo'])]
    lo, hi = (x0, xT) if h.decide(h.le(x0, xT)) else (xT, x0)
    kw = {}
    lb = ub = None
    if h.p['lb']:
        lb = kw['lb_x'] = lo - Fraction(h.p.get('gap', '3/2'))
    if h.p['ub']:
        ub = kw['ub_x'] = hi + Fraction(h.p.get('ugap', h.p.get('gap', '5/4')))
    return T, x0, xT, lo, hi, kw, lb, ub


def edge(h, i, T, x0, xT, lo, hi, lb, ub):
    """oracle: where the bridge reaches with probability 1/(i^2+1), given the state bound"""
    def q(x0, xT, lb):
        p = h.num(Fraction(1, i * i + 1))
        if lb is not None:
            a = cdf0(h, lb, T, x0, xT)
            p = p * (1 - a) + a
        return (x0 + xT - h.sqrt((xT - x0) ** 2 - 2 * T * h.log(p))) / 2
    if i == 0:
        return lo, hi
    return q(x0, xT, lb), -q(-x0, -xT, None if ub is None else -ub)


def exits(h, T, x0, xT, le, ue, n):
    """partial sums of the probability to leave (le, ue)"""
    c = (le + ue) / 2
    return brownian_terms(h, T, x0 - c, xT - c, (ue - le) / 2, n)


def shared(h, T, x0, xT, lo, hi, lb, ub, n, us):
    """the draw shared by all layers, from the raw uniforms; returns its value and how many uniforms it used"""
    if lb is not None and ub is not None:
        sums = exits(h, T, x0, xT, lb, ub, n)
        for k, u in enumerate(us):
            for y in sums:
                apart(h, u, y)
            if not h.decide(h.lt(u, h.approx(sums[-1]))):
                return u, k + 1
        return None, len(us)
    a = cdf0(h, lb, T, x0, xT) if lb is not None else cdf0(h, -ub, T, -x0, -xT) if ub is not None else h.num(0)
    return a + (1 - a) * us[0], 1


def layer_checks(h, l, u, T, x0, xT, lo, hi, lb, ub, n):
    """l is the first layer the shared draw does not leave"""
    h.check('a positive layer', h.const(int(l) == l and l >= 1))
    for k in range(1, int(l) + 1):
        le, ue = edge(h, k, T, x0, xT, lo, hi, lb, ub)
        if ub is None and lb is None or True:
            sums = exits(h, T, x0, xT, le, ue, n)
        for y in sums:
            apart(h, u, y)
        out = h.lt(u, h.approx(sums[-1]))
        h.check('earlier layers are left' if k < l else 'the layer is not left', out if k < l else h.neg(out))


def layer(h):
    ly = h.mod('sdelib.layers')
    T, x0, xT, lo, hi, kw, lb, ub = geometry(h)
    l = ly.sample_layer(T, x0, xT, ome=h.gen(), **kw)
    us = h.flat_prims('u')
    u, k = shared(h, T, x0, xT, lo, hi, lb, ub, h.p['n'], us)
    h.check('shared draw', h.const(u is not None and k == len(us)))
    if u is None:
        return
    layer_checks(h, l, u, T, x0, xT, lo, hi, lb, ub, h.p['n'])
    h.observe('layer', int(l))


def conditioned(h):
    """with two state bounds the draw shared by the layers is redrawn exactly while the path would leave the bounds"""
    ly = h.mod('sdelib.layers')
    T, x0, xT, lo, hi, kw, lb, ub = geometry(h)
    sums = exits(h, T, x0, xT, lb, ub, h.p['n'])
    p = sums[-1]
    leaves = h.choose('leaves', [True, False])
    u = h.unit('g.u0')
    for y in sums:
        apart(h, u, y)
    h.assume(h.lt(u, p * Fraction(99, 100)) if leaves else h.all([h.lt(p * Fraction(101, 100), u), h.lt(u, p * 2)]))
    # the next draws stay inside the first layer
    h.script['g.u1'] = h.num(Fraction(999, 1000))
    l = ly.sample_layer(T, x0, xT, ome=h.gen(), **kw)
    us = h.flat_prims('u')
    h.check('redrawn exactly while the path leaves the bounds', h.const(len(us) == (2 if leaves else 1)))
    h.check('a positive layer', h.const(int(l) >= 1))


def anchor(h):
    ly = h.mod('sdelib.layers')
    T, x0, xT, lo, hi, kw, lb, ub = geometry(h)
    which, los, his = ly.sample_anchor(T, x0, xT, ome=h.gen(), **kw)
    us = h.flat_prims('u')
    if lb is None and ub is None:
        h.check('either side equally likely', h.lt(us[-1], Fraction(1, 2)) if which else h.le(Fraction(1, 2), us[-1]))
    h.check('ordered sectors', h.all([h.lt(los[0], los[1]), h.le(los[1], lo), h.le(hi, his[0]), h.lt(his[0], his[1])]))
    if lb is not None:
        h.check('above the lower state bound', h.lt(lb, los[0]))
    if ub is not None:
        h.check('below the upper state bound', h.lt(his[1], ub))
    u, k = shared(h, T, x0, xT, lo, hi, lb, ub, h.p['n'], us)
    h.check('shared draw', h.const(u is not None))
    if u is None:
        return
    # the sectors of the first layer the shared draw does not leave
    for l in range(1, 13):
        c, d = edge(h, l, T, x0, xT, lo, hi, lb, ub)
        sums = exits(h, T, x0, xT, c, d, h.p['n'])
        for y in sums:
            apart(h, u, y)
        if not h.decide(h.lt(u, h.approx(sums[-1]))):
            break
    else:
        return
    a, b = edge(h, l - 1, T, x0, xT, lo, hi, lb, ub)
    h.check('sectors between consecutive layers', h.all([
        h.eq(los[0], c), h.eq(los[1], a), h.eq(his[0], b), h.eq(his[1], d)]))
    h.observe('sectors', list(los) + list(his))


def draw_edges(h):
    """the extreme values drawn inside given sectors"""
    ly = h.mod('sdelib.layers')
    T, x0, xT, lo, hi, kw, lb, ub = geometry(h)
    # any pair of nested sectors (not only the computed edges)
    l = h.p['layer']
    a, b = lo - Fraction(l - 1, 4), hi + Fraction(l - 1, 4)
    c, d = lo - Fraction(2 * l - 1, 4), hi + Fraction(2 * l - 1, 4)
    fc, fa = cdf0(h, c, T, x0, xT), cdf0(h, a, T, x0, xT)
    m = a + (c - a) * Fraction(h.choose('m', ['1/8', '3/4']))
    n = h.p['n']
    st = 4 if l == 1 else 7
    for k in range(2 if l == 1 else 1):
        w = Fraction(h.choose(f'w{k}', ['1/3', 2]))
        h.script[f'g.u{st * k}'] = (cdf0(h, m, T, x0, xT) - fc) / (fa - fc)
        h.script[f'g.u{st * k + 1}'] = h.num(Fraction(1, 100))
        h.script[f'g.w{k}'] = h.num(w)
        s = T / (1 + w)
        for j, (tt, e) in enumerate(((s, x0 - m), (T - s, xT - m))):
            y = bessel_zero_terms(h, tt, e, d - m, n + 1)
            for v in y:
                apart(h, h.unit(f'g.u{st * k + 2 + j}'), v)
            if l > 1:
                for v, z in zip(bessel_zero_terms(h, tt, e, b - m, n), y[1:]):
                    if h.decide(h.lt(z, 1)):
                        apart(h, h.unit(f'g.u{st * k + 4 + j}'), 1 - (1 - v) / (1 - z))
    t, mx, lsup, usup, hits = ly.sample_edges(T, x0, xT, (c, a), (b, d), h.gen())
    h.check('minimum inside its sector', h.all([h.lt(c, mx), h.lt(mx, a)]))
    h.check('time inside the horizon', h.all([h.lt(0, t), h.lt(t, T)]))
    h.check('bounds of the supremum', h.all([h.eq(lsup, b), h.eq(usup, d)]))
    h.check('bounds enclose the end points', h.all([h.lt(mx, lo), h.lt(hi, usup)]))
    first = h.decide(h.any([h.eq(lo, a), h.eq(lo, b)]))
    if first:
        h.check('no hits recorded in the first layer', h.const(hits is None))
    else:
        h.check('one flag per part', h.const(hits is not None and len(hits) == 2))
        us = h.flat_prims('u')
        k = st * (len(h.drawn('w')) - 1)
        if hits is not None and len(hits) == 2 and len(us) >= k + 6:
            for j, (tt, e) in enumerate(((t, x0 - mx), (T - t, xT - mx))):
                h.check('flags are the escape decisions below the outer bound', verdict(
                    h, 'bessel0', tt, h.num(0), e, b - mx, d - mx, us[k + 4 + j], bool(hits[j]), n))
            h.observe('flags', [bool(x) for x in hits])
    h.observe('edges', [t, mx, lsup, usup])


def fresh_edges(h):
    """same with symbolic end points and sectors"""
    ly = h.mod('sdelib.layers')
    T, x0, xT, lo = ends(h)
    hi = x0 + xT - lo
    a = lo
    c = a - h.pos('gc')
    b = hi
    d = b + h.pos('gd')
    m = c + (a - c) * h.unit('wm')
    fc, fa = cdf0(h, c, T, x0, xT), cdf0(h, a, T, x0, xT)
    h.script['g.u0'] = (cdf0(h, m, T, x0, xT) - fc) / (fa - fc)
    t, mx, lsup, usup, hits = ly.sample_edges(T, x0, xT, (c, a), (b, d), h.gen())
    h.check('minimum inside its sector', h.all([h.lt(c, mx), h.lt(mx, a)]))
    h.check('time inside the horizon', h.all([h.lt(0, t), h.lt(t, T)]))
    h.check('bounds of the supremum', h.all([h.eq(lsup, b), h.eq(usup, d)]))
    h.check('no hits recorded in the first layer', h.const(hits is None))


def raw(h):
    """raw bridge proposals: anchored below or above, certified range inside the state bounds"""
    ms = h.mod('ea3lib.skeleton')
    # the first proposed minimum is kept (its two escape decisions are negative)
    abstract_escapes(h, {'g.u4': False, 'g.u5': False})
    T, x0, xT, lo, hi, kw, lb, ub = geometry(h)
    l, u0 = h.choose('layer', [(1, '7/8'), (2, '2/5')])
    low = h.choose('anchor', [True, False])
    h.limit = {'w': 1, 'u': 6 if l == 1 else 9}
    h.script['g.u0'] = h.num(Fraction(u0))
    h.script['g.u1'] = h.num(Fraction(1, 1000) if low else Fraction(999, 1000))
    a, b = edge(h, l - 1, T, x0, xT, lo, hi, lb, ub)
    c, d = edge(h, l, T, x0, xT, lo, hi, lb, ub)
    if not low:
        a, c = -b, -d
    m = a + (c - a) * Fraction(h.choose('m', h.p['m']))
    y0, yT = (x0, xT) if low else (-xT, -x0)
    f = lambda v: cdf0(h, v, T, y0, yT)
    h.script['g.u2'] = (f(m) - f(c)) / (f(a) - f(c))
    skel = ms.sample_raw_skeleton(T, x0, xT, (-INF if lb is None else lb, INF if ub is None else ub), h.gen())
    t, x = list(skel.t), list(skel.x)
    h.check('starts and ends where asked', h.all([h.const(len(t) == len(x) >= 2), h.eq(t[0], 0), h.eq(t[-1], T), h.eq(x[0], x0), h.eq(x[-1], xT)]))
    h.check('times increase', h.increasing(t))
    le, ue = skel.tight_x, skel.loose_x
    if h.decide(h.lt(ue, le)):
        le, ue = ue, le
    h.check('certified range holds the path', h.all([h.all([h.le(le, v), h.le(v, ue)]) for v in x]))
    h.check('tight bound is attained', h.any([h.eq(v, skel.tight_x) for v in x]))
    h.check('hit level inside the range', h.all([h.le(le, skel.hit_x), h.le(skel.hit_x, ue)]))
    if lb is not None:
        h.check('range above the lower state bound', h.lt(lb, le))
    if ub is not None:
        h.check('range below the upper state bound', h.lt(ue, ub))
    h.observe('range', [le, ue, *t, *x])


def seeds(h):
    """raw seeds are proposed in normalised coordinates within the widest constant bounds that keep the path in the state space"""
    sw = h.p['switching']
    st, ms = h.mod('switching.static' if sw else 'ito.static'), h.mod('ea3lib.skeleton')
    lo, hi = h.real('lo', -4, 0), h.real('hi', 0, 4)
    one, two = h.p['lb'], h.p['ub']
    # normalised by the regime's volatility
    vol = [h.pos('s0'), h.pos('s1')]
    asked = []

    def raw(fin_t, init_x, fin_x, bounds_x, *a, **k):
        asked.append((fin_t, init_x, fin_x, *bounds_x))
        return ms.Skeleton(h.arr([0, Fraction(1, 2), 1]), h.arr([0, 0, 0]), h.num(-1), h.num(1), h.num(Fraction(-1, 2)), [True, True])
    h.summarise('ea3lib.skeleton', 'sample_raw_skeleton', lambda old: raw, both=True)
    ident, zero = (lambda *a: a[-1]), (lambda *a: 0 * a[-1])
    kw = dict(init_thi=np.ones(1), bounds_x=(lo if one else -INF, hi if two else INF), bounds_thi=None, reduce=ident, dereduce=ident,
              dv_reduce=zero, eval_drift=zero, sx_eval_drift=zero, dx_eval_drift=zero, eval_bounds_disc=zero,
              eval_bounds_grad=zero, eval_log_prior=zero)
    if sw:
        kw['eval_vol'] = lambda thi, y: vol[int(y)] if np.ndim(y) == 0 else h.arr([vol[int(i)] for i in y])
    out = st.assemble_model(**kw)
    n = 2
    t = [h.num(0), h.pos('d0')]
    t.append(t[1] + h.pos('d1'))
    inside = lambda name: h.real(name, -4 if not one else None, 4 if not two else None)
    v = [inside(f'v{i}') for i in range(3)]
    for x in v:
        if one:
            h.assume(h.lt(lo, x))
        if two:
            h.assume(h.lt(x, hi))
    ys = [0, 1, 1]
    thi = np.ones(1)
    if sw:
        y = h.mod('mjplib.skeleton').Skeleton(h.arr([h.num(0), t[1]]), np.array([0, 1]), t[2])
        z, aug = out[2](thi, y, h.arr([t[0], t[2]]), h.arr([v[0], v[2]]), h.gen())
        v = list(aug.vt)
        ys = [int(i) for i in aug.yt]
        # the value drawn at the change stays in the state space
        for x in v[1:2]:
            if one:
                h.assume(h.lt(lo, x))
            if two:
                h.assume(h.lt(x, hi))
    else:
        z = out[2](thi, h.arr(t), h.arr(v), h.gen())
    h.check('one seed per interval', h.const(len(z) == len(asked) == n))
    for i, (T, a, b, lb, ub) in enumerate(asked):
        h.check('standard coordinates', h.all([h.eq(T, 1), h.eq(a, 0), h.eq(b, 0)]))
        sc = h.sqrt(t[i + 1] - t[i]) * (vol[ys[i]] if sw else 1)
        for given, own, w, side in ((one, lb, lo, 1), (two, ub, hi, -1)):
            if not given:
                h.check('unbounded', h.const(h.isinf(own)))
                continue
            at = [(own * sc + x - w) * side for x in (v[i], v[i + 1])]
            h.check('inside the state space', h.all([h.le(0, x) for x in at]))
            h.check('as wide as that allows', h.any([h.eq(x, 0) for x in at]))


def items(tier):
    q = tier == 'quick'
    b = 30 if q else 300
    g = GEO
    out = [Item('edges', edges, n=3 if q else 5, budget=b), Item('exhaust', exhaust, far=[3, 10], budget=b),
           Item('guards', guards, budget=b)]
    for lb in (0, 1):
        for ub in (0, 1):
            t = f"{'lower' if lb else ''}{' upper' if ub else ''}".strip() or 'free'
            out += [Item(f'layer[{t}]', layer, lb=lb, ub=ub, geo=g, n=12, max_draws=2 if q else 3, max_branches=26 if q else 40,
                         budget=b),
                    Item(f'anchor[{t}]', anchor, lb=lb, ub=ub, geo=g, n=12, max_draws=3 if q else 4,
                         max_branches=26 if q else 40, budget=b)]
    out += [Item(f'conditioned[{i}]', conditioned, lb=1, ub=1, gap=gap, ugap=ug, geo=g[i:i + 1], n=12, max_draws=3, max_branches=60, budget=b)
            for i, (gap, ug) in enumerate([('1/2', '3/4'), ('1/2', '2/5'), ('1/3', '1/2')])]
    out += [Item(f"raw[{'lower' if lb else ''}{' upper' if ub else ''}]", raw, lb=lb, ub=ub, gap='3/2' if lb and ub else '1/4', m=['1/2'] if q else ['1/8', '3/4'], geo=g[1:2] if q else g, max_branches=20 if q else 40,
                 budget=b)
            for lb in (0, 1) for ub in (0, 1)]
    out += [Item(f"seeds[{'switching' if sw else 'ito'}{' lower' if lb else ''}{' upper' if ub else ''}]", seeds, switching=sw, lb=lb, ub=ub,
                 budget=b) for sw in (0, 1) for lb in (0, 1) for ub in (0, 1)]
    out += [Item(f'sectors[{l}]', draw_edges, lb=0, ub=0, layer=l, geo=g[1:2] if q else g, n=16, max_draws=8,
                 max_branches=34, budget=b) for l in ((1, 2) if q else (1, 2, 3))]
    out += [
            Item('sectors[symbolic]', fresh_edges, max_draws=5, max_branches=14 if q else 20, budget=b)]
    return out
