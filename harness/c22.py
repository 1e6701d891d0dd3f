"""Adaptive rejection sampling: hulls, inversion of the envelope, emission and refinement"""
from fractions import Fraction

import numpy as np

from engine.harness import Gap, Item
from .c19 import bounds_pair

INF = float('inf')


class Seen(Exception):
    """stops the sampler once the candidate of interest has been handed to the target"""


def tangents(h, n):
    """supports, values, slopes and intersections of n tangents of an arbitrary concave function"""
    ys = [h.real('y1')]
    for i in range(2, n):
        ys.append(ys[-1] + h.pos(f'gap{i}'))
    sl = [h.real('s0')]
    for i in range(1, n):
        sl.append(sl[-1] - h.pos(f'drop{i}'))
    xs = [ys[0] - h.pos('off0')]
    for i in range(1, n - 1):
        xs.append(ys[i - 1] + h.unit(f'off{i}') * (ys[i] - ys[i - 1]))
    xs.append(ys[-1] + h.pos(f'off{n - 1}'))
    fs = [h.real('f0')]
    for i in range(1, n):
        fs.append(fs[-1] + sl[i - 1] * (ys[i - 1] - xs[i - 1]) + sl[i] * (xs[i] - ys[i - 1]))
    return xs, fs, sl, ys


def hulls(h):
    ars = h.mod('misc.ars')
    n = h.p['n']
    xs, fs, sl, ys = tangents(h, n)
    x, fx, dfx = h.arr(xs), h.arr(fs), h.arr(sl)
    y = ars.gen_upper(x, fx, dfx)
    h.check('breakpoints are the tangent intersections', h.eq_all(y, ys))
    lb, ub = (-INF, INF) if h.p['open'] else (xs[0] - h.pos('left'), xs[-1] + h.pos('right'))
    ext = np.array([lb, *ys, ub]) if h.p['open'] else h.arr([lb, *ys, ub])
    # the point lies in sector i, on either side of its support
    i = h.choose('sector', range(n))
    side = h.choose('side', (-1, 1))
    if side < 0:
        lo = ys[i - 1] if i else (None if h.p['open'] else lb)
        r = xs[i] - (h.pos('d') if lo is None else h.unit('d') * (xs[i] - lo))
    else:
        hi = ys[i] if i < n - 1 else (None if h.p['open'] else ub)
        r = xs[i] + (h.pos('d') if hi is None else h.unit('d') * (hi - xs[i]))
    up = ars.eval_upper(x, fx, dfx, ext, r)
    own = fs[i] + sl[i] * (r - xs[i])
    h.check('upper hull is the tangent of its sector', h.eq(up, own))
    for k in range(n):
        h.check('upper hull is the lowest tangent', h.le(up, fs[k] + sl[k] * (r - xs[k])))
    low = ars.eval_lower(x, fx, r)
    k = i - 1 if side < 0 else i
    if k < 0 or k == n - 1:
        h.check('no lower hull beyond the supports', h.const(bool(h.isinf(low)) and low < 0))
    else:
        w = (r - xs[k]) / (xs[k + 1] - xs[k])
        h.check('lower hull is the chord', h.eq(low, fs[k] * (1 - w) + fs[k + 1] * w))
        h.check('hulls are ordered', h.le(low, up))


def parabola(h):
    """hulls around a concave quadratic target"""
    ars = h.mod('misc.ars')
    n = h.p['n']
    c, b = h.pos('c'), h.real('b')
    xs = [h.real('x0')]
    for i in range(1, n):
        xs.append(xs[-1] + h.pos(f'dx{i}'))
    x = h.arr(xs)

    def f(v):
        return -c * v * v + b * v

    def df(v):
        return -2 * c * v + b
    fx, dfx = f(x), df(x)
    y = ars.gen_upper(x, fx, dfx)
    for i in range(n - 1):
        h.check('breakpoints lie between the supports', h.all([h.lt(xs[i], y[i]), h.lt(y[i], xs[i + 1])]))
    r = h.real('r')
    ext = np.array([-INF, *y, INF])
    up, low = ars.eval_upper(x, fx, dfx, ext, r), ars.eval_lower(x, fx, r)
    h.check('upper hull above the target', h.ge(up, f(r)))
    if not h.isinf(low):
        h.check('lower hull below the target', h.le(low, f(r)))


def coinciding(h):
    """log-linear targets: all tangents coincide"""
    ars = h.mod('misc.ars')
    n = h.p['n']
    s, f0 = (h.num(0) if h.p['flat'] else h.real('s')), h.real('f0')
    xs = [h.real('x0')]
    for i in range(1, n):
        xs.append(xs[-1] + h.pos(f'dx{i}'))
    x = h.arr(xs)
    fx, dfx = h.arr([f0 + s * v for v in xs]), h.arr([s for _ in xs])
    y = ars.gen_upper(x, fx, dfx)
    for i in range(n - 1):
        h.check('breakpoints lie between the supports', h.all([h.le(xs[i], y[i]), h.le(y[i], xs[i + 1])]))
    r = h.real('r')
    up = ars.eval_upper(x, fx, dfx, np.array([-INF, *y, INF]), r)
    h.check('upper hull is the target', h.eq(up, f0 + s * r))
    low = ars.eval_lower(x, fx, r)
    if not h.isinf(low):
        h.check('lower hull is the target', h.eq(low, f0 + s * r))


class Hull:
    """an envelope given by its heights (not logs) at the breakpoints; slopes are symbolic, their signs are given.
    Segment i runs from height hs[i] to hs[i+1]; the first (last) is a tail of height 0 when the domain is open there."""

    def __init__(self, h, signs, open_left, open_right, origin=None, mags=None):
        n = len(signs)
        self.h, self.n = h, n
        self.s = []
        for i, g in enumerate(signs):
            m = mags[i] if mags else h.pos(f'slope{i}')
            self.s.append(h.num(0) if g == 0 else g * m)
        hs, self.width = [None] * (n + 1), [None] * n
        hs[0] = h.num(0) if open_left else h.pos('h0')
        for i, g in enumerate(signs):
            if i == n - 1 and open_right:
                hs[i + 1] = h.num(0)
            elif g > 0:
                hs[i + 1] = hs[i] + h.pos(f'h{i + 1}')
            elif g == 0:
                hs[i + 1] = hs[i]
            else:
                hs[i + 1] = hs[i] * h.unit(f'h{i + 1}')
        self.hs = hs
        lb = -INF if open_left else h.real('lb')
        first = h.real('y1') if open_left else None
        ys = [lb]
        for i, g in enumerate(signs):
            if i == 0 and open_left:
                ys.append(first)
            elif i == n - 1 and open_right:
                ys.append(INF)
            else:
                w = h.pos(f'w{i}') if g == 0 else (h.log(hs[i + 1]) - h.log(hs[i])) / self.s[i]
                self.width[i] = w
                ys.append(ys[-1] + w)
        self.y = ys
        xs, fs = [], []
        for i, g in enumerate(signs):
            if g == 0:
                xs.append(ys[i] + h.unit(f'd{i}') * self.width[i])
                fs.append(h.log(hs[i]))
            elif i == 0 and open_left:
                d = h.unit(f'd{i}')
                xs.append(ys[1] + h.log(d) / self.s[i])
                fs.append(h.log(hs[1]) + h.log(d))
            elif i == n - 1 and open_right:
                d = h.unit(f'd{i}')
                xs.append(ys[i] + h.log(d) / self.s[i])
                fs.append(h.log(hs[i]) + h.log(d))
            else:
                e = hs[i] + h.unit(f'd{i}') * (hs[i + 1] - hs[i])
                xs.append(ys[i] + (h.log(e) - h.log(hs[i])) / self.s[i])
                fs.append(h.log(e))
        self.x, self.f = xs, fs

    def masses(self):
        out = []
        for i in range(self.n):
            if self.width[i] is not None and self.h.same(self.s[i], 0):
                out.append(self.hs[i] * self.width[i])
            else:
                out.append((self.hs[i + 1] - self.hs[i]) / self.s[i])
        return out

    def below(self, i, r):
        """envelope mass left of r, which lies in sector i"""
        m = sum(self.masses()[:i], self.h.num(0))
        if self.h.same(self.s[i], 0):
            return m + self.hs[i] * (r - self.y[i])
        return m + (self.h.exp(self.f[i] + self.s[i] * (r - self.x[i])) - self.hs[i]) / self.s[i]

    def total(self):
        return sum(self.masses(), self.h.num(0))

    def sector(self, z):
        """sector holding mass z, as a fork"""
        acc = self.h.num(0)
        ms = self.masses()
        for i in range(self.n - 1):
            acc = acc + ms[i]
            if self.h.decide(self.h.le(z, acc)):
                return i
        return self.n - 1


def invert(h):
    ars = h.mod('misc.ars')
    e = Hull(h, h.p['signs'], *h.p['open'])
    r = ars.sample_envelope(h.arr(e.x), h.arr(e.f), h.arr(e.s), h.arr(e.y), h.gen('g'))
    z, = h.flat_prims('u')
    i = e.sector(z * e.total())
    h.check('mass below the point equals the draw', h.eq(e.below(i, r), z * e.total()))


def lookup(h, known, v):
    for a, b in known:
        if h.same(a, v):
            return b
    return None


def emission(h):
    """two supports of equal height (flat chord); one candidate, emitted exactly when the test uniform is below target / envelope"""
    ars = h.mod('misc.ars')
    s0, s1 = h.pos('s0'), -h.pos('s1')
    top = h.pos('top')
    ym = h.real('y')
    d = h.unit('depth')
    # both supports sit at height top * d
    xs = [ym + h.log(d) / s0, ym + h.log(d) / s1]
    fs = [h.log(top) + h.log(d)] * 2
    where = h.p['where']
    sec = 0 if where in ('left tail', 'left') else 1
    # the candidate sits at height c on tangent sec
    c = top * d * h.unit('c') if 'tail' in where else top * (d + (1 - d) * h.unit('c'))
    r = ym + (h.log(c) - h.log(top)) / (s0, s1)[sec]
    mass = [top / s0, -top / s1]
    z = (c / s0 if sec == 0 else mass[0] + (c - top) / s1) / (mass[0] + mass[1])
    # the target there: above the chord, below the envelope
    if 'tail' in where:
        w = c * h.unit('w')
    else:
        w = top * d + (c - top * d) * h.unit('w')
    g = h.num(0) if 'tail' not in where else (s0 + h.pos('g') if sec == 0 else s1 - h.pos('g'))
    asked = []
    known_f = [(xs[0], fs[0]), (xs[1], fs[1]), (r, h.log(w))]
    known_d = [(xs[0], s0), (xs[1], s1), (r, g)]

    def at(known):
        def f(v):
            a = np.asarray(v)
            if a.ndim:
                return h.arr([f(u) for u in a.reshape(-1)])
            out = lookup(h, known, v)
            if out is None:
                asked.append(v)
                raise Seen()
            return out
        return f
    init = h.choose('order', (0, 1)) if h.p['deep'] else h.p['max_points'] > 2
    h.script['g.u0'] = z
    it = ars.sample(at(known_f), at(known_d), -INF, INF, init=h.arr(xs[::-1] if init else xs), ome=h.gen('g'),
                    max_points=h.p['max_points'], max_draws=1)
    try:
        out = next(it)
    except Seen:
        out = None
    us = h.flat_prims('u')
    test = us[1]
    if out is not None and len(us) == 2:
        h.check('emitted point is the inverted draw', h.eq(out, r))
        h.check('emitted only below the target', h.le(test * c, w))
        try:
            next(it)
            h.check('stops after the requested number of draws', h.const(False))
        except StopIteration:
            pass
        return
    h.check('rejected only above the target', h.ge(test * c, w))
    # the next candidate comes from the refined hull
    if out is None:
        cand = asked[0]
    else:
        cand = out
    z2 = us[2]
    if h.p['max_points'] <= 2:
        ms = [top / s0, -top / s1]
        lo, tot = c, sum(ms, h.num(0))
        if h.decide(h.le(z2 * tot, ms[0])):
            below = h.exp(h.log(top) + s0 * (cand - ym)) / s0
        else:
            below = ms[0] + (h.exp(h.log(top) + s1 * (cand - ym)) - top) / s1
        h.check('hull kept at its largest size', h.eq(below, z2 * tot))
        return
    # middle tangent is flat at height w
    ya, yb = ym + (h.log(w) - h.log(top)) / s0, ym + (h.log(w) - h.log(top)) / s1
    ms = [w / s0, w * (yb - ya), -w / s1]
    tot = sum(ms, h.num(0))
    if h.decide(h.le(z2 * tot, ms[0])):
        below = h.exp(h.log(w) + s0 * (cand - ya)) / s0
    elif h.decide(h.le(z2 * tot, ms[0] + ms[1])):
        below = ms[0] + w * (cand - ya)
    else:
        below = ms[0] + ms[1] + (h.exp(h.log(w) + s1 * (cand - yb)) - w) / s1
    h.check('rejected candidate joins the hull in order', h.eq(below, z2 * tot))


def brace(h):
    ars = h.mod('misc.ars')
    lo, hi = h.p['open']
    lb = -INF if lo else h.real('lb')
    m = h.real('mode') if lo else lb + h.pos('up')
    ub = INF if hi else m + h.pos('down')

    def hook(h, fun, x0, k, index):
        h.mins.append(1)
        v = h.real('probe')
        h.check('minimises the negated target', h.eq(fun(h.arr([v])), -(3 * v - v * v)))
        (a,), (b,) = bounds_pair(k, 1)
        for own, given in ((a, lb), (b, ub)):
            # the target may not be defined beyond its domain
            h.check('searches the domain', h.const(own is None or h.isinf(own)) if h.isinf(given) else h.const(False) if own is None
                    or h.isinf(own) else h.eq(own, given))
        from scipy.optimize import OptimizeResult
        return OptimizeResult(x=h.arr([m]), fun=-(3 * m - m * m), success=True)
    h.min_hook = hook
    a, b = ars.brace(lambda v: 3 * v - v * v, lb, ub)
    h.check('on either side of the mode', h.all([h.lt(a, m), h.lt(m, b)]))
    h.check('inside the domain', h.all(([] if lo else [h.lt(lb, a)]) + ([] if hi else [h.lt(b, ub)])))


def items(tier):
    deep = tier == 'thorough'
    out = []
    for n in (2, 3, 4) if deep else (2, 3):
        for o in (True, False):
            out.append(Item(f'hulls:{n}:{"open" if o else "closed"}', hulls, n=n, open=o, budget=200 if deep else 40))
    for n in (2, 3, 4) if deep else (2, 3):
        out.append(Item(f'quadratic:{n}', parabola, n=n, budget=300 if deep else 40))
        out.append(Item(f'log-linear:{n}', coinciding, n=n, flat=False))
        out.append(Item(f'flat:{n}', coinciding, n=n, flat=True))
    shapes = [((1, -1), (True, True)), ((-1, -1), (False, True)), ((1, 1), (True, False)), ((1, -1), (False, False)),
              ((0, 0), (False, False)), ((1, 0, -1), (True, True)), ((1, 1, -1), (True, True)), ((0, -1), (False, True))]
    if deep:
        shapes += [((1, 1, -1, -1), (True, True)), ((1, 0, -1), (False, False)), ((1, 1, 0, -1), (False, True)),
                   ((1, 1, -1, -1), (False, False)), ((-1, -1, -1), (False, True))]
    for s, o in shapes:
        out.append(Item(f'inversion:{"".join("0+-"[v] for v in s)}:{"".join("fo"[v] for v in o)}', invert, signs=s, open=o,
                        budget=200 if deep else 40))
    for w in ('left', 'right', 'left tail', 'right tail'):
        for mp in (2, 10):
            if 'tail' in w and mp > 2:
                continue
            out.append(Item(f'emission:{w.replace(" ", "-")}:{mp}', emission, where=w, max_points=mp, deep=deep, budget=400 if deep else 25,
                            branch_timeout=2 if deep else 0.5))
    for o in ((True, True), (False, True), (True, False), (False, False)):
        out.append(Item(f'brace:{"".join("fo"[v] for v in o)}', brace, open=o))
    return out
