import numpy as np

from engine.harness import Item


def ends(h):
    """bridge duration and end points in either order (or equal)"""
    T, x0, d = h.pos('T'), h.real('x0'), h.pos('d')
    o = h.choose('order', ['up', 'down', 'flat'])
    return T, x0, x0 + d if o == 'up' else x0 - d if o == 'down' else x0, x0 - d if o == 'down' else x0


def trunc(h, lo):
    """truncation interval below the lower end point lo: keyword arguments, lower and upper limit"""
    ub = h.choose('ub', ['none', 'end', 'below'])
    lb = h.choose('lb', ['none', 'inf', 'given'])
    top = lo - h.pos('gu') if ub == 'below' else lo
    bot = top - h.pos('gl') if lb == 'given' else None
    kw = {}
    if ub != 'none':
        kw['ub_min_x'] = top
    if lb == 'inf':
        kw['lb_min_x'] = h.num(-float('inf'))
    elif lb == 'given':
        kw['lb_min_x'] = bot
    return kw, bot, top


def cdf0(h, m, T, x0, xT):
    return h.exp(-2 * (x0 - m) * (xT - m) / T)


def cdf(h, m, T, x0, xT, bot, top):
    a = h.num(0) if bot is None else cdf0(h, bot, T, x0, xT)
    b = cdf0(h, top, T, x0, xT)
    return (cdf0(h, m, T, x0, xT) - a) / (b - a)


def distribution(h):
    ht = h.mod('sdelib.hitting')
    T, x0, xT, lo = ends(h)
    where = h.choose('m', ['below', 'at', 'above'])
    m = lo - h.pos('gm') if where == 'below' else lo if where == 'at' else lo + h.pos('gm')
    p = ht.cdf_brownbr_min(m, T, x0, xT)
    h.check('distribution function', h.eq(p, cdf0(h, m, T, x0, xT) if where == 'below' else 1))
    h.observe('cdf', p)


def truncated(h):
    ht = h.mod('sdelib.hitting')
    T, x0, xT, lo = ends(h)
    kw, bot, top = trunc(h, lo)
    where = h.choose('m', ['top', 'bottom', 'inside'])
    if where == 'top':
        m = top
    elif where == 'bottom':
        if bot is None:
            h.check('limit', h.eq(ht.cdf_brownbr_min(h.num(-float('inf')), T, x0, xT, **kw), 0))
            return
        m = bot
    elif bot is None:
        m = top - h.pos('gm')
    else:
        m = bot + (top - bot) * h.unit('wm')
    p = ht.cdf_brownbr_min(m, T, x0, xT, **kw)
    h.check('truncated distribution function', h.eq(p, cdf(h, m, T, x0, xT, bot, top)))
    if where == 'top':
        h.check('one at the top', h.eq(p, 1))
    if where == 'bottom':
        h.check('zero at the bottom', h.eq(p, 0))
    h.check('a probability', h.all([h.le(0, p), h.le(p, 1)]))
    h.observe('cdf', p)


def quantile(h):
    ht = h.mod('sdelib.hitting')
    T, x0, xT, lo = ends(h)
    kw, bot, top = trunc(h, lo)
    p = h.unit('p')
    m = ht.ppf_brownbr_min(p, T, x0, xT, **kw)
    h.check('below both end points', h.all([h.le(m, x0), h.le(m, xT)]))
    h.check('inside the truncation interval', within(h, m, T, x0, xT, bot, top))
    h.check('inverse of the distribution function', h.eq(cdf(h, m, T, x0, xT, bot, top), p))
    h.observe('ppf', m)


def within(h, m, T, x0, xT, bot, top):
    """bot <= m <= top for m below both end points, through the strictly increasing distribution function"""
    f = cdf0(h, m, T, x0, xT)
    return h.all([h.le(f, cdf0(h, top, T, x0, xT))] + ([] if bot is None else [h.le(cdf0(h, bot, T, x0, xT), f)]))


def monotone(h):
    """the oracle's own distribution function is strictly increasing below both end points (used by within)"""
    T, x0, xT, lo = ends(h)
    a = lo - h.real('ga', 0, None, lo_strict=False)
    b = a - h.pos('gb')
    h.check('strictly increasing', h.lt(cdf0(h, b, T, x0, xT), cdf0(h, a, T, x0, xT)))


def by_quantile(h, T, x0, xT, lo, bot, top):
    """an arbitrary value below the end points (inside the limits) and the uniform it is the quantile of"""
    m = top - h.pos('gm') if bot is None else bot + (top - bot) * h.unit('wm')
    return m, cdf(h, m, T, x0, xT, bot, top)


def roundtrip(h):
    """quantile of the distribution function"""
    ht = h.mod('sdelib.hitting')
    T, x0, xT, lo = ends(h)
    kw, bot, top = trunc(h, lo)
    m = top - h.pos('gm') if bot is None else bot + (top - bot) * h.unit('wm')
    h.check('quantile inverts', h.eq(ht.ppf_brownbr_min(ht.cdf_brownbr_min(m, T, x0, xT, **kw), T, x0, xT, **kw), m))


def edges(h):
    ht = h.mod('sdelib.hitting')
    T, x0, xT, lo = ends(h)
    kw, bot, top = trunc(h, lo)
    h.check('quantile at one', h.eq(ht.ppf_brownbr_min(h.num(1), T, x0, xT, **kw), top))
    if bot is not None:
        h.check('quantile at zero', h.eq(ht.ppf_brownbr_min(h.num(0), T, x0, xT, **kw), bot))


def guards(h):
    """inconsistent truncation limits and non-positive durations are refused"""
    ht = h.mod('sdelib.hitting')
    T, x0, xT, lo = ends(h)
    what = h.choose('what', ['duration', 'top above end point', 'reversed limits'])
    kw = {}
    if what == 'duration':
        T = h.real('badT', None, 0, hi_strict=False)
    elif what == 'top above end point':
        kw = dict(ub_min_x=lo + h.pos('g'))
    else:
        kw = dict(ub_min_x=lo - h.pos('g'), lb_min_x=lo - h.unit('w') * h.pos('g'))
    for f, a in ((ht.cdf_brownbr_min, (lo - 3,)), (ht.ppf_brownbr_min, (h.unit('p'),)), (ht.sample_brownbr_min, ())):
        r = h.call(f, *a, T, x0, xT, allow=(AssertionError, ValueError), **kw)
        h.check('refused', h.const(isinstance(r, Exception)))


def time_map(h, w, first, T):
    return T / (1 + w) if first else T / (1 + 1 / w)


def mixture(h, T, x0, xT, m):
    """odds and parameters of the two inverse-Gaussian components given the minimum m"""
    a, b = xT - m, x0 - m
    return a / b, a * a / T, b * b / T


def sampled(h):
    ht = h.mod('sdelib.hitting')
    T, x0, xT, lo = ends(h)
    kw, bot, top = trunc(h, lo)
    want, h.script['g.u0'] = by_quantile(h, T, x0, xT, lo, bot, top)
    t, m = ht.sample_brownbr_min(T, x0, xT, ome=h.gen(), **kw)
    us, ws = h.flat_prims('u'), h.drawn('w')
    if len(us) != 2 or len(ws) != 1:
        h.check('two uniforms and one inverse Gaussian', h.const(False))
        return
    h.check('value below both end points', h.all([h.lt(m, x0), h.lt(m, xT)]))
    h.check('value is the quantile of a uniform', h.eq(m, want))
    h.check('time inside the horizon', h.all([h.lt(0, t), h.lt(t, T)]))
    ratio, l1, l2 = mixture(h, T, x0, xT, m)
    # component 1 with odds 1 : |xT-m|/|x0-m|
    first = h.decide(h.lt(us[1] * (1 + ratio), 1))
    w = ws[0]
    h.check('component mean', h.eq(w.par['mean'], ratio if first else 1 / ratio))
    h.check('component shape', h.eq(w.par['scale'], l1 if first else l2))
    h.check('time of the minimum', h.eq(t, time_map(h, w.prim, first, T)))
    h.observe('sample', [t, m])


def seeded(h):
    tr = h.mod('sdelib.transforms')
    T, x0, xT, lo = ends(h)
    m0, u0 = by_quantile(h, T, x0, xT, lo, None, lo)
    u = [u0, h.unit('u1'), h.unit('u2')]
    r2 = h.pos('r2')
    t, m = tr.gen_seeded_brownbr_min(h.arr(u), r2, T, x0, xT)
    h.check('value is the quantile of the seed', h.all([h.eq(m, m0), h.lt(m, x0), h.lt(m, xT)]))
    h.check('time inside the horizon', h.all([h.lt(0, t), h.lt(t, T)]))
    ratio, l1, l2 = mixture(h, T, x0, xT, m)
    first = h.decide(h.lt(u[2] * (1 + ratio), 1))
    w = time_ratio(h, t, first, T)
    mu, lam = (ratio, l1) if first else (1 / ratio, l2)
    # the inverse-Gaussian variate solves lam (w-mu)^2 = mu^2 w r2, smaller root with probability mu/(mu+w)
    h.check('inverse Gaussian root', h.eq(lam * (w - mu) ** 2, mu ** 2 * w * r2))
    h.check('inverse Gaussian branch', h.any([
        h.all([h.le(w, mu), h.le(u[1] * (mu + w), mu)]),
        h.all([h.ge(w, mu), h.ge(u[1] * (mu + mu ** 2 / w), mu)])]))
    h.observe('seeded', [t, m])


def time_ratio(h, t, first, T):
    return T / t - 1 if first else 1 / (T / t - 1)


def items(tier):
    q = tier == 'quick'
    b = 60 if q else 300
    return [Item('cdf', distribution, budget=b), Item('cdf[truncated]', truncated, budget=b),
            Item('ppf', quantile, budget=b), Item('ppf(cdf)', roundtrip, budget=b), Item('ppf[edges]', edges, budget=b),
            Item('guards', guards, budget=b), Item('sample', sampled, budget=b), Item('seeded', seeded, budget=b), Item('monotone', monotone, budget=b)]
