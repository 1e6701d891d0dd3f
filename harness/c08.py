import itertools
from fractions import Fraction

import numpy as np

from engine.harness import Item


# ------------------------------------------------------------------------------------------------ oracle series

def brownian_terms(h, T, a, b, u, n):
    """partial sums of the two-sided exit probability of a Brownian bridge a -> b from (-u, u), by reflections"""
    out, s = [], h.num(0)
    for i in range(1, n + 1):
        k = (i + 1) // 2
        if i % 2:
            # images through the walls: density ratio of ending at the reflected points
            for w in (1, -1):
                s = s + h.exp(-2 * ((2 * k - 1) * u - w * a) * ((2 * k - 1) * u - w * b) / T)
        else:
            for w in (1, -1):
                s = s - h.exp(((b - a) ** 2 - (b - a + w * 4 * k * u) ** 2) / (2 * T))
        out.append(s)
    return out


def bessel_zero_terms(h, T, b, u, n):
    """partial sums of the exit probability of a 3-d Bessel bridge 0 -> b above u"""
    out, s = [], h.num(0)
    for i in range(1, n + 1):
        k = (i + 1) // 2
        w = -1 if i % 2 else 1
        t = (b + w * 2 * k * u) * h.exp((b ** 2 - (b + w * 2 * k * u) ** 2) / (2 * T)) / b
        s = s - t
        out.append(s)
    return out


def bessel_terms(h, T, a, b, u, n, zero):
    if zero:
        return bessel_zero_terms(h, T, b, u, n)
    # Brownian bridge leaves (0, u) given that it stays positive
    stay = 1 - h.exp(-2 * a * b / T)
    return [1 - (1 - s) / stay for s in brownian_terms(h, T, a - u / 2, b - u / 2, u / 2, n)]


def terms(h, kind, T, a, b, u, n):
    return brownian_terms(h, T, a, b, u, n) if kind == 'brownian' else bessel_terms(h, T, a, b, u, n, kind == 'bessel0')


GAP = Fraction(1, 10 ** 9)


def apart(h, s, y):
    """leave out draws that rounding would decide"""
    y, g = h.approx(y), GAP if h.sym else GAP / 2
    h.assume(h.any([h.lt(s + g, y), h.lt(y, s - g)]))


def setup(h, inside=True):
    kind = h.p['kind']
    geo = h.p.get('geo')
    if geo is not None:
        # concrete geometries, every value of the draw
        T, a, b, u = [h.num(Fraction(x)) for x in h.choose('geometry', geo)]
        return T, h.num(0) if kind == 'bessel0' else a, b, u
    T, u = h.pos('T'), h.pos('u')
    if kind == 'brownian':
        a, b = u * h.real('wa', -1, 1), u * h.real('wb', -1, 1)
    else:
        a = h.num(0) if kind == 'bessel0' else u * h.unit('wa')
        b = u * h.unit('wb')
    return T, a, b, u


def functions(h):
    ht = h.mod('sdelib.hitting')
    return (ht.series_brownbr_esc, ht.sample_brownbr_esc) if h.p['kind'] == 'brownian' else \
        (ht.series_bessel3br_esc, ht.sample_bessel3br_esc)


# ------------------------------------------------------------------------------------------------ items

def series(h):
    T, a, b, u = setup(h)
    n = h.p['n']
    got = list(itertools.islice(functions(h)[0](T, a, b, u), n))
    want = terms(h, h.p['kind'], T, a, b, u, n)
    h.check('partial sums', h.eq_all(got, want))
    h.observe('sums', got)


def bounded(h):
    """conditional probability given the outer level: bounds combine bounds of the two exact probabilities"""
    T, a, b, u = setup(h)
    n = h.p['n']
    v = u + h.pos('dv')
    got = list(itertools.islice(functions(h)[0](T, a, b, u, v), n))
    r = terms(h, h.p['kind'], T, a, b, u, n)
    s = terms(h, h.p['kind'], T, a, b, v, n + 1)
    for i in range(n):
        if h.decide(h.lt(s[i + 1], 1)):
            h.check('conditional bound', h.eq(got[i], 1 - (1 - r[i]) / (1 - s[i + 1])))
        elif (i + 1) % 2 == 0:
            # the outer series gives no bound yet: nothing above zero may be reported as a lower bound
            h.check('no false lower bound', h.le(got[i], 0))
    h.observe('sums', got)


def bounded_law(h):
    """the reported bounds enclose (P - Q) / (1 - Q) for any P, Q the exact series still allow"""
    T, a, b, u = setup(h)
    n = h.p['n']
    v = u + h.pos('dv')
    got = list(itertools.islice(functions(h)[0](T, a, b, u, v), n))
    r = terms(h, h.p['kind'], T, a, b, u, n)
    s = terms(h, h.p['kind'], T, a, b, v, n + 1)
    P, Q = h.unit('P'), h.unit('Q')
    h.assume(h.le(Q, P))
    for i in range(n + 1):
        for x, y in ((r, P), (s, Q)):
            if i < len(x):
                h.assume(h.le(y, x[i]) if i % 2 == 0 else h.le(x[i], y))
    c = (P - Q) / (1 - Q)
    for i in range(n):
        h.check('upper bound' if i % 2 == 0 else 'lower bound', h.le(c, got[i]) if i % 2 == 0 else h.le(got[i], c))


def alternating(h):
    """consecutive partial sums bracket all later ones (the brackets used by decide are valid)"""
    T, a, b, u = setup(h)
    n = h.p['n']
    got = list(itertools.islice(functions(h)[0](T, a, b, u), n))
    for i in range(2, n):
        h.check('later sums stay inside the bracket', h.le(got[i], got[i - 2]) if i % 2 == 0 else h.le(got[i - 2], got[i]))
    for i in range(1, n):
        h.check('upper above lower', h.le(got[i], got[i - 1]) if i % 2 else h.le(got[i - 1], got[i]))


def settled(h, kind, T, u, sums, i):
    """from index i (1-based) on, the sums are bracketed by their neighbours"""
    if kind != 'bessel0':
        return h.const(True)
    # ratio of successive terms beyond an index where an upper bound improved on the previous one stays below one
    return h.any([h.lt(T, 3 * u ** 2)] + [h.lt(sums[j], sums[j - 2]) for j in range(2, i, 2)])


def decision(h):
    kind = h.p['kind']
    T, a, b, u = setup(h)
    given = h.p.get('bounded', False)
    v = None
    if given:
        v = u + (h.real('dv', 0, None, lo_strict=False) if 'geo' not in h.p else Fraction(h.choose('outer', ['1/64', '1/2'])))
    n = h.p['n']
    own = h.choose('seed', ['given', 'drawn'])
    if 'geo' in h.p:
        # draws closer than 1e-9 to a bound are left out: rounding decides those
        s = h.unit('seed' if own == 'given' else 'g.u0')
        x = terms(h, kind, T, a, b, u, n)
        if v is not None:
            x = ratio(h, x, terms(h, kind, T, a, b, v, n + 1))
        for y in x + [h.num(0), h.num(1)]:
            apart(h, s, y)
    kw = {} if v is None else dict(ub_x=v)
    if own == 'given':
        s = h.unit('seed')
        r = functions(h)[1](T, a, b, u, seed=s, ome=h.gen(), **kw)
        h.check('no draw', h.const(not h.draws))
    else:
        r = functions(h)[1](T, a, b, u, ome=h.gen(), **kw)
        us = h.flat_prims('u')
        h.check('one draw', h.const(len(us) == 1 and len(h.draws) == 1))
        if len(us) != 1:
            return
        s = us[0]
    judge(h, kind, T, a, b, u, v, s, bool(r), n)
    h.observe('decision', bool(r))


def judge(h, kind, T, a, b, u, v, s, r, n):
    h.check('yes: draw below a lower bound' if r else 'no: draw above an upper bound',
            verdict(h, kind, T, a, b, u, v, s, r, n))


def verdict(h, kind, T, a, b, u, v, s, r, n):
    """some bound among the first n justifies the decision r for the draw s"""
    x = terms(h, kind, T, a, b, u, n)
    y = None if v is None else terms(h, kind, T, a, b, v, n + 1)
    ok = []
    for i in range(1 if r else 0, n, 2):
        if y is None:
            c = h.lt(s, x[i]) if r else h.lt(x[i], s)
        else:
            z = 1 - (1 - x[i]) / (1 - y[i + 1])
            c = h.all([h.lt(y[i + 1], 1), h.lt(s, z) if r else h.lt(z, s)])
        ok.append(h.all([c, settled(h, kind, T, u, x, i + 1) if y is None or kind != 'bessel0' else
                         settled(h, kind, T, u, ratio(h, x, y), i + 1)]))
    return h.any(ok)


def ratio(h, x, y):
    return [1 - (1 - p) / (1 - q) for p, q in zip(x, y[1:])]


def trivial(h):
    """levels at or below an end point always escape; levels above the outer bound never do"""
    kind = h.p['kind']
    T, a, b, u = setup(h)
    f = functions(h)[1]
    s = h.unit('seed')
    what = h.choose('what', ['at start', 'at end', 'below start', 'below end', 'above'])
    if what == 'above':
        r = f(T, a, b, u + h.pos('d'), u, s)
        h.check('never above the outer bound', h.const(bool(r) is False))
        return
    e = a if what.endswith('start') else b
    if kind == 'brownian' and h.decide(h.lt(e, 0)):
        e = -e
    lvl = e if what.startswith('at') else e * h.unit('wl')
    if kind == 'bessel0' and what.endswith('start'):
        lvl = b * h.unit('wl')
    r = f(T, a, b, lvl, None, s)
    h.check('always escapes', h.const(bool(r) is True))
    r = f(T, a, b, lvl, u, s)
    h.check('always escapes below an outer bound', h.const(bool(r) is True))


def drawn(h):
    """a drawn seed is used exactly like a supplied one"""
    T, a, b, u = setup(h)
    f = functions(h)[1]
    r = f(T, a, b, u, ome=h.gen())
    us = h.flat_prims('u')
    if len(us) == 1:
        h.check('same decision', h.const(bool(f(T, a, b, u, seed=us[0])) == bool(r)))


def layered_min(h):
    """rejection sampling of the minimum below an upper level: every proposal is judged by its two escape decisions"""
    ht = h.mod('sdelib.hitting')
    # concrete geometry and proposals (through the quantile and the inverse-Gaussian variate), every value of the draws
    # that decide the escapes
    T, x0, xT, top = [h.num(Fraction(x)) for x in h.choose('geometry', [(1, 0, '1/2', 1), (4, 0, '-1/2', '1/4')])]
    lo = x0 if h.decide(h.lt(x0, xT)) else xT
    n, parts = h.p['n'], []
    for k in range(h.p['rounds'] + 1):
        m = lo - Fraction(h.choose(f'm{k}', ['1/4', 1]))
        w = Fraction(h.choose(f'w{k}', ['1/4', 2]))
        h.script[f'g.u{4 * k}'] = h.exp(-2 * (x0 - m) * (xT - m) / T)
        h.script[f'g.u{4 * k + 1}'] = h.num(Fraction(1, 100))
        h.script[f'g.w{k}'] = h.num(w)
        t = T / (1 + w)
        parts.append(((t, x0 - m), (T - t, xT - m)))
        for j, (tt, b) in enumerate(parts[-1]):
            for y in bessel_zero_terms(h, tt, b, top - m, n):
                apart(h, h.unit(f'g.u{4 * k + 2 + j}'), y)
    t, m = ht.sample_layerbr_min(T, x0, xT, top, ome=h.gen())
    rounds, cur = [], None
    for d in h.draws:
        if d.kind == 'w':
            cur = dict(w=d, us=[])
            rounds.append(cur)
        elif cur is not None:
            cur['us'].append(d.prim)
    # the last inverse-Gaussian draw belongs to the proposal that was returned; its uniforms decided the escapes
    for k, r in enumerate(rounds):
        r['esc'] = r['us'] if k == len(rounds) - 1 else r['us'][:-2]
    h.check('two decisions on the accepted proposal', h.const(len(rounds[-1]['esc']) == 2))
    if len(rounds[-1]['esc']) != 2:
        return
    for (tt, b), s in zip(((t, x0 - m), (T - t, xT - m)), rounds[-1]['esc']):
        judge(h, 'bessel0', tt, h.num(0), b, top - m, None, s, False, n)
    for k, r in enumerate(rounds[:-1]):
        if [len(x['esc']) for x in rounds[:k + 1]] != [2] * (k + 1):
            break
        h.check('a rejected proposal leaves', h.any([
            verdict(h, 'bessel0', tt, h.num(0), b, top - (x0 - b if j == 0 else xT - b), None, s,
                    True, n) for j, ((tt, b), s) in enumerate(zip(parts[k], r['esc']))]))
    h.observe('minimum', [t, m])


# short and long durations relative to the level, symmetric and lopsided end points
GEO = {'brownian': [('1/2', 0, 0, 1), (1, '1/2', '-1/4', 1), (4, '1/4', '3/4', 1), (6, 0, '1/2', 1)],
       'bessel': [('1/2', '1/2', '1/2', 1), (1, '1/8', '3/4', 1), (3, '1/2', '1/4', 1), (4, '1/4', '3/4', 1)],
       'bessel0': [('1/2', 0, '1/2', 1), (1, 0, '3/4', 1), (4, 0, '1/4', 1), (5, 0, '1/2', 1)]}


def items(tier):
    q = tier == 'quick'
    b = 25 if q else 300
    out = []
    for k in ('brownian', 'bessel', 'bessel0'):
        out += [Item(f'series[{k}]', series, kind=k, n=8 if q else 24, budget=b),
                Item(f'bounded[{k}]', bounded, kind=k, n=4 if q else 8, budget=b),
                Item(f'bounded law[{k}]', bounded_law, kind=k, n=2 if q else 4, budget=b),
                Item(f'decision[{k}]', decision, kind=k, n=14, max_branches=14 if q else 20, budget=b),
                Item(f'draws[{k}]', decision, kind=k, n=24, geo=GEO[k], max_branches=24 if q else 48, budget=b),
                Item(f'draws[{k},bounded]', decision, kind=k, bounded=True, n=24, geo=GEO[k],
                     max_branches=24 if q else 48, budget=b),
                Item(f'trivial[{k}]', trivial, kind=k, budget=b),
                Item(f'drawn[{k}]', drawn, kind=k, max_branches=12, budget=b)]
        if k == 'brownian' or not q:
            out.append(Item(f'decision[{k},bounded]', decision, kind=k, bounded=True, n=14, max_branches=14 if q else 20,
                            budget=b))
        if k != 'bessel0':
            out.append(Item(f'alternating[{k}]', alternating, kind=k, n=5 if q else 8, budget=b))
    out.append(Item('layered minimum', layered_min, n=24, rounds=1 if q else 2, max_branches=30, max_draws=10 if q else 15, budget=b))
    return out
