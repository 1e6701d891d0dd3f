"""The Euler reference simulator: recursion and time grid for any drift, volatility, start and step"""
from engine.harness import Gap, Item


def euler(h):
    mt = h.mod('misc.testing')
    n, m = h.p['steps'], h.p['draws']
    res = h.pos('res')
    x0 = h.real('x0')
    a, b, c, d = h.real('a'), h.real('b'), h.pos('c'), h.real('d')
    kind = h.p['kind']
    # a drift and a volatility that depend on the state
    if kind == 'affine':
        drift, vol = (lambda x: a + b * x), (lambda x: c + d * x)
    elif kind == 'quadratic':
        drift, vol = (lambda x: a - b * x * x), (lambda x: c + d * x * x)
    else:
        drift, vol = (lambda x: a + x * 0), (lambda x: c + x * 0)
    # the horizon: a whole number of steps, or a bit more
    T = res * n if h.p['exact'] else res * n + res * h.real('rest', 0.1, 0.4)
    t, x = mt.euler_simulate(m, T, x0, drift, vol, res, h.gen())
    x, t = h.asarray(x), h.asarray(t)
    h.check('one state per time', h.const(x.shape == (m, len(t))))
    if x.shape != (m, len(t)) or len(t) < 1:
        return
    h.check('covers the horizon', h.const(len(t) == n + 1))
    h.check('time zero', h.eq(t[0], 0))
    for k in range(1, len(t)):
        h.check('aligned grid', h.eq(t[k] - t[k - 1], res))
    z = h.flat_prims('z')
    h.check('one increment per step and draw', h.const(len(z) == m * (len(t) - 1)))
    if len(z) != m * (len(t) - 1):
        return
    left = list(range(len(z)))
    for i in range(m):
        h.check('start', h.eq(x[i, 0], x0))
        for k in range(1, len(t)):
            step = x[i, k] - x[i, k - 1] - drift(x[i, k - 1]) * res
            v = vol(x[i, k - 1])
            # driven by a normal draw of its own
            for j in left:
                if h.same(step, v * h.sqrt(res) * z[j]) or h.same(step, -v * h.sqrt(res) * z[j]):
                    left.remove(j)
                    h.check('recursion', h.any([h.eq(step, v * h.sqrt(res) * z[j]), h.eq(step, -v * h.sqrt(res) * z[j])]))
                    break
            else:
                h.check('recursion', h.any([h.eq(step, v * h.sqrt(res) * z[j]) for j in left]))
    h.check('every increment used once', h.const(not left))
    h.observe('path', [t, x])


def items(tier):
    q = tier == 'quick'
    out = []
    for n in (1, 2, 3) if q else (1, 2, 3, 4, 6):
        for m in (1, 2) if q else (1, 2, 3):
            for kind in ('constant', 'affine') + (('quadratic',) if n <= 2 else ()):
                out.append(Item(f'euler[{n},{m},{kind}]', euler, steps=n, draws=m, kind=kind, exact=m == 1, budget=30 if q else 200))
    return out
