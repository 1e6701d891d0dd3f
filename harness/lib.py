"""shared builders and oracles"""
import inspect
from fractions import Fraction

import numpy as np

from engine.harness import Item

SEQS = {0: [(0,), (2,)], 1: [(0, 1), (2, 0)], 2: [(0, 1, 0), (0, 1, 2), (2, 1, 2)],
        3: [(0, 1, 0, 1), (0, 1, 2, 0), (1, 0, 2, 0)], 4: [(0, 1, 0, 2, 1), (2, 0, 1, 0, 1)]}


def skeleton(h, name, nj, states=None, int_start=False, fin=None):
    """an arbitrary jump path with nj jumps (times symbolic, state sequence chosen)"""
    ms = h.mod('mjplib.skeleton')
    xt = states if states is not None else h.choose(name + '.x', SEQS[nj])
    if nj == 0 and int_start:
        t = np.array([0])
        end = h.pos(name + '.T') if fin is None else fin
    else:
        ts = list(h.times(name + '.d', nj))
        t = h.arr([h.num(0)] + ts)
        end = (ts[-1] if ts else h.num(0)) + h.pos(name + '.d%d' % nj) if fin is None else fin
    return ms.Skeleton(t, np.array(xt), end)


def state_at(h, t, xt, s):
    """oracle: state entered by the last jump at or before s"""
    k = 0
    for i in range(1, len(t)):
        if h.decide(h.le(t[i], s)):
            k = i
    return int(xt[k])


def ints(h, a, b):
    """equality of integer sequences"""
    a, b = [int(x) for x in np.asarray(a).reshape(-1)], [int(x) for x in np.asarray(b).reshape(-1)]
    return h.const(a == b)


def same_skel(h, a, b):
    return h.all([h.eq_all(a.t, b.t), ints(h, a.xt, b.xt), h.eq(a.fin_t, b.fin_t)])


def well_formed(h, s, fin=None):
    """starts at 0, strictly increasing inside the horizon, no self-jumps"""
    t, x = list(np.asarray(s.t)), [int(v) for v in np.asarray(s.xt)]
    cs = [h.const(len(t) == len(x) and len(t) >= 1), h.eq(t[0], 0), h.increasing(t), h.lt(t[-1], s.fin_t),
          h.const(all(a != b for a, b in zip(x, x[1:])))]
    if fin is not None:
        cs.append(h.eq(s.fin_t, fin))
    return h.all(cs)


def row(h, m, i):
    return [m[i, j] for j in range(m.shape[1])]


EPS = Fraction(1, 2 ** 24)


def abstract_escapes(h, force={}):
    """escape decisions replaced by what C08 establishes of them: they use one draw (unless one is supplied), always escape from a
    level at or below an end point, never from one above the certified outer level, and otherwise may come out either way; the draw
    is then taken near zero or near one, where the real decision (used by concrete replays) agrees"""
    outcome = {}

    def make(old, two_sided):
        sig = inspect.signature(old)

        def esc(*a, **k):
            try:
                p = sig.bind(*a, **k)
                p.apply_defaults()
                p = p.arguments
                T, x0, xT, ue, ub, seed, ome = [p[n] for n in ('fin_t', 'init_x', 'fin_x', 'ue_x', 'ub_x', 'seed', 'ome')]
            except (TypeError, KeyError):
                return old(*a, **k)
            if seed is not None or type(ome).__name__ != 'Gen':
                return old(*a, **k)
            if two_sided:
                x0, xT = abs(x0), abs(xT)
            sure = bool(ue <= x0) or bool(ue <= xT)
            never = not sure and ub is not None and bool(ub < ue)
            name = f"{ome.gid}.u{h.counters.get((ome.gid, 'u'), 0)}"
            if name not in h.script and not sure and not never:
                out = force[name] if name in force else h.choose(name + '!', [False, True])
                h.script[name] = h.real(name, 0, EPS, default=EPS / 4) if out else h.real(name, 1 - EPS, 1, default=1 - EPS / 4)
                outcome[h.script[name].key] = out
            u = ome.uniform()
            if sure or never:
                return sure
            out = outcome.get(getattr(u, 'key', None))
            return bool(u < Fraction(1, 2)) if out is None else out
        return esc
    h.summarise('sdelib.hitting', 'sample_bessel3br_esc', lambda old: make(old, False))
    h.summarise('sdelib.hitting', 'sample_brownbr_esc', lambda old: make(old, True))
