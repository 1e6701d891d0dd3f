"""derivatives of symbolic reals with respect to a variable"""
from fractions import Fraction

from . import terms as T
from .terms import R, ATOMS, Poly


def datom(aid, x):
    a = ATOMS[aid]
    if aid == x:
        return R(T.P1)
    if a.kind == 'var':
        return R(T.P0)
    if a.kind == 'sqrt':
        d = dpoly(a.arg, x)
        return R(T.P0) if not d.num.t else d / (2 * R(T.patom(a)))
    if a.kind == 'exp':
        d = diff_(a.arg, x)
        return R(T.P0) if not d.num.t else d * R(T.patom(a))
    if a.kind == 'log':
        d = dpoly(a.arg, x)
        return R(T.P0) if not d.num.t else d / R(a.arg)
    raise T.Unsupported('derivative of ' + a.kind)


def dpoly(p, x):
    tot = R(T.P0)
    for m, c in p.t.items():
        for i, (a, e) in enumerate(m):
            d = datom(a, x)
            if not d.num.t:
                continue
            rest = list(m)
            if e == 1:
                rest.pop(i)
            else:
                rest[i] = (a, e - 1)
            tot = tot + R(Poly({tuple(rest): T.norm_coef(Fraction(c) * e)})) * d
    return tot


def diff_(r, x):
    d = dpoly(r.num, x)
    if r.den:
        d = d / R(T.P1)
        den = R(T.P1)
        dl = R(T.P0)
        for f, e in r.den:
            den = den * T.rpow(R(f), e)
            df = dpoly(f, x)
            if df.num.t:
                dl = dl + e * df / R(f)
        return (d - R(r.num) * dl) / den
    return d


def diff(r, x):
    """x: a variable (R)"""
    aid = next(iter(x.num.t))[0][0]
    return diff_(R.of(r), aid)
