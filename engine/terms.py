"""Exact symbolic reals: rational functions over atoms (variables, square roots, exponentials, logarithms).

Atoms are interned globally, so structural equality is identity of keys.  Every operation that numpy would evaluate with
floating point is evaluated here over the exact reals; undefined operations (0/0, sqrt of a negative, log of zero) fork
and return the IEEE special value numpy would return.
"""
import math
from fractions import Fraction

import mpmath

INF = float('inf')
NAN = float('nan')


class Unsupported(BaseException):
    pass


class CTX:
    """current path (set by explore.Path)"""
    path = None


# ---------------------------------------------------------------------------------------------------------------- atoms

class Atom:
    __slots__ = ('id', 'kind', 'name', 'arg', 'sgn', 'dom', 'weight')

    def __repr__(self):
        return f'<{self.kind}:{self.name}>'


ATOMS = []
_INTERN = {}


def _atom(kind, key, name, arg=None, sgn=0):
    k = (kind, key)
    a = _INTERN.get(k)
    if a is None:
        a = Atom()
        a.id, a.kind, a.name, a.arg, a.sgn, a.dom = len(ATOMS), kind, name, arg, sgn, None
        ATOMS.append(a)
        _INTERN[k] = a
    return a


def norm_coef(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def cdiv(a, b):
    return norm_coef(Fraction(a) / b)


# ---------------------------------------------------------------------------------------------------------------- polys

class Poly:
    __slots__ = ('t', '_key', '_hash', '_prim')

    def __init__(self, t):
        self.t = t
        self._key = None
        self._prim = None

    @property
    def key(self):
        if self._key is None:
            self._key = frozenset(self.t.items())
        return self._key

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), 0)

    def __repr__(self):
        return show_poly(self)


P0 = Poly({})
P1 = Poly({(): 1})


def pconst(c):
    return Poly({(): norm_coef(c)}) if c else P0


def patom(a, e=1):
    return Poly({((a.id, e),): 1})


def padd(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    if len(a.t) < len(b.t):
        a, b = b, a
    t = dict(a.t)
    for m, c in b.t.items():
        v = t.get(m)
        if v is None:
            t[m] = c
        else:
            v = norm_coef(v + c)
            if v:
                t[m] = v
            else:
                del t[m]
    return Poly(t)


def pscale(a, c):
    if c == 0:
        return P0
    if c == 1:
        return a
    return Poly({m: norm_coef(v * c) for m, v in a.t.items()})


def pneg(a):
    return pscale(a, -1)


def psub(a, b):
    return padd(a, pneg(b))


def _merge(m1, m2):
    """merge two monomials -> (plain monomial, [extra polys])"""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    out, extra, exps = [], None, None
    i = j = 0
    n1, n2 = len(m1), len(m2)
    while i < n1 or j < n2:
        if j >= n2 or (i < n1 and m1[i][0] < m2[j][0]):
            p = m1[i]
            i += 1
        elif i >= n1 or m2[j][0] < m1[i][0]:
            p = m2[j]
            j += 1
        else:
            p = (m1[i][0], m1[i][1] + m2[j][1])
            i += 1
            j += 1
        a = ATOMS[p[0]]
        if a.kind == 'exp':
            exps = (exps or []) + [p]
            continue
        if a.kind == 'sqrt' and p[1] >= 2:
            extra = (extra or []) + [ppow(a.arg, p[1] // 2)]
            if p[1] % 2:
                out.append((p[0], 1))
            continue
        out.append(p)
    if exps is not None:
        if len(exps) == 1 and exps[0][1] == 1:
            out.append(exps[0])
            out.sort()
        else:
            arg = None
            for aid, e in exps:
                x = ATOMS[aid].arg
                x = x if e == 1 else x * e
                arg = x if arg is None else arg + x
            if isinstance(arg, R):
                out.append((exp_atom(arg).id, 1))
                out.sort()
            elif arg != 0:
                out.append((exp_atom(R.of(arg)).id, 1))
                out.sort()
    return tuple(out), extra


def pmul(a, b):
    if not a.t or not b.t:
        return P0
    if a.is_const():
        return pscale(b, a.const())
    if b.is_const():
        return pscale(a, b.const())
    t = {}
    extras = None
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m, ex = _merge(m1, m2)
            c = c1 * c2
            if ex is None:
                v = t.get(m, 0) + c
                if v:
                    t[m] = norm_coef(v)
                elif m in t:
                    del t[m]
            else:
                p = Poly({m: c})
                for x in ex:
                    p = pmul(p, x)
                extras = p if extras is None else padd(extras, p)
    if len(t) > 20000:
        raise Unsupported('polynomial too large')
    r = Poly(t)
    return r if extras is None else padd(r, extras)


def ppow(a, n):
    r = P1
    while n:
        if n & 1:
            r = pmul(r, a)
        n >>= 1
        if n:
            a = pmul(a, a)
    return r


def mono_order(m):
    return (sum(e for _, e in m), tuple((-a, e) for a, e in m))


def lead(p):
    return max(p.t, key=mono_order)


def mono_div(m, d):
    if not d:
        return m
    dm = dict(m)
    for a, e in d:
        x = dm.get(a, 0)
        if x < e:
            return None
        if x == e:
            del dm[a]
        else:
            dm[a] = x - e
    return tuple(sorted(dm.items()))


def pdiv_exact(n, d):
    """n / d if d divides n (as found by the division algorithm) else None"""
    if not n.t:
        return P0
    if len(d.t) == 1:
        (dm, dc), = d.t.items()
        t = {}
        for m, c in n.t.items():
            q = mono_div(m, dm)
            if q is None:
                return None
            t[q] = cdiv(c, dc)
        return Poly(t)
    dl = lead(d)
    dc = d.t[dl]
    # quick variable test
    nv = {a for m in n.t for a, _ in m}
    dv = {a for m in d.t for a, _ in m}
    if not dv <= nv:
        return None
    q, r = {}, n
    for _ in range(400):
        if not r.t:
            return Poly(q)
        rl = lead(r)
        m = mono_div(rl, dl)
        if m is None:
            return None
        c = cdiv(r.t[rl], dc)
        q[m] = norm_coef(q.get(m, 0) + c)
        r = psub(r, pmul(Poly({m: c}), d))
        if len(r.t) > 4000:
            return None
    return None


def primitive(p):
    """p = coef * prim, prim has leading coefficient 1 (sign carried by coef)"""
    if p._prim is None:
        c = p.t[lead(p)]
        p._prim = (c, p if c == 1 else Poly({m: cdiv(v, c) for m, v in p.t.items()}))
    return p._prim


def mono_content(p):
    """largest monomial (of non-exp atoms) dividing every term"""
    it = iter(p.t)
    common = {a: e for a, e in next(it) if ATOMS[a].kind != 'exp'}
    for m in it:
        if not common:
            break
        d = dict(m)
        common = {a: min(e, d[a]) for a, e in common.items() if a in d}
    return common


def unit_exp(p):
    """a common exp atom of all terms"""
    ids = None
    for m in p.t:
        s = {a for a, _ in m if ATOMS[a].kind == 'exp'}
        ids = s if ids is None else ids & s
        if not ids:
            return None
    return next(iter(ids))


FACTORS = {}          # primitive multi-term polys seen as factors (for trial division)


def factorise(p):
    """p -> (coef, {factor Poly: exponent}, exp-arg R or None); factors are single atoms or primitive multi-term polys"""
    fs = {}
    ex = None
    if p.is_const():
        return p.const(), fs, None
    c, p = primitive(p)
    if len(p.t) > 1:
        # a factor e^k common after dividing by the leading term's exponential
        has = [any(ATOMS[a].kind == 'exp' for a, _ in m) for m in p.t]
        if all(has):
            m0 = lead(p)
            e0 = next(a for a, _ in m0 if ATOMS[a].kind == 'exp')
            ex = ATOMS[e0].arg
            p = pmul(p, Poly({((exp_atom(-ex).id, 1),): 1}))
            c2, p = primitive(p) if not p.is_const() else (p.const(), P1)
            c = norm_coef(c * c2)
    else:
        (m, _), = p.t.items()
        for a, e in m:
            if ATOMS[a].kind == 'exp':
                ex = ATOMS[a].arg
            else:
                fs[patom(ATOMS[a]).key] = (patom(ATOMS[a]), e)
        return c, {f: e for f, e in fs.values()}, ex
    if p.is_const():
        return norm_coef(c * p.const()), {}, ex
    cont = mono_content(p)
    out = {}
    if cont:
        d = Poly({tuple(sorted(cont.items())): 1})
        p = pdiv_exact(p, d)
        for a, e in cont.items():
            out[patom(ATOMS[a])] = e
    if not p.is_const():
        path = CTX.path
        reg = path.factors if path is not None else FACTORS
        if len(p.t) > 1:
            for f in list(reg.values()):
                if len(f.t) > len(p.t) + 2 or f.key == p.key:
                    continue
                while True:
                    q = pdiv_exact(p, f)
                    if q is None:
                        break
                    out[f] = out.get(f, 0) + 1
                    p = q
                    if p.is_const():
                        break
                if p.is_const():
                    break
        if not p.is_const():
            c2, p = primitive(p)
            c = norm_coef(c * c2)
            if len(p.t) == 1:
                c3, f3, _ = factorise(p)
                for f, e in f3.items():
                    out[f] = out.get(f, 0) + e
            else:
                s = psqrt_exact(p)
                if s is not None:
                    c4, s = primitive(s)
                    c = norm_coef(c * c4 * c4)
                    reg.setdefault(s.key, s)
                    out[s] = out.get(s, 0) + 2
                else:
                    reg.setdefault(p.key, p)
                    out[p] = out.get(p, 0) + 1
        else:
            c = norm_coef(c * p.const())
    return c, _uniq(out), ex


def _uniq(d):
    r = {}
    for f, e in d.items():
        k = f.key
        if k in r:
            r[k] = (r[k][0], r[k][1] + e)
        else:
            r[k] = (f, e)
    return {f: e for f, e in r.values() if e}


def psqrt_exact(p):
    """exact square root of a polynomial over plain atoms, or None"""
    if len(p.t) < 3 or len(p.t) > 60:
        return None
    for m in p.t:
        for a, e in m:
            if ATOMS[a].kind in ('exp', 'sqrt'):
                return None
    lm = lead(p)
    if any(e % 2 for _, e in lm):
        return None
    lc = frac_sqrt(Fraction(p.t[lm]))
    if lc is None:
        return None
    hm = tuple((a, e // 2) for a, e in lm)
    s = Poly({hm: lc})
    r = psub(p, pmul(s, s))
    for _ in range(30):
        if not r.t:
            return s
        rl = lead(r)
        m = mono_div(rl, hm)
        if m is None:
            return None
        if mono_order(m) >= mono_order(hm):
            return None
        t = Poly({m: cdiv(r.t[rl], 2 * lc)})
        r = psub(r, padd(pscale(pmul(s, t), 2), pmul(t, t)))
        s = padd(s, t)
    return None


def isqrt_exact(n):
    s = math.isqrt(n)
    return s if s * s == n else None


def frac_sqrt(f):
    f = Fraction(f)
    if f < 0:
        return None
    a, b = isqrt_exact(f.numerator), isqrt_exact(f.denominator)
    if a is None or b is None:
        return None
    return norm_coef(Fraction(a, b))


# ------------------------------------------------------------------------------------------------------- rational terms

_FC = {}


def float_coef(x):
    """a float constant is read as the simplest rational (denominator <= 4096) that rounds to it, else exactly"""
    c = _FC.get(x)
    if c is None:
        if math.isinf(x) or math.isnan(x):
            return None
        c = Fraction(x)
        if c.denominator > 4096:
            d = c.limit_denominator(4096)
            if float(d) == x:
                c = d
        c = _FC[x] = norm_coef(c)
    return c


def _num(x):
    """python/numpy number -> exact coefficient, or None if inf/nan/not a number"""
    t = type(x)
    if t is int:
        return x
    if t is bool:
        return int(x)
    if t is Fraction:
        return norm_coef(x)
    if t is float:
        return float_coef(x)
    if hasattr(x, 'dtype') and getattr(x, 'shape', None) == ():
        return _num(x.item())
    return None


def _special(x):
    """inf/nan as python float or None"""
    try:
        f = float(x)
    except Exception:
        return None
    if math.isinf(f) or math.isnan(f):
        return f
    return None


def isnum(x):
    return isinstance(x, (int, float, Fraction)) or (hasattr(x, 'dtype') and getattr(x, 'shape', None) == ()
                                                     and x.dtype.kind in 'iufb')


class R:
    """num / prod(den)"""
    __slots__ = ('num', 'den', '_key')

    def __init__(self, num, den=()):
        self.num, self.den = num, den
        self._key = None

    # -- construction
    @staticmethod
    def of(x):
        if isinstance(x, R):
            return x
        c = _num(x)
        if c is None:
            raise Unsupported(f'not a finite number: {x!r}')
        return R(pconst(c))

    @property
    def key(self):
        if self._key is None:
            self._key = (self.num.key, frozenset((f.key, e) for f, e in self.den))
        return self._key

    def is_const(self):
        return not self.den and self.num.is_const()

    def const(self):
        return self.num.const()

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return show(self)

    dtype = property(lambda self: _FLOAT64())
    shape = ()
    ndim = 0
    size = 1

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def flatten(self):
        import numpy as np
        a = np.empty(1, dtype=object)
        a[0] = self
        return a

    # -- arithmetic
    def __add__(self, o):
        if isinstance(o, R):
            return radd(self, o)
        if isinstance(o, B):
            return self + (1 if bool(o) else 0)
        if not isnum(o):
            return NotImplemented
        c = _num(o)
        if c is None:
            return float(o)
        if c == 0:
            return self
        return radd(self, R(pconst(c)))

    __radd__ = __add__

    def __neg__(self):
        return R(pneg(self.num), self.den)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, R):
            return radd(self, -o)
        if not isnum(o):
            return NotImplemented
        c = _num(o)
        if c is None:
            return -float(o)
        return radd(self, R(pconst(-c)))

    def __rsub__(self, o):
        return (-self).__add__(o)

    def __mul__(self, o):
        if isinstance(o, R):
            return rmul(self, o)
        if isinstance(o, B):
            return self * (1 if bool(o) else 0)
        if not isnum(o):
            return NotImplemented
        c = _num(o)
        if c is None:
            f = float(o)
            if math.isnan(f):
                return f
            s = sign_fork(self)
            return NAN if s == 0 else f * s
        if c == 0:
            return R(P0)
        return R(pscale(self.num, c), self.den)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, R):
            return rdiv(self, o)
        if not isnum(o):
            return NotImplemented
        c = _num(o)
        if c is None:
            return NAN if math.isnan(float(o)) else R(P0)
        if c == 0:
            s = sign_fork(self)
            return NAN if s == 0 else s * INF
        return R(pscale(self.num, cdiv(1, c)), self.den)

    def __rtruediv__(self, o):
        if not isnum(o):
            return NotImplemented
        c = _num(o)
        if c is None:
            f = float(o)
            if math.isnan(f):
                return f
            s = sign_fork(self)
            return f * (s if s else 1)
        return rdiv(R(pconst(c)), self)

    def __pow__(self, o):
        return rpow(self, o)

    def __rpow__(self, o):
        return rpow(R.of(o), self)

    def __floordiv__(self, o):
        q = self / o
        if not isinstance(q, R):
            return q
        return rfloor(q)

    def __mod__(self, o):
        return self - (self // o) * o

    def __abs__(self):
        return rabs(self)

    # numpy object-ufunc hooks
    def sqrt(self):
        return rsqrt(self)

    def exp(self):
        return rexp(self)

    def log(self):
        return rlog(self)

    def square(self):
        return self * self

    def conjugate(self):
        return self

    # -- comparison
    def __lt__(self, o):
        return cmp_('<', self, o)

    def __le__(self, o):
        return cmp_('<=', self, o)

    def __gt__(self, o):
        return cmp_('>', self, o)

    def __ge__(self, o):
        return cmp_('>=', self, o)

    def __eq__(self, o):
        return cmp_('==', self, o)

    def __ne__(self, o):
        return cmp_('!=', self, o)

    def __bool__(self):
        return bool(self != 0)

    # -- concretisation (recorded)
    def __float__(self):
        if self.is_const():
            return float(self.const())
        return float(CTX.path.concretise(self))

    def __int__(self):
        if self.is_const():
            return int(self.const())
        return int(rtrunc(self))

    def __trunc__(self):
        return int(self)

    def __round__(self, n=None):
        return round(float(self), n) if n is not None else round(float(self))

    def __index__(self):
        if self.is_const() and isinstance(self.const(), int):
            return self.const()
        raise TypeError('symbolic real used as an index')

    def __format__(self, spec):
        return '<sym>'


def _FLOAT64():
    from . import symnp
    return symnp.REAL_FLOAT64_DTYPE


def rnorm(num, den):
    """cancel factors"""
    if not num.t:
        return R(P0)
    if not den:
        return R(num)
    out = []
    for f, e in den:
        while e > 0:
            q = pdiv_exact(num, f) if len(num.t) <= 600 else None
            if q is None:
                break
            num = q
            e -= 1
        if e:
            out.append((f, e))
    return R(num, tuple(out))


def radd(a, b):
    if not a.num.t:
        return b
    if not b.num.t:
        return a
    if not a.den and not b.den:
        return R(padd(a.num, b.num))
    if a.key[1] == b.key[1]:
        return rnorm(padd(a.num, b.num), a.den)
    da = {f.key: (f, e) for f, e in a.den}
    db = {f.key: (f, e) for f, e in b.den}
    l = {}
    for k, (f, e) in list(da.items()) + list(db.items()):
        if k not in l or l[k][1] < e:
            l[k] = (f, e)
    na, nb = a.num, b.num
    for k, (f, e) in l.items():
        ea = e - (da[k][1] if k in da else 0)
        eb = e - (db[k][1] if k in db else 0)
        if ea:
            na = pmul(na, ppow(f, ea))
        if eb:
            nb = pmul(nb, ppow(f, eb))
    return rnorm(padd(na, nb), tuple(l.values()))


def rmul(a, b):
    if not a.num.t or not b.num.t:
        return R(P0)
    an, bn = a.num, b.num
    ad, bd = a.den, b.den
    if ad or bd:
        # cross cancel first
        x = rnorm(an, bd)
        y = rnorm(bn, ad)
        l = {}
        for f, e in list(x.den) + list(y.den):
            k = f.key
            l[k] = (f, l[k][1] + e) if k in l else (f, e)
        return rnorm(pmul(x.num, y.num), tuple(l.values()))
    return R(pmul(an, bn))


def rinv_nonzero(a):
    """1 / a where a != 0 on this path"""
    if a.is_const():
        return R(pconst(cdiv(1, a.const())))
    c, fs, ex = factorise(a.num)
    num = pconst(cdiv(1, c))
    for f, e in a.den:
        num = pmul(num, ppow(f, e))
    den = []
    for f, e in fs.items():
        if len(f.t) == 1:
            at = ATOMS[next(iter(f.t))[0][0]]
            if at.kind == 'sqrt':
                # 1/q = q / q^2
                num = pmul(num, ppow(patom(at), e))
                c2, f2, ex2 = factorise(at.arg)
                num = pscale(num, cdiv(1, Fraction(c2) ** e))
                for g, ge in f2.items():
                    den.append((g, ge * e))
                if ex2 is not None:
                    num = pmul(num, rexp(-ex2 * e).num)
                continue
        den.append((f, e))
    if ex is not None:
        num = pmul(num, Poly({((exp_atom(-ex).id, 1),): 1}))
    l = {}
    for f, e in den:
        k = f.key
        l[k] = (f, l[k][1] + e) if k in l else (f, e)
    return rnorm(num, tuple(l.values()))


def rdiv(a, b):
    if b.is_const():
        c = b.const()
        if c == 0:
            s = sign_fork(a)
            return NAN if s == 0 else s * INF
        return R(pscale(a.num, cdiv(1, c)), a.den)
    if not nonzero(b):
        s = sign_fork(a)
        return NAN if s == 0 else s * INF
    if a.key == b.key:
        return R(P1)
    return rmul(a, rinv_nonzero(b))


def nonzero(r):
    """fork: is r != 0 on this path"""
    return bool(cmp_('!=', r, 0))


def sign_fork(r):
    if not isinstance(r, R):
        f = float(r)
        return (f > 0) - (f < 0)
    if r.is_const():
        c = r.const()
        return (c > 0) - (c < 0)
    if bool(r > 0):
        return 1
    if bool(r < 0):
        return -1
    return 0


def rabs(r):
    if r.is_const():
        return R(pconst(abs(r.const())))
    return r if bool(r >= 0) else -r


def rpow(a, o):
    if isinstance(o, R):
        if o.is_const():
            o = o.const()
        else:
            if isinstance(a, R) and a.is_const() and a.const() == 1:
                return R(P1)
            la = rlog(a)
            if not isinstance(la, R):
                raise Unsupported('0 ** symbolic')
            return rexp(o * la)
    c = _num(o)
    if c is None:
        raise Unsupported('symbolic ** inf')
    if isinstance(c, int):
        if c == 0:
            return R(P1)
        if c < 0:
            return 1 / rpow(a, -c)
        if not a.den:
            return R(ppow(a.num, c))
        return rnorm(ppow(a.num, c), tuple((f, e * c) for f, e in a.den))
    c = Fraction(c)
    n, d = c.numerator, c.denominator
    if d in (2, 4, 8):
        s = a
        for _ in range({2: 1, 4: 2, 8: 3}[d]):
            s = rsqrt(s)
            if not isinstance(s, R):
                return s
        return rpow(s, n)
    la = rlog(a)
    if not isinstance(la, R):
        return NAN if la != la else (0.0 if c > 0 else INF)
    return rexp(la * c)


# ---------------------------------------------------------------------------------------------------------- elementary

def sign_of(p):
    """entailed sign of a Poly on this path: 1, -1, 0, None(unknown), '>=0' -> 2, '<=0' -> -2"""
    return CTX.path.sign_of(p)


def _int_sq_split(n):
    """n = s*s*r, r squarefree w.r.t. small primes"""
    s = 1
    r = isqrt_exact(n)
    if r is not None:
        return r, 1
    if n > 10 ** 15:
        return 1, n
    p = 2
    while p * p <= n and p < 1000:
        while n % (p * p) == 0:
            n //= p * p
            s *= p
        p += 1 if p == 2 else 2
    r = isqrt_exact(n)
    if r is not None:
        return s * r, 1
    return s, n


def sqrt_const(c):
    """sqrt of positive rational -> R"""
    c = Fraction(c)
    s, r = _int_sq_split(c.numerator * c.denominator)
    coef = Fraction(s, c.denominator)
    if r == 1:
        return R(pconst(coef))
    a = _atom('sqrt', pconst(r).key, f'sqrt({r})', pconst(r), 1)
    return R(pscale(patom(a), coef))


def rsqrt(r):
    if not isinstance(r, R):
        return math.sqrt(r) if r >= 0 else NAN
    if r.is_const():
        c = r.const()
        return NAN if c < 0 else sqrt_const(c) if c else R(P0)
    if not bool(cmp_('>=', r, 0)):
        return NAN
    c, fs, ex = factorise(r.num)
    if c == 0:
        return R(P0)
    fl = [(f, e) for f, e in fs.items()] + [(f, -e) for f, e in r.den]
    out = R(P1)
    rest = P1
    if ex is not None:
        out = out * rexp(ex / 2)
    sgn = 1 if c > 0 else -1
    c = abs(Fraction(c))
    for f, e in fl:
        s = sign_of(f)
        if e % 2 == 0:
            b = R(f) if s in (1, 2) else -R(f) if s in (-1, -2) else rabs(R(f))
            out = out * rpow(b, e // 2)
            continue
        # odd
        if s in (1, -1):
            g = f if s == 1 else pneg(f)
            sgn *= s
            b = R(g)
            q = sqrt_pos_factor(f, g, s)
            k = (e - 1) // 2
            if k:
                out = out * rpow(b, k)
            out = out * q
        else:
            # f^e = f^(e-1) * f ; for negative e: f^(e-1) * f with e-1 even
            k = (e - 1) // 2
            b = R(f)
            if k:
                out = out * rabs(rpow(b, k))
            rest = pmul(rest, f)
    if sgn < 0:
        rest = pneg(rest)
    if rest.is_const():
        v = rest.const() * c
        if v < 0:
            # only possible when a joint factor is zero on this path
            return R(P0)
        return out * sqrt_const(v)
    c2, prim = primitive(rest)
    if c2 < 0:
        prim = pneg(prim)
        c2 = -c2
    a = _atom('sqrt', prim.key, 'sqrt', prim, 0)
    return out * sqrt_const(c * c2) * R(patom(a))


def sqrt_pos_factor(f, g, s):
    if len(f.t) == 1 and s == 1:
        (m, c), = f.t.items()
        if len(m) == 1 and c == 1 and ATOMS[m[0][0]].kind == 'sqrt':
            pass
    a = _atom('sqrt', g.key, 'sqrt', g, 0)
    return R(patom(a))


_PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47]


def log_int(n):
    """log of a positive integer as R"""
    out = R(P0)
    for p in _PRIMES:
        k = 0
        while n % p == 0:
            n //= p
            k += 1
        if k:
            a = _atom('log', pconst(p).key, f'log({p})', pconst(p), 1)
            out = out + R(pscale(patom(a), k))
    if n > 1:
        a = _atom('log', pconst(n).key, f'log({n})', pconst(n), 1)
        out = out + R(patom(a))
    return out


def log_const(c):
    c = Fraction(c)
    return log_int(c.numerator) - log_int(c.denominator)


def rlog(r):
    if not isinstance(r, R):
        r = R.of(r) if _num(r) is not None else r
        if not isinstance(r, R):
            f = float(r)
            return NAN if f != f or f < 0 else f
    if r.is_const():
        c = r.const()
        return NAN if c < 0 else -INF if c == 0 else log_const(c)
    if not bool(cmp_('>', r, 0)):
        return -INF if bool(cmp_('==', r, 0)) else NAN
    c, fs, ex = factorise(r.num)
    fl = [(f, e) for f, e in fs.items()] + [(f, -e) for f, e in r.den]
    out = R(P0)
    if ex is not None:
        out = out + ex
    sgn = 1 if c > 0 else -1
    rest = []
    for f, e in fl:
        s = sign_of(f)
        if s in (1, -1):
            g = f if s == 1 else pneg(f)
            if s == -1 and e % 2:
                sgn = -sgn
            out = out + log_factor(g) * e
        elif e % 2 == 0:
            b = rabs(R(f))
            out = out + log_factor(b.num) * e
        else:
            rest.append((f, e))
    out = out + log_const(abs(Fraction(c)))
    if rest:
        p = P1
        d = P1
        for f, e in rest:
            if e > 0:
                p = pmul(p, ppow(f, e))
            else:
                d = pmul(d, ppow(f, -e))
        if not d.is_const():
            p = pmul(p, d)       # log(p/d) = log(p*d) - 2 log|d|; keep a joint atom p*d and d^2
            d2 = pmul(d, d)
            c2, prim = primitive(d2)
            out = out - log_factor(prim)
        c2, prim = primitive(p)
        g = prim if c2 * sgn > 0 else pneg(prim)
        out = out + log_factor(g)
        if abs(c2) != 1:
            out = out + log_const(abs(Fraction(c2)))
    return out


def log_factor(g):
    """log of a positive primitive factor poly (single atom or multi-term)"""
    if len(g.t) == 1:
        (m, c), = g.t.items()
        if len(m) == 1 and m[0][1] == 1 and c == 1:
            a = ATOMS[m[0][0]]
            if a.kind == 'sqrt':
                return rlog(R(a.arg)) / 2
            if a.kind == 'exp':
                return a.arg
    a = _atom('log', g.key, 'log', g, 0)
    return R(patom(a))


def exp_atom(arg):
    return _atom('exp', arg.key, 'exp', arg, 1)


def split_logs(r):
    """r = sum c_i * log(g_i) + rest with rational constant c_i; returns ([(c, Poly g)], rest R)"""
    logs = set()
    for m in r.num.t:
        for a, e in m:
            if ATOMS[a].kind == 'log':
                logs.add(a)
    out = []
    rest = r
    if not logs:
        return out, rest
    d = P1
    for f, e in r.den:
        d = pmul(d, ppow(f, e))
    for a in logs:
        # coefficient poly of the log atom
        t = {}
        ok = True
        for m, c in r.num.t.items():
            dm = dict(m)
            if a in dm:
                if dm[a] != 1 or any(ATOMS[x].kind == 'log' and x != a for x in dm):
                    ok = False
                    break
                del dm[a]
                t[tuple(sorted(dm.items()))] = c
        if not ok:
            continue
        cp = Poly(t)
        lc = cdiv(cp.t[lead(cp)], d.t[lead(d)]) if cp.t and lead(cp) == lead(d) else None
        if lc is None or psub(cp, pscale(d, lc)).t:
            continue
        out.append((lc, ATOMS[a].arg))
        rest = radd(rest, R(pscale(patom(ATOMS[a]), -lc)))
    return out, rest


def rexp(r):
    if not isinstance(r, R):
        c = _num(r)
        if c is None:
            f = float(r)
            return NAN if f != f else INF if f > 0 else 0.0
        r = R(pconst(c))
    if not r.num.t:
        return R(P1)
    logs, rest = split_logs(r)
    out = R(P1)
    for c, g in logs:
        c = Fraction(c)
        if c.denominator in (1, 2, 4):
            out = out * rpow(R(g), norm_coef(c))
        else:
            rest = rest + R(pscale(patom(_atom('log', g.key, 'log', g, 0)), c))
    if rest.num.t:
        out = rmul(out, R(Poly({((exp_atom(rest).id, 1),): 1})))
    return out


def rfloor(r):
    if r.is_const():
        return math.floor(r.const())
    p = CTX.path
    k = math.floor(p.value(r))
    # fork around the model value, then concretise the integer part
    for d in (0, 1, -1, 2, -2, 3, -3):
        if bool((r >= k + d) & (r < k + d + 1)):
            return k + d
    p.cut('floor range')


def rtrunc(r):
    k = rfloor(r)
    if k < 0 and not bool(r == k):
        return k + 1
    return k


# ---------------------------------------------------------------------------------------------------------------- bools

class B:
    """formula: ('const', v) | ('cmp', op, R) meaning R op 0, op in < <= == != | ('and', [..]) | ('or', [..])"""
    __slots__ = ('k', 'a', 'b', '_key')

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b
        self._key = None

    @property
    def key(self):
        if self._key is None:
            if self.k == 'const':
                self._key = ('c', self.a)
            elif self.k == 'cmp':
                self._key = ('p', self.a, self.b.key)
            else:
                self._key = (self.k, frozenset(x.key for x in self.a))
        return self._key

    def neg(self):
        if self.k == 'const':
            return B('const', not self.a)
        if self.k == 'cmp':
            op, r = self.a, self.b
            if op == '<':
                return B('cmp', '<=', -r)
            if op == '<=':
                return B('cmp', '<', -r)
            return B('cmp', '!=' if op == '==' else '==', r)
        return B('or' if self.k == 'and' else 'and', [x.neg() for x in self.a])

    def __bool__(self):
        if self.k == 'const':
            return self.a
        return CTX.path.branch(self)

    def __and__(self, o):
        return conj([self, _b(o)])

    __rand__ = __and__

    def __or__(self, o):
        return disj([self, _b(o)])

    __ror__ = __or__

    def __invert__(self):
        return self.neg()

    def __xor__(self, o):
        return bool(self) ^ bool(o)

    def logical_not(self):
        return self.neg()

    def __eq__(self, o):
        return bool(self) == o

    def __ne__(self, o):
        return bool(self) != o

    def __hash__(self):
        return hash(self.key)

    # numbers: True/False arithmetic
    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return int(self) + o

    __radd__ = __add__

    def __mul__(self, o):
        return int(self) * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return int(self) - o

    def __rsub__(self, o):
        return o - int(self)

    def item(self):
        return bool(self)

    def any(self, *a, **k):
        return bool(self)

    all = any

    def __repr__(self):
        if self.k == 'const':
            return str(self.a)
        if self.k == 'cmp':
            return f'({self.b!r} {self.a} 0)'
        return '(' + f' {self.k} '.join(map(repr, self.a)) + ')'


TRUE, FALSE = B('const', True), B('const', False)


def _b(x):
    if isinstance(x, B):
        return x
    return TRUE if bool(x) else FALSE


def conj(xs):
    out = []
    for x in xs:
        x = _b(x)
        if x.k == 'const':
            if not x.a:
                return FALSE
        elif x.k == 'and':
            out += x.a
        else:
            out.append(x)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else B('and', out)


def disj(xs):
    out = []
    for x in xs:
        x = _b(x)
        if x.k == 'const':
            if x.a:
                return TRUE
        elif x.k == 'or':
            out += x.a
        else:
            out.append(x)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else B('or', out)


def cmp_(op, a, b):
    """a op b -> B (or python bool for specials)"""
    if isinstance(b, B):
        b = int(b)
    if not isinstance(a, R):
        a0 = _num(a)
        if a0 is None:
            return _cmp_special(op, a, b)
        a = R(pconst(a0))
    if not isinstance(b, R):
        if not isnum(b):
            if hasattr(b, '__array__'):
                return NotImplemented
            if op == '==':
                return False
            if op == '!=':
                return True
            return NotImplemented
        b0 = _num(b)
        if b0 is None:
            return _cmp_special(op, a, b)
        d = a if b0 == 0 else radd(a, R(pconst(-b0)))
    else:
        if a.key == b.key:
            return _const(op in ('<=', '>=', '=='))
        d = radd(a, -b)
    if op in ('>', '>='):
        d = -d
        op = '<' if op == '>' else '<='
    if d.is_const():
        c = d.const()
        return _const(c < 0 if op == '<' else c <= 0 if op == '<=' else c == 0 if op == '==' else c != 0)
    return B('cmp', op, d)


def _const(v):
    return TRUE if v else FALSE


def _cmp_special(op, a, b):
    fa = 0.0 if isinstance(a, R) else float(a)
    fb = 0.0 if isinstance(b, R) else float(b)
    return {'<': fa < fb, '<=': fa <= fb, '>': fa > fb, '>=': fa >= fb, '==': fa == fb, '!=': fa != fb}[op]


# ------------------------------------------------------------------------------------------------------------ numerics

mpmath.mp.dps = 60


class Env:
    """evaluation of atoms under a model (dict atom id of vars -> Fraction)"""

    def __init__(self, model, default):
        self.model = model
        self.default = default
        self.f = {}
        self.mp = {}

    def var(self, a):
        v = self.model.get(a.id)
        if v is None:
            v = self.default(a)
            self.model[a.id] = v
        return v

    def atom_f(self, aid):
        v = self.f.get(aid)
        if v is None:
            a = ATOMS[aid]
            if a.kind == 'var':
                v = float(self.var(a))
            elif a.kind == 'sqrt':
                x = self.poly_f(a.arg)[0]
                v = math.sqrt(x) if x > 0 else 0.0
            elif a.kind == 'exp':
                x = self.r_f(a.arg)
                v = math.exp(x) if x < 700 else INF
            elif a.kind == 'log':
                x = self.poly_f(a.arg)[0]
                v = math.log(x) if x > 0 else NAN
            self.f[aid] = v
        return v

    def poly_f(self, p):
        s = mag = 0.0
        for m, c in p.t.items():
            v = float(c)
            for a, e in m:
                v *= self.atom_f(a) ** e
            s += v
            mag += abs(v)
        return s, mag

    def r_f(self, r):
        v = self.poly_f(r.num)[0]
        for f, e in r.den:
            d = self.poly_f(f)[0]
            if d == 0:
                return NAN
            v /= d ** e
        return v

    # high precision
    def atom_mp(self, aid):
        v = self.mp.get(aid)
        if v is None:
            a = ATOMS[aid]
            if a.kind == 'var':
                x = Fraction(self.var(a))
                v = mpmath.mpf(x.numerator) / x.denominator
            elif a.kind == 'sqrt':
                x, mag = self.poly_mp(a.arg)
                v = mpmath.sqrt(x) if x > 0 else mpmath.mpf(0)
            elif a.kind == 'exp':
                v = mpmath.exp(self.r_mp(a.arg))
            elif a.kind == 'log':
                x, _ = self.poly_mp(a.arg)
                v = mpmath.log(x) if x > 0 else mpmath.mpf('nan')
            self.mp[aid] = v
        return v

    def poly_mp(self, p):
        s = mag = mpmath.mpf(0)
        for m, c in p.t.items():
            if isinstance(c, int):
                v = mpmath.mpf(c)
            else:
                v = mpmath.mpf(c.numerator) / c.denominator
            for a, e in m:
                v *= self.atom_mp(a) ** e
            s += v
            mag += abs(v)
        return s, mag

    def r_mp(self, r):
        v, _ = self.poly_mp(r.num)
        for f, e in r.den:
            d, _ = self.poly_mp(f)
            if d == 0:
                return mpmath.mpf('nan')
            v /= d ** e
        return v

    def psign(self, p):
        """sign of a Poly under the model"""
        try:
            s, mag = self.poly_f(p)
            if mag == mag and abs(s) > 1e-9 * mag and mag < 1e300 and mag > 1e-290:
                return 1 if s > 0 else -1
        except (OverflowError, ValueError):
            pass
        s, mag = self.poly_mp(p)
        if abs(s) <= mag * mpmath.mpf(10) ** -40:
            return 0
        return 1 if s > 0 else -1

    def rsign(self, r):
        s = self.psign(r.num)
        if s:
            for f, e in r.den:
                if e % 2:
                    s *= self.psign(f)
        return s

    def closed_value(self, aid):
        return self.atom_mp(aid)

    def b(self, b):
        if b.k == 'const':
            return b.a
        if b.k == 'cmp':
            s = self.rsign(b.b)
            return s < 0 if b.a == '<' else s <= 0 if b.a == '<=' else s == 0 if b.a == '==' else s != 0
        if b.k == 'and':
            return all(self.b(x) for x in b.a)
        return any(self.b(x) for x in b.a)


_CLOSED = {}
_NUMERIC = Env({}, None)


def closed_atom(aid):
    """no variable anywhere below"""
    c = _CLOSED.get(aid)
    if c is None:
        a = ATOMS[aid]
        if a.kind in ('exp', 'log', 'sqrt'):
            ps = [a.arg] if isinstance(a.arg, Poly) else [a.arg.num] + [f for f, _ in a.arg.den]
            c = all(closed_atom(x) for p in ps for m in p.t for x, _ in m)
        else:
            c = False
        _CLOSED[aid] = c
    return c


_CSIGN = {}


def closed_sign(p):
    """sign of a polynomial in numerically known atoms (60 digits, refused below 1e-40 relative), else None"""
    for m in p.t:
        for a, _ in m:
            if not closed_atom(a):
                return None
    s = _CSIGN.get(p.key)
    if s is None:
        v, mag = _NUMERIC.poly_mp(p)
        s = _CSIGN[p.key] = 0 if abs(v) <= mag * mpmath.mpf(10) ** -40 else 1 if v > 0 else -1
    return s or None


# ------------------------------------------------------------------------------------------------------------- printing

def show_atom(aid):
    a = ATOMS[aid]
    if a.kind == 'var':
        return a.name
    if a.kind == 'exp':
        return f'exp({show(a.arg)})'
    return f'{a.kind}({show_poly(a.arg)})'


def show_poly(p, limit=12):
    if not p.t:
        return '0'
    out = []
    for m in sorted(p.t, key=mono_order, reverse=True)[:limit]:
        c = p.t[m]
        s = '*'.join(show_atom(a) + (f'^{e}' if e != 1 else '') for a, e in m)
        cs = str(c) if not isinstance(c, Fraction) or c.denominator < 10 ** 6 else f'{float(c):.6g}'
        out.append(cs if not s else s if c == 1 else f'{cs}*{s}')
    if len(p.t) > limit:
        out.append(f'...[{len(p.t)} terms]')
    return ' + '.join(out)


def show(r):
    if not isinstance(r, R):
        return repr(r)
    n = show_poly(r.num)
    if not r.den:
        return n
    return f'({n})/(' + '*'.join(f'({show_poly(f)})' + (f'^{e}' if e != 1 else '') for f, e in r.den) + ')'


def var(name, sgn=0):
    """interned variable; sgn 1 = declared positive"""
    a = _atom('var', name, name, None, sgn)
    return a
