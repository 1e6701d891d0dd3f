"""numpy / scipy / math / joblib as the code under test sees them: proxies of the real modules whose functions also accept
exact symbolic reals.  Anything without symbolic arguments and without a symbolic meaning is forwarded unchanged."""
import builtins
import importlib
import importlib.abc
import importlib.machinery
import math
import sys
import types
from fractions import Fraction

import numpy as np

from . import terms as T
from .terms import R, B, CTX

REAL_FLOAT64_DTYPE = np.dtype('float64')
INF, NAN = float('inf'), float('nan')


# ---------------------------------------------------------------------------------------------------------------- helpers

def has_sym(x):
    if isinstance(x, (R, B)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_sym(e) for e in x)
    return False


def lift(v):
    """number -> R (inf/nan stay numpy floats)"""
    if isinstance(v, R):
        return v
    if isinstance(v, B):
        return v
    if v is None or isinstance(v, (str, bytes)):
        return v
    if isinstance(v, (bool, np.bool_)):
        return v
    if T.isnum(v):
        c = T._num(v)
        if c is None:
            return np.float64(float(v))
        return R(T.pconst(c))
    return v


def norm(a):
    """object array: numbers become R"""
    if isinstance(a, np.ndarray) and a.dtype == object:
        flat = a.reshape(-1) if a.flags.c_contiguous else None
        if flat is not None:
            for i in range(flat.size):
                v = flat[i]
                if not isinstance(v, R):
                    flat[i] = lift(v)
            return a
        b = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            b[i] = lift(a[i])
        return b
    return a


def objarr(a):
    """float data -> object array of R"""
    a = np.asarray(a)
    b = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        b[i] = lift(a[i])
    return b


def fl(a):
    """result of a forwarded numpy call: float arrays become exact object arrays"""
    if isinstance(a, np.ndarray):
        if a.dtype == object:
            return norm(a)
        if a.dtype.kind == 'f':
            return objarr(a)
    return a


def emap(f, *args):
    """elementwise over broadcast arguments"""
    arrs = [a if isinstance(a, np.ndarray) else np.asarray(a, dtype=object) if isinstance(a, (list, tuple)) else a
            for a in args]
    if not any(isinstance(a, np.ndarray) and a.ndim for a in arrs):
        return f(*[a.item() if isinstance(a, np.ndarray) else a for a in arrs])
    bs = np.broadcast_arrays(*[np.asarray(a) if isinstance(a, np.ndarray) else wrap0(a) for a in arrs])
    out = np.empty(bs[0].shape, dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = f(*[b[i] for b in bs])
    return out


def wrap0(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def boolarr(a):
    if isinstance(a, np.ndarray):
        return a.astype(bool)
    return np.bool_(bool(a))


def special(x):
    """python float of an inf/nan or None"""
    if isinstance(x, (R, B)) or x is None:
        return None
    f = float(x)
    return f if (f != f or f in (INF, -INF)) else None


# ------------------------------------------------------------------------------------------------------------ elementary

def s_exp(x):
    f = special(x)
    if f is not None:
        return np.float64(math.exp(f))
    return T.rexp(R.of(lift(x)))


def s_log(x):
    f = special(x)
    if f is not None:
        return np.float64(np.log(f)) if f == f and f > 0 else np.float64(NAN)
    r = T.rlog(R.of(lift(x)))
    return r if isinstance(r, R) else np.float64(r)


def s_sqrt(x):
    f = special(x)
    if f is not None:
        return np.float64(f if f == f and f > 0 else NAN)
    r = T.rsqrt(R.of(lift(x)))
    return r if isinstance(r, R) else np.float64(r)


def s_square(x):
    return x * x


def s_abs(x):
    return abs(x)


def s_sign(x):
    f = special(x)
    if f is not None:
        return np.float64(np.sign(f))
    return T.sign_fork(lift(x))


def s_logaddexp(a, b):
    fa, fb = special(a), special(b)
    for f, o in ((fa, b), (fb, a)):
        if f is not None:
            if f == -INF:
                return o
            return np.float64(f)
    return s_log(s_exp(a) + s_exp(b))


def s_log1p(x):
    return s_log(1 + x)


def s_expm1(x):
    return s_exp(x) - 1


def s_power(a, b):
    fb = special(b)
    if fb is not None:
        raise T.Unsupported('power with infinite exponent')
    fa = special(a)
    if fa is not None:
        return np.float64(fa) ** float(b)
    b = lift(b)
    if isinstance(b, R) and b.is_const():
        b = b.const()
        b = int(b) if isinstance(b, int) else b
    r = T.rpow(R.of(lift(a)), b)
    return r


def s_isinf(x):
    if x is None:
        raise TypeError("ufunc 'isinf' not supported for the input types")
    return special(x) in (INF, -INF)


def s_isnan(x):
    f = special(x)
    return f is not None and f != f


def s_isfinite(x):
    return special(x) is None


def s_floor(x):
    if special(x) is not None:
        return x
    return T.rfloor(R.of(lift(x)))


def s_ceil(x):
    return -s_floor(-x)


def s_recip(x):
    return 1 / lift(x)


def s_hypot(a, b):
    return s_sqrt(a * a + b * b)


def s_nan_to_num(x, nan=0.0, posinf=None, neginf=None):
    f = special(x)
    if f is None:
        return x
    if f != f:
        return nan
    if f > 0:
        return np.finfo(float).max if posinf is None else posinf
    return np.finfo(float).min if neginf is None else neginf


def s_maximum(a, b):
    for x in (a, b):
        f = special(x)
        if f is not None and f != f:
            return np.float64(NAN)
    return a if bool(lift(a) >= lift(b)) else b


def s_minimum(a, b):
    for x in (a, b):
        f = special(x)
        if f is not None and f != f:
            return np.float64(NAN)
    return a if bool(lift(a) <= lift(b)) else b


def s_fmax(a, b):
    if special(a) is not None and special(a) != special(a):
        return b
    if special(b) is not None and special(b) != special(b):
        return a
    return s_maximum(a, b)


def s_fmin(a, b):
    if special(a) is not None and special(a) != special(a):
        return b
    if special(b) is not None and special(b) != special(b):
        return a
    return s_minimum(a, b)


def floaty(x):
    """does x carry real data (so that exact evaluation is wanted)"""
    if isinstance(x, (R, B)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object or x.dtype.kind == 'f'
    if isinstance(x, (float, np.floating, Fraction)):
        return True
    if isinstance(x, (list, tuple)):
        return any(floaty(e) for e in x)
    return False


def ufn(name, f, always=False, boolean=False):
    real = getattr(np, name)

    def g(*args, **kw):
        if kw and not has_sym(list(kw.values())) and set(kw) <= {'dtype', 'casting'}:
            kw = {}
        if not (always or any(floaty(a) for a in args)):
            return real(*args, **kw)
        out = kw.pop('out', None)
        where = kw.pop('where', True)
        if kw:
            raise T.Unsupported(f'np.{name} keywords {sorted(kw)}')
        r = emap(f, *args)
        r = boolarr(r) if boolean else norm(r)
        if where is not True:
            if out is None:
                raise T.Unsupported('where without out')
            out[where] = r[where]
            return out
        if out is not None:
            if isinstance(out, tuple):
                out = out[0]
            out[...] = r
            return out
        return r
    g.__name__ = name
    g.reduce = lambda a, axis=0, **kw: reduce_axis(f, a, axis)
    g.outer = lambda a, b: emap(f, np.asarray(a)[:, None], np.asarray(b)[None])
    return g


def reduce_axis(f, a, axis):
    a = as_obj(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    a = np.moveaxis(a, axis, 0)
    acc = a[0]
    for i in range(1, a.shape[0]):
        acc = emap(f, acc, a[i])
    return norm(acc)


def as_obj(a):
    if isinstance(a, np.ndarray) and a.dtype == object:
        return a
    return objarr(np.array(a, dtype=object) if isinstance(a, (list, tuple)) and has_sym(a) else a)


# --------------------------------------------------------------------------------------------------------------- creation

FLOAT_DT = (float, np.float64, 'float', 'float64', 'd', np.dtype('float64'))


def isfloatdt(dt):
    if dt is None:
        return False
    if dt is SFloat64 or dt is SFloat:
        return True
    try:
        return np.dtype(dt).kind == 'f'
    except TypeError:
        return False


def c_array(x, dtype=None, copy=True, **kw):
    if dtype is not None and not isfloatdt(dtype) and dtype is not object:
        if has_sym(x) and np.dtype(dtype).kind in 'iu':
            return emap(lambda v: int(v), np.array(x, dtype=object)).astype(dtype)
        return np.array(x, dtype=dtype, **kw)
    if isinstance(x, types.GeneratorType):
        return np.array(x, **kw)
    a = np.array(x, **kw)
    if dtype is not None and a.dtype.kind in 'iub':
        a = objarr(a)
    if a.ndim == 0 and a.dtype == object:
        return a
    return fl(a)


def c_asarray(x, dtype=None, **kw):
    if isinstance(x, np.ndarray) and dtype is None:
        return x
    return c_array(x, dtype)


def filler(v):
    def g(shape, dtype=None, **kw):
        if dtype is not None and not isfloatdt(dtype) and dtype is not object:
            return np.full(shape, v, dtype=dtype)
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(a.shape):
            a[i] = R(T.pconst(v))
        return a
    return g


def filler_like(v):
    def g(x, dtype=None, **kw):
        x = np.asarray(x)
        if x.dtype.kind in 'iub' and dtype is None:
            return np.full(x.shape, v, dtype=x.dtype)
        return filler(v)(x.shape, dtype)
    return g


def c_full(shape, v, dtype=None):
    if dtype is not None and not isfloatdt(dtype):
        return np.full(shape, v, dtype=dtype)
    if isinstance(v, (int, bool, np.integer, np.bool_)) and dtype is None:
        return np.full(shape, v)
    a = np.empty(shape, dtype=object)
    a[...] = v
    return norm(a)


def c_identity(n, dtype=None):
    return objarr(np.identity(n))


def c_eye(n, m=None, k=0, dtype=None):
    if dtype is not None and not isfloatdt(dtype):
        return np.eye(n, m, k, dtype=dtype)
    return objarr(np.eye(n, m, k))


def c_linspace(a, b, num=50, endpoint=True, **kw):
    if kw:
        raise T.Unsupported('linspace keywords')
    num = int(num)
    d = num - 1 if endpoint else num
    out = np.empty(num, dtype=object)
    a, b = lift(a), lift(b)
    for i in range(num):
        out[i] = lift(a + (b - a) * Fraction(i, d)) if d else lift(a)
    return out


def c_arange(*args, **kw):
    if all(isinstance(a, (int, np.integer)) for a in args) and not kw:
        return np.arange(*args)
    if kw.get('dtype') is not None and not has_sym(args):
        return np.arange(*args, **kw)
    args = [lift(a) for a in args]
    if len(args) == 1:
        lo, hi, st = lift(0), args[0], lift(1)
    else:
        lo, hi, st = args[0], args[1], args[2] if len(args) > 2 else lift(1)
    # arange has ceil((hi-lo)/st) points
    n = -T.rfloor(R.of(-(hi - lo) / st))
    out = np.empty(max(n, 0), dtype=object)
    for i in range(max(n, 0)):
        out[i] = lift(lo + st * i)
    return out


def fwd(name):
    """forward to numpy on the (possibly object) arguments, normalise the result"""
    real = getattr(np, name)

    def g(*a, **k):
        r = real(*a, **k)
        if isinstance(r, list):
            return [fl(x) if isinstance(x, np.ndarray) and x.dtype == object else x for x in r]
        if isinstance(r, np.ndarray) and r.dtype == object:
            return norm(r)
        return r
    g.__name__ = name
    return g


def c_stack(name):
    real = getattr(np, name)

    def g(arrs, *a, **k):
        arrs = list(arrs)
        if has_sym(arrs) or any(floaty(x) for x in arrs):
            arrs = [c_array(x) if not isinstance(x, np.ndarray) else x for x in arrs]
        return fl(real(arrs, *a, **k))
    g.__name__ = name
    return g


def c_append(a, v, axis=None):
    return fl(np.append(c_array(a), c_array(v), axis)) if has_sym([a, v]) or floaty(a) or floaty(v) \
        else np.append(a, v, axis)


def c_insert(a, idx, v, axis=None):
    if isinstance(idx, (R,)):
        idx = idx.__index__()
    if floaty(a) or has_sym(v) or floaty(v):
        if not (np.asarray(a).dtype.kind in 'iub' and not floaty(v)):
            return norm(np.insert(as_obj(a), idx, as_obj(v) if np.ndim(v) else lift(v) if not isinstance(v, np.ndarray)
                        else v.item(), axis))
    return np.insert(a, idx, v, axis)


def c_ediff1d(a, to_end=None, to_begin=None):
    a = np.asarray(a).reshape(-1)
    d = a[1:] - a[:-1]
    parts = []
    if to_begin is not None:
        parts.append(np.atleast_1d(c_array(to_begin)).reshape(-1))
    parts.append(d)
    if to_end is not None:
        parts.append(np.atleast_1d(c_array(to_end)).reshape(-1))
    if not any(p.dtype == object or p.dtype.kind == 'f' for p in parts):
        return np.ediff1d(a, to_end, to_begin)
    if a.dtype.kind in 'iu':
        # numpy keeps the dtype of a: a non-integer prefix is refused, an integer one is kept
        for p in parts:
            if p.dtype == object or p.dtype.kind == 'f':
                raise TypeError('dtype of `to_end` must be compatible with input `ary` under the `same_kind` rule.')
    return norm(np.concatenate([as_obj(p) for p in parts]))


def c_diff(a, n=1, axis=-1, **kw):
    for k in ('prepend', 'append'):
        if kw.get(k) is not None:
            v = kw[k]
            v = np.atleast_1d(c_array(v)) if not isinstance(v, np.ndarray) else v
            a = c_stack('concatenate')([v, a] if k == 'prepend' else [a, v])
    a = np.asarray(a)
    for _ in range(n):
        a = np.diff(a, axis=axis)
    return fl(a)


def c_where(c, *ab):
    if isinstance(c, B):
        c = bool(c)
    if not ab:
        return np.where(c)
    a, b = ab
    if has_sym([a, b]) or floaty(a) or floaty(b):
        return norm(np.where(c, as_obj(a) if np.ndim(a) else wrap0(lift(a)), as_obj(b) if np.ndim(b) else wrap0(lift(b))))
    return np.where(c, a, b)


def c_isin(a, b, **kw):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype != object and b.dtype != object:
        return np.isin(a, b, **kw)
    out = np.zeros(a.shape, dtype=bool)
    for i in np.ndindex(a.shape):
        for y in b.reshape(-1):
            if bool(lift(a[i]) == lift(y)):
                out[i] = True
                break
    return ~out if kw.get('invert') else out


def c_mean(a, axis=None, **kw):
    a = c_array(a) if not isinstance(a, np.ndarray) else a
    if a.dtype == object or a.dtype.kind == 'f':
        a = as_obj(a)
        n = a.size if axis is None else a.shape[axis]
        if n == 0:
            return np.float64(NAN)
        return np.sum(a, axis=axis) / n
    if a.dtype.kind == 'b':
        return lift(Fraction(int(np.sum(a)), a.size)) if axis is None else np.sum(a, axis=axis) / a.shape[axis]
    if a.size:
        return np.sum(as_obj(a), axis=axis) / (a.size if axis is None else a.shape[axis])
    return np.mean(a, axis=axis)


def c_average(a, axis=None, weights=None, **kw):
    if weights is None:
        return c_mean(a, axis)
    a, w = as_obj(c_array(a)), as_obj(c_array(weights))
    return np.sum(a * w, axis=axis) / np.sum(w, axis=axis)


def c_var(a, axis=None, ddof=0, **kw):
    a = as_obj(c_array(a))
    m = c_mean(a, axis)
    d = a - (m if axis is None else np.expand_dims(m, axis))
    n = a.size if axis is None else a.shape[axis]
    return np.sum(d * d, axis=axis) / (n - ddof)


def c_cov(m, y=None, rowvar=True, bias=False, ddof=None, **kw):
    if not has_sym(m) and not floaty(m):
        return np.cov(m, y, rowvar, bias, ddof)
    a = np.atleast_2d(as_obj(c_array(m)))
    if not rowvar and a.shape[0] != 1:
        a = a.T
    n = a.shape[1]
    d = ddof if ddof is not None else 0 if bias else 1
    a = a - (np.sum(a, axis=1) / n)[:, None]
    r = (a @ a.T) / (n - d)
    return norm(r) if r.size > 1 else r.reshape(-1)[0]


def c_allclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    if not (has_sym([a, b])):
        return np.allclose(a, b, rtol, atol)
    a, b = np.broadcast_arrays(as_obj(c_array(a)), as_obj(c_array(b)))
    return all(bool(abs(x - y) <= lift(atol) + lift(rtol) * abs(y)) for x, y in zip(a.reshape(-1), b.reshape(-1)))


def c_isclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    if not (has_sym([a, b])):
        return np.isclose(a, b, rtol, atol)
    return boolarr(emap(lambda x, y: bool(abs(x - y) <= lift(atol) + lift(rtol) * abs(y)), a, b))


def c_array_equal(a, b, **kw):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    return all(bool(x == y) for x, y in zip(a.reshape(-1), b.reshape(-1)))


def c_clip(a, lo=None, hi=None, **kw):
    lo = kw.pop('a_min', lo)
    hi = kw.pop('a_max', hi)
    if not (floaty(a) or floaty(lo) or floaty(hi)):
        return np.clip(a, lo, hi)
    r = a
    if lo is not None:
        r = emap(s_maximum, r, lo)
    if hi is not None:
        r = emap(s_minimum, r, hi)
    return norm(r)


def red(name, pyred):
    real = getattr(np, name)

    def g(a, axis=None, **kw):
        if isinstance(a, types.GeneratorType):
            a = list(a)
        if isinstance(a, (R, B)):
            return a
        if isinstance(a, (list, tuple)):
            a = c_array(a)
        r = real(a, axis=axis, **kw)
        if isinstance(a, np.ndarray) and a.dtype == object and not isinstance(r, np.ndarray):
            return lift(r)
        return fl(r) if isinstance(r, np.ndarray) and r.dtype == object else r
    g.__name__ = name
    return g


def c_nansum(a, axis=None, **kw):
    a = as_obj(c_array(a))
    b = emap(lambda v: R(T.P0) if s_isnan(v) else v, a)
    return norm_any(np.sum(b, axis=axis))


def norm_any(r):
    return norm(r) if isinstance(r, np.ndarray) else lift(r)


def c_nanred(f):
    def g(a, axis=None, **kw):
        return reduce_axis(f, a, axis)
    return g


def c_nanmean(a, axis=None):
    a = as_obj(c_array(a))
    n = np.sum(~boolarr(emap(s_isnan, a)), axis=axis)
    return c_nansum(a, axis) / n


def c_interp(x, xp, fp, **kw):
    raise T.Unsupported('np.interp')


def c_trapz(y, x=None, dx=1.0, axis=-1):
    y = as_obj(y)
    d = c_diff(x) if x is not None else dx
    return np.sum((y[1:] + y[:-1]) * d / 2)


def c_dot(a, b):
    return np.dot(np.asarray(a), np.asarray(b))


# ----------------------------------------------------------------------------------------------------------------- linalg

def det(m):
    n = len(m)
    if n == 0:
        return R(T.P1)
    if n == 1:
        return lift(m[0][0])
    out = R(T.P0)
    for j in range(n):
        c = lift(m[0][j])
        if isinstance(c, R) and not c.num.t:
            continue
        sub = [list(r[:j]) + list(r[j + 1:]) for r in m[1:]]
        out = out + (c if j % 2 == 0 else -c) * det(sub)
    return out


def la_det(a):
    return det([list(r) for r in np.asarray(a)]) if floaty(a) else np.linalg.det(a)


def la_solve(a, b):
    a, b = np.asarray(a), np.asarray(b)
    a, b = as_obj(a), as_obj(b)
    m = [list(r) for r in a]
    n = len(m)
    if n > 5:
        raise T.Unsupported('linear solve of size > 5')
    d = det(m)
    if not bool(d != 0):
        raise np.linalg.LinAlgError('Singular matrix')

    def col(v):
        return [det([[v[r] if c == j else m[r][c] for c in range(n)] for r in range(n)]) / d for j in range(n)]
    if b.ndim == 1:
        return c_array(col(list(b)))
    return c_array([col(list(b[:, k])) for k in range(b.shape[1])]).T


def la_inv(a):
    return la_solve(a, np.identity(np.asarray(a).shape[0]))


def la_norm(x, ord=None, axis=None, keepdims=False):
    x = as_obj(c_array(x)) if not isinstance(x, np.ndarray) else as_obj(x)
    if ord not in (None, 2, 'fro'):
        raise T.Unsupported('norm order')
    r = emap(s_sqrt, np.sum(x * x, axis=axis, keepdims=keepdims))
    return norm(r)


def la_cholesky(a):
    a = as_obj(a)
    n = a.shape[0]
    l = filler(0)((n, n))
    for j in range(n):
        v = a[j, j] - sum((l[j, k] * l[j, k] for k in range(j)), R(T.P0))
        if not bool(v > 0):
            raise np.linalg.LinAlgError('Matrix is not positive definite')
        l[j, j] = s_sqrt(v)
        for i in range(j + 1, n):
            l[i, j] = (a[i, j] - sum((l[i, k] * l[j, k] for k in range(j)), R(T.P0))) / l[j, j]
    return l


def la_matrix_power(a, n):
    r = objarr(np.identity(np.asarray(a).shape[0]))
    for _ in range(n):
        r = r @ as_obj(a)
    return norm(r)


# ------------------------------------------------------------------------------------------------------- float/int classes

class MFloat64(type):
    def __call__(cls, x=0.0, *a):
        if isinstance(x, (R, B)):
            return x
        if isinstance(x, np.ndarray) or isinstance(x, (list, tuple)):
            return as_obj(c_array(x))
        return np.float64(x)

    def __instancecheck__(cls, x):
        return isinstance(x, np.float64) or isinstance(x, R)

    def __subclasscheck__(cls, c):
        return issubclass(c, np.float64)


class SFloat64(np.float64, metaclass=MFloat64):
    pass


class MInt64(type):
    def __call__(cls, x=0, *a):
        if isinstance(x, (R, B)):
            return np.int64(int(x))
        if isinstance(x, (list, tuple, np.ndarray)) and has_sym(x):
            return emap(lambda v: int(v), np.array(x, dtype=object)).astype(np.int64)
        return np.int64(x)

    def __instancecheck__(cls, x):
        return isinstance(x, np.int64)

    def __subclasscheck__(cls, c):
        return issubclass(c, np.int64)


class SInt64(np.int64, metaclass=MInt64):
    pass


class MFloat(type):
    def __call__(cls, x=0.0, *a):
        if isinstance(x, R):
            return x
        if isinstance(x, B):
            return 1.0 if bool(x) else 0.0
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return x.reshape(-1)[0]
        return builtins.float(x, *a)

    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, R))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)

    def __eq__(cls, o):
        return o is builtins.float or o is cls

    def __hash__(cls):
        return hash(builtins.float)


class SFloat(builtins.float, metaclass=MFloat):
    pass


# ----------------------------------------------------------------------------------------------------------- environment

class Env_:
    """the simulated outside world of the current run: set by the harness runner"""
    poison = None          # generator standing for unseeded / global randomness
    default_rng = None
    expm = None
    minimize = None


ENV = Env_()


class GlobalRandom:
    """np.random as seen by the code under test"""

    def __init__(self, real):
        self._real = real
        self.Generator = real.Generator

    def default_rng(self, *a, **k):
        return ENV.default_rng(*a, **k)

    def __getattr__(self, name):
        if name in ('PCG64', 'SeedSequence', 'BitGenerator', 'MT19937', 'Philox', 'SFC64'):
            return ENV.bitgen(name)
        g = ENV.poison('GLOBAL')
        if name == 'rand':
            return lambda *s: g.uniform(size=s or None)
        if name == 'randn':
            return lambda *s: g.standard_normal(size=s or None)
        if name in ('random_sample', 'ranf', 'sample'):
            name = 'random'
        if name == 'randint':
            name = 'integers'
        if name == 'seed':
            return lambda *a: None
        return getattr(g, name)


class ModuleProxy(types.ModuleType):
    def __init__(self, real, over):
        super().__init__(real.__name__)
        self.__dict__['_real'] = real
        self.__dict__['_over'] = over

    def __getattr__(self, name):
        over = self.__dict__['_over']
        if name in over:
            return over[name]
        v = getattr(self.__dict__['_real'], name)
        if isinstance(v, types.ModuleType):
            p = proxy_for(v)
            if p is not None:
                return p
        return v


class StrictNumpy(ModuleProxy):
    """a numpy function without a symbolic meaning is refused when given symbolic data"""

    def __getattr__(self, name):
        v = ModuleProxy.__getattr__(self, name)
        return v


def _np_overrides():
    o = {}
    for n, f in dict(exp=s_exp, log=s_log, sqrt=s_sqrt, log1p=s_log1p, expm1=s_expm1).items():
        o[n] = ufn(n, f, always=True)
    o['log2'] = ufn('log2', lambda x: s_log(x) / s_log(2), always=True)
    o['log10'] = ufn('log10', lambda x: s_log(x) / s_log(10), always=True)
    o['exp2'] = ufn('exp2', lambda x: s_exp(s_log(2) * x), always=True)
    o['cbrt'] = ufn('cbrt', lambda x: s_power(x, Fraction(1, 3)), always=True)
    o['cosh'] = ufn('cosh', lambda x: (s_exp(x) + s_exp(-lift(x))) / 2, always=True)
    o['sinh'] = ufn('sinh', lambda x: (s_exp(x) - s_exp(-lift(x))) / 2, always=True)
    o['tanh'] = ufn('tanh', lambda x: 1 - 2 / (s_exp(2 * lift(x)) + 1), always=True)
    for n, f in dict(square=s_square, abs=s_abs, absolute=s_abs, fabs=s_abs, sign=s_sign, floor=s_floor, ceil=s_ceil,
                     reciprocal=s_recip).items():
        o[n] = ufn(n, f)
    for n, f in dict(logaddexp=s_logaddexp, power=s_power, float_power=s_power, hypot=s_hypot, maximum=s_maximum,
                     minimum=s_minimum, fmax=s_fmax, fmin=s_fmin).items():
        o[n] = ufn(n, f)
    import operator as op
    for n, f in dict(add=op.add, subtract=op.sub, multiply=op.mul, divide=op.truediv, true_divide=op.truediv,
                     negative=op.neg, positive=op.pos, mod=op.mod, remainder=op.mod, floor_divide=op.floordiv).items():
        o[n] = ufn(n, (lambda f: lambda *a: f(*[lift(x) for x in a]))(f))
    o['add'].reduce = lambda a, axis=0, **k: np.sum(as_obj(a), axis=axis)
    o['multiply'].reduce = lambda a, axis=0, **k: np.prod(as_obj(a), axis=axis)
    o['add'].accumulate = lambda a, axis=0: np.cumsum(as_obj(a), axis=axis)
    o['multiply'].accumulate = lambda a, axis=0: np.cumprod(as_obj(a), axis=axis)
    o['subtract'].outer = lambda a, b: as_obj(a)[:, None] - as_obj(b)[None]
    for n, f in dict(isinf=s_isinf, isnan=s_isnan, isfinite=s_isfinite).items():
        o[n] = ufn(n, f, boolean=True)
    o['isposinf'] = ufn('isposinf', lambda x: special(x) == INF, boolean=True)
    o['isneginf'] = ufn('isneginf', lambda x: special(x) == -INF, boolean=True)
    o['signbit'] = ufn('signbit', lambda x: bool(lift(x) < 0), boolean=True)
    for n, f in dict(less=op.lt, less_equal=op.le, greater=op.gt, greater_equal=op.ge, equal=op.eq,
                     not_equal=op.ne).items():
        o[n] = ufn(n, (lambda f: lambda a, b: bool(f(lift(a), lift(b))))(f), boolean=True)
    for n in ('logical_and', 'logical_or', 'logical_not', 'logical_xor'):
        pass
    o.update(array=c_array, asarray=c_asarray, asanyarray=c_asarray, ascontiguousarray=c_asarray, zeros=filler(0),
             ones=filler(1), empty=filler(0), zeros_like=filler_like(0), ones_like=filler_like(1),
             empty_like=filler_like(0), full=c_full, full_like=lambda x, v, **k: c_full(np.shape(x), v),
             identity=c_identity, eye=c_eye, linspace=c_linspace, arange=c_arange,
             append=c_append, insert=c_insert, ediff1d=c_ediff1d, diff=c_diff, where=c_where, isin=c_isin,
             in1d=lambda a, b, **k: c_isin(np.asarray(a).reshape(-1), b, **k),
             mean=c_mean, average=c_average, var=c_var, cov=c_cov, allclose=c_allclose, isclose=c_isclose,
             std=lambda *a, **k: emap(s_sqrt, c_var(*a, **k)),
             array_equal=c_array_equal, clip=c_clip, nansum=c_nansum, nanmean=c_nanmean,
             nanmin=c_nanred(s_fmin), nanmax=c_nanred(s_fmax), interp=c_interp, trapz=c_trapz,
             float64=SFloat64, float_=SFloat64, double=SFloat64, int64=SInt64, int_=SInt64, intp=SInt64,
             nan_to_num=lambda x, copy=True, **k: (norm(emap(lambda v: s_nan_to_num(v, **k), x))
                                                   if np.ndim(x) else s_nan_to_num(x, **k)))
    for n in ('hstack', 'vstack', 'concatenate', 'stack', 'column_stack', 'dstack'):
        o[n] = c_stack(n)
    o['row_stack'] = o['vstack']
    for n in ('sum', 'prod', 'min', 'max', 'amin', 'amax', 'cumsum', 'cumprod', 'ptp'):
        o[n] = red(n, None)
    for n in ('repeat', 'tile', 'outer', 'diag', 'delete', 'sort', 'split', 'array_split', 'meshgrid', 'flip', 'roll',
              'take', 'broadcast_to', 'copy', 'ravel', 'squeeze', 'reshape', 'transpose', 'einsum'):
        o[n] = fwd(n)
    o['repeat'] = lambda a, n, axis=None: fl(np.repeat(c_array(a) if not isinstance(a, np.ndarray) else a, n, axis)) \
        if floaty(a) else np.repeat(a, n, axis)
    o['searchsorted'] = c_searchsorted
    o['digitize'] = lambda x, bins, right=False: c_searchsorted(bins, x, 'left' if right else 'right')
    o['unique'] = c_unique
    o['round'] = o['around'] = lambda x, n=0: np.round(x, n) if not has_sym(x) else _unsup('round')
    return o


def c_searchsorted(a, v, side='left', sorter=None):
    a = np.asarray(a) if isinstance(a, np.ndarray) else c_array(a)
    if sorter is not None:
        a = a[sorter]
    if a.dtype != object and not has_sym(v):
        return np.searchsorted(a, v, side)

    def one(x):
        # binary search exactly as numpy: first index with a[i] >= x (left) or a[i] > x (right)
        lo, hi = 0, len(a)
        while lo < hi:
            m = (lo + hi) // 2
            y = lift(a[m])
            x = lift(x)
            c = bool(y < x) if side == 'left' else not bool(x < y)
            if c:
                lo = m + 1
            else:
                hi = m
        return lo
    if np.ndim(v) == 0:
        return one(v.item() if isinstance(v, np.ndarray) else v)
    v = v if isinstance(v, np.ndarray) else c_array(v)
    return np.array([one(x) for x in v.reshape(-1)], dtype=np.int64).reshape(v.shape)


def c_unique(a, **kw):
    a = np.asarray(a)
    if a.dtype != object:
        return np.unique(a, **kw)
    if kw:
        raise T.Unsupported('unique keywords')
    s = list(np.sort(a.reshape(-1)))
    out = []
    for x in s:
        if not out or bool(lift(x) != lift(out[-1])):
            out.append(x)
    return c_array(out)


def _unsup(n):
    raise T.Unsupported(n)


# ------------------------------------------------------------------------------------------------------------ math, scipy

def m_wrap(f, real):
    def g(*a):
        return f(*a) if any(floaty(x) for x in a) else real(*a)
    return g


def s_loggamma(x):
    if isinstance(x, np.ndarray):
        return emap(s_loggamma, x)
    c = x.const() if isinstance(x, R) and x.is_const() else x
    if isinstance(c, R):
        raise T.Unsupported('loggamma of a symbolic value')
    c = Fraction(T._num(c))
    if c.denominator != 1 or c < 1 or c > 400:
        raise T.Unsupported('loggamma of a non-integer')
    return T.log_const(math.factorial(int(c) - 1))


def s_logsumexp(a, axis=None, b=None, **kw):
    if b is not None or kw:
        raise T.Unsupported('logsumexp keywords')
    return emap(s_log, np.sum(emap(s_exp, as_obj(c_array(a))), axis=axis))


_PROXIES = {}


def proxy_for(mod):
    """proxy of an intercepted module or None"""
    n = mod.__name__
    if n in _PROXIES:
        return _PROXIES[n]
    over = None
    if n == 'numpy':
        over = _np_overrides()
        over['linalg'] = ModuleProxy(np.linalg, dict(solve=la_solve, inv=la_inv, norm=la_norm, cholesky=la_cholesky,
                                                     det=la_det, matrix_power=la_matrix_power))
        over['random'] = GlobalRandom(np.random)
        p = StrictNumpy(mod, over)
        _PROXIES[n] = p
        _PROXIES['numpy.linalg'] = over['linalg']
        _PROXIES['numpy.random'] = over['random']
        return p
    if n in ('numpy.linalg', 'numpy.random'):
        proxy_for(np)
        return _PROXIES[n]
    if n == 'math':
        w = dict(exp=s_exp, log=lambda x, b=None: s_log(x) if b is None else s_log(x) / s_log(b), sqrt=s_sqrt,
                 log1p=s_log1p, expm1=s_expm1, fabs=s_abs, isinf=s_isinf, isnan=s_isnan, isfinite=s_isfinite,
                 floor=s_floor, ceil=s_ceil, pow=s_power, hypot=s_hypot)
        over = {k: (f if k in ('exp', 'log', 'sqrt', 'log1p', 'expm1') else m_wrap(f, getattr(math, k)))
                for k, f in w.items()}
        over['lgamma'] = s_loggamma
    elif n == 'scipy':
        over = {}
    elif n == 'scipy.special':
        over = dict(loggamma=s_loggamma, gammaln=s_loggamma, logsumexp=s_logsumexp,
                    expit=lambda x: emap(lambda v: 1 / (1 + s_exp(-lift(v))), x),
                    logit=lambda x: emap(lambda v: s_log(lift(v) / (1 - lift(v))), x),
                    xlogy=lambda a, b: emap(lambda x, y: lift(x) * s_log(y), a, b))
    elif n == 'scipy.linalg':
        over = dict(expm=lambda a: ENV.expm(a), solve=la_solve, inv=la_inv, norm=la_norm)
    elif n == 'scipy.sparse.linalg':
        over = dict(expm=lambda a: ENV.expm(a))
    elif n == 'scipy.optimize':
        over = dict(minimize=lambda *a, **k: ENV.minimize(*a, **k))
    elif n == 'joblib':
        over = dict(Parallel=SeqParallel)
    else:
        return None
    p = ModuleProxy(mod, over)
    _PROXIES[n] = p
    return p


class SeqParallel:
    """joblib.Parallel executed in order in this process"""

    def __init__(self, n_jobs=None, *a, **k):
        self.n_jobs = n_jobs

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def __call__(self, it):
        from . import rng
        return rng.run_tasks(it)


def s_import(name, globals=None, locals=None, fromlist=(), level=0):
    m = builtins.__import__(name, globals, locals, fromlist, level)
    if level == 0:
        p = proxy_for(m)
        if p is not None:
            return p
        if fromlist:
            return m
    return m


def s_isinstance(x, c):
    return builtins.isinstance(x, c)


_BUILTINS = None


def sym_builtins():
    global _BUILTINS
    if _BUILTINS is None:
        d = dict(vars(builtins))
        d['__import__'] = s_import
        d['float'] = SFloat
        _BUILTINS = d
    return _BUILTINS


class Loader(importlib.machinery.SourceFileLoader):
    def exec_module(self, module):
        module.__dict__['__builtins__'] = sym_builtins()
        code = self.source_to_code(self.get_data(self.path), self.path)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root):
        self.root = root

    def find_spec(self, name, path, target=None):
        if name != 'ctbayes' and not name.startswith('ctbayes.'):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path or [self.root])
        if spec is None or not spec.origin or not spec.origin.endswith('.py'):
            return spec
        spec.loader = Loader(name, spec.origin)
        return spec


def install(root):
    sys.dont_write_bytecode = True
    np.seterr(all='ignore')
    proxy_for(np)
    sys.meta_path.insert(0, Finder(root))
