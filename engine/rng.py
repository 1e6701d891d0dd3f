"""Scripted random generators.  Every draw is an affine/monotone image of a canonical primitive named
'<generator>.<kind><k>'; the backend (symbolic or concrete) supplies the primitive's value."""
from fractions import Fraction

import numpy as np

REAL_GENERATOR = np.random.Generator


class Draw:
    __slots__ = ('gen', 'kind', 'par', 'value', 'prim', 'idx')

    def __repr__(self):
        return f'<{self.gen}.{self.kind} {self.par} -> {self.value}>'


class Token:
    """a seed sequence spawned from a scripted generator"""

    def __init__(self, gid):
        self.gid = gid
        self.n = 0

    def spawn(self, n):
        out = [Token(f'{self.gid}/{self.n + i}') for i in range(n)]
        self.n += n
        BACK.spawned.extend(t.gid for t in out)
        return out


class SeedInt(int):
    gid = None


class BitGen:
    def __init__(self, gen):
        self.gen = gen

    @property
    def seed_seq(self):
        return BACK.token(self.gen.gid)

    @property
    def _seed_seq(self):
        return BACK.token(self.gen.gid)

    def spawn(self, n):
        return [BitGen(Gen(t.gid)) for t in BACK.token(self.gen.gid).spawn(n)]

    @property
    def state(self):
        raise BACK.unsupported('generator state')


BACK = None        # current backend


def set_backend(b):
    global BACK
    BACK = b


class Gen:
    """stands for numpy.random.Generator"""

    def __init__(self, gid):
        self.gid = gid

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return Gen, (self.gid,)

    @property
    def bit_generator(self):
        return BitGen(self)

    def spawn(self, n):
        return [Gen(t.gid) for t in BACK.token(self.gid).spawn(n)]

    # ------------------------------------------------------------------------------------------------ plumbing
    def _draw(self, kind, n, par, f, size, out=None):
        """f(prims list, broadcast params) evaluated elementwise"""
        b = BACK
        b.touch(self.gid)
        names = list(par)
        vals = [par[k] for k in names]
        arrs = [b.asarray(v) for v in vals]
        if size is None:
            shape = np.broadcast_shapes(*[a.shape for a in arrs]) if arrs else ()
        else:
            shape = tuple(int(s) for s in size) if isinstance(size, (tuple, list, np.ndarray)) else (int(size),)
        arrs = [np.broadcast_to(a, shape) for a in arrs]
        res = b.empty(shape)
        prims = []
        for ix in np.ndindex(*shape):
            ps = [b.prim(self.gid, kind) for _ in range(n)]
            prims.append(ps[0] if n == 1 else ps)
            res[ix] = f(ps, *[a[ix] for a in arrs])
        d = Draw()
        scal = shape == () and size is None
        d.gen, d.kind, d.par = self.gid, kind, par
        d.value = res = b.scalar(res[()]) if scal else b.finish(res)
        d.prim = prims[0] if scal else prims
        b.log_draw(d)
        return res

    def _nonneg(self, name, v):
        b = BACK
        for x in np.asarray(b.asarray(v)).reshape(-1):
            if not b.isnan(x) and bool(x < 0):
                raise ValueError(f'{name} < 0')

    def _pos(self, name, v):
        b = BACK
        for x in np.asarray(b.asarray(v)).reshape(-1):
            if b.isnan(x) or bool(x <= 0):
                raise ValueError(f'{name} <= 0')

    # ------------------------------------------------------------------------------------------------ continuous
    def uniform(self, low=0.0, high=1.0, size=None):
        b = BACK
        for x in np.asarray(b.asarray(high)).reshape(-1).tolist() + np.asarray(b.asarray(low)).reshape(-1).tolist():
            if b.isnan(x) or b.isinf(x):
                raise OverflowError('high - low range exceeds valid bounds')
        return self._draw('u', 1, dict(low=low, high=high), lambda p, lo, hi: lo + (hi - lo) * p[0], size)

    def random(self, size=None, dtype=None, out=None):
        r = self._draw('u', 1, dict(low=0.0, high=1.0), lambda p, lo, hi: p[0], size if out is None else out.shape)
        if out is not None:
            out[...] = r
            return out
        return r

    def standard_normal(self, size=None, dtype=None, out=None):
        r = self._draw('z', 1, dict(loc=0.0, scale=1.0), lambda p, lo, hi: p[0], size if out is None else out.shape)
        if out is not None:
            out[...] = r
            return out
        return r

    def normal(self, loc=0.0, scale=1.0, size=None):
        self._nonneg('scale', scale)
        return self._draw('z', 1, dict(loc=loc, scale=scale), lambda p, m, s: m + s * p[0], size)

    def exponential(self, scale=1.0, size=None):
        self._nonneg('scale', scale)
        return self._draw('e', 1, dict(scale=scale), lambda p, s: s * p[0], size)

    def standard_exponential(self, size=None, dtype=None, method=None, out=None):
        return self._draw('e', 1, dict(scale=1.0), lambda p, s: p[0], size)

    def gamma(self, shape, scale=1.0, size=None):
        self._nonneg('shape', shape)
        self._nonneg('scale', scale)
        b = BACK

        def f(p, k, s):
            if b.isnan(k) or b.isnan(s):
                return float('nan')
            return s * p[0]
        return self._draw('g', 1, dict(shape=shape, scale=scale), f, size)

    def standard_gamma(self, shape, size=None, dtype=None, out=None):
        self._nonneg('shape', shape)
        b = BACK
        return self._draw('g', 1, dict(shape=shape, scale=1.0), lambda p, k, s: float('nan') if b.isnan(k) else p[0],
                          size)

    def beta(self, a, b, size=None):
        self._pos('a', a)
        self._pos('b', b)
        return self._draw('b', 1, dict(a=a, b=b), lambda p, x, y: p[0], size)

    def wald(self, mean, scale, size=None):
        self._pos('mean', mean)
        self._pos('scale', scale)
        return self._draw('w', 1, dict(mean=mean, scale=scale), lambda p, m, s: p[0], size)

    def lognormal(self, mean=0.0, sigma=1.0, size=None):
        self._nonneg('sigma', sigma)
        b = BACK
        return self._draw('z', 1, dict(logmean=mean, sigma=sigma), lambda p, m, s: b.exp(m + s * p[0]), size)

    def chisquare(self, df, size=None):
        self._pos('df', df)
        return self._draw('q', 1, dict(df=df), lambda p, d: p[0], size)

    def triangular(self, *a, **k):
        raise BACK.unsupported('triangular')

    def multivariate_normal(self, mean, cov, size=None, check_valid='warn', tol=1e-8, method='svd'):
        b = BACK
        b.touch(self.gid)
        mean = b.asarray(mean)
        cov = b.asarray(cov)
        n = mean.shape[0]
        if cov.shape != (n, n):
            raise ValueError('mean and cov must have same length')
        shape = () if size is None else tuple(size) if isinstance(size, (tuple, list)) else (int(size),)
        res = b.empty(shape + (n,))
        prims = []
        for ix in np.ndindex(*res.shape):
            v = b.prim(self.gid, 'm')
            prims.append(v)
            res[ix] = mean[ix[-1]] + v
        d = Draw()
        d.gen, d.kind, d.par, d.value, d.prim = self.gid, 'm', dict(mean=mean, cov=cov), b.finish(res), prims
        b.log_draw(d)
        return d.value

    # ------------------------------------------------------------------------------------------------ discrete
    def poisson(self, lam=1.0, size=None):
        b = BACK
        b.touch(self.gid)
        a = b.asarray(lam)
        shape = a.shape if size is None else tuple(size) if isinstance(size, (tuple, list)) else (int(size),)
        a = np.broadcast_to(a, shape)
        out = np.zeros(shape, dtype=np.int64)
        for ix in np.ndindex(*shape):
            l = a[ix]
            if b.isnan(l) or bool(l < 0):
                raise ValueError('lam < 0 or lam contains NaNs')
            out[ix] = 0 if bool(l == 0) else b.fork(self.gid, 'p', b.pois_max + 1)
        d = Draw()
        d.gen, d.kind, d.par, d.prim = self.gid, 'p', dict(lam=lam), None
        d.value = int(out[()]) if shape == () else out
        b.log_draw(d)
        return d.value

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        b = BACK
        b.touch(self.gid)
        if isinstance(a, (int, np.integer)):
            pop = np.arange(a)
            if a <= 0 and (size is None or np.prod(size) > 0):
                raise ValueError('a must be a positive integer unless no samples are taken')
        elif np.ndim(a) == 0:
            raise ValueError('a must be a sequence or an integer')
        else:
            pop = a if isinstance(a, np.ndarray) else np.asarray(a)
        n = len(pop)
        if n == 0:
            raise ValueError('a cannot be empty unless no samples are taken')
        if p is not None:
            p = b.asarray(p)
            if p.shape != (n,):
                raise ValueError("a and p must have same size")
            for x in p:
                if b.isnan(x):
                    raise ValueError('probabilities contain NaN')
                if bool(x < 0):
                    raise ValueError('Probabilities are not non-negative')
            tot = p[0]
            for x in p[1:]:
                tot = tot + x
            if not b.is_one(tot):
                raise ValueError('Probabilities do not sum to 1.')
        shape = () if size is None else tuple(size) if isinstance(size, (tuple, list)) else (int(size),)
        out = np.zeros(shape, dtype=np.int64)
        used = []
        for ix in np.ndindex(*shape):
            left = [i for i in range(n) if replace or i not in used]
            if not left:
                raise ValueError('Cannot take a larger sample than population when replace is False')
            k = left[b.fork(self.gid, 'c', len(left))] if len(left) > 1 else left[0]
            if p is not None:
                b.assume(p[k] > 0)
            used.append(k)
            out[ix] = k
        d = Draw()
        d.gen, d.kind, d.par, d.prim = self.gid, 'c', dict(a=pop, p=p), used
        d.value = pop[out[()]] if shape == () else np.take(pop, out, axis=axis)
        d.idx = used[0] if shape == () else out
        b.log_draw(d)
        return d.value

    def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
        b = BACK
        b.touch(self.gid)
        lo, hi = (0, low) if high is None else (low, high)
        n = int(hi) - int(lo) + (1 if endpoint else 0)
        if n <= 0:
            raise ValueError('low >= high')
        shape = () if size is None else tuple(size) if isinstance(size, (tuple, list)) else (int(size),)
        if n > 64:
            out = np.empty(shape, dtype=object)
            for ix in np.ndindex(*shape):
                t = b.token(self.gid).spawn(1)[0]
                v = SeedInt(b.seedint(t.gid))
                v.gid = t.gid
                out[ix] = v
            return out[()] if shape == () else out
        out = np.zeros(shape, dtype=np.int64)
        for ix in np.ndindex(*shape):
            out[ix] = int(lo) + b.fork(self.gid, 'i', n)
        d = Draw()
        d.gen, d.kind, d.par, d.prim = self.gid, 'i', dict(low=lo, n=n), None
        d.value = out[()] if shape == () else out
        b.log_draw(d)
        return d.value

    def binomial(self, n, p, size=None):
        b = BACK
        b.touch(self.gid)
        a = b.asarray(p)
        shape = a.shape if size is None else tuple(size) if isinstance(size, (tuple, list)) else (int(size),)
        a = np.broadcast_to(a, shape)
        out = np.zeros(shape, dtype=np.int64)
        for ix in np.ndindex(*shape):
            x = a[ix]
            if b.isnan(x) or bool(x < 0) or bool(x > 1):
                raise ValueError('p < 0, p > 1 or p is NaN')
            if int(n) == 1:
                # the usual inversion, so that a Bernoulli draw is comparable with 'uniform < p'
                u = b.prim(self.gid, 'u')
                out[ix] = 1 if bool(u < x) else 0
            else:
                out[ix] = b.fork(self.gid, 'n', int(n) + 1)
        d = Draw()
        d.gen, d.kind, d.par, d.prim = self.gid, 'n', dict(n=n, p=p), None
        d.value = out[()] if shape == () else out
        b.log_draw(d)
        return d.value

    def permutation(self, x, axis=0):
        x = np.arange(x) if isinstance(x, (int, np.integer)) else np.asarray(x)
        left = list(range(len(x)))
        out = []
        BACK.touch(self.gid)
        while left:
            out.append(left.pop(BACK.fork(self.gid, 's', len(left)) if len(left) > 1 else 0))
        return x[out]

    def shuffle(self, x, axis=0):
        y = self.permutation(np.array(x))
        for i in range(len(x)):
            x[i] = y[i]

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if hasattr(REAL_GENERATOR, name):
            raise BACK.unsupported(f'Generator.{name}')
        raise AttributeError(name)


def run_tasks(it):
    """delayed calls in order, noting which generators each of them draws from"""
    out, log = [], []
    for f, a, k in it:
        b = BACK
        saved, b.touched = b.touched, set()
        try:
            out.append(f(*a, **k))
        finally:
            log.append(b.touched)
            b.touched = saved | b.touched
    BACK.task_log.append(log)
    return out


POISON = ('DEFAULT', 'GLOBAL', 'SEED')


def is_poison(gid):
    return gid.split('/')[0].startswith(POISON)


def default_rng(seed=None):
    if seed is None:
        return Gen('DEFAULT')
    if isinstance(seed, Gen):
        return seed
    if isinstance(seed, (Token, SeedInt)):
        return Gen(seed.gid)
    if isinstance(seed, BitGen):
        return seed.gen
    if isinstance(seed, (list, tuple)) and seed and all(isinstance(s, (Token, SeedInt)) for s in seed):
        return Gen('+'.join(s.gid for s in seed))
    return Gen(f'SEED{seed}')


def poison(gid):
    return Gen(gid)


class _Cls:
    """PCG64 & co: only usable with a spawned token"""

    def __init__(self, name):
        self.name = name

    def __call__(self, seed=None):
        return BitGen(default_rng(seed))


def bitgen(name):
    if name == 'SeedSequence':
        def seq(s=None, **k):
            if isinstance(s, (Token, SeedInt)):
                return Token(s.gid)
            return Token('DEFAULT' if s is None else f'SEED{s}')
        return seq
    return _Cls(name)


class GenFactory(type):
    def __call__(cls, bg):
        return bg.gen if isinstance(bg, BitGen) else default_rng(bg)

    def __instancecheck__(cls, x):
        return isinstance(x, (Gen, REAL_GENERATOR))


class Generator(metaclass=GenFactory):
    pass
