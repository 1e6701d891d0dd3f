"""The vocabulary harnesses are written in.  A harness fn(h) builds inputs from named variables, calls the real code and
states checks; it runs unchanged with exact symbolic reals (SymH) and with floats on unpatched numpy (ConH)."""
import importlib
import math
from fractions import Fraction

import numpy as np

from . import rng


class Missing(BaseException):
    """the code under test no longer offers what the harness calls"""


class Item:
    def __init__(self, name, fn, budget=30.0, max_paths=3000, max_branches=300, branch_timeout=2.0, check_timeout=15.0,
                 pois_max=2, max_draws=40, expect=(), weight=1, **params):
        self.name, self.fn, self.params = name, fn, params
        self.opts = dict(budget=budget, max_paths=max_paths, max_branches=max_branches, branch_timeout=branch_timeout,
                         check_timeout=check_timeout, pois_max=pois_max, max_draws=max_draws)
        self.expect = expect
        self.weight = weight


class ModRef:
    def __init__(self, name):
        self.__dict__['_m'] = importlib.import_module(name)

    def __getattr__(self, n):
        try:
            return getattr(self.__dict__['_m'], n)
        except AttributeError:
            raise Missing(f"{self.__dict__['_m'].__name__}.{n}")


class Gap(Exception):
    """raised by a harness when the result has a shape it does not understand (treated as a property violation)"""


class H:
    """shared by both modes"""
    sym = False

    def __init__(self, item):
        self.item = item
        self.p = dict(item.params)
        self.draws = []
        self.touched = set()
        self.task_log = []      # per pool call, the generators each task drew from
        self.spawned = []
        self.counters = {}
        self.script = {}        # primitive name -> value, to reparametrise a draw (e.g. a uniform as its quantile)
        self.tokens = {}
        self.pois_max = item.opts['pois_max']
        self.max_draws = item.opts['max_draws']
        self.expms = []
        self.mins = []
        self.expm_hook = None
        self.min_hook = None
        self.checks = []
        self.obs = []
        self.in_code = None
        self.raised = None
        self.patches = []
        self.limit = {}         # draws of a kind allowed
        self.summaries = set()
        # concrete replays: draws of a callee that was summarised in the symbolic run take default values
        self.loose = False

    # -- modules
    def mod(self, name):
        try:
            return ModRef(name if name.startswith('ctbayes') else 'ctbayes.' + name)
        except ImportError as e:
            raise Missing(f'{name}: {e}')

    def gen(self, gid='g'):
        return rng.Gen(gid)

    def arr(self, xs):
        raise NotImplementedError

    # -- generator backend
    def touch(self, gid):
        self.touched.add(gid)

    def token(self, gid):
        t = self.tokens.get(gid)
        if t is None:
            t = self.tokens[gid] = rng.Token(gid)
        return t

    def seedint(self, gid):
        self.counters['seedint'] = self.counters.get('seedint', 0) + 1
        return 10 ** 6 + self.counters['seedint']

    def _next(self, gid, kind):
        k = self.counters.get((gid, kind), 0)
        self.counters[gid, kind] = k + 1
        self.counters['n'] = self.counters.get('n', 0) + 1
        if self.counters['n'] > self.max_draws or k >= self.limit.get(kind, 10 ** 9):
            self.cut('draws')
        return f'{gid}.{kind}{k}'

    def log_draw(self, d):
        self.draws.append(d)

    def drawn(self, kind=None, gen=None):
        return [d for d in self.draws if (kind is None or d.kind == kind) and (gen is None or d.gen == gen)]

    def flat_prims(self, kind, gen=None):
        out = []
        for d in self.drawn(kind, gen):
            out += d.prim if isinstance(d.prim, list) else [d.prim]
        return out

    # -- summaries: a callee decided by its own property is replaced by an over-approximation (symbolic runs only)
    def summarise(self, module, attr, make, both=False):
        """both: in concrete replays as well (the callee stands for any of its kind there too)"""
        if both:
            self.patch(module, attr, make)

    def patch(self, module, attr, make):
        try:
            m = importlib.import_module('ctbayes.' + module)
        except ImportError:
            return
        if hasattr(m, attr):
            old = getattr(m, attr)
            self.patches.append((m, attr, old))
            self.summaries.add(f'{module}.{attr}')
            setattr(m, attr, make(old))

    def restore(self):
        while self.patches:
            setattr(*self.patches.pop())

    # -- checks
    def check(self, label, cond):
        self.checks.append((label, cond))

    def observe(self, label, v):
        self.obs.append((label, v))

    def eq_all(self, a, b):
        a, b = list(a), list(b)
        if len(a) != len(b):
            return self.const(False)
        return self.all([self.eq(x, y) for x, y in zip(a, b)])

    def increasing(self, xs, strict=True):
        xs = list(xs)
        return self.all([(self.lt if strict else self.le)(a, b) for a, b in zip(xs, xs[1:])])

    def again(self, f):
        """run f on generators whose draws start over (its draws are not recorded): the same variables come out as in the code under test"""
        names = ('counters', 'draws', 'touched', 'tokens', 'spawned', 'task_log')
        old = [getattr(self, n) for n in names]
        for n, v in zip(names, ({}, [], set(), {}, [], [])):
            setattr(self, n, v)
        try:
            return f()
        finally:
            for n, v in zip(names, old):
                setattr(self, n, v)

    # -- environment stubs
    def expm(self, a):
        a = self.asarray(a)
        for key, m in self.expms:
            if self.same_mat(key, a):
                return m.copy()
        n = a.shape[0]
        if self.expm_hook is not None:
            m = self.expm_hook(self, a, len(self.expms))
        else:
            m = self.fresh_stochastic(f'expm{len(self.expms)}', n)
        self.expms.append((a, m))
        return m.copy()

    def fresh_stochastic(self, name, n):
        m = self.empty((n, n))
        for i in range(n):
            tot = None
            for j in range(n - 1):
                v = self.real(f'{name}.{i}{j}', 0, 1, default=Fraction(1, n))
                m[i, j] = v
                tot = v if tot is None else tot + v
            last = 1 - tot
            self.assume(last > 0)
            m[i, n - 1] = last
        return self.finish(m)

    def minimize(self, fun, x0, *a, **k):
        if self.min_hook is None:
            raise self.unsupported('minimize')
        names = ('args', 'method', 'jac', 'hess', 'hessp', 'bounds', 'constraints', 'tol', 'callback', 'options')
        k = dict(k)
        for n, v in zip(names, a):
            k[n] = v
        return self.min_hook(self, fun, x0, k, len(self.mins))

    # -- convenient inputs
    def pos(self, name, **k):
        return self.real(name, 0, None, **k)

    def unit(self, name, **k):
        return self.real(name, 0, 1, **k)

    def vec(self, name, n, lo=None, hi=None, **k):
        return self.arr([self.real(f'{name}{i}', lo, hi, **k) for i in range(n)])

    def times(self, name, n, start=0):
        """strictly increasing, built from positive increments (start itself not included)"""
        out, t = [], start
        for i in range(n):
            t = t + self.pos(f'{name}{i}')
            out.append(t)
        return self.arr(out)

    def generator_matrix(self, name, n):
        """rate matrix with positive off-diagonal entries"""
        m = self.empty((n, n))
        for i in range(n):
            tot = None
            for j in range(n):
                if i == j:
                    continue
                v = self.pos(f'{name}{i}{j}')
                m[i, j] = v
                tot = v if tot is None else tot + v
            m[i, i] = -tot
        return self.finish(m)

    def call(self, f, *a, allow=(), **k):
        """call the code under test; expected exceptions are returned"""
        try:
            return f(*a, **k)
        except allow as e:
            return e


# ---------------------------------------------------------------------------------------------------------------- symbolic

class SymH(H):
    sym = True

    def __init__(self, item, path):
        super().__init__(item)
        from . import terms, symnp
        self.T, self.np_ = terms, symnp
        self.path = path
        self.names = {}
        self.choices = {}
        path.h = self

    def cut(self, why):
        self.path.cut(why)

    def summarise(self, module, attr, make, both=False):
        self.patch(module, attr, make)

    def unsupported(self, s):
        return self.T.Unsupported(s)

    # inputs
    def real(self, name, lo=None, hi=None, lo_strict=True, hi_strict=True, default=None, nice=None):
        T = self.T
        if name in self.names:
            return self.names[name]
        # the domain is part of the atom's identity: the same input may be declared differently on different paths
        a = T.var(name if lo is None and hi is None else f'{name}|{lo},{hi},{int(lo_strict)}{int(hi_strict)}')
        if default is None:
            if lo is not None and hi is not None:
                default = (Fraction(lo) + Fraction(hi)) / 2
            elif lo is not None:
                default = Fraction(lo) + 1 + Fraction(len(self.names) % 7, 8)
            elif hi is not None:
                default = Fraction(hi) - 1
            else:
                default = Fraction(len(self.names) % 5 - 2, 2) + Fraction(1, 8)
        if nice is None:
            if lo is not None and hi is not None:
                w = Fraction(hi) - Fraction(lo)
                nice = (lo + w / 64, hi - w / 64)
            elif lo is not None:
                nice = (Fraction(lo) + (Fraction(1, 16) if lo_strict else 0), Fraction(lo) + 8)
            elif hi is not None:
                nice = (Fraction(hi) - 8, Fraction(hi) - (Fraction(1, 16) if hi_strict else 0))
            else:
                nice = (Fraction(-8), Fraction(8))
        x = self.path.declare(a, lo, hi, lo_strict, hi_strict, default, nice)
        self.names[name] = x
        return x

    def const(self, b):
        return self.T.B('const', bool(b))

    def approx(self, x):
        """rational approximation of a term without variables"""
        x = self.T._NUMERIC.r_mp(self.np_.lift(x))
        return Fraction(int(x * 2 ** 60), 2 ** 60)

    def num(self, v):
        return self.np_.lift(v)

    def arr(self, xs):
        xs = [self.np_.lift(x) for x in xs]
        a = np.empty(len(xs), dtype=object)
        for i, x in enumerate(xs):
            a[i] = x
        return a

    def mat(self, rows):
        return self.np_.c_array([list(r) for r in rows]) if len(rows) else self.np_.filler(0)((0,))

    def choose(self, name, options):
        options = list(options)
        k = self.choices.get(name)
        if k is None:
            k = self.choices[name] = self.path.choose(name, len(options))
        return options[k]

    def pin(self, name, k):
        """the k-th possible outcome of a discrete draw that is yet to come"""
        self.choices[name] = k

    def assume(self, c):
        self.path.assume(c)

    def implied(self, c):
        return self.path.implied(self.T._b(c))

    # conditions
    def _c(self, op, a, b):
        c = self.T.cmp_(op, self.np_.lift(a), self.np_.lift(b))
        return self.T._b(c)

    def eq(self, a, b, tol=None):
        return self._c('==', a, b)

    def same(self, a, b):
        """identical values on every input (no fork)"""
        c = self.eq(a, b)
        return c.k == 'const' and bool(c.a)

    def le(self, a, b, tol=None):
        return self._c('<=', a, b)

    def lt(self, a, b, tol=None):
        return self._c('<', a, b)

    def ge(self, a, b, tol=None):
        return self._c('<=', b, a)

    def gt(self, a, b, tol=None):
        return self._c('<', b, a)

    def eqx(self, a, b):
        """exact equality (identities of indices, counts)"""
        return self.eq(a, b)

    def all(self, xs):
        return self.T.conj([self.T._b(x) for x in xs])

    def any(self, xs):
        return self.T.disj([self.T._b(x) for x in xs])

    def neg(self, x):
        return self.T._b(x).neg()

    def implies(self, a, b):
        return self.any([self.neg(a), b])

    def iff(self, a, b):
        return self.all([self.implies(a, b), self.implies(b, a)])

    def decide(self, c):
        """fork on a condition inside the harness (used to state piecewise oracles)"""
        return bool(self.T._b(c))

    def exp(self, x):
        return self.np_.s_exp(x)

    def log(self, x):
        return self.np_.s_log(x)

    def sqrt(self, x):
        return self.np_.s_sqrt(x)

    def derivative(self, f, x):
        from .calculus import diff
        r = f(x)
        return self.np_.emap(lambda v: diff(self.np_.lift(v), x), r)

    # backend
    def asarray(self, v):
        return self.np_.as_obj(v if isinstance(v, np.ndarray) else self.np_.c_array(v))

    def empty(self, shape):
        return np.empty(shape, dtype=object)

    def scalar(self, v):
        return self.np_.lift(v)

    def finish(self, a):
        return self.np_.norm(a)

    def isnan(self, x):
        return self.np_.s_isnan(x)

    def isinf(self, x):
        return self.np_.s_isinf(x)

    def is_one(self, t):
        if self.isnan(t):
            return False
        t = self.np_.lift(t)
        if isinstance(t, self.T.R) and t.is_const():
            return abs(t.const() - 1) < 1e-8
        return bool(t == 1)

    def same_mat(self, a, b):
        return a.shape == b.shape and all(
            (x.key == y.key if isinstance(x, self.T.R) and isinstance(y, self.T.R) else x is y)
            for x, y in zip(a.reshape(-1), b.reshape(-1)))

    def prim(self, gid, kind):
        name = self._next(gid, kind)
        if name in self.script:
            return self.script[name]
        if kind in 'ub':
            return self.real(name, 0, 1)
        if kind in 'zm':
            return self.real(name)
        return self.real(name, 0, None)

    def fork(self, gid, kind, n):
        name = self._next(gid, kind)
        return self.choose(name, range(n))


# ---------------------------------------------------------------------------------------------------------------- concrete

TOL = 1e-7


class Con:
    """concrete verdict: how badly a condition is violated (0 = holds), and whether an exact violation counts"""
    __slots__ = ('v', 's')

    def __init__(self, v, s=None):
        self.v = v              # relative violation
        self.s = v if s is None else s      # satisfaction slack (how clearly the negation is violated)

    def __bool__(self):
        return self.v == 0


def _rel(a, b):
    return max(1e-3, abs(a), abs(b)) if math.isfinite(a) and math.isfinite(b) else 1.0


class Expired(BaseException):
    pass


class ConH(H):
    def __init__(self, item, script):
        super().__init__(item)
        self.vals = script.get('vars', {})
        self.chs = dict(script.get('choices', {}))
        self.diverged = []

    def cut(self, why):
        raise Expired('cut: ' + why)

    def unsupported(self, s):
        return Expired('unsupported: ' + s)

    def real(self, name, lo=None, hi=None, lo_strict=True, hi_strict=True, default=None, nice=None):
        v = self.vals.get(name)
        if v is None:
            if not self.loose:
                self.diverged.append(name)
            v = default
            if v is None:
                v = (lo + hi) / 2 if lo is not None and hi is not None else lo + 1 if lo is not None else \
                    hi - 1 if hi is not None else 0.5
        return np.float64(float(Fraction(v)))

    def const(self, b):
        return Con(0.0 if b else 1.0, 1.0 if b else 0.0)

    def num(self, v):
        return np.float64(float(v))

    def approx(self, x):
        return x

    def arr(self, xs):
        return np.array([float(x) for x in xs], dtype=float)

    def mat(self, rows):
        return np.array([[float(x) for x in r] for r in rows], dtype=float)

    def choose(self, name, options):
        options = list(options)
        k = self.chs.get(name)
        if k is None:
            if len(options) > 1 and not self.loose:
                self.diverged.append(name)
            k = 0
        return options[min(k, len(options) - 1)]

    def pin(self, name, k):
        self.chs[name] = k

    def assume(self, c):
        if isinstance(c, Con):
            if c.v > 1e-9:
                raise Expired('assumption fails concretely')
        elif not c:
            raise Expired('assumption fails concretely')

    def implied(self, c):
        return None

    def _f(self, a):
        if isinstance(a, np.ndarray) and a.size == 1:
            a = a.reshape(-1)[0]
        return float(a)

    def derivative(self, f, x):
        e = 1e-3 * max(1.0, abs(float(x)))
        d = lambda e: (np.asarray(f(x + e), dtype=float) - np.asarray(f(x - e), dtype=float)) / (2 * e)
        r = (64 * d(e / 4) - 20 * d(e / 2) + d(e)) / 45
        return r if r.ndim else np.float64(r)

    def eq(self, a, b, tol=TOL):
        a, b = self._f(a), self._f(b)
        if a == b:
            return Con(0.0, 1.0)
        if a != a or b != b or math.isinf(a) or math.isinf(b):
            return Con(1.0, 0.0)
        v = abs(a - b) / _rel(a, b)
        return Con(0.0 if v < tol else v, 0.0)

    eqx = eq

    def same(self, a, b):
        return bool(self.eq(a, b))

    def le(self, a, b, tol=TOL):
        a, b = self._f(a), self._f(b)
        if a != a or b != b:
            return Con(1.0, 0.0)
        if a <= b:
            return Con(0.0, 1.0 if math.isinf(a) or math.isinf(b) else (b - a) / _rel(a, b))
        if math.isinf(a) or math.isinf(b):
            return Con(1.0, 0.0)
        v = (a - b) / _rel(a, b)
        return Con(0.0 if v < tol else v, 0.0)

    def lt(self, a, b, tol=TOL):
        a, b = self._f(a), self._f(b)
        if a != a or b != b:
            return Con(1.0, 0.0)
        if a < b:
            return Con(0.0, 1.0 if math.isinf(a) or math.isinf(b) else (b - a) / _rel(a, b))
        if math.isinf(a) or math.isinf(b):
            return Con(1.0, 0.0)
        return Con(max((a - b) / _rel(a, b), 2 * tol), 0.0)

    def ge(self, a, b, tol=TOL):
        return self.le(b, a, tol)

    def gt(self, a, b, tol=TOL):
        return self.lt(b, a, tol)

    def _con(self, x):
        return x if isinstance(x, Con) else self.const(bool(x))

    def all(self, xs):
        xs = [self._con(x) for x in xs]
        if not xs:
            return self.const(True)
        return Con(max(x.v for x in xs), min(x.s for x in xs))

    def any(self, xs):
        xs = [self._con(x) for x in xs]
        if not xs:
            return self.const(False)
        return Con(min(x.v for x in xs), max(x.s for x in xs))

    def neg(self, x):
        x = self._con(x)
        return Con(x.s if x.v == 0 else 0.0, x.v)

    def implies(self, a, b):
        return self.any([self.neg(a), b])

    def iff(self, a, b):
        return self.all([self.implies(a, b), self.implies(b, a)])

    def decide(self, c):
        return bool(c)

    def exp(self, x):
        return np.exp(x)

    def log(self, x):
        return np.log(x)

    def sqrt(self, x):
        return np.sqrt(x)

    def asarray(self, v):
        return np.asarray(v, dtype=float)

    def empty(self, shape):
        return np.zeros(shape)

    def scalar(self, v):
        return np.float64(v)

    def finish(self, a):
        return a

    def isnan(self, x):
        return bool(np.isnan(x))

    def isinf(self, x):
        return bool(np.isinf(x))

    def is_one(self, t):
        return abs(t - 1) < 1.5e-8

    def same_mat(self, a, b):
        return a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=1e-12)

    def prim(self, gid, kind):
        name = self._next(gid, kind)
        if name in self.script:
            return self.script[name]
        if kind in 'ub':
            return self.real(name, 0, 1)
        if kind in 'zm':
            return self.real(name)
        return self.real(name, 0, None)

    def fork(self, gid, kind, n):
        return self.choose(self._next(gid, kind), range(n))
