"""Memory of the library between calls: what is reachable from its modules is compared before and after; where something was kept,
the same calls are repeated on a fresh copy of the library and on one that has been used before, and have to agree."""
import contextlib
import functools
import sys
import types
import zlib
from fractions import Fraction

import numpy as np

DIRTY = [False]
VARIANTS = 6


class Abort(BaseException):
    """the earlier use ended here"""


def ours(name):
    return name == 'ctbayes' or name.startswith('ctbayes.')


def owned(x):
    return ours(getattr(x, '__module__', None) or '')


def state():
    """shallow contents of everything mutable the library's modules hold"""
    seen, out, todo = set(), [], []

    def note(x, content):
        out.append((x, content))
        todo.extend(content)
    for n in sorted(k for k in sys.modules if ours(k)):
        d = vars(sys.modules[n])
        note(d, [v for k, v in sorted(d.items(), key=lambda kv: kv[0]) if not k.startswith('__')])
    while todo:
        x = todo.pop()
        if x is None or id(x) in seen or isinstance(x, (str, bytes, int, float, complex, types.ModuleType)):
            continue
        seen.add(id(x))
        if isinstance(x, (tuple, frozenset)):
            todo.extend(x)
        elif isinstance(x, dict):
            note(x, list(x.keys()) + list(x.values()))
        elif isinstance(x, (list, set)) or type(x).__name__ == 'deque':
            note(x, list(x))
        elif isinstance(x, np.ndarray):
            note(x, list(x.reshape(-1)) if x.size < 10000 else [])
        elif isinstance(x, types.FunctionType):
            if owned(x):
                note(x, list(x.__defaults__ or ()) + list((x.__kwdefaults__ or {}).values()) + list(vars(x).values())
                     + [c.cell_contents for c in x.__closure__ or () if filled(c)])
        elif isinstance(x, functools._lru_cache_wrapper):
            if owned(x):
                note(x, [x.cache_info().currsize])
        elif isinstance(x, (staticmethod, classmethod, types.MethodType)):
            todo.append(x.__func__)
        elif isinstance(x, property):
            todo.extend([x.fget, x.fset, x.fdel])
        elif isinstance(x, type):
            if owned(x):
                note(x, [v for k, v in vars(x).items() if k not in ('__dict__', '__weakref__', '__doc__', '__module__')])
        elif type(x).__name__ == 'curry' or isinstance(x, functools.partial):
            todo.extend([x.func, x.args, x.keywords])
        elif owned(type(x)):
            note(x, list(getattr(x, '__dict__', {}).values()))
        elif type(x).__module__ == 'itertools':
            note(x, [repr(x)])
    return out


def filled(c):
    try:
        c.cell_contents
        return True
    except ValueError:
        return False


def same(a, b):
    return a is b or (type(a) is type(b) and isinstance(a, (str, bytes, int, float, np.generic)) and (a == b or a != a))


def changed(before, after):
    if len(before) != len(after):
        return True
    return any(x is not y or len(c) != len(d) or not all(map(same, c, d)) for (x, c), (y, d) in zip(before, after))


@contextlib.contextmanager
def fresh():
    """a copy of the library that has never been used"""
    old = {k: v for k, v in sys.modules.items() if ours(k)}
    for k in old:
        del sys.modules[k]
    try:
        yield
    finally:
        for k in [k for k in sys.modules if ours(k)]:
            del sys.modules[k]
        sys.modules.update(old)


def flatten(x, out, depth=0):
    """comparable parts of a result"""
    if isinstance(x, np.ndarray):
        out.append(('shape', x.shape))
        for v in x.reshape(-1):
            flatten(v, out, depth + 1)
    elif isinstance(x, (list, tuple)):
        out.append(('len', len(x)))
        if depth < 8:
            for v in x:
                flatten(v, out, depth + 1)
    elif x is None or isinstance(x, (str, bool, np.bool_)):
        out.append(('is', None if x is None else str(x)))
    elif isinstance(x, (int, float, np.generic)) or type(x).__name__ == 'R':
        out.append(('value', x))
    elif owned(type(x)) and getattr(x, '__dict__', None):
        flatten([v for k, v in sorted(vars(x).items())], out, depth + 1)
    else:
        out.append(('other', None))


class Log:
    def __init__(self):
        self.calls = []

    def wrap(self, f):
        def call(*a, **k):
            rec = []
            self.calls.append(rec)
            try:
                out = f(*a, **k)
            except Exception as e:
                rec.append(('raise', type(e).__name__))
                raise
            if isinstance(out, types.GeneratorType):
                return self.stream(out, rec)
            if isinstance(out, types.FunctionType):
                return self.wrap(out)
            flatten(out, rec)
            return out
        return call

    def stream(self, g, rec):
        sent = None
        while True:
            try:
                v = g.send(sent)
            except StopIteration:
                rec.append(('end', None))
                return
            except Exception as e:
                rec.append(('raise', type(e).__name__))
                raise
            flatten(v, rec)
            sent = yield v


class Module:
    def __init__(self, ref, log):
        self.__dict__['_r'], self.__dict__['_l'] = ref, log

    def __getattr__(self, n):
        v = getattr(self.__dict__['_r'], n)
        if isinstance(v, (types.FunctionType, functools._lru_cache_wrapper)):
            return self.__dict__['_l'].wrap(v)
        if type(v).__name__ == 'curry':
            log = self.__dict__['_l']
            return lambda *a, **k: log.wrap(v)(*a, **k)
        if isinstance(v, type) and owned(v) and not issubclass(v, (tuple, BaseException)):
            log = self.__dict__['_l']
            return lambda *a, **k: Object(v(*a, **k), log)
        return v


class Object:
    """an object of the library whose methods and attributes are recorded"""

    def __init__(self, x, log):
        self.__dict__['_x'], self.__dict__['_l'] = x, log

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        v, log = getattr(self.__dict__['_x'], n), self.__dict__['_l']
        if isinstance(v, types.MethodType):
            return log.wrap(v)
        rec = []
        log.calls.append(rec)
        flatten(v, rec)
        return v

    def __setattr__(self, n, v):
        setattr(self.__dict__['_x'], n, v)


def crc(s, salt):
    return zlib.crc32(f'{salt}:{s}'.encode())


def shadow(h, k):
    """the harness with other inputs: variant 0 repeats the inputs, 1-3 change about a third of them, the rest all of them"""
    s = object.__new__(type(h))
    s.__dict__.update(h.__dict__)
    for n, v in dict(p=dict(h.item.params), draws=[], touched=set(), task_log=[], spawned=[], counters={}, script={}, tokens={}, expms=[], mins=[],
                     expm_hook=None, min_hook=None, checks=[], obs=[], patches=[], limit={}).items():
        setattr(s, n, v)
    if h.sym:
        s.names, s.choices = {}, {}
        known = h.choices
    else:
        s.chs, s.diverged = {}, []
        known = h.chs
    pins, vals = {}, {}

    def shared(name):
        return k == 0 or (k <= 3 and crc(name, 'part') % 3 != k - 1)

    def real(name, lo=None, hi=None, *a, **o):
        if shared(name):
            return h.real(name, lo, hi, *a, **o)
        if name not in vals:
            c = crc(name, k)
            if lo is not None and hi is not None:
                v = Fraction(lo) + (Fraction(hi) - Fraction(lo)) * (1 + c % 31) / 32
            elif lo is not None:
                v = Fraction(lo) + Fraction(1 + c % 23, 8)
            elif hi is not None:
                v = Fraction(hi) - Fraction(1 + c % 23, 8)
            else:
                v = Fraction(c % 25 - 12, 8) + Fraction(1, 16)
            vals[name] = h.num(v)
        return vals[name]

    def choose(name, options):
        options = list(options)
        if name in pins:
            i = pins[name]
        elif shared(name) and name in known:
            i = known[name]
        else:
            i = crc(name, k) % len(options)
        return options[min(i, len(options) - 1)]

    def assume(c):
        if not h.decide(h.all([c])):
            raise Abort

    def cut(why):
        raise Abort
    s.real, s.choose, s.assume, s.cut = real, choose, assume, cut
    s.pin = pins.__setitem__
    s.check = s.observe = lambda *a, **k: None
    return s


def record(h, fn):
    """the results of the calls fn makes"""
    from engine import rng
    log = Log()
    mod = h.mod
    h.mod = lambda name: Module(mod(name), log)
    mins, h.mins = h.mins, []
    rng.set_backend(h)
    try:
        h.again(lambda: attempt(fn, h))
    finally:
        h.mod, h.mins = mod, mins
        h.restore()
    return log.calls


def attempt(fn, h):
    try:
        fn(h)
    except Exception:
        pass


def agree(h, a, b):
    if len(a) != len(b):
        return h.const(False)
    cs = []
    for x, y in zip(a, b):
        if len(x) != len(y) or any(p[0] != q[0] or (p[0] != 'value' and p[1] != q[1]) for p, q in zip(x, y)):
            return h.const(False)
        cs += [h.eq(p[1], q[1]) for p, q in zip(x, y) if p[0] == 'value' and p[1] is not q[1] and not (h.isnan(p[1]) and h.isnan(q[1]))]
    return h.all(cs)


def used_before(h, fn):
    """after fn(h) has been run and something was kept: does it matter"""
    from engine import rng
    k = h.choose('history', range(VARIANTS))
    try:
        with fresh():
            first = record(h, fn)
        with fresh():
            s = shadow(h, k)
            rng.set_backend(s)
            try:
                attempt(fn, s)
            except Abort:
                pass
            finally:
                s.restore()
                rng.set_backend(h)
            second = record(h, fn)
    finally:
        rng.set_backend(h)
    return agree(h, first, second)


def memoryless(h, fn, run):
    """run() runs fn(h); True unless results depend on earlier calls"""
    before = None if DIRTY[0] else state()
    run()
    h.restore()
    if not DIRTY[0]:
        if changed(before, state()):
            DIRTY[0] = True
    if DIRTY[0] or (not h.sym and 'history' in h.chs):
        return used_before(h, fn)
    return h.const(True)
