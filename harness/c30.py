"""Arguments and reported results: the inputs of the other properties' checks, watched at every call into the library"""
import types

import numpy as np

from engine.harness import Item
from engine.history import attempt, memoryless

MODULES = ['c%02d' % k for k in range(1, 30) if k not in (21, 26)]


def leaves(x, out, seen, depth=0):
    """arrays and lists reachable through arrays, tuples, lists and dicts"""
    if depth > 6 or id(x) in seen:
        return
    if isinstance(x, np.ndarray):
        seen.add(id(x))
        out.append((x, x.copy()))
        if x.dtype == object:
            for v in x.flat:
                if isinstance(v, (np.ndarray, list, tuple)):
                    leaves(v, out, seen, depth + 1)
    elif isinstance(x, list):
        seen.add(id(x))
        out.append((x, list(x)))
        for v in x:
            leaves(v, out, seen, depth + 1)
    elif isinstance(x, dict):
        seen.add(id(x))
        out.append((x, dict(x)))
        for v in x.values():
            leaves(v, out, seen, depth + 1)
    elif isinstance(x, tuple):
        seen.add(id(x))
        for v in x:
            leaves(v, out, seen, depth + 1)


def snapshot(*xs):
    out, seen = [], set()
    for x in xs:
        leaves(x, out, seen)
    return out


def equal(h, a, b):
    if a is b:
        return h.const(True)
    if isinstance(a, (list, tuple, np.ndarray, dict)) or isinstance(b, (list, tuple, np.ndarray, dict)):
        # another container in its place
        return h.const(False)
    if a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        return h.const(a is b or (a is not None and b is not None and type(a) is type(b) and a == b))
    try:
        return h.eq(a, b, 1e-12)
    except Exception:
        return h.const(False)


def unchanged(h, snap):
    cs = []
    for x, old in snap:
        if isinstance(x, np.ndarray):
            if x.shape != old.shape:
                return h.const(False)
            if x.dtype != object:
                with np.errstate(all='ignore'):
                    same = x == old
                    if x.dtype.kind == 'f':
                        same = same | (np.isnan(x) & np.isnan(old))
                cs.append(h.const(bool(np.all(same))))
                continue
            pairs = zip(x.flat, old.flat)
        elif isinstance(x, list):
            if len(x) != len(old):
                return h.const(False)
            pairs = zip(x, old)
        else:
            if list(x) != list(old):
                return h.const(False)
            pairs = zip(x.values(), old.values())
        cs += [equal(h, a, b) for a, b in pairs if a is not b]
    return h.all(cs)


class Watch:
    def __init__(self, h, check):
        self.h, self.check, self.depth = h, check, 0

    def wrap(self, f, name):
        def call(*a, **k):
            snap = snapshot(*a, *k.values())
            try:
                out = f(*a, **k)
            finally:
                self.check('arguments are left as they were', unchanged(self.h, snap))
            if isinstance(out, types.GeneratorType):
                return self.stream(out, snap)
            return out
        return call

    def stream(self, g, snap):
        seen = []
        sent = None
        while True:
            try:
                v = g.send(sent)
            except StopIteration:
                return
            finally:
                self.check('arguments are left as they were', unchanged(self.h, snap))
                for s in seen:
                    self.check('what was reported stays as it was', unchanged(self.h, s))
            seen.append(snapshot(v))
            sent = yield v


class Module:
    """a module of the library whose functions are watched"""

    def __init__(self, ref, watch):
        self.__dict__['_r'], self.__dict__['_w'] = ref, watch

    def __getattr__(self, n):
        v = getattr(self.__dict__['_r'], n)
        if isinstance(v, types.FunctionType):
            return self.__dict__['_w'].wrap(v, n)
        if type(v).__name__ == 'curry' and isinstance(getattr(v, 'func', None), types.FunctionType):
            w, f = self.__dict__['_w'], v
            return lambda *a, **k: w.wrap(f, n)(*a, **k)
        return v


def purity(fn):
    def run(h):
        check, observe, mod = h.check, h.observe, h.mod
        watch = Watch(h, check)

        def watched():
            h.mod = lambda name: Module(mod(name), watch)
            attempt(fn, h)      # exceptions are other properties' business; the calls made so far count
            h.mod = mod
        h.check = h.observe = lambda *a, **k: None
        try:
            free = memoryless(h, fn, watched)
        finally:
            h.check, h.observe, h.mod = check, observe, mod
        h.check('results do not depend on earlier calls', free)
    return run


def items(tier):
    import importlib
    deep = tier == 'thorough'
    out = []
    for m in MODULES:
        for it in importlib.import_module('harness.' + m).items('quick'):
            o = dict(it.opts)
            o['budget'] = 60 if deep else 2
            o['branch_timeout'] = min(o['branch_timeout'], 1)
            out.append(Item(f'{m.upper()} {it.name}', purity(it.fn), weight=it.weight, **o, **it.params))
    return out
