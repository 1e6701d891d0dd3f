"""Path exploration: concolic depth-first search over the branch decisions of the real code.

A path is identified by its list of decisions.  Every undecided comparison of symbolic reals taken by the code under test
is a decision; the alternative is decided by the solver when the path is popped from the work list.
"""
import os
import time
from fractions import Fraction

import z3

from . import terms as T
from .terms import R, B, ATOMS, CTX
from . import solver as S


DEBUG = os.environ.get('DEBUG')


class PathCut(BaseException):
    """this path is outside the bounds (recorded)"""


class PathDead(BaseException):
    """this path turned out to be infeasible"""


class Undecided(BaseException):
    """the solver could not decide a branch"""


class Diverged(BaseException):
    pass


class Stop(BaseException):
    """the item's time is over"""


ALL = frozenset((-1, 0, 1))
OPSET = {'<': frozenset((-1,)), '<=': frozenset((-1, 0)), '==': frozenset((0,)), '!=': frozenset((-1, 1))}


class Path:
    def __init__(self, ex, prefix, model):
        self.ex = ex
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.pc = []
        self.signs = {}
        self.facts = {}
        self.factors = {}
        self.model = dict(model or {})
        self.env = T.Env(self.model, self.default)
        self.doms = {}
        self.n_branch = 0
        self.pins = 0
        self.checks = []
        self.observed = []
        self.names = {}
        self.frozen = False

    # ---------------------------------------------------------------- variables
    def default(self, a):
        d = self.ex.defaults.get(a.id)
        return d if d is not None else Fraction(1, 2) if a.sgn == 1 else Fraction(0)

    def declare(self, a, lo=None, hi=None, lo_strict=True, hi_strict=True, default=None, nice=None):
        """domain facts of a variable"""
        if a.id in self.doms:
            return R(T.patom(a))
        self.doms[a.id] = (lo, hi)
        self.names[a.name] = a
        if default is not None:
            self.ex.defaults[a.id] = Fraction(default)
        self.ex.nice[a.id] = nice
        if a.dom is None:
            a.dom = []
            if lo is not None:
                a.dom.append((lambda lo, s: lambda z: z > S.q(lo) if s else z >= S.q(lo))(lo, lo_strict))
            if hi is not None:
                a.dom.append((lambda hi, s: lambda z: z < S.q(hi) if s else z <= S.q(hi))(hi, hi_strict))
        x = R(T.patom(a))
        for b, s, sg in ((lo, lo_strict, 1), (hi, hi_strict, -1)):
            if b is not None:
                d = (x - b) if sg == 1 else (R.of(b) - x)
                if not d.is_const():
                    self._learn_sign(d, frozenset((1,)) if s else frozenset((0, 1)))
        if lo is not None and lo >= 0 and lo_strict or lo is not None and lo > 0:
            a.sgn = 1
        return x

    def nice_bounds(self, a, z):
        n = self.ex.nice.get(a.id)
        if n is None:
            return []
        lo, hi = n
        return [z >= S.q(lo), z <= S.q(hi)]

    # ---------------------------------------------------------------- signs
    def sign_of(self, p):
        if not p.t:
            return 0
        if p.is_const():
            c = p.const()
            return 1 if c > 0 else -1
        s = T.closed_sign(p)
        if s is not None:
            return s
        if len(p.t) == 1:
            (m, c), = p.t.items()
            s = 1 if c > 0 else -1
            weak = False
            for a, e in m:
                if e % 2 == 0:
                    w = self.atom_sign(a)
                    if w in (1, -1):
                        continue
                    if w == 0:
                        return 0
                    weak = True
                    continue
                w = self.atom_sign(a)
                if w is None:
                    return None
                if w == 0:
                    return 0
                if w in (2, -2):
                    weak = True
                    w //= 2
                s *= w
            return 2 * s if weak else s
        c, prim = T.primitive(p)
        ss = self.signs.get(prim.key)
        s = set_to_sign(ss) if ss is not None else None
        if s is None or s in (2, -2):
            t = self._syntactic(prim)
            if t is not None and (s is None or t in (1, -1)):
                s = t
        if s is None:
            return None
        return s if c > 0 else -s

    def atom_sign(self, aid):
        a = ATOMS[aid]
        if a.kind == 'exp':
            return 1
        if a.sgn == 1:
            return 1
        if a.kind == 'sqrt':
            s = self.sign_of(a.arg)
            return 1 if s == 1 else 2
        ss = self.signs.get(T.patom(a).key)
        return set_to_sign(ss) if ss is not None else None

    def _syntactic(self, p):
        tot = None
        strict = False
        for m, c in p.t.items():
            if not m:
                s = 1 if c > 0 else -1
            else:
                s = self.sign_of(T.Poly({m: c}))
            if s is None:
                return None
            if s == 0:
                continue
            d = 1 if s > 0 else -1
            if tot is None:
                tot = d
            elif tot != d:
                return None
            strict |= abs(s) == 1
        if tot is None:
            return 0
        return tot if strict else 2 * tot

    def _rsign(self, r):
        s = self.sign_of(r.num)
        if s is None:
            return None
        for f, e in r.den:
            if e % 2:
                w = self.sign_of(f)
                if w not in (1, -1):
                    return None
                s *= w
        return s

    def _learn_sign(self, r, allowed):
        sg = 1
        for f, e in r.den:
            if e % 2:
                w = self.sign_of(f)
                if w in (1, -1):
                    sg *= w
                else:
                    return
        c, prim = T.primitive(r.num)
        if c < 0:
            sg = -sg
        if sg < 0:
            allowed = frozenset(-x for x in allowed)
        self._put(prim, allowed)
        if len(prim.t) == 1:
            (m, _), = prim.t.items()
            if len(m) == 1 and m[0][1] == 1:
                pass
            elif 0 not in allowed:
                for a, e in m:
                    self._put(T.patom(ATOMS[a]), frozenset((-1, 1)))
                unk = [(a, e) for a, e in m if e % 2 and self.atom_sign(a) not in (1, -1)]
                if len(unk) == 1 and len(allowed) == 1:
                    s = next(iter(allowed))
                    for a, e in m:
                        if (a, e) != unk[0] and e % 2:
                            s *= self.atom_sign(a)
                    self._put(T.patom(ATOMS[unk[0][0]]), frozenset((s,)))
        elif 0 not in allowed:
            cont = T.mono_content(prim)
            for a in cont:
                self._put(T.patom(ATOMS[a]), frozenset((-1, 1)))

    def _put(self, prim, allowed):
        k = prim.key
        old = self.signs.get(k, ALL)
        new = old & allowed
        if new:
            self.signs[k] = new

    # ---------------------------------------------------------------- decisions
    def implied(self, b):
        if b.k == 'const':
            return b.a
        f = self.facts.get(b.key)
        if f is not None:
            return f
        if b.k == 'cmp':
            r = b.b
            s = self._rsign(r)
            if s is not None:
                poss = {1: {1}, -1: {-1}, 0: {0}, 2: {0, 1}, -2: {0, -1}}[s]
                want = OPSET[b.a]
                if poss <= want:
                    return True
                if not (poss & want):
                    return False
            c, prim = T.primitive(r.num)
            ss = self.signs.get(prim.key)
            if ss is not None:
                sg = 1 if c > 0 else -1
                ok = True
                for f, e in r.den:
                    if e % 2:
                        w = self.sign_of(f)
                        if w not in (1, -1):
                            ok = False
                            break
                        sg *= w
                if ok:
                    poss = {x * sg for x in ss}
                elif 0 not in ss:
                    poss = {1, -1}
                else:
                    poss = ALL
                want = OPSET[b.a]
                if poss <= want:
                    return True
                if not (set(poss) & want):
                    return False
            return None
        vals = [self.implied(x) for x in b.a]
        if b.k == 'and':
            if False in vals:
                return False
            return True if all(v is True for v in vals) else None
        if True in vals:
            return True
        return False if all(v is False for v in vals) else None

    def learn(self, b):
        """add a formula known to hold"""
        if b.k == 'const':
            return
        self.pc.append(b)
        self._facts(b)

    def _facts(self, b):
        self.facts[b.key] = True
        self.facts[b.neg().key] = False
        if b.k == 'cmp':
            self._learn_sign(b.b, OPSET[b.a])
        elif b.k == 'and':
            for x in b.a:
                if x.k != 'const':
                    self._facts(x)

    def branch(self, b):
        v = self.implied(b)
        if v is not None:
            return v
        if self.frozen:
            raise T.Unsupported('branch while encoding')
        if self.ex.deadline and time.time() > self.ex.deadline:
            raise PathCut('time')
        self.n_branch += 1
        if self.n_branch > self.ex.max_branches:
            self.cut('branches')
        if self.pos < len(self.prefix):
            kind, key, d = self.prefix[self.pos]
            if kind != 'b' or key != b.key:
                raise Diverged(f'{kind} {b!r}'[:300])
            self.pos += 1
        else:
            d = bool(self.env.b(b))
            self.ex.push(self, b, d)
            self.pos += 1
        self.decisions.append(('b', b.key, d))
        self.learn(b if d else b.neg())
        return d

    def choose(self, label, n, feasible=None):
        """non-deterministic choice among range(n) (a bounded environment decision)"""
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            kind, key, d = self.prefix[self.pos]
            if kind != 'c' or key != label:
                raise Diverged(f'{kind} {key} vs choice {label}')
            self.pos += 1
        else:
            d = 0
            for i in range(n - 1, 0, -1):
                self.ex.push_choice(self, label, i)
            self.pos += 1
        self.decisions.append(('c', label, d))
        return d

    def assume(self, b):
        b = T._b(b)
        if b.k == 'const':
            if not b.a:
                raise PathDead()
            return
        v = self.implied(b)
        if v is True:
            return
        if v is False:
            raise PathDead()
        self.learn(b)
        if not self.env.b(b):
            self.resolve()

    def resolve(self):
        """the current model no longer satisfies pc: get a new one"""
        r, m = S.solve(self, self.pc, self.ex.branch_timeout, nice=True)
        if r == 'unknown' or r == 'unsat':
            r, m = S.solve(self, self.pc, self.ex.branch_timeout)
        if r == 'unsat':
            raise PathDead()
        if r == 'unknown':
            self.ex.stat['undecided_branches'] += 1
            if DEBUG:
                print('UNDECIDED pc', [repr(x)[:300] for x in self.pc][-3:], len(self.pc), flush=True)
            raise Undecided()
        self.set_model(m)

    def set_model(self, m):
        self.model = dict(m)
        self.env = T.Env(self.model, self.default)

    def cut(self, msg):
        raise PathCut(msg)

    def value(self, r):
        v = self.env.r_mp(r) if isinstance(r, R) else r
        return v

    def concretise(self, r):
        v = self.env.r_mp(r)
        f = Fraction(float(v))
        self.ex.stat['pinned'] += 1
        self.pins += 1
        b = T.cmp_('==', r, R.of(f))
        if isinstance(b, B) and b.k != 'const' and self.implied(b) is not True:
            self.learn(b)
            if not self.env.b(b):
                self.resolve()
        return float(f)

    def must(self, b, timeout=None):
        """True if pc entails b (solver verdict), False if not, None unknown"""
        b = T._b(b)
        v = self.implied(b)
        if v is not None:
            return v
        if not self.env.b(b):
            return False
        r, m = S.solve(self, self.pc + [b.neg()], timeout or self.ex.branch_timeout)
        return True if r == 'unsat' else False if r == 'sat' else None


def set_to_sign(ss):
    if len(ss) == 1:
        return next(iter(ss))
    if ss == frozenset((0, 1)):
        return 2
    if ss == frozenset((0, -1)):
        return -2
    return None


class Explorer:
    def __init__(self, max_paths=2000, max_branches=400, branch_timeout=4.0, check_timeout=20.0, budget=60.0):
        self.defaults = {}
        self.nice = {}
        self.max_paths, self.max_branches = max_paths, max_branches
        self.branch_timeout, self.check_timeout = branch_timeout, check_timeout
        self.t_end = time.time() + budget
        self.deadline = None
        self.work = []
        self.stat = dict(paths=0, infeasible=0, cut=0, undecided_branches=0, undecided_checks=0, pinned=0, diverged=0,
                         checks=0, by_form=0, by_solver=0, left=0, branches=0, raised=0, dead=0)
        self.cuts = {}
        self.unsup = {}

    def push(self, path, b, d):
        self.work.append((list(path.decisions) + [('b', b.key, not d)], list(path.pc), b if not d else b.neg(),
                          dict(path.signs), dict(path.facts), path))

    def push_choice(self, path, label, i):
        self.work.append((list(path.decisions) + [('c', label, i)], None, None, None, None, path))

    def run(self, fn, on_path):
        """explore fn(path); on_path(path, outcome) is called for each completed path"""
        try:
            self._run(fn, on_path)
        except Stop:
            self.stat['left'] += len(self.work) + 1
            self.stat['stopped'] = 1

    def _run(self, fn, on_path):
        self._one(fn, on_path, [], {})
        while self.work:
            if time.time() > self.t_end or self.stat['paths'] >= self.max_paths:
                self.stat['left'] += len(self.work)
                break
            dec, pc, alt, signs, facts, parent = self.work.pop()
            if alt is None:
                self._one(fn, on_path, dec, parent.model)
                continue
            saved, saved_f = parent.signs, parent.facts
            parent.signs, parent.facts = signs, facts
            CTX.path = parent
            try:
                r, m = S.solve(parent, pc + [alt], self.branch_timeout, nice=True)
                if r != 'sat':
                    r, m = S.solve(parent, pc + [alt], self.branch_timeout)
            finally:
                parent.signs, parent.facts = saved, saved_f
                CTX.path = None
            if r == 'unsat':
                self.stat['infeasible'] += 1
                continue
            if r == 'unknown':
                self.stat['undecided_branches'] += 1
                if DEBUG:
                    print('UNDECIDED alternative', repr(alt)[:600], len(pc), flush=True)
                continue
            self._one(fn, on_path, dec, m)

    def _one(self, fn, on_path, prefix, model):
        p = Path(self, prefix, model)
        CTX.path = p
        out = None
        try:
            try:
                fn(p)
                out = ('done', None)
            except PathCut as e:
                self.stat['cut'] += 1
                k = str(e)
                self.cuts[k] = self.cuts.get(k, 0) + 1
                out = ('cut', k)
            except PathDead:
                self.stat['dead'] += 1
                out = ('dead', None)
            except Undecided:
                out = ('cut', 'undecided')
            except Diverged as e:
                self.stat['diverged'] += 1
                out = ('cut', 'diverged')
                self.unsup['diverged: ' + str(e)[:200]] = 1
            except T.Unsupported as e:
                self.stat['cut'] += 1
                k = 'unsupported: ' + str(e)[:200]
                self.unsup[k] = self.unsup.get(k, 0) + 1
                out = ('cut', k)
            except RecursionError:
                self.stat['cut'] += 1
                self.unsup['recursion'] = self.unsup.get('recursion', 0) + 1
                out = ('cut', 'recursion')
            except Exception as e:
                out = ('raise', e)
            if out[0] == 'done' or out[0] == 'raise':
                self.stat['paths'] += 1
                self.stat['branches'] += len(p.decisions)
            on_path(p, out)
        finally:
            CTX.path = None
