"""SMT back end: division-free polynomial encoding of path conditions, z3 (nlsat / smt) with cvc5 fall-back, and
incremental refinement of exp/log atoms against their true values."""
import os
import time
from fractions import Fraction

import mpmath
import z3

from . import terms as T
from .terms import R, B, ATOMS, Poly

z3.set_param('parallel.enable', False)


class Stats:
    def __init__(self):
        self.queries = self.unsat = self.sat = self.unknown = 0
        self.time = 0.0
        self.cegar = 0
        self.cvc5 = 0
        self.cached = 0
        self.slow = 0.0

    def dict(self):
        return dict(self.__dict__)


STATS = Stats()


def q(c):
    c = Fraction(c)
    return z3.Q(c.numerator, c.denominator) if c.denominator != 1 else z3.RealVal(c.numerator)


_ZV = {}


def zvar(aid):
    v = _ZV.get(aid)
    if v is None:
        v = z3.Real(f'{ATOMS[aid].kind[0]}{aid}')
        _ZV[aid] = v
    return v


def known(a):
    """a transcendental constant (algebraic ones are encoded exactly)"""
    return ATOMS[a].kind != 'sqrt' and T.closed_atom(a)


class Encoder:
    """collects atoms met while encoding formulas; axioms() closes over them"""

    def __init__(self, path, margin=None):
        self.path = path
        self.atoms = {}
        self.consts = {}
        self.margin = margin
        self.nonlinear = False

    def poly(self, p):
        if not p.t:
            return z3.RealVal(0)
        terms = []
        items = p.t.items()
        if any(known(a) for m in p.t for a, _ in m):
            # numerically known coefficients become tightly enclosed constants
            groups = {}
            for m, c in p.t.items():
                free = tuple((a, e) for a, e in m if not known(a))
                groups.setdefault(free, {})[tuple((a, e) for a, e in m if known(a))] = c
            items = [(m, g[()] if list(g) == [()] else Poly(g)) for m, g in groups.items()]
        for m, c in items:
            fs = []
            if isinstance(c, Poly):
                fs.append(self.closed(c))
                c = 1
            for a, e in m:
                self.atoms[a] = True
                v = zvar(a)
                fs += [v] * e
            if len(fs) > 1:
                self.nonlinear = True
            if not fs:
                terms.append(q(c))
            else:
                pr = fs[0] if len(fs) == 1 else z3.Product(*fs) if len(fs) > 1 else None
                terms.append(pr if c == 1 else q(c) * pr)
        return terms[0] if len(terms) == 1 else z3.Sum(*terms)

    def closed(self, p):
        v = z3.Real('c%d' % p.key.__hash__() if isinstance(p.key, int) else f'c{abs(hash(p.key))}')
        if p.key not in self.consts:
            x, mag = T._NUMERIC.poly_mp(p)
            e = mag * mpmath.mpf(10) ** -30
            self.consts[p.key] = [v >= q(to_frac(x - e)), v <= q(to_frac(x + e))]
        return v

    def cmp(self, op, r, depth=0):
        num = r.num
        # logs
        if depth < 3 and any(ATOMS[a].kind == 'log' for m in num.t for a, _ in m):
            logs, rest = T.split_logs(r)
            if logs and not any(ATOMS[a].kind == 'log' for m in rest.num.t for a, _ in m):
                d = 1
                for c, _ in logs:
                    d = d * Fraction(c).denominator // _gcd(d, Fraction(c).denominator)
                ns = [(int(Fraction(c) * d), g) for c, g in logs]
                if sum(abs(n) for n, _ in ns) <= 14:
                    lhs, rhs = T.R(T.P1), T.R(T.P1)
                    extra = []
                    for n, g in ns:
                        extra.append(self.poly(g) > 0)
                        if n > 0:
                            lhs = lhs * T.rpow(R(g), n)
                        else:
                            rhs = rhs * T.rpow(R(g), -n)
                    e = T.rexp(rest * d)
                    x = lhs * e - rhs
                    if x.is_const():
                        c = x.const()
                        return z3.BoolVal(c < 0 if op == '<' else c <= 0 if op == '<=' else c == 0 if op == '=='
                                          else c != 0)
                    return self.cmp(op, x, depth + 1)
        # exponentials: common factor / two-term monotone form
        groups = {}
        for m, c in num.t.items():
            k = None
            for a, _ in m:
                if ATOMS[a].kind == 'exp':
                    k = a
            groups.setdefault(k, {})[tuple(x for x in m if x[0] != k)] = c
        if len(groups) == 1 and None not in groups:
            num = Poly(next(iter(groups.values())))
        elif len(groups) == 2 and depth < 6:
            (k1, g1), (k2, g2) = groups.items()
            g1, g2 = Poly(g1), Poly(g2)
            if not T.padd(g1, g2).t:
                a1 = R(T.P0) if k1 is None else ATOMS[k1].arg
                a2 = R(T.P0) if k2 is None else ATOMS[k2].arg
                # g1 * (e^a1 - e^a2) op 0
                diff = a1 - a2
                if op in ('==', '!='):
                    if isinstance(diff, R):
                        c1 = self.cmp(op, diff, depth + 1)
                        c2 = self.cmp(op, R(g1), depth + 1)
                        return z3.Or(c1, c2) if op == '==' else z3.And(c1, c2)
                else:
                    # the sign of P*(e^a1-e^a2) is the sign of P*(a1-a2)
                    s = R(g1, r.den) * diff
                    return self.cmp(op, s, depth + 1)
        if op in ('<', '<='):
            for f, e in r.den:
                if e % 2 == 0:
                    continue
                s = self.path.sign_of(f)
                if s == 1:
                    continue
                if s == -1:
                    num = T.pneg(num)
                else:
                    num = T.pmul(num, f)
        p = self.poly(num)
        if self.margin and op in ('<', '<='):
            return p <= -q(self.margin)
        if self.margin and op == '!=':
            return z3.Or(p <= -q(self.margin), p >= q(self.margin))
        return p < 0 if op == '<' else p <= 0 if op == '<=' else p == 0 if op == '==' else p != 0

    def b(self, b):
        if b.k == 'const':
            return z3.BoolVal(b.a)
        if b.k == 'cmp':
            return self.cmp(b.a, b.b)
        xs = [self.b(x) for x in b.a]
        return z3.And(*xs) if b.k == 'and' else z3.Or(*xs)

    def axioms(self, level, points):
        """level 0: sqrt definitions, positivity; 1: monotonicity/tangents of exp and log; points: refinement points"""
        out = []
        done = set()
        argv = {}
        work = True
        while work:
            work = False
            for a in list(self.atoms):
                if a in done:
                    continue
                done.add(a)
                work = True
                at = ATOMS[a]
                if at.kind == 'var':
                    for d in at.dom or ():
                        out.append(d(zvar(a)))
                elif at.kind == 'sqrt':
                    v = zvar(a)
                    out += [v >= 0, v * v == self.poly(at.arg)]
                    self.nonlinear = True
                elif at.kind == 'exp' and T.closed_atom(a):
                    v, x = zvar(a), T._NUMERIC.atom_mp(a)
                    e = 2.0 ** -60
                    out += [v >= q(to_frac(x * (1 - e))), v <= q(to_frac(x * (1 + e)))]
                elif at.kind == 'exp':
                    v = zvar(a)
                    out.append(v > 0)
                    if level:
                        t = self.argvar(at, argv, out)
                        out += [v >= 1 + t, v * (1 - t) <= 1, (t < 0) == (v < 1), (t == 0) == (v == 1)]
                elif at.kind == 'log':
                    if level:
                        v = zvar(a)
                        g = self.poly(at.arg)
                        out += [g > 0, v <= g - 1, v * g >= g - 1, (g < 1) == (v < 0), (g == 1) == (v == 0)]
        for c in self.consts.values():
            out += c
        exps = [a for a in done if ATOMS[a].kind == 'exp' and not T.closed_atom(a)]
        if level:
            for i, a in enumerate(exps):
                for b in exps[i + 1:]:
                    ra, rb = ATOMS[a].arg, ATOMS[b].arg
                    s = ra + rb
                    if isinstance(s, R) and not s.num.t:
                        out.append(zvar(a) * zvar(b) == 1)
                    out.append((argv[a] < argv[b]) == (zvar(a) < zvar(b)))
            keys = {ATOMS[a].arg.key: a for a in exps}
            if len(exps) <= 8:
                for i, a in enumerate(exps):
                    for b in exps[i:]:
                        s = ATOMS[a].arg + ATOMS[b].arg
                        if isinstance(s, R) and s.key in keys:
                            out.append(zvar(a) * zvar(b) == zvar(keys[s.key]))
        for kind, a, x, lo, hi in points:
            if a not in done:
                continue
            v = zvar(a)
            if kind == 'exp':
                if a not in argv:
                    continue
                t = argv[a]
                out += [v >= q(lo) * (1 + t - q(x)), v * (1 - (t - q(x))) <= q(hi),
                        z3.Implies(t <= q(x), v <= q(hi)), z3.Implies(t >= q(x), v >= q(lo))]
            else:
                g = self.poly(ATOMS[a].arg)
                out += [v <= q(hi) + (g - q(x)) / q(x), (v - q(lo)) * g >= g - q(x),
                        z3.Implies(g <= q(x), v <= q(hi)), z3.Implies(g >= q(x), v >= q(lo))]
        return out

    def argvar(self, at, argv, out):
        t = argv.get(at.id)
        if t is None:
            n = self.poly(at.arg.num)
            if not at.arg.den:
                if len(at.arg.num.t) <= 2:
                    t = n
                else:
                    t = z3.Real(f't{at.id}')
                    out.append(t == n)
            else:
                d = None
                for f, e in at.arg.den:
                    p = self.poly(f)
                    for _ in range(e):
                        d = p if d is None else d * p
                t = z3.Real(f't{at.id}')
                out.append(t * d == n)
                self.nonlinear = True
            argv[at.id] = t
        return t


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def value_to_fraction(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(50)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


def raw_check(forms, timeout, nonlinear):
    """one portfolio call; returns ('sat', model-fn) | ('unsat', None) | ('unknown', None)"""
    STATS.queries += 1
    t0 = time.time()
    try:
        plan = [('nra', 0.25), ('smt', 0.2), ('cvc5', 0.55)] if nonlinear else [('smt', 0.6), ('nra', 0.4)]
        for kind, frac in plan:
            ms = max(100, int(timeout * frac * 1000))
            if kind == 'cvc5':
                r = cvc5_check(forms, ms)
                if r is not None:
                    return r
                continue
            s = z3.SolverFor('QF_NRA') if kind == 'nra' else z3.Solver()
            s.set('timeout', ms)
            s.add(*forms)
            try:
                r = s.check()
            except z3.Z3Exception:
                continue
            if r == z3.unsat:
                STATS.unsat += 1
                return 'unsat', None
            if r == z3.sat:
                STATS.sat += 1
                m = s.model()
                return 'sat', (lambda aid: value_to_fraction(m.eval(zvar(aid))) if m[zvar(aid)] is not None else None)
        STATS.unknown += 1
        return 'unknown', None
    finally:
        dt = time.time() - t0
        STATS.time += dt
        STATS.slow = max(STATS.slow, dt)


def cvc5_check(forms, ms):
    """cvc5 in a child process (its time limit is not reliable)"""
    import json
    import select
    import signal
    STATS.cvc5 += 1
    s = z3.Solver()
    s.add(*forms)
    txt = '\n'.join(l for l in s.to_smt2().replace('(check-sat)', '').splitlines() if not l.startswith('(set-'))
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            signal.setitimer(signal.ITIMER_REAL, 0)
            out = cvc5_run(txt, ms)
            os.write(wr, json.dumps(out).encode())
        finally:
            os._exit(0)
    os.close(wr)
    data = b''
    try:
        t_end = time.time() + ms / 1000 + 0.3
        while True:
            left = t_end - time.time()
            if left <= 0 or not select.select([rd], [], [], left)[0]:
                break
            b = os.read(rd, 65536)
            if not b:
                break
            data += b
    finally:
        os.close(rd)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
    try:
        r = json.loads(data)
    except ValueError:
        return None
    if r is None:
        return None
    if r[0] == 'unsat':
        STATS.unsat += 1
        return 'unsat', None
    vals = {k: Fraction(v) for k, v in r[1].items()}
    STATS.sat += 1
    return 'sat', (lambda aid: vals.get(str(zvar(aid))))


def cvc5_run(txt, ms):
    try:
        import cvc5
        sv = cvc5.Solver(cvc5.TermManager()) if hasattr(cvc5, 'TermManager') else cvc5.Solver()
        sv.setOption('tlimit-per', str(ms))
        sv.setOption('produce-models', 'true')
        sv.setLogic('QF_NRA')
        p = cvc5.InputParser(sv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
        sm = p.getSymbolManager()
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            c.invoke(sv, sm)
        r = sv.checkSat()
        if r.isUnsat():
            return ['unsat', None]
        if r.isSat():
            return ['sat', {str(t): str(Fraction(str(sv.getValue(t).toPythonObj()))) for t in sm.getDeclaredTerms()}]
    except Exception:
        pass
    return None


CACHE = {}


def solve(path, forms, timeout=10.0, margin=None, nice=False, want_model=True):
    """decide the conjunction of B formulas. -> ('sat', {aid: Fraction}) | ('unsat', None) | ('unknown', None)"""
    key = (frozenset(f.key for f in forms), margin, nice)
    if key in CACHE:
        STATS.cached += 1
        return CACHE[key]
    old = T.CTX.path
    was = path.frozen
    T.CTX.path = path
    path.frozen = True
    try:
        r = _solve(path, forms, timeout, margin, nice)
    except T.Unsupported:
        r = ('unknown', None)
    finally:
        path.frozen = was
        T.CTX.path = old
    CACHE[key] = r
    return r


def _solve(path, forms, timeout, margin, nice):
    points = []
    level = 0
    t_end = time.time() + timeout
    for rnd in range(14):
        enc = Encoder(path, margin)
        zs = [enc.b(f) for f in forms]
        ax = enc.axioms(level, points)
        if nice:
            for a in list(enc.atoms):
                at = ATOMS[a]
                if at.kind == 'var':
                    ax += path.nice_bounds(at, zvar(a))
        left = t_end - time.time()
        if left <= 0.05:
            return 'unknown', None
        res, model = raw_check(zs + ax, left, enc.nonlinear)
        if res != 'sat':
            if res == 'unknown' and level == 0 and False:
                return res, None
            return res, None
        # extract the base variables and check with true exp/log values
        vals = {}
        for a in enc.atoms:
            if ATOMS[a].kind == 'var':
                v = model(a)
                if v is not None:
                    vals[a] = v
        env = T.Env(dict(vals), path.default)
        has_trans = any(ATOMS[a].kind in ('exp', 'log') for a in enc.atoms)
        try:
            good = all(env.b(f) for f in forms)
        except Exception:
            good = False
        if good:
            return 'sat', dict(env.model)
        if not has_trans and not enc.consts:
            # algebraic rounding: accept the model, the exact check was the solver's
            return 'sat', dict(env.model)
        STATS.cegar += 1
        if level == 0:
            level = 1
            continue
        new = False
        for a in enc.atoms:
            at = ATOMS[a]
            if at.kind == 'exp':
                x = env.r_mp(at.arg)
                new |= add_point(points, 'exp', a, x)
            elif at.kind == 'log':
                x, _ = env.poly_mp(at.arg)
                if x > 0:
                    new |= add_point(points, 'log', a, x)
        if not new:
            return 'unknown', None
    return 'unknown', None


def add_point(points, kind, a, x):
    if not mpmath.isfinite(x):
        return False
    xr = Fraction(int(mpmath.nint(x * 10 ** 6)), 10 ** 6) if abs(x) < 10 ** 6 else None
    if xr is None or (kind == 'exp' and abs(xr) > 200):
        return False
    if kind == 'log' and xr <= 0:
        return False
    if any(p[1] == a and p[2] == xr for p in points):
        # a finer point
        xr = Fraction(int(mpmath.nint(x * 10 ** 15)), 10 ** 15)
        if any(p[1] == a and p[2] == xr for p in points):
            return False
    xm = mpmath.mpf(xr.numerator) / xr.denominator
    v = mpmath.exp(xm) if kind == 'exp' else mpmath.log(xm)
    eps = mpmath.mpf(10) ** -20
    lo = v * (1 - eps) if v > 0 else v * (1 + eps)
    hi = v * (1 + eps) if v > 0 else v * (1 - eps)
    if v == 0:
        lo, hi = -eps, eps
    points.append((kind, a, xr, to_frac(lo), to_frac(hi)))
    return True


def to_frac(x):
    # exact conversion of an mpf
    man, exp = int(x.man), int(x.exp)
    if x < 0 and man > 0:
        man = -man
    f = Fraction(man) * (Fraction(2) ** exp)
    return f
