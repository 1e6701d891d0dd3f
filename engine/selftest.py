"""setup: checks the toolchain and cross-checks the symbolic term algebra against floats and z3."""
import math
import os
import random
import sys
from fractions import Fraction

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from engine import run  # noqa
run.setup_paths()
import z3  # noqa
import mpmath  # noqa
import numpy as np  # noqa
from engine import terms as T, explore, solver, calculus  # noqa
from engine.terms import R  # noqa


def main():
    rnd = random.Random(7)
    ex = explore.Explorer(budget=60)
    p = explore.Path(ex, [], {})
    T.CTX.path = p
    vs, vals = [], {}
    for i, n in enumerate('abcd'):
        a = T.var('selftest.' + n)
        vs.append(p.declare(a, 0, None))
        vals[a.id] = Fraction(rnd.randint(1, 40), 8)
    env = T.Env(vals, p.default)

    def rand(d):
        if d == 0 or rnd.random() < 0.15:
            if rnd.random() < 0.7:
                k = rnd.randrange(len(vs))
                return vs[k], float(vals[next(iter(vs[k].num.t))[0][0]])
            c = Fraction(rnd.randint(1, 9), rnd.choice((1, 2, 3)))
            return R.of(c), float(c)
        a, x = rand(d - 1)
        op = rnd.choice('+-*/sqelx')
        if op == 's':
            return T.rsqrt(a * a + 1), math.sqrt(x * x + 1)
        if op == 'q':
            return a ** 2, x ** 2
        if op == 'e':
            return (T.rexp(a / 8), math.exp(x / 8)) if abs(x) < 60 else (a, x)
        if op == 'l':
            return T.rlog(a * a + 1), math.log(x * x + 1)
        if op == 'x':
            return abs(a), abs(x)
        b, y = rand(d - 1)
        if op == '/':
            return a / (b * b + 1), x / (y * y + 1)
        return (a + b, x + y) if op == '+' else (a - b, x - y) if op == '-' else (a * b, x * y)
    n = 0
    p.model, p.env = vals, env
    for _ in range(400):
        try:
            a, x = rand(4)
        except T.Unsupported:
            continue
        v = float(env.r_mp(R.of(a)))
        assert abs(v - x) <= 1e-8 * max(1, abs(x)), (a, v, x)
        n += 1
    # ring identities by normal form and by z3
    a, b, c, d = vs
    ids = [((a + b) * (a - b), a * a - b * b), (1 / (a * b) - 1 / (a * c), (c - b) / (a * b * c)),
           (T.rsqrt(a * b) * T.rsqrt(b * c) / T.rsqrt(a * c), b), (T.rexp(a + b), T.rexp(a) * T.rexp(b)),
           (T.rlog(a * b / c), T.rlog(a) + T.rlog(b) - T.rlog(c))]
    for l, r in ids:
        e = T.cmp_('==', l, r)
        assert T._b(e).k == 'const' and T._b(e).a, (l, r)
    assert solver.solve(p, [T.cmp_('<', a * a + b * b, 2 * a * b)], 5)[0] == 'unsat'
    assert solver.solve(p, [T.cmp_('<', a + b, T.rsqrt(4 * a * b))], 5)[0] == 'unsat'
    assert solver.solve(p, [T.cmp_('<', T.rexp(a), 1 + a)], 5)[0] == 'unsat'
    assert solver.solve(p, [T.cmp_('<', T.rexp(a), 1 + 2 * a)], 5)[0] == 'sat'
    dx = calculus.diff(T.rlog(a * a + 1) * T.rexp(a / 8), a)
    f = lambda x: math.log(x * x + 1) * math.exp(x / 8)
    x = float(vals[next(iter(a.num.t))[0][0]])
    assert abs(float(env.r_mp(dx)) - (f(x + 1e-5) - f(x - 1e-5)) / 2e-5) < 1e-6
    T.CTX.path = None
    import subprocess
    r = subprocess.run([sys.executable, '-c', 'import joblib, toolz, numdifftools, scipy'], capture_output=True)
    assert r.returncode == 0, r.stderr.decode()
    print(f'self-test ok: {n} random terms, z3 {z3.get_version_string()}')


if __name__ == '__main__':
    main()
