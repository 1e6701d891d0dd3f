"""Replays scripts against the real code on unpatched numpy (run as a process: concrete.py INPUT.json OUTPUT.jsonl)."""
import json
import os
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
    os.environ.setdefault(_v, '1')


def patch():
    """randomness, parallelism and the two stubbed numerical routines are the only replaced parts"""
    import numpy as np
    import scipy.linalg
    import scipy.optimize
    import scipy.special  # noqa
    import joblib
    import toolz  # noqa
    import numdifftools  # noqa
    from engine import rng

    class Seq:
        def __init__(self, *a, **k):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def __call__(self, it):
            return rng.run_tasks(it)
    joblib.Parallel = Seq
    np.random.default_rng = rng.default_rng
    np.random.Generator = rng.Generator
    for n in ('PCG64', 'SeedSequence', 'MT19937', 'Philox', 'SFC64'):
        setattr(np.random, n, rng.bitgen(n))
    g = rng.poison('GLOBAL')
    for n in ('uniform', 'normal', 'standard_normal', 'exponential', 'gamma', 'beta', 'wald', 'lognormal', 'poisson',
              'choice', 'multivariate_normal', 'random', 'permutation', 'shuffle', 'binomial', 'chisquare',
              'standard_exponential', 'standard_gamma'):
        setattr(np.random, n, getattr(g, n))
    np.random.rand = lambda *s: g.uniform(size=s or None)
    np.random.randn = lambda *s: g.standard_normal(size=s or None)
    np.random.random_sample = np.random.sample = np.random.ranf = g.random
    np.random.randint = g.integers
    np.random.seed = lambda *a: None
    scipy.linalg.expm = lambda a: rng.BACK.expm(a)
    scipy.optimize.minimize = lambda *a, **k: rng.BACK.minimize(*a, **k)


def value(v):
    import numpy as np
    if isinstance(v, np.ndarray):
        return [value(x) for x in v.reshape(-1)]
    if isinstance(v, (list, tuple)):
        return [value(x) for x in v]
    if v is None or isinstance(v, str):
        return v
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    from engine.harness import Con
    if isinstance(v, Con):
        return bool(v)
    return float(v)


def one(items, task):
    from engine import harness, rng
    from engine.run import exc_info
    item = items[task['item']]
    h = harness.ConH(item, task['script'])
    rng.set_backend(h)
    out = dict(item=task['item'], failed={}, obs={}, exc=None)

    def onalarm(*a):
        raise harness.Expired('timeout')
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(20)
    try:
        item.fn(h)
        out['status'] = 'done'
    except harness.Expired as e:
        out['status'] = 'expired'
        out['exc'] = dict(type='Expired', msg=str(e), lib=None)
    except harness.Missing as e:
        out['status'] = 'missing'
        out['exc'] = dict(type='Missing', msg=str(e), lib=None)
    except Exception as e:
        out['status'] = 'raise'
        out['exc'] = exc_info(e)
        out['tb'] = traceback.format_exc()[-1500:]
    finally:
        signal.alarm(0)
        h.restore()
    for label, c in h.checks:
        v = c.v if isinstance(c, harness.Con) else (0.0 if c else 1.0)
        out['failed'][label] = max(out['failed'].get(label, 0.0), v)
    out['failed'] = {k: v for k, v in out['failed'].items() if v}
    try:
        for label, v in h.obs:
            out['obs'].setdefault(label, []).append(value(v))
    except Exception as e:
        out['obs'] = {'error': str(e)}
    out['diverged'] = h.diverged[:5]
    return out


def main(inp, outp):
    sys.path.insert(0, HERE)
    from engine import run
    run.setup_paths()
    sys.dont_write_bytecode = True
    import numpy as np
    np.seterr(all='ignore')
    import warnings
    warnings.simplefilter('ignore')
    patch()
    d = json.load(open(inp))
    items = {i.name: i for i in run.load_items(d['prop'], d['tier'])}
    with open(outp, 'w') as f:
        for t in d['tasks']:
            f.write(json.dumps(one(items, t)) + '\n')
            f.flush()


if __name__ == '__main__':
    main(*sys.argv[1:3])
