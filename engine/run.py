"""Runs the items of one property: symbolic exploration in forked workers, replay of candidate counterexamples and of a
sample of path models against the real code in clean processes, evidence, verdict."""
import hashlib
import importlib
import json
import os
import random
import signal
import subprocess
import sys
import time
import traceback
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get('CTBAYES_ROOT', '/repo')
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def setup_paths():
    if VT not in sys.path:
        sys.path.append(VT)
    for p in (VERIF, ROOT):
        if p not in sys.path:
            sys.path.insert(0, p)


def load_items(prop, tier):
    m = importlib.import_module(f'harness.{prop.lower()}')
    return m.items(tier)


# ------------------------------------------------------------------------------------------------------------ worker side

def in_library(tb):
    fr = traceback.extract_tb(tb)
    lib = [f for f in fr if f.filename.startswith(os.path.join(ROOT, 'ctbayes'))]
    return lib[-1] if lib else None


def exc_info(e):
    f = in_library(e.__traceback__)
    last = traceback.extract_tb(e.__traceback__)[-1]
    return dict(type=type(e).__name__, msg=str(e)[:300], lib=None if f is None else
                f'{os.path.relpath(f.filename, ROOT)}:{f.name}', at=f'{os.path.basename(last.filename)}:{last.lineno}')


def script_of(path, h, model):
    """the concrete script of a model"""
    from . import terms as T
    env = T.Env(dict(model), path.default)
    out = {}
    for name, r in h.names.items():
        aid = next(iter(r.num.t))[0][0]
        out[name] = str(Fraction(env.var(T.ATOMS[aid])))
    return dict(vars=out, choices=dict(h.choices))


def nicify(path, h, model, forms):
    """replace model values by small dyadic numbers where the formulas stay true"""
    from . import terms as T
    m = dict(model)
    if len(forms) > 400:
        return m
    for name, r in h.names.items():
        aid = next(iter(r.num.t))[0][0]
        v = Fraction(T.Env(m, path.default).var(T.ATOMS[aid]))
        if v.denominator <= 64 and v.denominator & (v.denominator - 1) == 0:
            continue
        for d in (4, 16, 256, 4096, 2 ** 20, 2 ** 40):
            c = Fraction(round(v * d), d)
            m2 = dict(m)
            m2[aid] = c
            lo, hi = path.doms.get(aid, (None, None))
            if (lo is not None and c <= lo) or (hi is not None and c >= hi):
                continue
            try:
                env = T.Env(m2, path.default)
                if all(env.b(f) for f in forms):
                    m = m2
                    break
            except Exception:
                pass
    return m


class Worker:
    def __init__(self, prop, item, out, tier):
        self.prop, self.item, self.out, self.tier = prop, item, out, tier
        self.cands = {}
        self.traces = []
        self.labels = {}
        self.samples = []

    def emit(self, **kw):
        self.out.write(json.dumps(kw) + '\n')
        self.out.flush()

    def run(self):
        from . import terms as T, solver, explore, symnp, rng, harness
        self.T, self.solver, self.harness = T, solver, harness
        o = self.item.opts
        ex = explore.Explorer(o['max_paths'], o['max_branches'], o['branch_timeout'], o['check_timeout'], o['budget'])
        ex.deadline = ex.t_end + 8
        self.ex = ex
        self.t_cross = 0.0
        funcs = set()
        mon = sys.monitoring
        mon.use_tool_id(3, 'ctb')

        def start(code, off):
            if code.co_filename.startswith(os.path.join(ROOT, 'ctbayes')):
                funcs.add(os.path.relpath(code.co_filename, ROOT)[:-3].replace('/', '.') + ':' + code.co_qualname)
            return mon.DISABLE
        mon.register_callback(3, mon.events.PY_START, start)
        mon.set_events(3, mon.events.PY_START)
        E = symnp.ENV
        E.default_rng, E.poison, E.bitgen = rng.default_rng, rng.poison, rng.bitgen
        t0 = self.t_sum = time.time()
        miss = []
        summ = set()

        def summary(kind):
            self.emit(kind=kind, stat=ex.stat, cuts=ex.cuts, unsup=ex.unsup, solver=solver.STATS.dict(),
                      funcs=sorted(funcs), labels=self.labels, wall=time.time() - t0, missing=sorted(set(miss)),
                      samples=self.samples, summaries=sorted(summ))
        self.summary = summary

        def fn(path):
            h = harness.SymH(self.item, path)
            rng.set_backend(h)
            E.expm, E.minimize = h.expm, h.minimize
            try:
                self.item.fn(h)
            except harness.Missing as e:
                miss.append(str(e))
                path.cut('missing ' + str(e))
            finally:
                h.restore()
                summ.update(h.summaries)
        def over(*a):
            raise explore.Stop()
        signal.signal(signal.SIGALRM, over)
        signal.setitimer(signal.ITIMER_REAL, o['budget'] + 6)
        ex.run(fn, self.on_path)
        signal.setitimer(signal.ITIMER_REAL, 0)
        mon.set_events(3, 0)
        self.summary('done')

    # every completed path
    def on_path(self, p, out):
        try:
            self.on_path_(p, out)
        finally:
            if time.time() - self.t_sum > 3:
                self.t_sum = time.time()
                self.summary('partial')

    def on_path_(self, p, out):
        T, ex = self.T, self.ex
        h = getattr(p, 'h', None)
        if h is None or out[0] not in ('done', 'raise'):
            return
        if out[0] == 'raise':
            e = out[1]
            info = exc_info(e)
            ex.stat['raised'] += 1
            h.check('no-exception:' + info['type'] if info['lib'] else 'harness-exception:' + info['type'], T.B('const', False))
            h.exc = info
        # model for trace validation
        fails, facts = [], []
        for label, cond in h.checks:
            lab = self.labels.setdefault(label, dict(n=0, form=0, solver=0, undecided=0, failed=0))
            lab['n'] += 1
            ex.stat['checks'] += 1
            if isinstance(cond, (bool,)) or not isinstance(cond, T.B):
                cond = T._b(cond)
            v = p.implied(cond)
            if v is True:
                lab['form'] += 1
                ex.stat['by_form'] += 1
                if cond.k != 'const':
                    facts.append(cond)
                continue
            fails.append((label, cond, v))
        if facts and self.t_cross < 0.3 * self.item.opts['budget']:
            # verdicts reached from learned signs are confirmed by the solver
            t = time.time()
            r, m = self.solver.solve(p, p.pc + [T.disj([c.neg() for c in facts])], 2.0)
            self.t_cross += time.time() - t
            ex.stat['facts_confirmed'] = ex.stat.get('facts_confirmed', 0) + (len(facts) if r == 'unsat' else 0)
            if r == 'sat':
                ex.unsup['ENGINE: learned fact contradicted by the solver: ' + repr(facts)[:300]] = 1
        if len(fails) > 1:
            # one joint query first
            bad = T.disj([c.neg() for _, c, _ in fails])
            if not any(v is False for _, _, v in fails):
                r, m = self.solver.solve(p, p.pc + [bad], min(3.0, ex.check_timeout))
                if r == 'unsat':
                    for label, _, _ in fails:
                        self.labels[label]['solver'] += 1
                        ex.stat['by_solver'] += 1
                    fails = []
        for label, cond, v in fails:
            lab = self.labels[label]
            if lab['failed'] >= 12:
                lab['failed'] += 1
                continue
            forms = p.pc + ([cond.neg()] if cond.k != 'const' else [])
            if cond.k == 'const' and cond.a is False:
                lab['failed'] += 1
                self.candidate(p, h, label, None, forms, [dict(p.model)])
                continue
            r, m = self.solver.solve(p, forms, ex.check_timeout)
            if r == 'unsat':
                lab['solver'] += 1
                ex.stat['by_solver'] += 1
            elif r == 'unknown':
                lab['undecided'] += 1
                ex.stat['undecided_checks'] += 1
                # a restricted query may still find a counterexample
                for mg in (Fraction(1, 8), None):
                    r2, m2 = self.solver.solve(p, forms, min(5.0, ex.check_timeout), margin=mg, nice=True)
                    if r2 == 'sat':
                        lab['failed'] += 1
                        self.candidate(p, h, label, cond, forms, [m2])
                        break
            else:
                lab['failed'] += 1
                models = []
                for mg in (Fraction(1), Fraction(1, 32), None):
                    r2, m2 = self.solver.solve(p, forms, 4.0, margin=mg, nice=True)
                    if r2 == 'sat':
                        models.append(m2)
                models.append(m)
                self.candidate(p, h, label, cond, forms, models)
        if out[0] == 'done' and len(self.traces) < 400:
            self.trace(p, h)

    def candidate(self, p, h, label, cond, forms, models):
        scripts = []
        for m in models:
            for mm in (nicify(p, h, m, forms), m):
                s = script_of(p, h, mm)
                if s not in scripts:
                    scripts.append(s)
        self.emit(kind='cand', item=self.item.name, label=label, scripts=scripts[:4], exc=getattr(h, 'exc', None),
                  cond=None if cond is None else repr(cond)[:600])

    def trace(self, p, h):
        T = self.T
        n = self.ex.stat['paths']
        if n > 12 and n % 5:
            return
        self.traces.append(1)
        m = p.model
        try:
            m = nicify(p, h, m, p.pc)
            env = T.Env(dict(m), p.default)
            ob = {}
            for label, v in h.obs:
                ob.setdefault(label, []).append(observe_value(env, v))
            ck = {}
            for label, c in h.checks:
                ck.setdefault(label, []).append(bool(env.b(T._b(c))))
        except Exception:
            return
        s = script_of(p, h, m)
        if len(self.samples) < 2:
            self.samples.append(dict(inputs={k: float(Fraction(v)) for k, v in list(s['vars'].items())[:12]},
                                     choices=s['choices'], branches=len(p.decisions)))
        self.emit(kind='trace', item=self.item.name, script=s, obs=ob)


def observe_value(env, v):
    import numpy as np
    from . import terms as T
    if isinstance(v, T.R):
        return float(env.r_mp(v))
    if isinstance(v, np.ndarray):
        return [observe_value(env, x) for x in v.reshape(-1)]
    if isinstance(v, (list, tuple)):
        return [observe_value(env, x) for x in v]
    if isinstance(v, T.B):
        return bool(env.b(v))
    if v is None or isinstance(v, str):
        return v
    return float(v)


# ------------------------------------------------------------------------------------------------------------ main process

def cover():
    """(development) which lines of the code under test this process executes"""
    m, seen = sys.monitoring, set()
    root = os.path.join(ROOT, 'ctbayes') + os.sep

    def line(code, n):
        if code.co_filename.startswith(root):
            seen.add((code.co_filename[len(root):], n))
        return m.DISABLE
    m.use_tool_id(m.COVERAGE_ID, 'cover')
    m.register_callback(m.COVERAGE_ID, m.events.LINE, line)
    m.set_events(m.COVERAGE_ID, m.events.LINE)
    return seen


def fork_item(prop, item, tier, path):
    pid = os.fork()
    if pid:
        return pid
    code = 1
    try:
        try:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        except Exception:
            pass
        sys.setrecursionlimit(20000)
        with open(path, 'w') as f:
            try:
                lines = cover() if os.environ.get('COVER') else None
                Worker(prop, item, f, tier).run()
                if lines is not None:
                    name = '%s_%d.json' % (prop, os.getpid())
                    json.dump([prop, item.name, sorted(lines)], open(os.path.join(os.environ['COVER'], name), 'w'))
                code = 0
            except BaseException as e:
                f.write(json.dumps(dict(kind='error', msg=traceback.format_exc()[-1500:])) + '\n')
    finally:
        os._exit(code)


def run_items(prop, items, tier, tmp, jobs, deadline):
    queue = sorted(items, key=lambda i: -i.weight * i.opts['budget'])
    running = {}
    res = {}
    while queue or running:
        while queue and len(running) < jobs:
            it = queue.pop(0)
            left = deadline - time.time()
            if left < 3:
                res[it.name] = None
                continue
            it.opts['budget'] = min(it.opts['budget'], left)
            path = os.path.join(tmp, f'{len(res) + len(running)}_{abs(hash(it.name)) % 10**8}.jsonl')
            pid = fork_item(prop, it, tier, path)
            running[pid] = (it, path, time.time())
        if not running:
            break
        try:
            pid, st = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            pid = 0
        if pid in running:
            it, path, t = running.pop(pid)
            res[it.name] = path
            continue
        for pid, (it, path, t) in list(running.items()):
            lim = it.opts['budget'] * 1.25 + 25
            if time.time() - t > lim:
                try:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                except (ProcessLookupError, ChildProcessError):
                    pass
                running.pop(pid)
                res[it.name] = path
        time.sleep(0.02)
    return res


def read(path):
    out = []
    if path and os.path.exists(path):
        for l in open(path):
            try:
                out.append(json.loads(l))
            except ValueError:
                pass
    return out


def concrete(prop, tier, tasks, tmp, jobs, timeout=240):
    """replay tasks [{item, script}] on the real code, unpatched numpy; -> list of results (None: lost)"""
    if not tasks:
        return []
    n = max(1, min(jobs, (len(tasks) + 9) // 10))
    chunks = [list(range(i, len(tasks), n)) for i in range(n)]
    procs = []
    for k, ch in enumerate(chunks):
        inp = os.path.join(tmp, f'rep{k}_{time.time_ns()}.json')
        outp = inp + '.out'
        json.dump(dict(prop=prop, tier=tier, tasks=[tasks[i] for i in ch]), open(inp, 'w'))
        procs.append((subprocess.Popen([sys.executable, os.path.join(VERIF, 'engine', 'concrete.py'), inp, outp],
                                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE), ch, outp))
    res = [None] * len(tasks)
    t_end = time.time() + timeout
    for p, ch, outp in procs:
        try:
            _, err = p.communicate(timeout=max(1, t_end - time.time()))
            if p.returncode:
                sys.stderr.write(err.decode()[-1500:])
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        for i, r in zip(ch, read(outp)):
            res[i] = r
    return res


def same_obs(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(
            same_obs(x, y) for x, y in zip(a, b))
    if a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        return a == b
    if a == b or (a != a and b != b):
        return True
    return abs(a - b) <= 1e-6 * max(1e-3, abs(a), abs(b))


def known_findings(prop):
    """lines: KNOWN property=<id> item=<regex> label=<regex> -- what fails"""
    import re
    out = []
    f = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'KNOWN property=(\S+) item=(\S+) label=(\S+) -- (.*)', l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def main(prop, tier):
    import re
    setup_paths()
    sys.dont_write_bytecode = True
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[v] = '1'
    t0 = time.time()
    import tempfile
    import shutil
    tmp = tempfile.mkdtemp(prefix=f'ctb_{prop}_')
    try:
        return _main(prop, tier, tmp, t0, re)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _main(prop, tier, tmp, t0, re):
    from . import symnp, rng
    import harness as _h  # noqa
    symnp.install(ROOT)
    E = symnp.ENV
    E.default_rng, E.poison, E.bitgen = rng.default_rng, rng.poison, rng.bitgen
    try:
        items = load_items(prop, tier)
    except Exception:
        traceback.print_exc()
        return 2
    only = os.environ.get('ONLY')
    if only:
        items = [i for i in items if re.search(only, i.name)]
    names = [i.name for i in items]
    assert len(set(names)) == len(names), 'duplicate items'
    import ctbayes.switching.mcem, ctbayes.ito.mcem, ctbayes.misc.testing, ctbayes.misc.ars  # noqa: warm up before forking
    jobs = int(os.environ.get('JOBS', os.cpu_count() or 4))
    total = 420 if tier == 'quick' else 760
    res = run_items(prop, items, tier, tmp, jobs, t0 + total)
    agg = {}
    sol = {}
    funcs, summ = set(), set()
    cands, traces, problems = [], [], []
    labels = {}
    per_item = {}
    cuts, unsup = {}, {}
    samples = []
    for it in items:
        recs = read(res.get(it.name))
        done = [r for r in recs if r['kind'] == 'done'] or [r for r in recs if r['kind'] == 'partial'][-1:]
        if done and done[0]['kind'] == 'partial':
            done[0]['stat']['left'] += 1
            problems.append(f'{it.name}: stopped by the watchdog')
        cands += [r for r in recs if r['kind'] == 'cand']
        traces += [r for r in recs if r['kind'] == 'trace']
        for r in recs:
            if r['kind'] == 'error':
                problems.append(f"{it.name}: worker error {r['msg'][-600:]}")
        if not done:
            problems.append(f'{it.name}: no result (killed or out of time)')
            per_item[it.name] = None
            continue
        d = done[0]
        per_item[it.name] = d
        for k, v in d['stat'].items():
            agg[k] = agg.get(k, 0) + v
        for k, v in d['solver'].items():
            sol[k] = max(sol.get(k, 0), v) if k == 'slow' else sol.get(k, 0) + v
        funcs |= set(d['funcs'])
        summ |= set(d.get('summaries', ()))
        for k, v in d['cuts'].items():
            cuts[k] = cuts.get(k, 0) + v
        for k, v in d['unsup'].items():
            unsup[k] = unsup.get(k, 0) + v
        for m in d['missing']:
            problems.append(f'{it.name}: missing {m}')
        for l, v in d['labels'].items():
            x = labels.setdefault(f'{it.name}:{l}', dict(v))
        if d['stat']['paths'] == 0:
            problems.append(f'{it.name}: no completed path (cuts {d["cuts"]}, {list(d["unsup"])[:3]})')
        for e in it.expect:
            if d['labels'].get(e, {}).get('n', 0) == 0:
                problems.append(f'{it.name}: check {e} never reached')
        hx = sum(v['n'] for l, v in d['labels'].items() if l.startswith('harness-exception'))
        if hx:
            problems.append(f'{it.name}: {hx} paths ended in a harness exception')
            if hx >= d['stat']['paths']:
                per_item[it.name] = None
        samples += [dict(item=it.name, **s) for s in d['samples'][:1]]
    # candidates: at most 4 per (item,label)
    seen = {}
    tasks, meta = [], []
    for c in cands:
        k = (c['item'], c['label'])
        seen[k] = seen.get(k, 0) + 1
        if seen[k] > 4:
            continue
        for s in c['scripts']:
            tasks.append(dict(item=c['item'], script=s))
            meta.append(c)
    rnd = random.Random(1)
    cap = 240 if tier == 'quick' else 1200
    tr = traces if len(traces) <= cap else rnd.sample(traces, cap)
    n_c = len(tasks)
    tasks += [dict(item=t['item'], script=t['script']) for t in tr]
    rr = concrete(prop, tier, tasks, tmp, jobs)
    violations, unrepro = {}, {}
    for c, r, t in zip(meta, rr[:n_c], tasks):
        k = (c['item'], c['label'])
        if k in violations:
            continue
        why = reproduced(c['label'], r)
        if why:
            violations[k] = dict(item=c['item'], label=c['label'], script=t['script'], detail=why, cond=c.get('cond'),
                                 exc=c.get('exc'))
        else:
            unrepro[k] = dict(label=c['label'], item=c['item'], exc=c.get('exc'), cond=c.get('cond'),
                              got=None if r is None else {x: r.get(x) for x in ('status', 'exc', 'failed', 'diverged')})
    matched, mism = 0, []
    for t, r in zip(tr, rr[n_c:]):
        if r is None or r.get('status') not in ('done',) or r.get('diverged'):
            mism.append(dict(item=t['item'], why='not replayed: ' + str(None if r is None else
                                                                    (r.get('status'), r.get('exc'), r.get('diverged'))),
                             script=t['script']))
            continue
        bad = {l: v for l, v in r['failed'].items() if v > 1e-3}
        for l, v in bad.items():
            k = (t['item'], l)
            if k not in violations:
                violations[k] = dict(item=t['item'], label=l, script=t['script'], cond=None, exc=None,
                                     detail=f'concrete replay of an explored path violates the check by {v:.3g}')
        if all(same_obs(v, r['obs'].get(l)) for l, v in t['obs'].items()):
            matched += 1
        else:
            d = {l: (v, r['obs'].get(l)) for l, v in t['obs'].items() if not same_obs(v, r['obs'].get(l))}
            mism.append(dict(item=t['item'], why='observations differ', diff=str(d)[:400], script=t['script']))
    for k in list(unrepro):
        if k in violations:
            del unrepro[k]
    kf = known_findings(prop)
    new, known = [], []
    for k, v in sorted(violations.items()):
        for ri, rl, what in kf:
            if re.fullmatch(ri, v['item']) and re.fullmatch(rl, v['label']):
                known.append((what, v))
                break
        else:
            new.append(v)
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    code = 0
    for what in sorted({w for w, _ in known}):
        print(f'KNOWN-FINDING: property={prop} {what}')
    outv = []
    for i, v in enumerate(new):
        hsh = hashlib.sha1(json.dumps([v['item'], v['label'], v['script']], sort_keys=True).encode()).hexdigest()[:8]
        path = os.path.join(VERIF, 'replays', f'{prop}-{hsh}.json')
        json.dump(dict(prop=prop, tier=tier, **v), open(path, 'w'), indent=1)
        if i < 8:
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  item={v['item']} check={v['label']}: {v['detail']}")
        outv.append(dict(item=v['item'], check=v['label'], replay=path, detail=v['detail']))
        code = 1
    undec = {l: v['undecided'] for l, v in labels.items() if v['undecided']}
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking',
              coverage=dict(states=agg.get('paths', 0), transitions=agg.get('branches', 0),
                            traces_validated_against_impl=matched, samples=samples[:8],
                            technique='symbolic execution of the real Python source over exact reals; z3/cvc5 verdicts',
                            functions_encoded=sorted(funcs), functions_summarised=sorted(summ),
                            bounds={i.name: dict(i.opts, **{k: str(v)[:60] for k, v in i.params.items()})
                                    for i in items},
                            paths=agg, cuts=cuts, unsupported=unsup,
                            queries=sol.get('queries', 0), unsat=sol.get('unsat', 0), sat=sol.get('sat', 0),
                            unknown=sol.get('unknown', 0), solver_s=round(sol.get('time', 0), 2),
                            slowest_query_s=round(sol.get('slow', 0), 2),
                            checks={l: v for l, v in labels.items()},
                            undecided_checks=undec,
                            counterexamples_not_reproduced=list(unrepro.values())[:20],
                            trace_mismatches=len(mism), mismatch_samples=mism[:5]),
              assumptions=['floating point is read as exact real arithmetic; counterexamples count only if they recur in '
                           'floating point on the real code',
                           'random draws are free variables of the support of their distribution',
                           'joblib tasks run in submission order', 'paths beyond the stated bounds are not covered'],
              violations=outv, wall_s=round(wall, 2))
    ev['coverage']['problems'] = problems
    ev['coverage']['known_findings'] = [w for w, _ in known]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w'), indent=1)
    n_ok = sum(1 for v in per_item.values() if v and v['stat']['paths'])
    print(f"{prop} {tier}: {len(items)} items, {agg.get('paths', 0)} paths, {agg.get('checks', 0)} checks "
          f"({agg.get('by_form', 0)} by normal form, {agg.get('by_solver', 0)} by solver, "
          f"{agg.get('undecided_checks', 0)} undecided), {sol.get('queries', 0)} queries {sol.get('time', 0):.1f}s, "
          f"cut {agg.get('cut', 0)}, left {agg.get('left', 0)}, undecided branches {agg.get('undecided_branches', 0)}, "
          f"{matched}/{len(tr)} traces match, {len(unrepro)} unreproduced, {len(new)} violations, {wall:.1f}s")
    for p in problems:
        print('  note:', p[:1500])
    if os.environ.get('VERBOSE'):
        for u in list(unrepro.values())[:5]:
            print('  unreproduced', u)
        for m in mism[:4]:
            print('  mismatch', str(m)[:300])
        print('  cuts', cuts, 'unsup', unsup)
        for n, d in per_item.items():
            if d:
                print('   ', n, {k: v for k, v in d['stat'].items() if v}, f"{d['wall']:.1f}s", {
                    l: tuple(v.values()) for l, v in d['labels'].items() if v['undecided'] or v['failed']})
    if code == 0 and n_ok * 2 <= len(items):
        print(f'{prop}: nothing could be decided')
        return 2
    return code


def reproduced(label, r):
    """does the concrete run confirm the candidate"""
    if r is None:
        return None
    if label.startswith('harness-exception'):
        return None
    if label.startswith('no-exception'):
        if r.get('status') == 'raise' and r.get('exc', {}).get('lib'):
            return f"raises {r['exc']['type']}: {r['exc']['msg'][:160]} in {r['exc']['lib']}"
        return None
    if r.get('status') == 'raise' and r.get('exc', {}).get('lib') and not r['failed'].get(label):
        return f"raises {r['exc']['type']}: {r['exc']['msg'][:160]} in {r['exc']['lib']}"
    v = r.get('failed', {}).get(label)
    if v:
        return f'violated on the real code (relative size {v:.3g})'
    return None


if __name__ == '__main__':
    setup_paths()
    from engine import run as _r
    sys.exit(_r.main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')))
