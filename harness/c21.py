"""Draw sources: the inputs of the other properties' checks, with a single assertion - who was drawn from"""
from engine.harness import Item
from engine.history import attempt, memoryless
from engine.rng import is_poison

MODULES = ['c02', 'c03', 'c05', 'c06', 'c08', 'c09', 'c10', 'c11', 'c16', 'c17', 'c18', 'c19', 'c20', 'c22', 'c23', 'c24', 'c25']


def sources(fn):
    def run(h):
        check, observe = h.check, h.observe
        h.check = h.observe = lambda *a, **k: None
        try:
            # exceptions are other properties' business; the draws made so far count
            repeatable = memoryless(h, fn, lambda: attempt(fn, h))
        finally:
            h.check, h.observe = check, observe
        bad = sorted(g for g in h.touched if is_poison(g))
        h.check('draws come from the supplied generator or its spawn', h.const(not bad))
        calls = [[s for s in log if s] for log in h.task_log]
        used = [g for log in calls for s in log for g in s]
        h.check('the same seed gives the same results whatever was computed before', repeatable)
        h.check('every task has a generator of its own', h.const(len(used) == len(set(used))))
        h.check('generators of tasks are spawned', h.const(all('/' in g for g in used)))
    return run


def items(tier):
    import importlib
    deep = tier == 'thorough'
    out = []
    for m in MODULES:
        for it in importlib.import_module('harness.' + m).items('quick'):
            o = dict(it.opts)
            o['budget'] = 60 if deep else 3
            o['branch_timeout'] = min(o['branch_timeout'], 1)
            out.append(Item(f'{m.upper()} {it.name}', sources(it.fn), weight=it.weight, **o, **it.params))
    return out
