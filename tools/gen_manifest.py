import json, pathlib, sys
sys.path.insert(0, '/verif')
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
try:
    from harness.registry import CLAIMS, NOT_APPLICABLE
except ImportError:
    CLAIMS, NOT_APPLICABLE = {}, {}
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMS:
        checks.append(dict(property=i, quick_cmd=f'./check {i} quick', thorough_cmd=f'./check {i} thorough',
            technique='symbolic execution of the real Python code + SMT (z3/cvc5) with counterexample replay',
            level='model_checking', level_note=CLAIMS[i]))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'check under construction in this revision; nothing is claimed')))
m = dict(version=1, setup_cmd='./setup', checks=checks, not_applicable=na)
pathlib.Path('/verif/MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
