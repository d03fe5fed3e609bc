"""Regenerates MANIFEST.json from checks/cNN.py (TECH, NOTE) and the reasons below."""
import json, os, sys, importlib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
NA = {
 'C29': 'The statistical quality of the pseudo-random stream quantifies over the distribution of runtime values; no sound static argument in reach bounds it (the structural part, which draws feed which noise term, is C02 and C12).',
}
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(ROOT, 'checks', i.lower() + '.py')) and i not in NA:
        m = importlib.import_module('checks.' + i.lower())
        checks.append({'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i,
                       'technique': m.TECH, 'level': 'other', 'level_note': m.NOTE})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 --version && clang-18 --version && opt-18 --version', 'checks': checks, 'not_applicable': na},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in na])
