"""Regenerates MANIFEST.json from the list of implemented checks."""
import json, os, importlib, sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
NA = json.load(open(os.path.join(ROOT, 'not_applicable.json')))
checks = []
for l in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(l)['id']
    if not os.path.exists(os.path.join(ROOT, 'props', p + '.py')):
        continue
    m = importlib.import_module('props.' + p)
    checks.append({'property': p, 'quick_cmd': './check %s' % p, 'thorough_cmd': './check %s --thorough' % p,
                   'evidence_file': 'evidence/%s.json' % p,
                   'technique': getattr(m, 'TECH', 'abstract interpretation of the type-checked MIR'),
                   'level': 'other', 'level_note': getattr(m, 'NOTE', m.RULE)})
ids = [c['property'] for c in checks]
na = [{'property': k, 'reason': v} for k, v in NA.items() if k not in ids]
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
