"""Writes MANIFEST.json from the registry."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from dv import registry
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
checks, na = [], []
for p in props:
    P = registry.PROPS.get(p['id'])
    if P is None:
        na.append({'property': p['id'], 'reason': registry.NOT_APPLICABLE.get(p['id'], 'its contracts are not built yet')})
        continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3-vt check.py %s --tier quick' % p['id'],
                   'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p['id'],
                   'technique': P.technique, 'level': {'bounded': 'exploration'}.get(P.level, P.level), 'level_note': P.level_note()})
m = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': checks, 'not_applicable': na}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
