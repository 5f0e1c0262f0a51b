"""Write MANIFEST.json from the harness registry and the texts in specs/texts.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, '/repo']
from pydv import main, api
main.load()
from specs import texts
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    hs = [h for h in api.REG.values() if i in h.props]
    if not hs:
        na.append(dict(property=i, reason=texts.NA.get(i, 'no check built yet')))
        continue
    checks.append(dict(property=i, quick_cmd='./check %s --tier quick' % i, thorough_cmd='./check %s --tier thorough' % i,
                       evidence_file='evidence/%s.json' % i,
                       technique=texts.TECH.get(i, texts.TECH_DEFAULT), level='proof', level_note=texts.NOTE.get(i, texts.NOTE_DEFAULT)))
m = dict(version=1, setup_cmd='./check --setup', checks=checks, not_applicable=na, notes=texts.NOTES)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'claimed', len(na), 'not')
