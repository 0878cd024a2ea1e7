"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules present (run by hand)."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    found = glob.glob(os.path.join(ROOT, 'checks', p['id'].lower() + '_*.py'))
    if found:
        doc = open(found[0]).read().split('"""')[1]
        checks.append({'property': p['id'], 'quick_cmd': 'VERIF_TIER=quick ./check %s' % p['id'], 'thorough_cmd': 'VERIF_TIER=thorough ./check %s' % p['id'],
                       'technique': 'property-based testing (Hypothesis, seeded, shrinking) against an explicit oracle',
                       'level': 'exploration', 'level_note': ' '.join(doc.split())})
    else:
        na.append({'property': p['id'], 'reason': 'no check built yet'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as s:
    json.dump(m, s, indent=1)
    s.write('\n')
print(len(checks), 'checks', len(na), 'not claimed')
