"""writes MANIFEST.json from the checks present and the property list"""
import json, os, importlib, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = ['/repo', V]
NOTES = json.load(open(os.path.join(V, 'tools', 'levels.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        n = NOTES[i]
        checks.append(dict(property=i, quick_cmd=f'./run.sh {i}', thorough_cmd=f'VERIF_TIER=thorough ./run.sh {i}',
                           technique=n['technique'], level='other', level_note=n['note']))
    else:
        na.append(dict(property=i, reason=NOTES.get(i, {}).get('na', 'no check has been built for it yet')))
m = dict(version=1, setup_cmd='./run.sh SELFTEST', checks=checks, not_applicable=na,
         notes='See DESIGN.md. Every check regenerates its encoding from /repo at run time by executing the real code on '
               'symbolic values; nothing is cached between runs.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
