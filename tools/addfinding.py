"""tools/addfinding.py PROP 'what' : records /repo's last commit as a repaired finding"""
import json, subprocess, sys
p = '/verif/known_findings.json'
d = json.load(open(p))
h = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', '--short', 'HEAD'], text=True).strip()
n = max(int(f['id'][1:]) for f in d['findings'] if f['id'][0] == 'F') + 1
d['findings'].append(dict(id=f'F{n}', property=sys.argv[1], status='fixed', commit=h, what=f'fixed: property={sys.argv[1]} {h} {sys.argv[2]}'))
json.dump(d, open(p, 'w'), indent=1)
