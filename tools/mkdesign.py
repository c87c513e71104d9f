"""writes DESIGN.md from tools/design.md.in, the checks' META, tools/costs.json, known_findings.json and seeded/"""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = ['/repo', V]
j = lambda *p: json.load(open(os.path.join(V, *p)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
notes, costs, caught = j('tools', 'levels.json'), j('tools', 'costs.json'), j('tools', 'caught.json')
cell = lambda s: ' '.join(str(s).split()).replace('|', '\\|')
rows, seeds = [], []
for p in props:
    M = importlib.import_module('checks.' + p['id'].lower()).META
    a = '; '.join(M.get('assumptions', []))
    rows.append(f"| {p['id']} {cell(p['title'])} | {cell(M['explanation'])} | {cell(M['bounds'])}{' Assumes: ' + cell(a) if a else ''} | {costs.get(p['id'], '?')} s |")
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    i, d = os.path.basename(os.path.dirname(f)), json.load(open(f))
    seeds.append(f"| {i} | {d['property']} | {cell(d['what_it_breaks'])} | {cell(d['needs'])} | {caught.get(i, 'not caught')} |")
fixed = [f"| {f['id']} | {f['property']} | {f.get('commit') or 'recorded'} | {cell(f['what'].split(f.get('commit') or '~~~', 1)[-1])} |"
         for f in j('known_findings.json')['findings']]
t = open(os.path.join(V, 'tools', 'design.md.in')).read()
t = t.replace('@@TABLE@@', '\n'.join(rows)).replace('@@FIXED@@', '\n'.join(fixed)).replace(
    '@@SEEDS@@', '| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n' + '\n'.join(seeds))
open(os.path.join(V, 'DESIGN.md'), 'w').write(t)
