#!/usr/bin/env python3
"""Writes DESIGN.md."""
import glob, json, os, re, sys
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T)
sys.path.insert(0, T)
from design_how import HOW
claims = json.load(open(T + '/claims.json'))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
hs = {}
for f in sorted(glob.glob(V + '/harness/*/*.go')):
    for m in re.finditer(r'(?m)^((?://.*\n)*)func ([A-Z]\d\d)_(\w+)\(\)', open(f).read()):
        hs.setdefault(m[2], []).append(m[3])
out = open(T + '/design_head.md').read()
out += '## The properties\n\n'
for p in props:
    i = p['id']; c = claims.get(i, {})
    out += f"### {i} — {p['title']}\n\n"
    if not c.get('claimed'):
        out += f"Not applicable: {c.get('reason','')}\n\n"; continue
    out += HOW[i].strip() + '\n'
    out += f"{c['note'].strip()}\nHarnesses: {', '.join(sorted(hs.get(i, [])))}.\n\n"
out += '## Defects of log-cache found\n\nEach was shown against the real code by a replayed counterexample and repaired by a `fix:` commit (`known_findings.json` has the records; a fixed entry suppresses nothing).\n\n'
for f in json.load(open(V + '/known_findings.json'))['findings']:
    out += f"- {f['property']} ({f['status']}{' ' + f['commit'] if f.get('commit') else ''}): {f['what']}\n"
out += '\n## Planted bugs\n\n`seeded/<id>/`; made from the property and the code by `tools/mkbug.py`, validated by `tools/plant.py` (builds, passes the stable tests, demo fails with it and passes without). The check that catches each is the one of its property (last run of `tools/plant.py -c`: see the column).\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n'
caught = {}
if os.path.exists(T + '/caught.json'): caught = json.load(open(T + '/caught.json'))
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    out += f"| {n} | {m['property']} | {m['needs']} | {caught.get(n, m['property'])} |\n"
out += '\n' + open(T + '/design_tail.md').read()
open(V + '/DESIGN.md', 'w').write(out)
