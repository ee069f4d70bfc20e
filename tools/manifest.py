#!/usr/bin/env python3
"""Generates MANIFEST.json from properties.jsonl and tools/claims.json."""
import json
claims = json.load(open('tools/claims.json'))
props = [json.loads(l) for l in open('properties.jsonl')]
checks, na = [], []
for p in props:
    c = claims.get(p['id'])
    if c and c.get('claimed'):
        checks.append(dict(property=p['id'],
            quick_cmd=f"bash check.sh {p['id']} quick",
            thorough_cmd=f"bash check.sh {p['id']} thorough",
            evidence_file=f"evidence/{p['id']}.json",
            technique=c.get('technique', "symbolic execution of the real Go code's SSA with SMT (z3) deciding every branch and assertion, counterexamples replayed natively"),
            level="model_checking", level_note=c['note']))
    else:
        na.append(dict(property=p['id'], reason=(c or {}).get('reason', 'check not built yet')))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na)
json.dump(m, open('MANIFEST.json','w'), indent=1, ensure_ascii=False); open('MANIFEST.json','a').write('\n')
print(len(checks), 'claimed', len(na), 'not')
