#!/usr/bin/env python3
"""fixed.py PROPERTY COMMIT WHAT: records a repaired defect in known_findings.json."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
k = json.load(open(p))
prop, commit, what = sys.argv[1:]
k['findings'].append({'property': prop, 'status': 'fixed', 'commit': commit, 'what': what, 'record': f'fixed: property={prop} {commit} {what}'})
json.dump(k, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
