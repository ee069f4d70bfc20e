#!/usr/bin/env python3
"""Makes seeded/<id> from a spec file: a Python file defining BUGS, a list of
dicts id, property, needs, breaks, edits [(file, old, new)], pkg, demo (Go test source)."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
for b in ns['BUGS']:
    d = f'{V}/seeded/{b["id"]}'
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    subprocess.check_call(['git', 'clone', '-q', '/repo', t + '/r'])
    for f, old, new in b['edits']:
        p = f'{t}/r/{f}'
        s = open(p).read()
        assert s.count(old) == 1, (b['id'], f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', t + '/r', 'diff']).decode()
    open(d + '/patch.diff', 'w').write(diff)
    shutil.rmtree(t)
    open(d + '/zz_demo_test.go.txt', 'w').write(b['demo'])
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    extra = ' -race' if b.get('race') else ''
    open(d + '/demo.sh', 'w').write(f'''#!/bin/bash
# Runs the test beside this file inside {b["pkg"]} through an overlay.
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off GOFLAGS=-mod=readonly HOME="${{HOME:-/root}}"
export PATH="$PATH:/usr/local/bin:/usr/local/go/bin:/opt/veriftools/go1.27.3/bin"
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp "$here/zz_demo_test.go.txt" "$tmp/zz_demo_test.go"
echo "{{\\"Replace\\": {{\\"$PWD/{b["pkg"]}/zz_demo_test.go\\": \\"$tmp/zz_demo_test.go\\"}}}}" >"$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 120s{extra} -run '^TestZZDemo$' ./{b["pkg"]}
''')
    os.chmod(d + '/demo.sh', 0o755)
