#!/usr/bin/env python3
"""Validates planted bugs: plant.py ID...   (all of seeded/ without arguments)

For each seeded/<id>: in a scratch copy of /repo the demo must pass on the
unchanged tree; with the patch the tree must build, the stable tests pass and
the demo fail. Then runs the property's quick check on the patched copy
(-c: that only) and prints whether it reports a violation."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/plant'
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
args = sys.argv[1:]
only_check = '-c' in args
args = [a for a in args if a != '-c']
ids = args or sorted(os.listdir(V + '/seeded'))
if os.path.isdir(S): shutil.rmtree(S)
os.makedirs(S)
sh(f'cp -a /repo {S}/repo')
R = S + '/repo'
scripts = {}
for n in ('build', 'test', 'env'):
    t = open(f'/opt/vp/{n}.sh').read()
    t = t.replace('cd /repo', 'cd ' + R).replace('/opt/vp/env.sh', S + '/env.sh').replace('reports=/opt/vp/reports', f'reports={S}/reports')
    open(f'{S}/{n}.sh', 'w').write(t)
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
for i in ids:
    d = f'{V}/seeded/{i}'
    meta = json.load(open(d + '/meta.json'))
    out = []
    demo = f'{S}/demo'
    if os.path.isdir(demo): shutil.rmtree(demo)
    shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
    sh(f'git -C {R} checkout -- .')
    if not only_check:
        r = sh(f'bash {demo}/demo.sh', cwd=R)
        out.append('clean-demo ' + ('ok' if r.returncode == 0 else 'FAILS\n' + (r.stdout + r.stderr)[-1500:]))
    r = sh(f'git -C {R} apply {d}/patch.diff')
    if r.returncode: print(i, 'PATCH DOES NOT APPLY', r.stderr); continue
    if not only_check:
        r = sh(f'bash {S}/build.sh')
        out.append('build ' + ('ok' if r.returncode == 0 else 'FAILS\n' + r.stderr[-800:]))
        sh(f'bash {S}/test.sh {S}/out.json')
        p = set(json.load(open(S + '/out.json'))['passed'])
        miss = stable - p
        out.append('tests ' + ('ok' if not miss else 'BROKEN ' + str(sorted(miss)[:3])))
        r = sh(f'bash {demo}/demo.sh', cwd=R)
        out.append('bug-demo ' + ('ok' if r.returncode else 'PASSES (bad)'))
    r = sh(f'bash {V}/check.sh {meta["property"]} quick', env=dict(os.environ, REPO=R))
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    out.append(f'check rc={r.returncode} ' + ('CAUGHT ' if r.returncode == 1 and v else 'MISSED ') + (v[0][:160] if v else (r.stdout + r.stderr)[-300:]))
    print(i, '|', ' | '.join(out), flush=True)
    sh(f'git -C {R} checkout -- .')
shutil.rmtree(S)
