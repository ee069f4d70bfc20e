#!/usr/bin/env python3
"""Mutation campaign: run.py MUTANTS.jsonl OUT.jsonl [workers] — for each mutant that builds
and passes the package's stable tests, runs the quick checks that cover the file."""
import json, os, shutil, subprocess, sys, threading, queue, random
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
muts = [json.loads(l) for l in open(sys.argv[1])]
outp = sys.argv[2]
W = int(sys.argv[3]) if len(sys.argv) > 3 else 6
COVER = json.load(open(os.path.dirname(os.path.abspath(__file__)) + '/cover.json'))
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
done = set()
if os.path.exists(outp):
    for l in open(outp):
        m = json.loads(l); done.add((m['file'], m['Start'], m['End'], m['New']))
q = queue.Queue()
random.seed(1); random.shuffle(muts)
for m in muts:
    if (m['file'], m['Start'], m['End'], m['New']) not in done: q.put(m)
lock = threading.Lock()
def sh(cmd, t=600, **kw):
    try: return subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=t, **kw)
    except subprocess.TimeoutExpired as e: return subprocess.CompletedProcess(cmd, 124, '', '')
def worker(k):
    S = f'/tmp/mutw/{k}'
    if os.path.isdir(S): shutil.rmtree(S)
    os.makedirs(S)
    sh(f'cp -a /repo {S}/repo; mkdir {S}/verif; cd {V}; cp -a bin build harness mod engine known_findings.json properties.jsonl MANIFEST.json tools {S}/verif/; [ -d stubs ] && cp -a stubs {S}/verif/; mkdir -p {S}/verif/evidence')
    R = S + '/repo'
    for n in ('test', 'env', 'build'):
        t = open(f'/opt/vp/{n}.sh').read()
        t = t.replace('cd /repo', 'cd ' + R).replace('/opt/vp/env.sh', S + '/env.sh').replace('reports=/opt/vp/reports', f'reports={S}/reports')
        if n == 'test': t = t.replace('for p in $pkgs; do', 'for p in $PKG; do')
        open(f'{S}/{n}.sh', 'w').write(t)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        f = R + '/' + m['file']
        src = open('/repo/' + m['file'], 'rb').read()
        open(f, 'wb').write(src[:m['Start']] + m['New'].encode() + src[m['End']:])
        cov = COVER[m['file']]
        r = dict(m)
        pkg = 'code.cloudfoundry.org/log-cache/' + os.path.dirname(m['file'])
        if cov.get('stub'):
            # The package is built and tested against the stand-ins (STUBMOD: a copy of mod/stub with
            # what the tests need as well).
            mod = os.environ.get('STUBMOD', V + '/mod/stub') + '/go.mod'
            d = './' + os.path.dirname(m['file'])
            b = sh(f'cd {R} && GOFLAGS=-mod=mod GOPROXY=off go build -modfile={mod} {d}')
            # These packages' own tests need what the sandbox does not have.
            if os.path.dirname(m['file']) in ('internal/cache', 'internal/nozzle', 'internal/cfauthproxy'): t = subprocess.CompletedProcess('', 0)
            elif b.returncode == 0:
                t = sh(f'cd {R} && GOFLAGS=-mod=mod GOPROXY=off timeout 120 go test -modfile={mod} {d}')
        else:
            b = sh(f'bash {S}/build.sh')
        if b.returncode: r['res'] = 'build'
        else:
            if not cov.get('stub'):
                sh(f'bash {S}/test.sh {S}/out.json', env=dict(os.environ, PKG=pkg))
                try: p = set(json.load(open(S + '/out.json'))['passed'])
                except Exception: p = set()
                short = os.path.dirname(m['file'])
                miss = [s for s in stable if s not in p and owner(s) == short]
            else: miss = ['x'] if t.returncode else []
            if miss: r['res'] = 'tests'
            else:
                r['res'] = 'SURVIVED'
                for c in cov['checks']:
                    x = sh(f'{S}/verif/bin/gosym run -prop {c} -tier quick -repo {R} -verif {S}/verif', t=900)
                    v = [l for l in x.stdout.splitlines() if l.startswith('VIOLATION')]
                    if x.returncode == 1 and v:
                        r['res'] = 'caught'; r['by'] = c; break
                    if x.returncode not in (0, 1):
                        r.setdefault('odd', []).append([c, x.returncode, (x.stdout + x.stderr)[-400:]])
        open(f, 'wb').write(src)
        with lock:
            with open(outp, 'a') as o: o.write(json.dumps(r) + '\n')
base = {}
def owner(s):
    return OWN.get(s, '')
OWN = {}
def own():
    # which package a stable test belongs to: learned from one run per package
    S = '/tmp/mutw/own'
    os.makedirs(S, exist_ok=True)
    for d in sorted({os.path.dirname(m['file']) for m in muts}):
        if not os.path.exists('/repo/' + d): continue
        t = open('/opt/vp/test.sh').read().replace('reports=/opt/vp/reports', f'reports={S}/reports').replace('for p in $pkgs; do', 'for p in $PKG; do')
        open(S + '/test.sh', 'w').write(t)
        sh(f'bash {S}/test.sh {S}/out.json', env=dict(os.environ, PKG='code.cloudfoundry.org/log-cache/' + d))
        try:
            for s in json.load(open(S + '/out.json'))['passed']:
                if s in stable: OWN[s] = d
        except Exception: pass
own()
print('owned', len(OWN), 'of', len(stable), flush=True)
ts = [threading.Thread(target=worker, args=(k,)) for k in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
