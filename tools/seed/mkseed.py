#!/usr/bin/env python3
"""Makes and verifies planted bugs.  mkseed.py verify|check ID... ; definitions are in bugs.py, demos in demos/ID.go."""
import json, os, shutil, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(os.path.dirname(here))
sys.path.insert(0, here)
from bugs import BUGS
WT, OUT = '/tmp/seedwt', '/tmp/seedout'
BASE = '483a905'
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off',
           PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'])
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])

def sh(cmd, cwd=None, env=None, timeout=1000):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=timeout)

def fresh():
    sh(f'git -C /repo worktree remove --force {WT}; rm -rf {WT}; git -C /repo worktree prune; git -C /repo worktree add -f --detach {WT} HEAD -q')

def make(b):
    d = f'{root}/seeded/{b["id"]}'
    os.makedirs(d, exist_ok=True)
    sh('git checkout -q -- .', WT)
    files = set()
    orig = 0
    for f, old, new in b['edits']:
        p = f'{WT}/{f}'
        s = open(p).read()
        if s.count(old) != 1: return f'edit of {f}: {s.count(old)} matches of {old!r}'
        open(p, 'w').write(s.replace(old, new))
    for f in sorted({e[0] for e in b['edits']}):
        if not sh(f'git show HEAD:{f} | gofmt -l', WT).stdout.strip(): sh(f'gofmt -w {f}', WT)
    diff = sh('git diff', WT).stdout
    open(f'{d}/patch.diff', 'w').write(diff)
    # removed lines of the original repository
    for l in sh('git diff -U0', WT).stdout.split('\n'):
        if l.startswith('--- a/'): cur = l[6:]
        if l.startswith('@@'):
            a = l.split()[1][1:].split(',')
            st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
            for k in range(st, st + n):
                bl = sh(f'git blame -s -L {k},{k} HEAD -- {cur}', WT).stdout
                code = bl.split(')', 1)[1].split('//')[0].strip()
                if bl.startswith('^' + BASE) and len(code) > 1: orig += 1
    b['orig'] = orig
    open(f'{d}/demo.sh', 'w').write(open(f'{here}/demo.sh.txt').read().replace('@PKG@', b['pkg']))
    os.chmod(f'{d}/demo.sh', 0o755)
    shutil.copy(f'{here}/demos/{b["id"]}.go', f'{d}/demo_test.go')
    if os.path.exists(f'{here}/helper_{b["pkg"]}.go.txt'):
        shutil.copy(f'{here}/helper_{b["pkg"]}.go.txt', f'{d}/helper_test.go')
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what']}, open(f'{d}/meta.json', 'w'), indent=1)
    return None

def verify(b):
    e = make(b)
    if e: return e
    d = f'{root}/seeded/{b["id"]}'
    out = []
    if b['orig'] == 0: out.append('NO ORIGINAL LINE CHANGED')
    r = sh('go build ./... && go build -o build/gevulot .', WT)
    if r.returncode: return 'does not build: ' + r.stderr[-500:]
    r = sh('go test -json -vet=off -count=1 -timeout 5m $(go list -e ./... | grep -vE "/pkg/pgmeta$")', WT)
    passed = set()
    for l in r.stdout.split('\n'):
        try: j = json.loads(l)
        except Exception: continue
        if j.get('Action') == 'pass' and j.get('Test'): passed.add((j['Package'], j['Test']))
    miss = sorted(stable - {f'{p}/{t}' for p, t in passed})
    if miss: out.append(f'FAILS STABLE TESTS {miss[:3]}')
    for k in range(b.get('times', 2)):
        r = sh(f'bash {d}/demo.sh', WT, timeout=300)
        if r.returncode == 0: out.append('DEMO PASSES WITH THE PATCH')
        if k == 0: why = [l.strip() for l in r.stdout.split('\n') if l.strip()]
    sh('git checkout -q -- .', WT)
    for k in range(b.get('times', 2)):
        r = sh(f'bash {d}/demo.sh', WT, timeout=300)
        if r.returncode != 0: out.append('DEMO FAILS ON THE CLEAN TREE ' + r.stdout[-600:] + r.stderr[-300:])
    return ('; '.join(out) if out else 'ok') + '   [' + ' '.join(why[:6])[:300] + ']'

def check(b):
    d = f'{root}/seeded/{b["id"]}'
    sh('git checkout -q -- .', WT)
    r = sh(f'git apply {d}/patch.diff', WT)
    if r.returncode: return 'patch does not apply'
    sh(f'rm -rf {OUT}')
    env = dict(ENV, VERIF_REPO=WT)
    r = sh(f'{root}/bin/build {OUT}', env=env)
    if r.returncode: return 'simulation does not build: ' + r.stderr[-500:]
    res = []
    os.makedirs('/tmp/vroot', exist_ok=True)
    for p in b.get('props', [b['property']]):
        env = dict(ENV, VERIF_ROOT='/tmp/vroot', VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_MS=os.environ.get('VERIF_MS', '18000'))
        r = sh(f'{OUT}/simbin check {p}', env=env)
        v = [l for l in r.stdout.split('\n') if 'VIOLATION' in l]
        if v:
            j = json.load(open(v[0].split('replay=')[1]))
            res.append(f'{p} CAUGHT run {j["run"]} {j["class"]}: {j["message"][:150]}')
        else:
            res.append(f'{p} MISSED rc={r.returncode} ' + (r.stdout + r.stderr)[-200:].replace('\n', ' | '))
    sh(f'rm -rf {OUT}')
    return '; '.join(res)

if __name__ == '__main__':
    mode, ids = sys.argv[1], sys.argv[2:]
    fresh()
    for b in BUGS:
        if ids and not any(b['id'].startswith(i) for i in ids): continue
        if 'verify' in mode: print(b['id'], verify(b), flush=True)
        if 'check' in mode: print(b['id'], check(b), flush=True)
    sh(f'git -C /repo worktree remove --force {WT}; git -C /repo worktree prune; rm -rf {OUT}')
