#!/usr/bin/env python3
"""Mutation testing of the checks.
run.py tests MUTANTS OUT   which mutants build and pass the stable tests (OUT: their indexes)
run.py checks MUTANTS IN OUT [MS]   runs the checks on those; OUT gets one line per mutant"""
import json, os, subprocess, sys, random, threading, queue
ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
BASE = json.load(open('/opt/vp/BASELINE.json'))
def stable():
    x = BASE.get('stable') or BASE.get('tests') or BASE.get('stable_tests') or BASE
    return set(x if isinstance(x, list) else x.keys())
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'])
PROPS = {
 'pkg/server/session.go': 'C01 C02 C03 C05 C09 C08 C15 C10 C06 C07 C04 C11 C14',
 'pkg/server/server.go': 'C11 C12 C13 C16 C05 C14 C10 C06 C15',
 'pkg/server/event.go': 'C20 C12',
 'pkg/server/run.go': 'C21 C13',
 'pkg/server/config_distributor.go': 'C17 C18 C19 C13 C22 C21',
 'pkg/cli/': 'C21 C22',
 'pkg/pgmeta/': 'C25',
 'pkg/pg/conn.go': 'C23 C24 C01 C02 C09 C07',
 'pkg/pg/': 'C23 C24 C01 C02 C07 C08 C09 C15',
}
def props(f):
    for k, v in PROPS.items():
        if f.startswith(k): return v.split()
    return []
def sh(c, cwd=None, env=ENV, t=600):
    try: return subprocess.run(c, shell=True, cwd=cwd, env=env, capture_output=True, text=True, errors='replace', timeout=t)
    except subprocess.TimeoutExpired as e: return subprocess.CompletedProcess(c, 124, '', 'timeout')
muts = [json.loads(l) for l in open(sys.argv[2])]
def apply(d, m):
    b = open(f"/repo/{m['file']}", 'rb').read()
    open(f"{d}/{m['file']}", 'wb').write(b[:m['from']] + m['new'].encode() + b[m['to']:])
def undo(d, m): open(f"{d}/{m['file']}", 'wb').write(open(f"/repo/{m['file']}", 'rb').read())
def copy(d):
    sh(f"rm -rf {d}; mkdir -p {d}; cd /repo && git archive HEAD | tar x -C {d}")
if sys.argv[1] == 'tests':
    st = None
    q = queue.Queue(); [q.put(i) for i in range(len(muts))]
    good = []; lock = threading.Lock()
    def tests(d):
        x = sh("go test -json -vet=off -count=1 -timeout 15s $(go list -e ./... | grep -vE '/pkg/pgmeta$')", d, t=60)
        p = set()
        for l in x.stdout.split('\n'):
            try: j = json.loads(l)
            except Exception: continue
            if j.get('Action') == 'pass' and j.get('Test'): p.add(f"{j['Package']}/{j['Test']}")
        return p
    d0 = '/tmp/mut/base'; copy(d0); base = tests(d0); base &= tests(d0)
    print('base', len(base), flush=True)
    def work(k):
        d = f'/tmp/mut/w{k}'; copy(d)
        while True:
            try: i = q.get_nowait()
            except queue.Empty: break
            m = muts[i]; apply(d, m)
            ok = sh('go build ./...', d).returncode == 0 and not (base - tests(d))
            undo(d, m)
            if ok:
                with lock:
                    open(sys.argv[3], 'a').write(f'{i}\n')
        sh(f'rm -rf {d}')
    ts = [threading.Thread(target=work, args=(k,)) for k in range(20)]
    [t.start() for t in ts]; [t.join() for t in ts]
    sh(f'rm -rf {d0}')
else:
    idx = [int(x) for x in open(sys.argv[3])]
    done = set()
    if os.path.exists(sys.argv[4]): done = {int(l.split()[0]) for l in open(sys.argv[4])}
    ms = sys.argv[5] if len(sys.argv) > 5 else '2000'
    random.Random(1).shuffle(idx)
    d, out = '/tmp/mut/c', '/tmp/mut/out'; copy(d); os.makedirs('/tmp/mut/root', exist_ok=True)
    for i in idx:
        if i in done: continue
        m = muts[i]
        apply(d, m)
        sh(f'rm -rf {out}')
        x = sh(f'{ROOT}/bin/build {out}', env=dict(ENV, VERIF_REPO=d))
        res = 'BUILD'
        if x.returncode == 0:
            res = 'SURVIVED'
            for p in props(m['file']):
                x = sh(f'{out}/simbin check {p}', env=dict(ENV, VERIF_ROOT='/tmp/mut/root', VERIF_SEED='1', VERIF_MS=ms))
                if x.returncode: res = f'{p}:{x.returncode}'; break
        undo(d, m)
        open(sys.argv[4], 'a').write(f"{i} {res} {m['file']}:{m['line']} {m['what']!r}\n")
