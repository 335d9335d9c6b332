#!/usr/bin/env python3
"""Runs the checks on behaviour-preserving rewrites of the code: refac.py [-t] R... [-p PROPS...]"""
import os, sys, shutil
sys.dont_write_bytecode = True
import mkseed as m
from mkseed import sh, ENV, root
WT, OUT = '/tmp/refwt', '/tmp/refout'
args = sys.argv[1:]
props = [f'C{i:02d}' for i in range(1, 26)]
if '-p' in args:
    k = args.index('-p'); props = args[k+1:]; args = args[:k]
for r in args or sorted(os.listdir(f'{root}/tools/refactorings')):
    sh(f'git -C /repo worktree remove --force {WT}; rm -rf {WT}; git -C /repo worktree prune; git -C /repo worktree add -f --detach {WT} HEAD -q')
    src = f'{root}/tools/refactorings/{r}'
    sh(f'cp -r {src}/. {WT}/')
    x = sh('go build ./... && go vet ./pkg/server ./pkg/cli ./pkg/pg', WT)
    print(r, 'build', x.returncode, x.stderr[-600:], flush=True)
    import json
    x = sh('go test -json -vet=off -count=1 -timeout 5m $(go list -e ./... | grep -vE "/pkg/pgmeta$")', WT)
    passed = set()
    for l in x.stdout.split('\n'):
        try: j = json.loads(l)
        except Exception: continue
        if j.get('Action') == 'pass' and j.get('Test'): passed.add((j['Package'], j['Test']))
    print(r, 'tests missing', sorted(m.stable - {f'{p}/{t}' for p, t in passed})[:5], flush=True)
    sh(f'rm -rf {OUT}')
    x = sh(f'{root}/bin/build {OUT}', env=dict(ENV, VERIF_REPO=WT))
    if x.returncode: print(r, 'simulation does not build', x.stderr[-1500:]); continue
    os.makedirs('/tmp/vroot', exist_ok=True)
    for p in props:
        x = sh(f'{OUT}/simbin check {p}', env=dict(ENV, VERIF_ROOT='/tmp/vroot', VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_MS=os.environ.get('VERIF_MS', '8000')))
        print(r, p, 'rc', x.returncode, (x.stdout + x.stderr).strip()[-500:].replace('\n', ' | ') if x.returncode else '', flush=True)
    sh(f'rm -rf {OUT}')
sh(f'git -C /repo worktree remove --force {WT}; git -C /repo worktree prune')
