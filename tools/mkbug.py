#!/usr/bin/env python3
"""Build and confirm a planted bug.  usage: mkbug.py SPEC.py [ID...]
SPEC.py defines BUGS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], main='''go''' )]
Creates /verif/seeded/<id>/ after confirming, in a scratch copy, that the change builds,
passes the repository's tests and makes the demo fail (and that the demo passes unchanged)."""
import json, os, shutil, subprocess, sys, tempfile, runpy
ENV = dict(os.environ, GOFLAGS="-mod=mod -buildvcs=false", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off")
DEMO = '''#!/bin/bash
# exit 0: behaves as the property says; nonzero: does not. Run with cwd = the repository.
D=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local GOWORK=off
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
printf '{"Replace": {"%s/zzdemo/main.go": "%s/main.go.txt"}}' "$PWD" "$D" > "$T/ov.json"
go build -overlay "$T/ov.json" -o "$T/demo" ./zzdemo || exit 98
EXTRA
'''
RUNLIB = 'cd "$T" && timeout 250 ./demo'
RUNCLI = 'go build -o "$T/mnemonikey" ./cmd/mnemonikey || exit 97\ncd "$T" && timeout 250 ./demo ./mnemonikey'
def sh(cmd, cwd, **k): return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
spec = runpy.run_path(sys.argv[1]); want = set(sys.argv[2:])
for b in spec['BUGS']:
    if want and b['id'] not in want: continue
    if not want and os.path.exists(f"/verif/seeded/{b['id']}/patch.diff"): continue
    t = tempfile.mkdtemp(prefix='bug.'); r = t + '/repo'
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
        d = t + '/b'; os.mkdir(d)
        open(d + '/main.go.txt', 'w').write(b['main'].lstrip())
        open(d + '/demo.sh', 'w').write(DEMO.replace('EXTRA', RUNCLI if b.get('cli') else RUNLIB)); os.chmod(d + '/demo.sh', 0o755)
        p = sh(f'bash {d}/demo.sh', r)
        if p.returncode != 0: print(b['id'], 'FAIL: demo fails on clean tree', p.returncode, p.stdout[-1500:]); continue
        ok = True
        for f, old, new in b['edits']:
            s = open(f'{r}/{f}').read()
            if s.count(old) != 1: print(b['id'], 'FAIL: edit matches', s.count(old), f, old[:60]); ok = False; break
            open(f'{r}/{f}', 'w').write(s.replace(old, new))
        if not ok: continue
        p = sh('go build ./... && go vet . ./pgp ./mnemonic 2>&1 | head -5; go build ./...', r)
        if p.returncode: print(b['id'], 'FAIL: build', p.stdout); continue
        p = sh('go test -vet=off -count=1 -p 1 -skip TestMnemonikey/checksum_in ./...', r)
        if p.returncode: print(b['id'], 'FAIL: tests', p.stdout[-1500:]); continue
        p = sh(f'bash {d}/demo.sh', r)
        if p.returncode in (0, 97, 98, 99): print(b['id'], 'FAIL: demo on patched', p.returncode, p.stdout[-1500:]); continue
        demo_out = p.stdout.strip()[-300:]
        open(d + '/patch.diff', 'w').write(subprocess.run(['git', 'diff'], cwd=r, stdout=subprocess.PIPE, text=True, check=True).stdout)
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
        out = f"/verif/seeded/{b['id']}"
        shutil.rmtree(out, ignore_errors=True); shutil.copytree(d, out)
        print(b['id'], 'ok:', demo_out)
    finally:
        shutil.rmtree(t, ignore_errors=True)
    sys.stdout.flush()
