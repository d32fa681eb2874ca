#!/usr/bin/env python3
"""Make and validate planted bugs: tools/mkseed.py SPECDIR [id...]

SPECDIR/<id>.py defines PROPERTY, PKG, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (Go test
with TestDemo, laid into PKG through an overlay) and optionally RACE. A bug is kept in
/verif/seeded/<id> only if it applies, builds, passes the stable tests, and its demo passes
without it and fails with it, all tried in a scratch copy."""
import sys, os, json, subprocess, shutil, tempfile, runpy
V='/verif'
def sh(cmd, cwd, t=600):
    return subprocess.run(['bash','-c',cmd], cwd=cwd, capture_output=True, text=True, timeout=t)
DEMO='''#!/bin/bash
# exit 0 if the property holds in this demonstration, cwd is the repository
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s":"%s"}}' "$PWD/{PKG}/zz_demo_test.go" "$here/demo.go.txt" > "$tmp/overlay.json"
go test {FLAGS}-vet=off -count=1 -timeout 200s -overlay "$tmp/overlay.json" -run '^TestDemo$' ./{PKG}
'''
spec=sys.argv[1]
ids=sys.argv[2:] or sorted(f[:-3] for f in os.listdir(spec) if f.endswith('.py'))
base=json.load(open('/opt/vp/BASELINE.json'))
bad=0
for i in ids:
    m=runpy.run_path(f'{spec}/{i}.py')
    d=tempfile.mkdtemp(prefix='seed-')
    repo=d+'/repo'
    try:
        subprocess.run(['cp','-a','/repo',repo],check=True)
        sh('git checkout -q -- . && git clean -fdq',repo)
        ok=True
        for f,o,n in m['EDITS']:
            s=open(f'{repo}/{f}').read()
            if s.count(o)!=1:
                print(i,'edit matches',s.count(o),'times:',repr(o)); ok=False; break
            open(f'{repo}/{f}','w').write(s.replace(o,n))
        if not ok: bad+=1; continue
        out=d+'/out'; os.makedirs(out)
        diff=sh('git diff',repo).stdout
        open(out+'/patch.diff','w').write(diff)
        open(out+'/demo.go.txt','w').write(m['DEMO'].lstrip())
        open(out+'/demo.sh','w').write(DEMO.replace('{PKG}',m['PKG']).replace('{FLAGS}',m.get('FLAGS','')))
        os.chmod(out+'/demo.sh',0o755)
        json.dump({'property':m['PROPERTY'],'needs':m['NEEDS'],'what_it_breaks':m['BREAKS']},open(out+'/meta.json','w'),indent=1)
        env='. /opt/vp/env.sh; '
        r=sh(env+'go build ./... && gofmt -l pkg',repo)
        if r.returncode or r.stdout: print(i,'BUILD/GOFMT',r.stdout,r.stderr); bad+=1; continue
        r=sh(env+"go test -vet=off -count=1 $(go list ./... | grep -vE 'pkg/(bencode|tracker)$') 2>&1",repo)
        if r.returncode: print(i,'TESTS FAIL',r.stdout[-1500:]); bad+=1; continue
        r=sh(f'bash {out}/demo.sh',repo)
        if r.returncode==0: print(i,'DEMO PASSES WITH BUG'); bad+=1; continue
        why=r.stdout+r.stderr
        sh('git checkout -q -- .',repo)
        r=sh(f'bash {out}/demo.sh',repo)
        if r.returncode: print(i,'DEMO FAILS WITHOUT BUG',(r.stdout+r.stderr)[-1500:]); bad+=1; continue
        shutil.rmtree(f'{V}/seeded/{i}',ignore_errors=True)
        shutil.copytree(out,f'{V}/seeded/{i}')
        line=[l for l in why.split('\n') if 'zz_demo' in l or 'panic' in l or 'DATA RACE' in l][:2]
        print(i,'ok:',' | '.join(line)[:200])
    finally:
        shutil.rmtree(d,ignore_errors=True)
sys.exit(1 if bad else 0)
