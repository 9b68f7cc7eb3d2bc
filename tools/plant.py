#!/usr/bin/env python3
"""Creates and confirms planted bugs. Usage: plant.py SPEC.py [id ...]
SPEC.py defines PLANTS = [dict(id, property, edits=[(file, old, new)], pkg, demo, needs, breaks)].
Each is applied to a scratch copy of /repo; it is kept in /verif/seeded/<id> if it
compiles, passes the tests and its demonstration fails with it and passes without it."""
import sys, os, subprocess, shutil, json, tempfile, runpy
SEED='/verif/seeded'
DEMO='''#!/bin/bash
# Exits 0 if the property holds for the demonstrated case, nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$repo" || exit 2
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
echo "{\\"Replace\\": {\\"$repo/%(pkg)s/zz_demo_verif_test.go\\": \\"$here/demo_test.go\\"}}" > "$tmp/overlay.json"
export TMPDIR="$tmp"
go test -vet=off -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run '^TestVerifDemo$' ./%(pkg)s
'''
def sh(cmd, cwd, t=400):
    p=subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout
ENV='. /opt/vp/env.sh; cd "%s"; '
spec=runpy.run_path(sys.argv[1])
want=set(sys.argv[2:])
base=json.load(open('/opt/vp/BASELINE.json'))
for p in spec['PLANTS']:
    if want and p['id'] not in want: continue
    w=tempfile.mkdtemp(prefix='plant_')
    repo=os.path.join(w,'repo')
    try:
        subprocess.check_call(['cp','-a','/repo',repo])
        d=os.path.join(w,'seed'); os.mkdir(d)
        open(d+'/demo_test.go','w').write(p['demo'].lstrip('\n'))
        open(d+'/demo.sh','w').write(DEMO%p); os.chmod(d+'/demo.sh',0o755)
        json.dump({'property':p['property'],'needs':p['needs'],'what_it_breaks':p['breaks']},open(d+'/meta.json','w'),indent=1)
        rc,out=sh('bash %s/demo.sh'%d, repo)
        if rc!=0: print(p['id'],'DEMO FAILS UNCHANGED\n',out[-1500:]); continue
        bad=False
        for f,old,new in p['edits']:
            s=open(repo+'/'+f).read()
            if s.count(old)!=1: print(p['id'],'EDIT MATCHES',s.count(old),f,repr(old[:50])); bad=True; break
            open(repo+'/'+f,'w').write(s.replace(old,new))
        if bad: continue
        _,diff=sh('git diff', repo)
        rc,out=sh((ENV%repo)+'gofmt -l '+' '.join(e[0] for e in p['edits']), repo)
        if out.strip(): print(p['id'],'gofmt',out)
        rc,out=sh((ENV%repo)+'go build ./...', repo)
        if rc: print(p['id'],'NO BUILD',out[-800:]); continue
        rc,out=sh('bash %s/demo.sh'%d, repo)
        if rc==0: print(p['id'],'DEMO PASSES WITH PATCH'); continue
        if 'build failed' in out: print(p['id'],'DEMO BUILD',out[-800:]); continue
        dem=[l for l in out.splitlines() if 'demo' in l or 'panic' in l][:2]
        rc,out=sh((ENV%repo)+'go test -vet=off -count=1 -p 1 ./... | grep -v "no test files"', repo)
        if 'FAIL' in out: print(p['id'],'TESTS FAIL\n','\n'.join([l for l in out.splitlines() if 'FAIL' in l or '.go:' in l][:6])); continue
        # changed lines must be original ones
        blame=set()
        open(d+'/patch.diff','w').write(diff)
        t=os.path.join(SEED,p['id']); os.makedirs(SEED,exist_ok=True)
        if os.path.exists(t): shutil.rmtree(t)
        shutil.copytree(d,t)
        print(p['id'],'KEPT',dem)
    finally:
        shutil.rmtree(w)
