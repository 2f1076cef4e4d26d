#!/usr/bin/env python3
"""plant.py FILE.py: reads planted bugs (a list BUGS of dicts id, prop, edits [(file, old, new)], demo (go main body), needs, breaks),
confirms each in a scratch copy (compiles, stable tests pass, demo distinguishes) and keeps it under /verif/seeded/<id>/."""
import sys, os, subprocess, json, shutil, tempfile
SEED='/verif/seeded'
ns={}
exec(open(sys.argv[1]).read(), ns)
only=set(sys.argv[2:])
env=dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local')
DEMO='''#!/bin/bash
# run with cwd = the repository; exit 0 when it behaves, nonzero when the bug manifests
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
cp "$D/main.go.txt" "$W/main.go"
printf 'module github.com/lyraproj/dgo/demo\\n\\ngo 1.23\\n\\nrequire github.com/lyraproj/dgo v0.0.0\\n\\nreplace github.com/lyraproj/dgo => %s\\n' "$R" > "$W/go.mod"
cd "$W" && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local timeout 120 go run .
'''
base=json.load(open('/opt/vp/BASELINE.json'))
def sh(c,cwd,**k): return subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,env=env,**k)
ok_all=True
for b in ns['BUGS']:
    if only and b['id'] not in only: continue
    w=tempfile.mkdtemp(prefix='plant-')
    try:
        r=w+'/repo'
        shutil.copytree('/repo',r,symlinks=True)
        bad=None
        for f,o,n in b['edits']:
            p=r+'/'+f; s=open(p).read()
            if s.count(o)!=1: bad='edit in %s matches %d times'%(f,s.count(o)); break
            open(p,'w').write(s.replace(o,n))
        if bad: print(b['id'],'REJECT',bad); continue
        diff=sh('git diff',r).stdout
        x=sh('go build ./... && go vet ./internal >/dev/null 2>&1; gofmt -l .',r)
        if x.returncode or x.stderr: print(b['id'],'REJECT build',x.stderr[:500]); continue
        if x.stdout.strip(): print(b['id'],'note gofmt',x.stdout)
        x=sh('timeout 300 go test -vet=off ./... 2>&1 | grep -v "no test files"',r)
        if 'FAIL' in x.stdout: print(b['id'],'REJECT tests', [l for l in x.stdout.split('\n') if 'FAIL' in l or 'Error' in l][:12]); continue
        d=SEED+'/'+b['id']; os.makedirs(d,exist_ok=True)
        open(d+'/patch.diff','w').write(diff)
        open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
        imps=b.get('imports',[]); body=b['demo']
        full=['fmt','os']
        src='package main\n\nimport (\n\t"fmt"\n\t"os"\n'+''.join('\t"%s"\n'%i for i in imps)+')\n\nfunc bad(f string, a ...interface{}) {\n\tfmt.Printf("BUG: "+f+"\\n", a...)\n\tos.Exit(1)\n}\n\n'+b.get('decls','')+'func main() {\n'+body+'\n}\n'
        open(d+'/main.go.txt','w').write(src)
        json.dump({"property":b['prop'],"needs":b['needs'],"what_it_breaks":b['breaks']},open(d+'/meta.json','w'),indent=1)
        g=sh(d+'/demo.sh','/repo'); m=sh(d+'/demo.sh',r)
        if g.returncode!=0 or m.returncode==0:
            print(b['id'],'REJECT demo clean=%d bug=%d'%(g.returncode,m.returncode),g.stdout[-300:],g.stderr[-500:],m.stdout[-300:]); shutil.rmtree(d); continue
        print(b['id'],'ok:',m.stdout.strip()[:150] or m.stderr.strip()[:150])
    finally:
        shutil.rmtree(w)
