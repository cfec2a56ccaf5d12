#!/usr/bin/env python3
"""tools/seed.py SPEC.py ...: makes /verif/seeded/<id> from specs and confirms each in a scratch copy.
A spec file calls seed(id, prop, [(file, old, new), ...], demo_go, needs, breaks)."""
import os,sys,json,shutil,subprocess,tempfile
V=os.environ.get('SEEDOUT','/verif')
ENV=dict(os.environ,PATH='/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin',GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off',CGO_ENABLED='0')
DEMO='''#!/bin/bash
# Exit 0 when the property holds, nonzero when it is broken. Run with cwd = the repository.
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cp "$HERE"/demo.go.txt "$T"/main.go
cp "$REPO"/go.sum "$T"/go.sum 2>/dev/null
printf 'module demo\\n\\ngo 1.21\\n\\nrequire github.com/trimmer-io/go-xmp v0.0.0\\n\\nreplace github.com/trimmer-io/go-xmp => %s\\n' "$REPO" > "$T"/go.mod
cd "$T" || exit 2
go build -o demo . || exit 2
timeout 120 ./demo
'''
specs=[]
def seed(id,prop,edits,demo,needs,breaks): specs.append((id,prop,edits,demo,needs,breaks))
def run(cmd,cwd): return subprocess.run(cmd,cwd=cwd,env=ENV,capture_output=True,text=True)
def tests(wt):
    r=run(['go','test','-json','-vet=off','-count=1','./...'],wt)
    ok=set()
    for l in r.stdout.splitlines():
        try:e=json.loads(l)
        except: continue
        if e.get('Action')=='pass' and e.get('Test'): ok.add(e['Package']+'/'+e['Test'])
    st=json.load(open('/opt/vp/BASELINE.json'))['stable']
    return [s for s in st if s not in ok]
only=None
args=sys.argv[1:]
if '-only' in args:
    i=args.index('-only'); only=set(args[i+1].split(',')); del args[i:i+2]
for f in args: exec(open(f).read())
bad=0
for id,prop,edits,demo,needs,breaks in specs:
    if only and id not in only: continue
    wt=tempfile.mkdtemp(prefix='seedwt')
    shutil.rmtree(wt); shutil.copytree('/repo',wt,symlinks=True)
    d=f'{V}/seeded/{id}'
    os.makedirs(d,exist_ok=True)
    open(d+'/demo.go.txt','w').write(demo)
    open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    r0=run([d+'/demo.sh'],wt)
    err=''
    for file,old,new in edits:
        p=wt+'/'+file; s=open(p).read()
        if s.count(old)!=1: err=f'{file}: pattern found {s.count(old)} times'; break
        open(p,'w').write(s.replace(old,new))
    if not err:
        run(['gofmt','-l','.'],wt)
        b=run(['go','build','./...'],wt)
        if b.returncode: err='build: '+b.stderr
    if not err:
        t=tests(wt)
        if t: err='tests fail: '+','.join(t[:3])
    if not err:
        diff=run(['git','diff'],wt).stdout
        open(d+'/patch.diff','w').write(diff)
        r1=run([d+'/demo.sh'],wt)
        if r0.returncode!=0: err='demo on clean: '+r0.stdout[-600:]+r0.stderr[-600:]
        elif r1.returncode==0: err='demo passes with patch'
        elif 'build' in r1.stderr and r1.returncode==2: err='demo build? '+r1.stderr
    shutil.rmtree(wt)
    print(id,'OK' if not err else 'BAD '+err,flush=True)
    if err:
        bad+=1; shutil.rmtree(d)
sys.exit(bad>0)
