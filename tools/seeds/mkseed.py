#!/usr/bin/env python3
"""mkseed.py FILE.py [ID..]: makes and confirms planted bugs. FILE.py defines SEEDS: list of dicts
id, property, needs, breaks, edits [(file, old, new)..], main (Go source of the demo)."""
import sys,os,subprocess,json,shutil,tempfile,runpy
here=os.path.dirname(os.path.abspath(__file__))
S=runpy.run_path(sys.argv[1])['SEEDS']
want=set(sys.argv[2:])
base=json.load(open('/opt/vp/BASELINE.json'))
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
for s in S:
    if want and s['id'] not in want: continue
    d='/verif/seeded/'+s['id']
    R='/tmp/seedrepo.%d'%os.getpid()
    shutil.rmtree(R,ignore_errors=True)
    sh('cp -a /repo '+R)
    try:
        ok=True
        for f,o,n in s['edits']:
            p=R+'/'+f; t=open(p).read()
            if t.count(o)<1: print(s['id'],'PATTERN NOT FOUND',f,o); ok=False; break
            open(p,'w').write(t.replace(o,n,1))
        if not ok: continue
        r=sh('gofmt -l pkg cmd',cwd=R)
        diff=subprocess.run('git diff',shell=True,cwd=R,stdout=subprocess.PIPE,text=True).stdout
        # every removed line must come from the original commit
        removed=[l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        orig=''.join(sh('git show a0e86d8:'+f,cwd=R).stdout for f,_,_ in s['edits'])
        bad=[l for l in removed if l.strip() and l not in orig.splitlines()]
        if bad: print(s['id'],'REMOVES NON-ORIGINAL LINES',bad)
        r=sh('go build ./... && go vet ./pkg/... ./cmd/... ',cwd=R)
        if r.returncode: print(s['id'],'BUILD/VET',r.stdout[-600:])
        fails=set()
        for k in range(2):
            r=sh('go test -count=1 ./...',cwd=R)
            if r.returncode: print(s['id'],'TESTS FAIL',r.stdout[-800:]); ok=False; break
        if not ok: continue
        tmp=tempfile.mkdtemp()
        open(tmp+'/main.go','w').write(s['main']); shutil.copy(here+'/lib.go',tmp); shutil.copy(here+'/demo.sh',tmp)
        a=sh('bash %s/demo.sh'%tmp,cwd='/repo'); b=sh('bash %s/demo.sh'%tmp,cwd=R)
        shutil.rmtree(tmp)
        good=a.returncode==0 and b.returncode!=0 and 'FAIL' in b.stdout or (a.returncode==0 and 'panic' in b.stdout)
        print(s['id'],'ok' if good else 'BAD','| clean rc',a.returncode,a.stdout[-300:].strip(),'| bug rc',b.returncode,b.stdout[:300].strip())
        if not good: continue
        os.makedirs(d,exist_ok=True)
        open(d+'/patch.diff','w').write(diff); open(d+'/main.go','w').write(s['main'])
        shutil.copy(here+'/lib.go',d); shutil.copy(here+'/demo.sh',d)
        json.dump({"property":s['property'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
    finally:
        shutil.rmtree(R,ignore_errors=True)
