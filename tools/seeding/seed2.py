import subprocess, os, json, sys, time, shutil
sys.path.insert(0,'/tmp/seedtool')
from seed import DEMO
R='/tmp/srepo'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def git(a): return sh(f'git -C {R} '+a)
def fresh():
    if not os.path.isdir(R): sh(f'cp -a /repo {R}')
    git('fetch -q /repo HEAD'); git('checkout -q -f FETCH_HEAD'); 
fresh()
stable=None
def seed(id, prop, needs, breaks, edits, test, pkg='oracle', check=True, tests=True, demo=None, files={}):
    d=f'/tmp/seeded_new/{id}'
    git('checkout -- .')
    os.makedirs(d,exist_ok=True)
    open(d+'/demo.sh','w').write(demo or DEMO.replace('PKG',pkg)); os.chmod(d+'/demo.sh',0o755)
    if test: open(d+'/demo_test.go.txt','w').write(test)
    for n,c in files.items(): open(d+'/'+n,'w').write(c)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    try:
        if demo: sh(f'. /opt/vp/env.sh; go build -buildvcs=false -o {R}/mev-sp-oracle .',cwd=R)
        c=sh(f'bash {d}/demo.sh',cwd=R)
        if c.returncode!=0: print(id,'DEMO FAILS ON CLEAN',c.stdout[-1500:],c.stderr[-500:]); return
        for f,o,n in edits:
            p=R+'/'+f; s=open(p).read()
            assert s.count(o)==1,(id,f,s.count(o),o[:80])
            open(p,'w').write(s.replace(o,n))
        open(d+'/patch.diff','w').write(git('diff -- '+' '.join(sorted({e[0] for e in edits}))).stdout)
        b=sh(f'. /opt/vp/env.sh; go build ./... && go build -buildvcs=false -o {R}/mev-sp-oracle .',cwd=R)
        if b.returncode: print(id,'BUILD FAILS',b.stdout[-800:],b.stderr[-800:]); return
        c=sh(f'bash {d}/demo.sh',cwd=R)
        print(id,prop,'demo patched rc',c.returncode, '' if c.returncode else 'NOT DETECTED BY DEMO')
        if c.returncode and 'FAIL' not in c.stdout: print(c.stdout[-600:])
        if tests:
            t=sh(f'. /opt/vp/env.sh; go test -json -vet=off -count=1 -timeout 10m ./... > /tmp/seed_log.json; python3 /opt/vp/results.py /tmp/seed_out.json gojson:/tmp/seed_log.json',cwd=R)
            r=json.load(open('/tmp/seed_out.json')); base=json.load(open('/opt/vp/BASELINE.json'))
            st=base.get('stable') or base.get('passed') or base
            fails=[x for x in (st if isinstance(st,list) else st.keys()) if x not in set(r.get('passed',[]))]
            print('   stable tests failing:',len(fails),fails[:5])
        if check:
            t0=time.time()
            k=sh(f'REPO={R} LINES=6 CUT=400 bash /tmp/dev.sh {prop}')
            o=k.stdout
            print('   check','CAUGHT' if 'VIOLATION property='+prop in o else 'MISSED','%.0fs'%(time.time()-t0),([l for l in o.split('\n') if l.startswith(prop+': ')] or [o[-300:]+k.stderr[-300:]])[0][:260],flush=True)
    finally:
        git('checkout -- .')
