import subprocess, os, json, sys, time
DEMO='''#!/bin/bash
# Runs the test beside this file inside the package of the tree in the current directory.
D="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
W="$(mktemp -d /tmp/seeddemo.XXXXXX)" || exit 2
trap '/bin/rm -rf "$W"' EXIT
export SEED_DIR="$W"
printf '{"Replace":{"%s/PKG/zz_seed_demo_test.go":"%s/demo_test.go.txt"}}' "$PWD" "$D" > "$W/overlay.json"
timeout 280 go test -vet=off -count=1 -overlay "$W/overlay.json" -run '^TestSeedDemo$' ./PKG >"$W/out" 2>&1
rc=$?
tail -30 "$W/out"
grep -q '^ok' "$W/out" || [ $rc -ne 0 ] || rc=1
exit $rc
'''
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def git(a): return sh('git -C /repo '+a)
def seed(id, prop, needs, breaks, edits, test, pkg='oracle', check=True, tests=True):
    d=f'/verif/seeded/{id}'
    assert git('status --porcelain').stdout.strip()=='' , 'repo dirty'
    os.makedirs(d,exist_ok=True)
    open(d+'/demo.sh','w').write(DEMO.replace('PKG',pkg)); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo_test.go.txt','w').write(test)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    try:
        c=sh(f'bash {d}/demo.sh',cwd='/repo')
        if c.returncode!=0: print(id,'DEMO FAILS ON CLEAN',c.stdout[-1500:],c.stderr[-500:]); return
        for f,o,n in edits:
            p='/repo/'+f; s=open(p).read()
            assert s.count(o)==1,(id,f,s.count(o),o[:80])
            open(p,'w').write(s.replace(o,n))
        open(d+'/patch.diff','w').write(git('diff').stdout)
        b=sh('bash /opt/vp/build.sh')
        if b.returncode: print(id,'BUILD FAILS',b.stdout[-800:],b.stderr[-800:]); return
        c=sh(f'bash {d}/demo.sh',cwd='/repo')
        print(id,prop,'demo patched rc',c.returncode, '' if c.returncode else 'NOT DETECTED BY DEMO')
        if c.returncode and 'FAIL' not in c.stdout: print(c.stdout[-600:])
        if tests:
            t=sh('bash /opt/vp/test.sh /tmp/seed_out.json')
            r=json.load(open('/tmp/seed_out.json')); base=json.load(open('/opt/vp/BASELINE.json'))
            stable=base.get('stable') or base.get('passed') or base
            fails=[x for x in (stable if isinstance(stable,list) else stable.keys()) if x not in set(r.get('passed',[]))]
            print('   stable tests failing:',len(fails),fails[:5])
        if check:
            t0=time.time()
            k=sh(f'VERIF_SEED=1 bash run.sh {prop} quick',cwd='/verif')
            v=[l for l in k.stdout.split('\n') if 'VIOLATION property='+prop in l]
            first=[l for l in k.stdout.split('\n') if l.startswith(prop+':')]
            print('   check rc',k.returncode,'violations',len(v),'%.0fs'%(time.time()-t0),(first[:1] or [k.stderr[-300:]])[0][:260])
    finally:
        git('checkout -- .')
