#!/usr/bin/env python3
"""Development helper: plant.py SPEC.py [ids...]
SPEC.py defines BUGS = [dict(id, prop, pkg, edits=[(file, old, new)], test, needs, breaks)].
Applies each change to /repo, confirms that it builds, passes the stable tests and
fails its demonstration, runs the property's check, reverts, writes /verif/seeded/<id>."""
import sys, os, subprocess, json, shutil, runpy, tempfile, time
R='/repo'; BASE='a9e5b30'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO='''#!/bin/bash
# exit 0 if the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS= GOPROXY=off GOTOOLCHAIN=local HOME="${HOME:-/root}"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
cd /repo || exit 3
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
export GOCACHE="$t/cache"
[ -d /root/.cache/go-build ] && export GOCACHE=/root/.cache/go-build
printf '{"Replace":{"/repo/%s/zz_demo_test.go":"%s/demo_test.go.txt"}}' "PKG" "$d" > "$t/ov.json"
timeout 250 go test -vet=off -count=1 EXTRA -overlay "$t/ov.json" -run '^TestDemo' ./PKG
'''
def clean(): sh('git checkout -- .', cwd=R)
def main():
    bugs=runpy.run_path(sys.argv[1])['BUGS']; ids=sys.argv[2:]
    stable=json.load(open('/opt/vp/BASELINE.json'))
    for b in bugs:
        if ids and b['id'] not in ids: continue
        out='/verif/seeded/'+b['id']
        clean()
        bad=None
        for f,old,new in b['edits']:
            p=os.path.join(R,f); s=open(p).read()
            if s.count(old)!=1: bad='edit matches %d times: %s'%(s.count(old),old[:50]); break
            open(p,'w').write(s.replace(old,new))
        if bad: print(b['id'],'ERROR',bad); clean(); continue
        diff=sh('git diff',cwd=R).stdout
        # lines of the base repository
        orig=0
        for f,_,_ in b['edits']:
            base=sh('git show %s:%s'%(BASE,f),cwd=R).stdout.split('\n')
            for l in sh('git diff -- '+f,cwd=R).stdout.split('\n'):
                if l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] in base: orig+=1
        r=sh('bash /opt/vp/build.sh')
        if r.returncode: print(b['id'],'does not build',r.stdout[-600:]); clean(); continue
        sh('bash /opt/vp/test.sh /tmp/plant.json')
        t=open('/tmp/plant.json').read()
        tj=json.loads(t); 
        failed=tj.get('failed') or [k for k,v in tj.items() if v in('fail','failed')] if isinstance(tj,dict) else tj
        os.makedirs(out,exist_ok=True)
        open(out+'/patch.diff','w').write(diff)
        open(out+'/demo_test.go.txt','w').write(b['test'].lstrip('\n'))
        open(out+'/demo.sh','w').write(DEMO.replace('PKG',b['pkg']).replace('EXTRA',b.get('extra','')))
        os.chmod(out+'/demo.sh',0o755)
        json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(out+'/meta.json','w'),indent=1)
        d1=sh('bash %s/demo.sh'%out,cwd=R)
        t0=time.time()
        c=sh('bash /verif/check.sh %s quick'%b['prop']); w=time.time()-t0
        caught=c.returncode==1 and 'VIOLATION property='+b['prop'] in c.stdout
        clean()
        sh('bash /opt/vp/build.sh')
        d0=sh('bash %s/demo.sh'%out,cwd=R)
        ok = d1.returncode!=0 and d0.returncode==0 and not failed and orig
        print(b['id'],b['prop'],'VALID' if ok else 'INVALID','caught' if caught else 'MISSED rc=%d'%c.returncode,'%.0fs'%w, 'origlines=%d'%orig,'failedtests=%s'%failed if failed else '', 'demo unpatched rc=%d'%d0.returncode if d0.returncode else '', 'DEMO PASSES' if d1.returncode==0 else '',flush=True)
        if d0.returncode: print(d0.stdout[-1500:])
        if d1.returncode==0: print(d1.stdout[-500:])
        if not caught: print(c.stdout[-600:])
        if not ok and '--keep' not in sys.argv: shutil.rmtree(out)
main()
