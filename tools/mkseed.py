"""mkseed(id, prop, file, [(old,new)], pkg, demo_go, needs, breaks): build and validate one planted bug."""
import os, subprocess, json, shutil, sys
SCR='/tmp/seedscratch'
def sh(c, **k): return subprocess.run(['bash','-c',c],capture_output=True,text=True,**k)
DEMO='''#!/bin/bash
# exit 0: the property holds; non-zero: it is broken
d="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
o="$(mktemp /tmp/demo.XXXXXX)"; trap 'rm -f "$o"' EXIT
printf '{"Replace":{"/repo/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go.txt"}}' "$d" > "$o"
cd /repo && timeout 250 go test -count=1 -overlay "$o" -run '^TestDemo$' ./%(pkg)s
'''
def mkseed(id, prop, edits, pkg, demo, needs, breaks):
    d='/verif/seeded/'+id
    os.makedirs(d,exist_ok=True)
    open(d+'/demo_test.go.txt','w').write(demo)
    open(d+'/demo.sh','w').write(DEMO%{'pkg':pkg}); os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    assert sh('git -C /repo status --porcelain').stdout=='' , 'repo dirty'
    r=sh('/verif/seeded/%s/demo.sh'%id)
    ok0=r.returncode==0
    if not ok0: print(id,'demo fails on clean tree:',r.stdout[-1500:],r.stderr[-1500:]); return False
    try:
        for f,old,new in edits:
            p='/repo/'+f; s=open(p).read()
            if s.count(old)!=1: print(id,'edit matches',s.count(old),repr(old)); return False
            open(p,'w').write(s.replace(old,new))
        sh('git -C /repo diff > %s/patch.diff'%d)
        b=sh('bash /opt/vp/build.sh')
        if b.returncode: print(id,'does not build',b.stdout[-800:],b.stderr[-800:]); return False
        bad=None
        for k in range(2):
            t=sh('bash /opt/vp/test.sh /tmp/seedtest.json')
            res=json.load(open('/tmp/seedtest.json')); base=json.load(open('/opt/vp/BASELINE.json'))
            bad=failing(res,base)
            if bad: print(id,'existing tests fail:',bad[:5]); return False
        r=sh('/verif/seeded/%s/demo.sh'%id)
        if r.returncode==0: print(id,'demo passes with the bug'); return False
        print(id,'OK:',[l for l in r.stdout.splitlines() if l.strip()][:3])
        return True
    finally:
        sh('git -C /repo checkout -- .')
def failing(res,base):
    def names(x):
        if isinstance(x,dict):
            for k in ('passed','pass','stable','stable_tests'):
                if k in x: return set(x[k])
            return set()
        return set(x)
    return sorted(names(base)-names(res))
