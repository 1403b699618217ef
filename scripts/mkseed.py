#!/usr/bin/env python3
"""mkseed.py SPEC.py [ids...]: builds /verif/seeded/<id>/ from a spec and confirms it in a scratch copy.
A spec file defines SEEDS = [dict(id, property, edits=[(file, old, new)...], pkg, demo, needs, breaks)].
-n: skip the repository's test suite (fast iteration); -c: also run the property's check on /repo with the patch."""
import json, os, subprocess, sys, shutil, difflib, runpy
args=[a for a in sys.argv[1:] if not a.startswith('-')]; flags=[a for a in sys.argv[1:] if a.startswith('-')]
SEEDS=runpy.run_path(args[0])['SEEDS']; only=set(args[1:])
WT='/tmp/seedwt'; LOG='/tmp/seedlog'
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
DEMO='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$R/%(pkg)s/zz_demo_test.go" "$D/demo_test.go.txt" > "$T/o.json"
go test -vet=off -count=1 -timeout 120s -overlay "$T/o.json" -run '^TestZZDemo$' ./%(pkg)s
'''
base=json.load(open('/opt/vp/BASELINE.json'))['stable']
ok=True
for s in SEEDS:
    if only and s['id'] not in only: continue
    d='/verif/seeded/'+s['id']
    sh(f'rm -rf {WT}; cp -a /repo {WT}; cd {WT} && git checkout -q -- . && git clean -fdq')
    for f,old,new in s['edits']:
        p=f'{WT}/{f}'; t=open(p).read()
        if t.count(old)!=1: print(s['id'],'EDIT MATCHES',t.count(old),'in',f); sys.exit(1)
        open(p,'w').write(t.replace(old,new))
    diff=sh(f'cd {WT} && git diff').stdout
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.sh','w').write(DEMO%s); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo_test.go.txt','w').write(s['demo'])
    json.dump({"property":s['property'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
    r0=sh(f'bash {d}/demo.sh',cwd='/repo'); 
    r1=sh(f'bash {d}/demo.sh',cwd=WT)
    good = r0.returncode==0 and r1.returncode!=0 and 'ZZDEMO' in r1.stdout
    msg=f"{s['id']}: demo clean={r0.returncode} patched={r1.returncode}"
    if not good: print(r0.stdout[-1500:],r1.stdout[-1500:])
    if '-n' not in flags:
        for n in ('build.sh','test.sh','env.sh'):
            t=open('/opt/vp/'+n).read().replace('/repo',WT).replace('/opt/vp/log',LOG).replace('/opt/vp/env.sh','/tmp/seed_env.sh')
            open('/tmp/seed_'+n,'w').write(t)
        b=sh('bash /tmp/seed_build.sh'); 
        if b.returncode: good=False; msg+=' BUILD FAILS '+b.stdout[-500:]
        t=sh('bash /tmp/seed_test.sh /tmp/seed_out.json')
        out=json.load(open('/tmp/seed_out.json'))
        passed=set(out.get('passed') or out.get('pass') or [])
        missing=[x for x in base if x not in passed]
        if missing: good=False; msg+=f' TESTS FAIL {missing[:5]}'
        else: msg+=' tests ok'
    if '-c' in flags:
        sh(f'git -C /repo apply {d}/patch.diff')
        c=sh(f"bash /verif/run.sh {s['property']}")
        sh('git -C /repo checkout -- .')
        v=[l for l in c.stdout.splitlines() if 'VIOLATION' in l]
        msg+=f' CHECK rc={c.returncode} {v[:1]}'
    print(msg,'OK' if good else 'BAD',flush=True); ok&=good
sh(f'rm -rf {WT} {LOG}')
sys.exit(0 if ok else 1)
