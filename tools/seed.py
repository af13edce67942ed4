"""usage: from seed import seed; seed(id, prop, needs, breaks, [(file,old,new)], demo_cpp, flags='')"""
import os, subprocess, json, shutil, sys
S='/tmp/scr/repo'
def sh(c, cwd=None, **k): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)
DEMO='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=gnu++11 -O1 -g -w %s -Iinclude "$D/demo.cpp" %s -o "$T/demo" || { echo "demo does not build"; exit 2; }
cd "$T" && %stimeout 120 ./demo
'''
LIBS='lib/libaggregation.a lib/liblbc.a -Llib -lsym_amd -Wl,-rpath,"$PWD/lib" -lmetis'
def refresh():
    os.makedirs('/tmp/scr',exist_ok=True)
    sh('rsync -a --delete /repo/ /tmp/scr/repo/ 2>/dev/null || (rm -rf /tmp/scr/repo && cp -a /repo /tmp/scr/repo)')
    # build inside the scratch copy
    b=open('/opt/vp/build.sh').read().replace('/repo',S); open('/tmp/scr/build.sh','w').write(b)
    t=open('/opt/vp/test.sh').read().replace('/repo',S).replace('/opt/vp/build.sh','/tmp/scr/build.sh'); open('/tmp/scr/test.sh','w').write(t)
    sh('rm -rf %s/_build %s/lib'%(S,S))
    r=sh('bash /tmp/scr/build.sh'); assert r.returncode==0, r.stderr[-2000:]
def seed(id, prop, needs, breaks, edits, demo, flags='', libs=LIBS, env='', check=True, tests=True, also=()):
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    sh('git checkout -q -- .',S)
    open(d+'/demo.cpp','w').write(demo); open(d+'/demo.sh','w').write(DEMO%(flags,libs,env)); os.chmod(d+'/demo.sh',0o755)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    need_build = LIBS==libs
    r=sh('bash /tmp/scr/build.sh'); assert r.returncode==0, r.stderr[-2000:]
    r=sh('bash %s/demo.sh'%d,S); base=r.returncode
    if base: print(id,'BASE DEMO FAILS',r.stdout[-600:],r.stderr[-800:]); return
    for p,a,b,*n in edits:
        s=open(S+'/'+p).read(); c=s.count(a); 
        if c!=(n[0] if n else 1): print(id,'EDIT COUNT',p,c,repr(a)[:80]); sh('git checkout -q -- .',S); return
        open(S+'/'+p,'w').write(s.replace(a,b))
    open(d+'/patch.diff','w').write(sh('git diff',S).stdout)
    r=sh('bash /tmp/scr/build.sh'); 
    if r.returncode: print(id,'BUILD FAILS',r.stdout[-1500:]); sh('git checkout -q -- .',S); return
    r=sh('bash %s/demo.sh'%d,S); pr=r.returncode; out=(r.stdout[-150:]+r.stderr[-150:]).strip()
    t='-'
    if tests:
        sh('bash /tmp/scr/test.sh /tmp/scr/o.json'); t=len(json.load(open('/tmp/scr/o.json'))['passed'])
    res=''
    if check:
        for p in (prop,)+tuple(also):
            c=sh('python3 agg/run.py '+p,'/verif',env=dict(os.environ,AGG_ROOT=S,AGG_CACHE='/tmp/cache'))
            res+=' %s:rc=%d %s'%(p,c.returncode,' ;; '.join(l for l in c.stdout.split('\n') if not l.startswith(('KNOWN','VIOL')))[:260] if c.returncode else '')
    print(id,'demo base=0 patched=%d tests=%s'%(pr,t),'|',res,'|',out.replace('\n',' ')[:160])
    sh('git checkout -q -- .',S)
