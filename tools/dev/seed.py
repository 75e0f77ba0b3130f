"""seed(id, prop, edits=[(file, old, new)], needs, breaks, srcs, main, pre='') -> creates and validates /verif/seeded/id"""
import os, subprocess, shutil, json, sys, tempfile
V='/verif/seeded/'; K='/verif/demokit/'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def mkdemo(d, srcs, kit=True, timeout=60, xcxx=''):
    return '''#!/bin/bash
# builds the code in question from the current tree and exercises it; exit 0 = behaves, nonzero = broken
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
XCXX="%s" bash "$here/cc.sh" $T/demo "$here/main.cpp" %s > $T/log 2>&1 || { tail -20 $T/log; exit 2; }
cd $T && timeout %d ./demo
''' % (xcxx, ' '.join(srcs), timeout)
def clean():
    sh('git -C /repo checkout -- .')
def seed(id, prop, edits, needs, breaks, srcs, main, timeout=60, xcxx='', validate=True):
    d=V+id
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    assert not sh('git -C /repo status --porcelain --untracked-files=no').stdout.strip(), 'repo dirty'
    try:
        for f,a,b in edits:
            p='/repo/'+(f if '/' in f else 'src/'+f); t=open(p).read()
            assert t.count(a)>=1, ('nomatch',f,a)
            assert t.count(a)==1, ('ambiguous',f,a,t.count(a))
            open(p,'w').write(t.replace(a,b))
        diff=sh('git -C /repo diff').stdout
        open(d+'/patch.diff','w').write(diff)
    finally: clean()
    open(d+'/main.cpp','w').write(main)
    open(d+'/demo.sh','w').write(mkdemo(d,srcs,timeout=timeout,xcxx=xcxx)); os.chmod(d+'/demo.sh',0o755)
    shutil.copy(K+'cc.sh',d); shutil.copy(K+'kit.hpp',d); shutil.copytree(K+'yazpp',d+'/yazpp')
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    if not validate: return
    r=sh('bash %s/demo.sh'%d,cwd='/repo')
    ok=r.returncode==0
    print(id,'clean demo rc',r.returncode, '' if ok else r.stdout[-1500:]+r.stderr[-500:])
    try:
        r=sh('git -C /repo apply %s/patch.diff && bash /opt/vp/build.sh'%d)
        if r.returncode: print(id,'BUILD FAILS',r.stdout[-800:]); return
        sh('bash /opt/vp/test.sh /tmp/seed_o.json')
        o=json.load(open('/tmp/seed_o.json'))
        st=json.load(open('/opt/vp/BASELINE.json'))['stable']
        passed=set(o.get('passed',[])) if isinstance(o.get('passed'),list) else None
        if passed is not None:
            miss=[x for x in st if x not in passed]
            print(id,'tests missing',miss)
        else: print(id,'tests',str(o)[:300])
        r=sh('bash %s/demo.sh'%d,cwd='/repo')
        print(id,'patched demo rc',r.returncode,r.stdout[-200:],r.stderr[-200:])
        c=sh('cd /verif && python3 check.py %s'%prop)
        print(id,'check rc',c.returncode,c.stdout[-600:])
    finally:
        clean(); sh('bash /opt/vp/build.sh')
