#!/usr/bin/env python3
"""plant.py ID...: makes /verif/seeded/ID from /tmp/plant/ID.py and validates it"""
import os, sys, subprocess, json, shutil
S='/verif/seeded'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def edit(edits):
    for f,old,new in edits:
        p='/repo/'+f; s=open(p).read(); assert s.count(old)==1,(f,old,s.count(old)); open(p,'w').write(s.replace(old,new))
def undo(): sh('git -C /repo checkout -- .')
for i in sys.argv[1:]:
    ns={}; exec(open(f'/tmp/plant/{i}.py').read(), ns)
    d=f'{S}/{i}'
    os.makedirs(d,exist_ok=True)
    assert not sh('git -C /repo status --porcelain').stdout.strip()
    edit(ns['edits']); diff=sh('git -C /repo diff').stdout.decode(); undo()
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.cc','w').write(ns['demo'])
    shutil.copy('/tmp/plant/lib.sh', d+'/lib.sh')
    if ns.get('sets','light')!='light': shutil.copytree('/verif/shim', d+'/shim', dirs_exist_ok=True)
    srcs={'light':'$LIGHT','reg':'$LIGHT $REG','server':'$LIGHT $REG $SERVER','admin':'$LIGHT $REG $ADMIN','none':'', 'proc':'$R/server/proc_utils.cc $(ls $R/util/*.cc | grep -v _test)'}[ns.get('sets','light')]
    open(d+'/demo.sh','w').write('#!/bin/bash\n%s%s. "$(dirname "$0")/lib.sh"\nbuild %s\ncd "$T"\ntimeout 120 ./demo\n' % (
        'EXTRA="%s"\n'%ns['extra'] if 'extra' in ns else '', 'MORE_LIBS="%s"\n'%ns['more_libs'] if 'more_libs' in ns else '', srcs))
    json.dump({'property':ns['prop'],'needs':ns['needs'],'what_it_breaks':ns['breaks']}, open(d+'/meta.json','w'), indent=1)
    res=[]
    def demo():
        r=sh(f'bash {d}/demo.sh', cwd='/repo'); return r.returncode, r.stdout.decode()[-300:]
    sh('bash /opt/vp/build.sh')
    a=demo()
    r=sh(f'git -C /repo apply {d}/patch.diff'); assert r.returncode==0, r.stdout
    try:
        t=sh('bash /opt/vp/test.sh /tmp/plant/out.json')
        base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        o=json.load(open('/tmp/plant/out.json')); lost=base-set(o['passed'])
        b=demo()
        det={}
        for c in [ns['prop']]+ns.get('also',[]):
            r=sh(f'VERIF_SEED=1 python3 check.py {c}', cwd='/verif'); det[c]=(r.returncode, r.stdout.decode()[-700:])
    finally:
        undo()
    try: allr=json.load(open('/verif/seeded.json'))
    except OSError: allr={}
    allr[i]={c:v[0] for c,v in det.items()}; json.dump(allr,open('/verif/seeded.json','w'),indent=1,sort_keys=True)
    print('==',i,'demo clean',a[0], 'demo bug',b[0],'lost tests',sorted(lost)[:3],'check',{c:v[0] for c,v in det.items()})
    if a[0]!=0: print('   CLEAN DEMO:',a[1])
    if b[0]==0: print('   BUG DEMO passes')
    for c,v in det.items():
        print('   ', v[1].replace('\n','\n    ') if v[0]!=1 or '-v' in os.environ.get('PV','') else [l for l in v[1].splitlines() if 'VIOLATION' in l or 'C' == l[:1]])
    sys.stdout.flush()
sh('bash /opt/vp/build.sh')
