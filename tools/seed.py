#!/usr/bin/env python3
"""tools/seed.py ID [--notest] [--nocheck]: validate one planted bug (seeded/ID) on /repo, then undo it."""
import sys, subprocess as sp, json, os, shutil, tempfile, time
V='/verif'; i=sys.argv[1]; d=V+'/seeded/'+i
def sh(c,**k): return sp.run(c,shell=True,stdout=sp.PIPE,stderr=sp.STDOUT,text=True,**k)
assert not sh('git -C /repo status --porcelain').stdout, 'dirty /repo'
t=tempfile.mkdtemp(prefix='seed')
for f in os.listdir(d):
    if f not in('meta.json',) and not f.endswith('.diff'): shutil.copy(d+'/'+f,t)
demo=lambda: sp.run(['timeout','300','bash',t+'/demo.sh'],cwd='/repo',stdout=sp.PIPE,stderr=sp.STDOUT,text=True)
m=json.load(open(d+'/meta.json')); prop=m['property']
r0=demo(); print(i,'demo clean',r0.returncode, r0.stdout[-300:] if r0.returncode else '')
a=sh('git -C /repo apply %s/patch.diff'%d); 
if a.returncode: print(a.stdout); sys.exit(2)
try:
    r1=demo(); print(i,'demo patched',r1.returncode,r1.stdout[-200:].strip())
    if '--notest' not in sys.argv:
        sh('bash /opt/vp/test.sh /tmp/seed_o.json')
        o=json.load(open('/tmp/seed_o.json')); st=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); miss=st-set(o['passed'])
        print(i,'stable missing',len(miss),sorted(miss)[:5])
    if '--nocheck' not in sys.argv:
        hit=[]
        for p in [prop]+[x for x in sys.argv[2:] if x.startswith('C')]:
            t0=time.time(); r=sh('python3 %s/check.py %s --tier quick'%(V,p)); print(i,p,'rc',r.returncode,'%.0fs'%(time.time()-t0),[l for l in r.stdout.splitlines() if 'VIOL' in l or 'fail' in l.lower()][:2])
            if r.returncode==1: hit.append(p)
        rf=V+'/seeded_results.json'; R=json.load(open(rf)) if os.path.exists(rf) else {}; R[i]=', '.join(hit) or 'missed'; json.dump(R,open(rf,'w'),indent=1,sort_keys=True)
finally:
    sh('git -C /repo checkout -- .'); shutil.rmtree(t)
