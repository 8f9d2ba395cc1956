#!/usr/bin/env python3
"""tools/probe.py SPEC.py [-j J] [name..]: SPEC defines PROBES = [(name, 'Cxx,Cyy', [(header, old, new), ..])]; each is applied to a scratch copy of
the headers and the quick enumerations of the named checks are run on it. Prints the ones no check reports."""
import sys, os
spec=sys.argv[1]; J=int(sys.argv[sys.argv.index('-j')+1]) if '-j' in sys.argv else 6
only=[a for a in sys.argv[2:] if not a.startswith('-') and not a.isdigit()]
src=open('/verif/tools/mutate.py').read(); src=src[:src.index('jobs=[]')]
sys.argv=['mutate.py','cybozu/atoi.hpp']; exec(src)
g={}; exec(open(spec).read(),g)
import json, subprocess as sp, concurrent.futures as cf
jobs=[]
for name,props,edits in g['PROBES']:
    if only and name not in only: continue
    files={}
    bad=None
    for f,o,n in edits:
        s=files.get(f) or open('/repo/include/cybozu/'+f,newline='').read()
        if '\r\n' in s: o=o.replace('\n','\r\n'); n=n.replace('\n','\r\n')
        if s.count(o)!=1: bad='%s: %d matches of %r'%(f,s.count(o),o[:60])
        files[f]=s.replace(o,n)
    if bad: print(name,'BAD',bad); continue
    jobs.append((name,props.split(','),files))
    for p in props.split(','):
        for prog in CHECKS[p]['programs']:
            if prog.get('mode')=='tsched':
                key=json.dumps(prog.get('rtflags',[]))
                if key not in rtobj:
                    o=T+'/prt%d_%d.o'%(os.getpid(),len(rtobj)); sp.check_call(['g++','-O2','-std=c++17','-w','-U_FORTIFY_SOURCE','-I'+V+'/harness','-c',V+'/harness/sched.cpp','-o',o]+prog.get('rtflags',[])); rtobj[key]=o
def run(job):
    name,props,files=job
    import shutil,time
    d=T+'/p%d_%s'%(os.getpid(),name); inc=d+'.inc'; sp.run(['cp','-a','/repo/include',inc]); os.mkdir(d)
    for f,s in files.items(): open(inc+'/cybozu/'+f,'w',newline='').write(s)
    try:
        built=0
        for p in props:
            for prog in CHECKS[p]['programs']:
                exe=d+'/'+prog['name']
                if not compile(prog,inc,exe):
                    print(name,'no build of',prog['name'],flush=True); continue
                built=1
                for sh in range(8):
                    out=d+'/o.json'; wd=d+'/wd'; os.makedirs(wd,exist_ok=True)
                    pr=sp.Popen([exe,'--tier','quick','--shard',str(sh),'8','--out',out],cwd=wd,env=check.ENV,stdin=sp.DEVNULL,stdout=sp.DEVNULL,stderr=sp.DEVNULL,start_new_session=True)
                    try: rc=pr.wait(900)
                    except sp.TimeoutExpired: rc=-999
                    try: os.killpg(pr.pid,9)
                    except OSError: pass
                    pr.wait(); shutil.rmtree(wd,ignore_errors=True)
                    if rc!=0: return name,'caught %s rc=%d'%(p,rc)
        return name,'MISSED' if built else 'NOCOMPILE'
    finally: shutil.rmtree(d,ignore_errors=True); shutil.rmtree(inc,ignore_errors=True)
with cf.ThreadPoolExecutor(J) as ex:
    for r in ex.map(run,jobs): print(*r,flush=True)
