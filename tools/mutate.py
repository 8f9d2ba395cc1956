#!/usr/bin/env python3
"""tools/mutate.py FILE[=C01,C02] ... [-n N] [-s SEED] [-j J] [-r LO-HI]: mutation sampling of the checks themselves, in scratch copies under /tmp.
Each mutant of FILE (relative to include/) is built into the programs of the properties that name the file; prints the survivors."""
import sys, os, re, random, shutil, subprocess as sp, json, time, concurrent.futures as cf, hashlib
V='/verif'; sys.path.insert(0,V)
import check
from registry import CHECKS
a=sys.argv[1:]; N=40; S=1; J=8; RNG=None; TMO=240; files=[]
i=0
while i<len(a):
    if a[i]=='-n': N=int(a[i+1]); i+=2
    elif a[i]=='-s': S=int(a[i+1]); i+=2
    elif a[i]=='-j': J=int(a[i+1]); i+=2
    elif a[i]=='-t': TMO=int(a[i+1]); i+=2
    elif a[i]=='-r': RNG=tuple(map(int,a[i+1].split('-'))); i+=2
    else: files.append(a[i]); i+=1
T='/tmp/mut/%d'%os.getpid(); os.makedirs(T)
def props_of(f): return [k for k,c in CHECKS.items() if 'include/'+f in c['files']]
def ops(line):
    r=[]
    def sub(pat,rep,flags=0):
        for m in re.finditer(pat,line): 
            n=line[:m.start()]+m.expand(rep)+line[m.end():]
            if n!=line: r.append(n)
    for o,n in [(' < ',' <= '),(' <= ',' < '),(' > ',' >= '),(' >= ',' > '),(' == ',' != '),(' != ',' == '),(' && ',' || '),(' || ',' && '),(' + ',' - '),(' - ',' + '),(' & ',' | '),(' | ',' & '),(' << ',' >> '),(' >> ',' << '),(' * ',' + '),(' / ',' * '),(' % ',' / '),(' += ',' -= '),(' -= ',' += '),(' |= ',' &= '),(' &= ',' |= ')]:
        sub(re.escape(o),n)
    sub(r' \+ 1\b',''); sub(r' - 1\b','')
    sub(r'\btrue\b','false'); sub(r'\bfalse\b','true')
    for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?![\w.])',line):
        t=m.group(1); v=int(t,16) if t[:2]=='0x' else int(t,8) if t[0]=='0' and len(t)>1 and t.isdigit() and max(t)<'8' else int(t)
        for d in (1,-1):
            if v+d<0: continue
            r.append(line[:m.start()]+(hex(v+d) if t.startswith('0x') else str(v+d))+line[m.end():])
    sub(r'\bif \((.*)\)( \{)?\s*$',r'if (!(\1))\2'); 
    m=re.match(r'^(\s*)if \(([^()]*(?:\([^()]*\)[^()]*)*)\) (\S.*;)\s*$',line)
    if m: r.append(m.group(1)+'if (0) '+m.group(3)); r.append(m.group(1)+'if (!(%s)) '%m.group(2)+m.group(3)); r.append(m.group(1)+m.group(3))
    st=line.strip()
    if st.endswith(';') and not re.match(r'(return|case|typedef|using|public|private|friend|const|template|struct|class|static|else|for|while|do|goto|extern|volatile|mutable|virtual|explicit|inline|#|})\b',st) and not re.match(r'[\w:<>,*& ]+[\s&*]\w+(\s*=.*)?(\[.*\])?;$',st.replace('return','')) : r.append(re.match(r'\s*',line).group(0)+';')
    if st in('break;','continue;'): r.append(re.match(r'\s*',line).group(0)+';')
    if re.match(r'\w[\w.\->\[\]]* = .*;$',st): r.append(re.match(r'\s*',line).group(0)+';')
    sub(r'\+\+(\w+)',r'\1'); sub(r'(\w+)\+\+',r'\1'); sub(r'--(\w+)',r'\1'); sub(r'(\w+)--(?!-)',r'\1')
    sub(r'\bmin\b','max'); sub(r'\bmax\b','min'); sub(r'(?<!\w)!(?=[\w(])','')
    return r
def cand(f):
    L=open('/repo/include/'+f,newline='').read().split('\n'); out=[]; win=[]; comment=False
    for n,l in enumerate(L):
        l0=l.rstrip('\r'); s=l0.strip()
        if s.startswith('#'):
            d=re.match(r'#\s*(\w+)(.*)',s)
            if d:
                k=d.group(1)
                if k in('if','ifdef','ifndef'): win.append(('_WIN32' in s or '_MSC_VER' in s or 'if 0' in s) and k!='ifndef' and '!defined' not in s)
                elif k in('else','elif') and win: win[-1]=False if win[-1] else win[-1]
                elif k=='endif' and win: win.pop()
            continue
        if '/*' in s and '*/' not in s: comment=True
        if comment:
            if '*/' in s: comment=False
            continue
        if s.startswith('//') or s.startswith('*') or any(win): continue
        if RNG and not(RNG[0]<=n+1<=RNG[1]): continue
        code=re.sub(r'/\*.*?\*/','',l0.split('//')[0])
        if 'assert(' in code or not code.strip(): continue
        for m in ops(code): out.append((n,l,m+('\r' if l.endswith('\r') else '')))
    return L,out
rtobj={}
def compile(prog,inc,exe):
    mode=prog.get('mode','asan'); src=V+'/harness/'+prog['src']
    flags=['-I'+inc]+[x for x in check.BASE if x not in('-I'+check.INC,) and 'repo/../repo' not in x]+check.MODES[mode]+['-std='+prog.get('std','c++17')]+prog.get('cflags',[])
    flags=[x for x in flags if x!='-g1']
    wraps=['-Wl,'+','.join('--wrap='+w for w in prog['wrap'])] if prog.get('wrap') else []
    if mode=='tsched':
        key=json.dumps(prog.get('rtflags',[]))
        o=exe+'.o'; r=sp.run(['g++']+flags+['-c',src,'-o',o],stdout=sp.PIPE,stderr=sp.STDOUT)
        if r.returncode: return False
        objs=[]
        for k,(es,ed) in enumerate(prog.get('extra',[])):
            eo=exe+'.x%d.o'%k
            if sp.run(['g++']+[x for x in flags if not x.startswith('-std=')]+['-std='+ed,'-c',V+'/harness/'+es,'-o',eo],stdout=sp.PIPE,stderr=sp.STDOUT).returncode: return False
            objs.append(eo)
        r=sp.run(['g++','-rdynamic',o]+objs+[rtobj[key],'-o',exe]+wraps+prog.get('libs',[])+['-lpthread','-ldl'],stdout=sp.PIPE,stderr=sp.STDOUT)
        for x in [o]+objs: os.remove(x)
        return r.returncode==0
    return sp.run(['g++']+flags+[src,'-o',exe]+wraps+prog.get('libs',[])+['-lpthread'],stdout=sp.PIPE,stderr=sp.STDOUT).returncode==0
def one(job):
    k,f,props,n,old,new,L=job
    d=T+'/%d'%k; sp.run(['cp','-a','/repo/include',T+'/%d.inc'%k]); os.mkdir(d); inc=T+'/%d.inc'%k
    M=list(L); M[n]=new; open(inc+'/'+f,'w',newline='').write('\n'.join(M))
    res='survived'; t0=time.time(); spent=0
    try:
        built=0
        for p in props:
            for prog in CHECKS[p]['programs']:
                exe=d+'/'+prog['name']
                if not compile(prog,inc,exe): 
                    res='nocompile'; 
                    if built==0: return job,res
                    continue
                built=1; res='survived'
                for sh in range(8):
                    out=d+'/o.json'; wd=d+'/wd'; os.makedirs(wd,exist_ok=True)
                    t1=time.time()
                    pr=sp.Popen([exe,'--tier','quick','--shard',str(sh),'8','--out',out],cwd=wd,env=check.ENV,stdin=sp.DEVNULL,stdout=sp.DEVNULL,stderr=sp.DEVNULL,start_new_session=True)
                    try: rc=pr.wait(TMO)
                    except sp.TimeoutExpired: rc=-999
                    try: os.killpg(pr.pid,9)
                    except OSError: pass
                    pr.wait(); shutil.rmtree(wd,ignore_errors=True)
                    if rc==-999: res='timeout %s'%p; return job,res
                    if rc!=0: return job,'killed %s'%p if rc==1 else 'rc=%d %s'%(rc,p)
        return job,res
    finally: shutil.rmtree(d,ignore_errors=True); shutil.rmtree(inc,ignore_errors=True)
jobs=[]
for spec in files:
    f,_,pp=spec.partition('='); props=pp.split(',') if pp else props_of(f)
    L,c=cand(f); random.Random(S).shuffle(c)
    print('#',f,props,len(c),'candidates',flush=True)
    for n,o,m in c[:N]: jobs.append((len(jobs),f,props,n,o,m,L))
    for p in props:
        for prog in CHECKS[p]['programs']:
            if prog.get('mode')=='tsched':
                key=json.dumps(prog.get('rtflags',[]))
                if key not in rtobj:
                    o=T+'/rt%d.o'%len(rtobj); sp.check_call(['g++','-O2','-std=c++17','-w','-U_FORTIFY_SOURCE','-I'+V+'/harness','-c',V+'/harness/sched.cpp','-o',o]+prog.get('rtflags',[])); rtobj[key]=o
cnt={}
try:
    with cf.ThreadPoolExecutor(J) as ex:
        for job,res in ex.map(one,jobs):
            k,f,props,n,o,m,L=job; c=res.split()[0]; cnt.setdefault(f,{}).setdefault(c,0); cnt[f][c]+=1
            if c not in('killed','nocompile'): print('%s:%d %s\n   - %s\n   + %s'%(f,n+1,res,o.strip(),m.strip()),flush=True)
finally: shutil.rmtree(T,ignore_errors=True)
for f in cnt: print('##',f,cnt[f])
