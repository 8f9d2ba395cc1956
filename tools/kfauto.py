#!/usr/bin/env python3
"""add a 'fixed' entry for every fix: commit of /repo that has none; map file -> property"""
import subprocess, json
M={'bitvector.hpp':'C27','sucvector.hpp':'C28','csucvector.hpp':'C29','wavelet_matrix.hpp':'C30','fmindex.hpp':'C31','frequency.hpp':'C32'}
import sys
for a in sys.argv[1:]: k,v=a.split('='); M[k]=v
have=open('/verif/known_findings.jsonl').read()
for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s'],text=True).splitlines():
    h,s=l.split(' ',1)
    if not s.startswith('fix: ') or h in have: continue
    f=subprocess.check_output(['git','-C','/repo','show','--name-only','--format=',h],text=True).split()[0].split('/')[-1]
    if f not in M: print('no property for',h,f,s); continue
    open('/verif/known_findings.jsonl','a').write(json.dumps(dict(property=M[f],status='fixed',key='',what='fixed: property=%s %s %s'%(M[f],h,s[5:])))+'\n')
    print(h,M[f],s)
