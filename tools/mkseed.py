#!/usr/bin/env python3
"""tools/mkseed.py SPEC.json: builds seeded/<id>/ from {id,property,needs,what_it_breaks,edits:[[file,old,new],..],demo:cpp source or null,demo_sh}"""
import sys, json, subprocess as sp, os
R=os.environ.get('SEED_REPO','/repo')
s=json.load(open(sys.argv[1])) if sys.argv[1].endswith('.json') else None
def make(id,property,needs,what_it_breaks,edits,demo,flags='',run='timeout 60 $T/demo',demo_sh=None):
    d=os.environ.get('SEED_OUT','/verif/seeded')+'/'+id; os.makedirs(d,exist_ok=True)
    assert not sp.run('git -C '+R+' status --porcelain',shell=True,stdout=sp.PIPE).stdout
    try:
        for f,o,n in edits:
            p=R+'/'+f; x=open(p,newline='').read()
            if '\r\n' in x: o=o.replace('\n','\r\n'); n=n.replace('\n','\r\n')
            assert x.count(o)==1,(f,x.count(o),o); open(p,'w',newline='').write(x.replace(o,n))
        open(d+'/patch.diff','wb').write(sp.run('git -C '+R+' diff',shell=True,stdout=sp.PIPE).stdout)
    finally: sp.run('git -C '+R+' checkout -- .',shell=True,stderr=sp.DEVNULL)
    json.dump(dict(property=property,needs=needs,what_it_breaks=what_it_breaks),open(d+'/meta.json','w'),indent=1)
    if demo: open(d+'/demo.cpp','w').write(demo)
    open(d+'/demo.sh','w').write(demo_sh or '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -g -w -Iinclude %s "$D/demo.cpp" -o "$T/demo" -lpthread || exit 2
cd "$T" && %s
''' % (flags,run))
if s: make(**s)
