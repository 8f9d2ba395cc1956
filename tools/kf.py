#!/usr/bin/env python3
"""tools/kf.py PROP COMMIT TEXT: add a 'fixed' entry to known_findings.jsonl"""
import sys, json
p,c,w=sys.argv[1:4]
open('/verif/known_findings.jsonl','a').write(json.dumps(dict(property=p,status='fixed',key='',what='fixed: property=%s %s %s'%(p,c,w)))+'\n')
