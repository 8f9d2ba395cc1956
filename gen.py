#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from registry.py"""
import json, os
from registry import CHECKS
try: from registry import NOT_APPLICABLE
except ImportError: NOT_APPLICABLE = []
V = os.path.dirname(os.path.abspath(__file__))
with open(V + '/properties.jsonl', 'w') as fp:
    for i in sorted(CHECKS):
        c = CHECKS[i]
        fp.write(json.dumps(dict(id=i, title=c['title'], statement=c['statement'], quantifier=dict(over=c['over'], text=c['qtext']), why_tests_cant=c['why'],
            anchors=dict(files=c['files'], state=c['state'], mechanism=c['mechanism'], observe_at=c['observe'], hook_needed=None))) + '\n')
    for n in NOT_APPLICABLE:
        if 'prop' in n: fp.write(json.dumps(n['prop']) + '\n')
m = dict(version=1, setup_cmd='python3 /verif/setup.py', checks=[], not_applicable=[dict(property=n['property'], reason=n['reason']) for n in NOT_APPLICABLE],
         notes='No hooks: every check compiles the headers of /repo/include as they are. python3 /verif/check.py ID --tier quick|thorough; --replay FILE reruns one violation.')
for i in sorted(CHECKS):
    c = CHECKS[i]
    m['checks'].append(dict(property=i, quick_cmd='python3 /verif/check.py %s --tier quick' % i, thorough_cmd='python3 /verif/check.py %s --tier thorough' % i,
        technique=c['technique'], level=c['level'], level_note=(c['note'] + ' ' if c['note'] else '') + 'Bounds: ' + c['bounds'] + '. Assumes: ' + '; '.join(c['assumptions'] or ['none beyond the toolchain']) + '.', evidence_file='evidence/%s.json' % i))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
# DESIGN.md
def jl(f):
    p = V + '/' + f
    return [json.loads(l) for l in open(p) if l.strip()] if os.path.exists(p) else []
o = [open(V + '/design_head.md').read()]
o.append('## Properties\n')
for i in sorted(CHECKS):
    c = CHECKS[i]
    o.append('### %s %s\n' % (i, c['title']))
    o.append('%s\n' % c['statement'])
    o.append('- Enumerated: %s. Bounds: %s.' % (c['qtext'], c['bounds']))
    o.append('- Execution and oracle: %s. Observed: %s.' % (c['rule'], ', '.join(c['observe'])))
    o.append('- Technique: %s; harness %s.' % (c['technique'], ', '.join(sorted(set('harness/' + p['src'] for p in c['programs'])))))
    o.append('- Beyond the tests: %s.' % c['why'])
    if c['assumptions']: o.append('- Assumes: %s.' % '; '.join(c['assumptions']))
    if c['note']: o.append('- Note: %s' % c['note'])
    o.append('')
if NOT_APPLICABLE:
    o.append('### Not applicable\n')
    for n in NOT_APPLICABLE: o.append('- %s: %s' % (n['property'], n['reason']))
    o.append('')
o.append('## Genuine defects found\n')
o.append('Repaired in /repo by minimal "fix:" commits (known_findings.jsonl), each found by the check of the property named or while writing it:\n')
for k in jl('known_findings.jsonl'):
    if k['status'] == 'fixed': o.append('- ' + k['what'].replace('fixed: property=', ''))
kk = [k for k in jl('known_findings.jsonl') if k['status'] == 'known']
if kk:
    o.append('\nRecorded, not repaired:\n')
    for k in kk: o.append('- %s: %s' % (k['property'], k['what']))
o.append('\n## Planted bugs and what catches them\n')
o.append('| id | property | needs | breaks | caught by |\n|---|---|---|---|---|')
sd = V + '/seeded'
res = json.load(open(V + '/seeded_results.json')) if os.path.exists(V + '/seeded_results.json') else {}
for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(sd + '/' + s + '/meta.json'))
    o.append('| %s | %s | %s | %s | %s |' % (s, m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/'), res.get(s, 'not run')))
o.append(open(V + '/design_tail.md').read())
open(V + '/DESIGN.md', 'w').write('\n'.join(o))
