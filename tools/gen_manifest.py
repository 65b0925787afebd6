#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and harness/specs.py."""
import json, os, sys
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
sys.path.insert(0,os.path.join(V,'harness'))
from specs import SPECS
props=[json.loads(l) for l in open(os.path.join(V,'properties.jsonl'))]
checks=[];na=[]
for p in props:
    i=p['id']
    if i in SPECS:
        s=SPECS[i]
        checks.append({'property':i,'quick_cmd':'python3 run.py %s quick'%i,'thorough_cmd':'python3 run.py %s thorough'%i,
            'evidence_file':'evidence/%s.json'%i,'technique':s['technique'],'level':'exploration','level_note':s['note']})
    else:
        na.append({'property':i,'reason':'Not claimed (yet): no monitor has been built for it.'})
json.dump({'version':1,'setup_cmd':'python3 run.py --build-all','checks':checks,'not_applicable':na,
 'notes':'No hooks were needed in /repo: the monitors observe public results and events raised by the tasks and callbacks the workloads pass in. Commits in /repo are repairs only (see known_findings.json).'},
 open(os.path.join(V,'MANIFEST.json'),'w'),indent=1)
print(len(checks),'claimed',len(na),'not')
