#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,V)
from checks import CHECKS, NOT_APPLICABLE
props=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
m=dict(version=1,setup_cmd='python3 tools/setup_check.py',hooks=dict(guard='VERIF_HARNESS',enable='not used: no hooks were needed, the checks drive the public headers and sources directly',source_commits=[]),
 checks=[],not_applicable=[],notes='Every check is a bounded exhaustive exploration of the real code; see DESIGN.md.')
for p in props:
    if p in CHECKS:
        c=CHECKS[p]
        m['checks'].append(dict(property=p,quick_cmd='python3 run_check.py %s quick'%p,thorough_cmd='python3 run_check.py %s thorough'%p,
          evidence_file='evidence/%s.json'%p,technique=c['technique'],level='model_checking',level_note=c['note']))
    else:
        m['not_applicable'].append(dict(property=p,reason=NOT_APPLICABLE.get(p,'No check has been built for this property yet.')))
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
print(len(m['checks']),'checks',len(m['not_applicable']),'not applicable')
