#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed checks below."""
import json,os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
CLAIMS={}
def claim(id,level,technique,note): CLAIMS[id]=(level,technique,note)
exec(open('tools/claims.py').read())
props=[json.loads(l) for l in open('properties.jsonl')]
m=dict(version=1,setup_cmd="./setup.sh",checks=[],not_applicable=[],notes="Every check is bounded exhaustive exploration of the real code against a reference model; see DESIGN.md.")
for p in props:
    i=p['id']
    if i in CLAIMS:
        l,t,n=CLAIMS[i]
        m['checks'].append(dict(property=i,quick_cmd=f"VERIF_TIER=quick ./run.sh {i}",thorough_cmd=f"VERIF_TIER=thorough ./run.sh {i}",evidence_file=f"evidence/{i}.json",technique=t,level=l,level_note=n))
    else:
        m['not_applicable'].append(dict(property=i,reason="No check built yet in this framework; not claimed."))
json.dump(m,open('MANIFEST.json','w'),indent=1,ensure_ascii=False); open('MANIFEST.json','a').write('\n')
