#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the list of claimed checks below.
import json, os
ROOT=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
ids=[json.loads(l)['id'] for l in open(ROOT+'/properties.jsonl')]
try: claimed=json.load(open(ROOT+'/tools/claimed.json'))
except FileNotFoundError: claimed={}
NOTYET="The contracts for this property are not built yet; claimed once its obligations are discharged."
m=dict(version=1, setup_cmd="true", checks=[], not_applicable=[])
for i in ids:
    if i in claimed and 'reason' not in claimed[i]:
        c=claimed[i]
        m['checks'].append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough",
            technique=c['technique'], level=c['level'], level_note=c['note']))
    else:
        m['not_applicable'].append(dict(property=i, reason=claimed.get(i,{}).get('reason',NOTYET)))
json.dump(m, open(ROOT+'/MANIFEST.json','w'), indent=1)
