#!/usr/bin/env python3
import sys, json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V+'/lib')
import registry
props=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
checks=[]
for p in props:
    if p not in registry.PROPS: continue
    c=registry.PROPS[p]
    checks.append(dict(property=p,quick_cmd='python3-vt /verif/run.py %s quick'%p,thorough_cmd='python3-vt /verif/run.py %s thorough'%p,technique=c.get('technique','contract-based deductive verification (in progress), bounded differential search as stand-in'),level=c['level'],level_note=c.get('level_note','bounded stand-in only so far')))
na=[dict(property=p,reason=registry.NA.get(p,'not yet built')) for p in props if p not in registry.PROPS]
json.dump(dict(version=1,setup_cmd='true',checks=checks,not_applicable=na,notes=registry.NOTES),open(V+'/MANIFEST.json','w'),indent=1)
