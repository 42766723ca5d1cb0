#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and tools/claims.json."""
import json,os
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(R+'/properties.jsonl')]
cl=json.load(open(R+'/tools/claims.json'))
m={"version":1,"setup_cmd":cl["setup_cmd"]}
if cl.get("hooks"): m["hooks"]=cl["hooks"]
m["checks"]=[];m["not_applicable"]=[]
for p in props:
    i=p['id']
    c=cl["checks"].get(i)
    if c:
        m["checks"].append({"property":i,"quick_cmd":"./check %s"%i,"thorough_cmd":"./check %s --tier thorough"%i,
          "technique":c["technique"],"level":c.get("level","exploration"),"level_note":c["note"]})
    else:
        m["not_applicable"].append({"property":i,"reason":cl["na"].get(i,"check not built yet")})
m["notes"]=cl.get("notes","")
json.dump(m,open(R+'/MANIFEST.json','w'),indent=1); print(len(m["checks"]),"checks")
