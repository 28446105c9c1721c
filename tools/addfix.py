#!/usr/bin/env python3
# addfix.py PROP HASH "what failed"
import json,sys
p='/verif/known_findings.json'; d=json.load(open(p))
l=d if isinstance(d,list) else d['findings']
prop,h,t=sys.argv[1:4]
if not any(x['id']=='fixed-'+h for x in l):
    l.append({"property":prop,"id":"fixed-"+h,"status":"fixed","text":f"fixed: property={prop} {h} {t}"})
json.dump(d,open(p,'w'),indent=1)
