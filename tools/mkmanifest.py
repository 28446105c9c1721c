#!/usr/bin/env python3
# Generates /verif/MANIFEST.json from properties.jsonl and the harness directives.
import json,glob,re,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
have={}
for f in sorted(glob.glob(root+'/harness/*/*.go')):
    for m in re.finditer(r'^//vp:harness .*?prop=(C\d+)(.*)$',open(f).read(),re.M):
        have.setdefault(m.group(1),[]).append(m.group(2))
NA=json.load(open(root+'/tools/not_applicable.json'))
NOTE="Holds for every value of the symbolic inputs, every data choice and every goroutine schedule within the bounds each harness states in the evidence file (sizes, scheduling delays, steps); nothing outside them is claimed. Trusts the symbolic executor (cross-checked against native runs of sampled paths), z3, and stand-ins for the Kafka client, clock and randomness."
checks=[];na=[]
for p in props:
    i=p['id']
    if i in have and i not in NA:
        conc=any('delays=' in o for o in have[i])
        checks.append(dict(property=i,quick_cmd=f'./check.sh {i}',thorough_cmd=f'VERIF_TIER=thorough ./check.sh {i}',evidence_file=f'evidence/{i}.json',
            technique='symbolic execution of the go/ssa of the real code, assertions decided by z3'+(' (delay-bounded exploration of goroutine schedules)' if conc else ''),
            level='model_checking',level_note=NOTE))
    else:
        na.append(dict(property=i,reason=NA.get(i,'No check built yet.')))
json.dump(dict(version=1,setup_cmd='./build.sh',checks=checks,not_applicable=na,
   notes='check.sh builds the engine (gosym/) and a hooked copy of the Kafka client when needed, loads /repo with the harnesses of harness/ as an overlay, and runs them symbolically. No hooks are committed in /repo.'),open(root+'/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',len(na),'not')
