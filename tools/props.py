#!/usr/bin/env python3
"""Single source for properties.jsonl, MANIFEST.json and the bounds/assumptions texts in checks.json."""
import json
V='/verif'
P=[]   # claimed
NA=[]  # not applicable
def p(id,title,statement,over,qtext,why,files,mech,bounds,assume=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None),_b=bounds,_a=list(assume)))
def na(id,title,statement,over,qtext,why,files,mech,reason):
    NA.append((dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech])),reason))
exec(open(V+'/tools/props_data.py').read())
checks=json.load(open(V+'/checks.json'))
for q in P:
    assert len(q['title'])<=80,(q['id'],len(q['title'])); assert q['id'] in checks,q['id']
    checks[q['id']]['bounds']=q['_b']; checks[q['id']]['assumptions']=COMMON+q['_a']
assert not set(checks)-{q['id'] for q in P},set(checks)-{q['id'] for q in P}
json.dump(checks,open(V+'/checks.json','w'),indent=1)
allp=sorted([{k:v for k,v in q.items() if k[0]!='_'} for q in P]+[q for q,_ in NA],key=lambda q:q['id'])
assert len({q['id'] for q in allp})==len(allp)
open(V+'/properties.jsonl','w').write(''.join(json.dumps(q)+'\n' for q in allp))
m=dict(version=1,setup_cmd='python3 check.py --setup',
  hooks=dict(guard='none',enable='no hooks were needed: the harness crate uses the public API only',source_commits=[]),
  checks=[dict(property=q['id'],quick_cmd='python3 check.py %s quick'%q['id'],thorough_cmd='python3 check.py %s thorough'%q['id'],
    technique='symbolic execution of the compiled LLVM IR with Z3 deciding every branch and assertion (bounded), counterexamples replayed natively',
    level='model_checking',level_note='Every value within the bounds: '+q['_b']+' Trusted: rustc, the symbolic executor (its sampled paths are replayed natively and compared on each run), Z3; floating point is reasoned about as IEEE doubles over-approximated by intervals/reals with rounding, see DESIGN.md.') for q in sorted(P,key=lambda q:q['id'])],
  not_applicable=[dict(property=q['id'],reason=r) for q,r in NA],
  notes='See DESIGN.md for the executor, the bounds and what lies outside them.')
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1,ensure_ascii=False)
print(len(P),'claimed',len(NA),'not applicable')
