#!/usr/bin/env python3
# setc.py PROP FEATURE 'harness,harness:heavy,...' : (re)register harnesses of a property in checks.json
import json,sys
p='/verif/checks.json'; d=json.load(open(p))
prop,feat,hs=sys.argv[1:4]
e=d.setdefault(prop,{}); e['feature']=feat; old=e.get('harnesses',{}); e['harnesses']={}
for h in hs.split(','):
    n,*o=h.split(':'); s=old.get(n,{})
    for x in o:
        if x=='heavy': s['heavy']=True
        elif x=='light': s.pop('heavy',None)
        elif x=='thorough': s['tiers']=['thorough']; s.setdefault('time',900)
        elif '=' in x:
            k,v=x.split('=',1); s[k]=v.split('+') if k in('covers','must') else int(v)
    e['harnesses'][n]=s
json.dump(d,open(p,'w'),indent=1)
