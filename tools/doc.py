#!/usr/bin/env python3
"""Fill tools/DESIGN.in from MANIFEST.json, tools/reffiles.json and seeded/ -> DESIGN.md."""
import json,os,re
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m=json.load(open(R+'/MANIFEST.json')); ps={json.loads(l)['id']:json.loads(l) for l in open(R+'/properties.jsonl')}
rf=json.load(open(R+'/tools/reffiles.json'))
s=open(R+'/tools/DESIGN.in').read()
rows=[]
for c in m['checks']:
    p=c['property']; files=[os.path.basename(f) for f in rf.get(p+'.cpp',[])]
    w=R+'/ref/whole/'+p
    if os.path.isdir(w): files+=[f for f in os.listdir(w) if f not in files]
    t=c['technique']
    if 'equivalence of every listed function' in t: t='reference equivalence'
    rows.append('| %s %s | %s | %s |'%(p,ps[p]['title'],t,', '.join(sorted(set(files))) or 'whole program'))
s=s.replace('PROPTABLE','\n'.join(rows))
b=['','| bug | caught by | what it breaks | needs |','|---|---|---|---|']
for d in sorted(os.listdir(R+'/seeded')):
    j=json.load(open(f'{R}/seeded/{d}/meta.json'))
    b.append('| %s | %s | %s | %s |'%(d,j['property'],j['what_it_breaks'],j['needs']))
s=s.replace('BUGTABLE','\n'.join(b))
open(R+'/DESIGN.md','w').write(s)
