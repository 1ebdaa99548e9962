"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json
and tools/catches.json (id -> [parts and signatures], note)."""
import json,os
V='/verif'
c=json.load(open(V+'/tools/catches.json'))
rows=['| change | breaks | needs | caught by |','|---|---|---|---|']
for i in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(f'{V}/seeded/{i}/meta.json'))
    x=c.get(i,{})
    by=', '.join(x.get('by',[])) or '**not caught**'
    if x.get('note'): by+=' * '+x['note']
    rows.append('| `%s` | %s | %s | %s |'%(i,m['what_it_breaks'],m['needs'],by))
p=V+'/DESIGN.md'; s=open(p).read()
a,b='<!-- seeded -->','<!-- /seeded -->'
s=s[:s.index(a)+len(a)]+'\n'+'\n'.join(rows)+'\n'+s[s.index(b):]
open(p,'w').write(s)
