#!/usr/bin/env python3
# Rebuilds known-findings.json from FINDINGS below and the fix commits listed here.
import json,subprocess,os
log=subprocess.run(['git','-C','/repo','log','--format=%h %s'],capture_output=True,text=True).stdout.splitlines()
PROPS={ # commit subject fragment -> properties
}
exec(open(os.path.join(os.path.dirname(__file__),'findings.py')).read())
fixed=[]
used=set()
for l in reversed(log):
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    hit=[(f,p) for f,p in FIXED if f in s]
    assert len(hit)==1,(s,hit)
    used.add(hit[0][0])
    for p in hit[0][1].split():
        fixed.append(f"fixed: property={p} {h} {s[5:]}")
assert len(used)==len(FIXED),[f for f,_ in FIXED if f not in used]
json.dump({"findings":[{"property":p,"sig":s,"what":w} for p,s,w in FINDINGS],"fixed":fixed},open('/verif/known-findings.json','w'),indent=1)
open('/verif/known-findings.json','a').write('\n')
