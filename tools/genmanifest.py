#!/usr/bin/env python3
# Writes MANIFEST.json: claims the properties that have monitors (harness sources) and lists the others.
import json,re,glob
impl={}
for f in sorted(glob.glob('/verif/harness/*.go')):
    for m in re.finditer(r'reg\(Part\{Prop: "(C\d\d)", Name: "([^"]+)"(, Race: true)?',open(f).read()):
        impl.setdefault(m[1],[]).append((m[2],bool(m[3])))
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
FE={'C05','C13','C19'}
checks=[];na=[]
for p in props:
    i=p['id']
    if i not in impl:
        na.append({"property":i,"reason":"its monitor is not built yet"}); continue
    race=any(r for _,r in impl[i])
    checks.append({"property":i,"quick_cmd":f"./run.sh {i} quick","thorough_cmd":f"./run.sh {i} thorough",
     "technique":"runtime monitoring of the real code ("+", ".join(n for n,_ in impl[i])+")"+("; Go race detector" if race else ""),
     "level":"fault_enumeration" if i in FE else "exploration",
     "level_note":"The oracle judges the executions produced by seeded workloads"+(" with a fault injected at every counted storage, chain or file operation" if i in FE else "")+"; it holds on what was run (see the evidence file), not for all inputs. Trusts the reference model in the harness, Go's runtime"+(" and race detector" if race else "")+" and the unmodified third-party hash, curve and database libraries."})
json.dump({"version":1,"setup_cmd":"./run.sh setup","checks":checks,"not_applicable":na},open('/verif/MANIFEST.json','w'),indent=1)
open('/verif/MANIFEST.json','a').write('\n')
print(len(checks),'claimed',[x['property'] for x in na])
