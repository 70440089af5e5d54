#!/usr/bin/env python3
import json, os
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(root+"/properties.jsonl")]
TREE="bounded-exhaustive explicit-state exploration of the real input_tree code against an independent reference model"
FULL="explicit-state search over editor histories / bounded-exhaustive inputs on the real caret+parser code (chumsky stand-in), in lockstep with a reference model"
TS="bounded-exhaustive exploration of the real TypeScript front end under node with a DOM stand-in, against an independent oracle"
note_tree="Complete within the stated size bounds (every formula up to the weight bound plus growth families, every position/edit/step on each); nothing is said beyond the bounds. Trusts rustc, the reference model in harness/common/src/model.rs and the enumerator."
note_full="Complete within the stated history depth and formula size. parser/caret/serialization sources are the repository's; the unavailable git dependency chumsky is replaced by shim/chumsky (validated with the repository's own parser tests), so results are conditional on that stand-in behaving like chumsky. Trusts rustc and the reference model."
note_ts="Complete within the stated size bounds. The DOM is a small stand-in and the WebAssembly package is replaced by data produced by the real Rust code; layout geometry is that of the stand-in (one box per character, rows on a baseline, padded containers), not of a browser."
claimed=json.load(open(root+"/tools/claimed.json"))
checks=[];na=[]
for p in props:
    i=p["id"]; n=int(i[1:])
    if i not in claimed["claimed"]:
        na.append(dict(property=i,reason=claimed["na"].get(i,"check not built yet"))); continue
    t,no=(TREE,note_tree) if n<=13 else (TS,note_ts) if i in("C30","C31","C32","C35","C36","C41") else (FULL,note_full)
    no=claimed.get("notes",{}).get(i,no)
    checks.append(dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",evidence_file=f"evidence/{i}.json",technique=t,level="model_checking",level_note=no))
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na,notes="No hooks in /repo: everything is observed through public API. Repairs and known findings: known_findings.txt.")
json.dump(m,open(root+"/MANIFEST.json","w"),indent=1); open(root+"/MANIFEST.json","a").write("\n")
print(len(checks),len(na))
