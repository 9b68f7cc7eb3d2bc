#!/usr/bin/env python3
# MANIFEST.json from checks.json, properties.jsonl and not_applicable.json
import json, os, subprocess
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks=json.load(open(here+'/checks.json'))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
na=json.load(open(here+'/not_applicable.json'))
out={"version":1,"setup_cmd":"./build.sh","hooks":{"guard":"none: the checks read /repo through a Go overlay (see DESIGN.md); no hook is committed in /repo","enable":"bin/verif loads and compiles /repo's working tree with an overlay","source_commits":[]},
 "checks":[],"not_applicable":[]}
for p in props:
    i=p['id']
    if i in checks:
        c=checks[i]
        out["checks"].append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","evidence_file":f"evidence/{i}.json",
          "technique":"symbolic execution of the Go SSA of /repo's current source with SMT (Z3) deciding every branch and assertion; counterexamples replayed on the compiled code",
          "level":"model_checking",
          "level_note":"Decided for every value within the bounds. quick: "+c["bounds"]["quick"]+" thorough: "+c["bounds"]["thorough"]+" Outside: "+c["outside"]+(" Assumes: "+"; ".join(c["assumptions"]) if c.get("assumptions") else "")})
    else:
        out["not_applicable"].append({"property":i,"reason":na.get(i,"no check built yet")})
json.dump(out,open(here+'/MANIFEST.json','w'),indent=1)
