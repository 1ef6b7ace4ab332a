#!/usr/bin/env python3
"""Writes MANIFEST.json: every property the harness has monitors for is claimed."""
import json,subprocess,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+"/properties.jsonl")]
have={l.split()[0]:l for l in subprocess.check_output([root+"/target/debug/curvo-monitor","--list"],text=True).splitlines()}
T=json.load(open(root+"/tools/technique.json"))
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in have:
        checks.append({"property":i,"quick_cmd":f"./check.sh {i}","thorough_cmd":f"./check.sh {i} --tier thorough","evidence_file":f"evidence/{i}.json",
          "technique":T.get(i,T["*"])["technique"],"level":"exploration","level_note":T.get(i,T["*"])["note"]})
    else:
        na.append({"property":i,"reason":T.get("!"+i,"monitor not built yet")})
m={"version":1,"setup_cmd":"bash tools/setup.sh","checks":checks,"not_applicable":na,
 "notes":"No hooks are needed in /repo: every monitor observes public API calls; the harness supplies the entropy source of the library's random choices (getrandom custom backend) so that those choices are seeded and replayable."}
json.dump(m,open(root+"/MANIFEST.json","w"),indent=1)
