#!/usr/bin/env python3
"""Writes MANIFEST.json: every property the harness lists is claimed."""
import json, os, subprocess
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(root+"/properties.jsonl")]
built=set(subprocess.check_output([root+"/harness/target/release/vharness","list"],text=True).split())
tech=json.load(open(root+"/tools/technique.json"))
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in built:
        t=tech[i]
        checks.append({"property":i,"quick_cmd":"bash /verif/check.sh %s quick"%i,"thorough_cmd":"bash /verif/check.sh %s thorough"%i,
          "technique":t[0],"level":"exploration","level_note":t[1]})
    else:
        na.append({"property":i,"reason":"the check for it is not built yet"})
m={"version":1,"setup_cmd":"bash /verif/setup.sh","checks":checks,"not_applicable":na}
json.dump(m,open(root+"/MANIFEST.json","w"),indent=1)
print(len(checks),"claimed",len(na),"not")
