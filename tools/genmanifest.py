#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the table below and the properties the analyser registers."""
import json,subprocess,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have=subprocess.run([root+"/check","list"],capture_output=True,text=True,check=True).stdout.split()
T=json.load(open(root+"/tools/techniques.json"))
checks=[];na=[]
for l in open(root+"/properties.jsonl"):
    d=json.loads(l); i=d["id"]
    t=T[i]
    if i in have and "na" not in t:
        checks.append(dict(property=i,quick_cmd=f"./check {i} quick",thorough_cmd=f"./check {i} thorough",
          evidence_file=f"evidence/{i}.json",technique=t["technique"],level="other",level_note=t["note"]))
    else:
        na.append(dict(property=i,reason=t.get("na") or "no check yet"))
json.dump(dict(version=1,setup_cmd="bash setup.sh",checks=checks,not_applicable=na),open(root+"/MANIFEST.json","w"),indent=1)
print(len(checks),"checks",[n["property"] for n in na])
