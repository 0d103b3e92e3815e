#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the table below.
import json,os,sys
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T={}
exec(open(os.path.join(root,'tools','techniques.py')).read())
props=[json.loads(l) for l in open(os.path.join(root,'properties.jsonl'))]
checks=[];na=[]
for p in props:
    i=p['id']
    if i in T:
        t=T[i]
        checks.append({"property":i,"quick_cmd":"./check.sh %s quick"%i,"thorough_cmd":"./check.sh %s thorough"%i,
          "technique":t[0],"level":"model_checking","level_note":t[1],"evidence_file":"evidence/%s.json"%i})
    else:
        na.append({"property":i,"reason":"no check yet"})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
 "notes":"Every check builds its explorer against /repo's working tree through a go build overlay; no hooks in /repo. See DESIGN.md."}
json.dump(m,open(os.path.join(root,'MANIFEST.json'),'w'),indent=1); open(os.path.join(root,'MANIFEST.json'),'a').write('\n')
print(len(checks),'checks',len(na),'not claimed')
