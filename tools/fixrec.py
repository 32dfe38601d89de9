#!/usr/bin/env python3
# fixrec.py PROP HASH: records a fix commit of /repo in known_findings.json
import json,subprocess,sys
p,h=sys.argv[1:3]
h=subprocess.check_output(['git','-C','/repo','rev-parse','--short',h],text=True).strip()
m=subprocess.check_output(['git','-C','/repo','log','-1','--format=%s',h],text=True).strip().removeprefix('fix: ')
f='/verif/known_findings.json'
k=json.load(open(f))
k.append({"property":p,"id":"fix-"+h,"class":"","match":"","status":"fixed","what":f"fixed: property={p} {h} {m}"})
open(f,'w').write('[\n'+',\n'.join(' '+json.dumps(x) for x in k)+'\n]\n')
