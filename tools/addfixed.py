#!/usr/bin/env python3
# addfixed.py PROPERTY COMMIT WHAT...: records a repaired defect
import json,sys
f='/verif/known-findings.json'
d=json.load(open(f))
k=[x for x in d if isinstance(d[x],list)][0]
p,c,w=sys.argv[1],sys.argv[2],' '.join(sys.argv[3:])
d[k].append({"property":p,"kind":"","match":"","what":w,"fixed":f"fixed: property={p} {c} {w}"})
json.dump(d,open(f,'w'),indent=1); open(f,'a').write('\n')
