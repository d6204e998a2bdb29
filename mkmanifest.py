#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the list of claimed properties.
import json,re
NA = {}
try:
    NA = json.load(open('/verif/not_applicable.json'))
except FileNotFoundError:
    pass
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
claimed=set(open('/verif/claimed.txt').read().split())
try: bounded=set(open('/verif/bounded.txt').read().split())
except FileNotFoundError: bounded=set()
notes=json.load(open('/verif/level_notes.json'))
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in bounded:
        checks.append({"property":i,"quick_cmd":"./check.sh "+i,"thorough_cmd":"env VERIF_TIER=thorough ./check.sh "+i,
          "technique":"bounded check of the real code standing in for contracts (not deductive)",
          "level":"exploration","level_note":notes[i]})
    elif i in claimed:
        checks.append({"property":i,"quick_cmd":"./check.sh "+i,"thorough_cmd":"env VERIF_TIER=thorough ./check.sh "+i,
          "technique":"contract-based deductive verification (function contracts on the Go source, SSA to SMT, z3/cvc5)",
          "level":"proof","level_note":notes.get(i,notes["default"])})
    else:
        na.append({"property":i,"reason":NA.get(i,"contracts for the functions this property depends on are not finished")})
m={"version":1,"setup_cmd":"./tool/build.sh","checks":checks,"not_applicable":na}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
