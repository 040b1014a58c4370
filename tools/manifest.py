import ast,json,glob,os
title={json.loads(l)['id']:json.loads(l)['title'] for l in open('/verif/properties.jsonl')}
checks=[]
for f in sorted(glob.glob('/verif/mc/props/c[0-9]*.py')):
    i=os.path.basename(f)[:-3].upper()
    d={}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n,ast.Assign) and isinstance(n.targets[0],ast.Name) and n.targets[0].id in("LEVEL","TECHNIQUE","RULE","ASSUMPTIONS"):
            d[n.targets[0].id]=ast.literal_eval(n.value)
    checks.append({"property":i,"quick_cmd":"./check "+i,"thorough_cmd":"./check %s --tier thorough"%i,"technique":"bounded exhaustive exploration of the real code: "+d["TECHNIQUE"],
      "level":d["LEVEL"],"level_note":"Every case within the bounds is executed on the code in /repo and compared with an independent oracle. Explored: "+d["RULE"]+". Assumes: "+"; ".join(d["ASSUMPTIONS"])+"."})
m={"version":1,"setup_cmd":"/opt/venv/bin/python -c \"import numpy, scipy, spharm, xarray, matplotlib, falwa\" && ./check --help >/dev/null","checks":checks,"not_applicable":[],
 "notes":"No hooks: the checks run the unmodified sources in /repo/src (fault injection and scheduling use sys.settrace/sys.monitoring style tracing from outside). Genuine defects found are repaired in /repo ('fix:' commits) and listed in KNOWN_FINDINGS.txt."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
