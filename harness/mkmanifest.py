import json,sys
sys.path.insert(0,'/verif/harness'); import build
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
TECH=json.load(open('/tmp/tech.json')) if False else {}
checks=[];na=[]
for p in props:
    i=p['id']
    if i in build.PROPS:
        checks.append({"property":i,"quick_cmd":f"python3 check.py {i} quick","thorough_cmd":f"python3 check.py {i} thorough",
          "technique":"property-based testing: "+build.TECH[i],"level":"exploration","level_note":build.NOTE.get(i,build.NOTE["*"])})
    else: na.append({"property":i,"reason":"check under construction"})
m={"version":1,"setup_cmd":"python3 harness/build.py","checks":checks,"not_applicable":na}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
