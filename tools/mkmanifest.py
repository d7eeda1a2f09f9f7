"""writes MANIFEST.json from the check modules present in contracts/ and the list below"""
import json, os, glob, re
ROOT='/verif'
props=[json.loads(l) for l in open(ROOT+'/properties.jsonl')]
NA=json.load(open(ROOT+'/tools/not_applicable.json')) if os.path.exists(ROOT+'/tools/not_applicable.json') else {}
checks=[]; na=[]
for p in props:
    i=p['id']; f=ROOT+'/contracts/P_%s.py'%i
    if not os.path.exists(f) or i in NA:
        na.append({'property':i,'reason':NA.get(i,'no contract within reach yet; see DESIGN.md')}); continue
    src=open(f).read()
    lvl=re.search(r"^LEVEL = '(\w+)'",src,re.M)
    note=re.search(r'^LEVEL_NOTE = "(.*)"$',src,re.M)
    checks.append({'property':i,'quick_cmd':'python3-vt engine/run.py %s'%i,'thorough_cmd':'VERIF_TIER=thorough python3-vt engine/run.py %s'%i,
      'evidence_file':'evidence/%s.json'%i,
      'technique':'contract-based deductive verification: obligations generated from the clang AST of /repo and discharged by z3/cvc5; bounded stand-in (labelled) where out of reach',
      'level':lvl.group(1) if lvl else 'proof',
      'level_note':(note.group(1) if note else 'contracts on the listed functions proved for all inputs; the rest of the property is covered only by a bounded check, labelled so in the evidence')})
m={'version':1,'setup_cmd':'python3-vt engine/setup.py','hooks':{'guard':'none','enable':'no hooks: the checks read /repo as it is','source_commits':[]},'checks':checks,'not_applicable':na,
   'notes':'fix: commits in /repo are listed in known_findings.json'}
json.dump(m,open(ROOT+'/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks),'checks',len(na),'not applicable')
