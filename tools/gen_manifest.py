import json
T="contract-based deductive verification (gvc: weakest preconditions over the typed AST of /repo, discharged by z3/cvc5)"
CH={}  # id -> (level, note)
exec(open('/verif/tools/manifest_entries.py').read())
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p['id']
    if i in CH:
        lv,note=CH[i]
        checks.append(dict(property=i,quick_cmd="./check.sh %s %s"%(i,lv),thorough_cmd="VERIF_TIER=thorough ./check.sh %s %s"%(i,lv),evidence_file="evidence/%s.json"%i,technique=T,level=lv,level_note=note))
    else:
        na.append(dict(property=i,reason=NA.get(i,"no contracts for this property are discharged yet")))
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na,
 hooks=dict(guard="none",enable="no hooks are needed: contracts live in /verif/contracts keyed by function and loop ordinal, and are checked against /repo's unmodified source",source_commits=[]),
 notes="See DESIGN.md. Known findings and fixes: known-findings.txt.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',len(na),'not applicable')
