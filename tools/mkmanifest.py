#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks the checker registers."""
import json,os,subprocess
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out=subprocess.check_output([os.path.join(here,'.bin/wegocheck')],text=True)
have={l.split(' ',1)[0]:l.split(' ',1)[1].strip() for l in out.splitlines() if l.strip()}
REASON={
'N01':'Statistical quality of trained vectors depends on floating-point values, random draws and the schedule of the workers; no static argument in reach bounds it. The structural preconditions are claimed separately (C12, C18-C23, C25-C27, C32).',
}
props=[json.loads(l) for l in open(os.path.join(here,'properties.jsonl'))]
NOTE='Static analysis of the current source in /repo (go/ssa of the type-checked program): every instance of the rule in the code is an obligation, and an undecided one is reported as a violation. Trusts go/ssa, the checker and its models of standard-library and third-party functions.'
checks=[];na=[]
for p in props:
    i=p['id']
    if i in have:
        checks.append({'property':i,'quick_cmd':'./run.sh '+i,'thorough_cmd':'VERIF_TIER=thorough ./run.sh '+i,'evidence_file':'evidence/%s.json'%i,
          'technique':have[i],'level':'other','level_note':NOTE})
    else:
        na.append({'property':i,'reason':REASON.get(i,'No check of this property is registered yet.')})
m={'version':1,'setup_cmd':'./setup.sh','checks':checks,'not_applicable':na}
json.dump(m,open(os.path.join(here,'MANIFEST.json'),'w'),indent=1); open(os.path.join(here,'MANIFEST.json'),'a').write('\n')
print(len(checks),'checks',len(na),'not applicable')
