"""Writes /verif/MANIFEST.json from the registry of checks."""
import json, os, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,os.path.join(V,'tools'))
from levels import LEVELS, NA
props=[json.loads(l)['id'] for l in open(os.path.join(V,'properties.jsonl'))]
checks=[]
for p in props:
    if p in LEVELS:
        level,tech,note=LEVELS[p]
        checks.append(dict(property=p,quick_cmd='python3 check.py %s --tier quick'%p,
            thorough_cmd='python3 check.py %s --tier thorough'%p,technique=tech,level=level,level_note=note))
na=[dict(property=p,reason=NA.get(p,'no check built yet')) for p in props if p not in LEVELS]
json.dump(dict(version=1,setup_cmd='bash setup.sh',checks=checks,not_applicable=na,
  notes='Specifications in TLA+ (spec/), checked with TLC; harness/ drives the code in /repo/src and validates the recorded traces with TLC. No hooks in /repo are needed.'),
  open(os.path.join(V,'MANIFEST.json'),'w'),indent=1)
