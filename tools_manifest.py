#!/opt/veriftools/pyvenv/bin/python3
"""writes MANIFEST.json from contracts/props.py (CLAIM: property -> (level, note); the rest is not_applicable with its reason)"""
import sys,json,os
R=os.path.dirname(os.path.abspath(__file__)); sys.path[:0]=[R+'/contracts']
import props
ids=[json.loads(l)['id'] for l in open(R+'/properties.jsonl')]
T='contract-based deductive verification: verification conditions generated per function from the LLVM IR of /repo\'s current source against contracts in /verif/contracts, discharged by z3/cvc5; failing inputs searched by replay on the real code'
m=dict(version=1,setup_cmd='./setup.sh',
 checks=[dict(property=p,quick_cmd='./check.py %s --tier quick'%p,thorough_cmd='./check.py %s --tier thorough'%p,technique=T,level=props.CLAIM[p][0],level_note=props.CLAIM[p][1]) for p in ids if p in props.CLAIM],
 not_applicable=[dict(property=p,reason=props.NA[p]) for p in ids if p not in props.CLAIM])
json.dump(m,open(R+'/MANIFEST.json','w'),indent=1)
