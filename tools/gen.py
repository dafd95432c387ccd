#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props/*.json (one property each)"""
import json,glob,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[]; checks=[]; na=[]
for f in sorted(glob.glob(V+'/tools/props/*.json')):
    j=json.load(open(f)); c=j.pop('check',None); n=j.pop('na',None); props.append(j)
    assert len(j['title'])<=80,(f,len(j['title']))
    if c:
        i=j['id']
        checks.append(dict(property=i,quick_cmd=f'python3 /verif/check.py {i} quick',thorough_cmd=f'python3 /verif/check.py {i} thorough',technique=c['technique'],level=c.get('level','other'),level_note=c['note']))
    else: na.append(dict(property=j['id'],reason=n))
open(V+'/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in props))
json.dump(dict(version=1,setup_cmd='python3 /verif/check.py --selftest',checks=checks,not_applicable=na,
  notes='Static analysis only: abstract interpretation and dataflow over the LLVM IR clang produces from /repo/src on every run. No hooks are needed in /repo.'),open(V+'/MANIFEST.json','w'),indent=1)
print(len(props),'properties',len(checks),'checks',len(na),'not applicable')
