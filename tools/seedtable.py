#!/usr/bin/env python3
"""rewrites the seeds table at the end of DESIGN.md from seeded/*/meta.json"""
import json,glob,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t=open(V+'/DESIGN.md').read().split('## Planted bugs')[0].rstrip()
o='\n\n## Planted bugs\n\nEach one is in `seeded/<id>/`, passes all existing tests, and is caught by the check of its property (column 2) with the default quick command.\n\n| seed | caught by | what it breaks |\n|---|---|---|\n'
for d in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(d)); o+='| %s | %s | %s |\n'%(d.split('/')[-2],m['property'],m['what_it_breaks'].replace('|','/'))
open(V+'/DESIGN.md','w').write(t+o)
