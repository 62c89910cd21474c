#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json,glob,os,re
D=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for f in sorted(glob.glob(D+'/seeded/*/meta.json')):
    m=json.load(open(f)); rows.append((m['property'],os.path.basename(os.path.dirname(f)),m['needs']))
rows.sort()
t="## Planted bugs\n\nEach is a directory of `seeded/`; the check of the property in the first column exits 1 on it (measured with the patch applied to a copy of /repo, and by vcheck for a\nrandom dozen at a time). Some were missed when they were planted and made the checks grow; none is missed now.\n\n| check | change | shows only |\n|---|---|---|\n"
for p,i,n in rows: t+="| %s | %s | %s |\n"%(p,i,re.sub(r'\s+',' ',n).replace('|','/'))
s=open(D+'/DESIGN.md').read().split("## Planted bugs")[0].rstrip()+"\n\n"
open(D+'/DESIGN.md','w').write(s+t)
