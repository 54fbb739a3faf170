#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md from seeded/ and seeded/caught.json."""
import json,os,re
rows=['| bug | property | needs | caught (VERIF_SEED=1, quick) |','|---|---|---|---|']
c=json.load(open('bugs.json')) if os.path.exists('bugs.json') else {}
for i in sorted(os.listdir('seeded')):
    m=json.load(open(f'seeded/{i}/meta.json'))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {c.get(i,'?')} |")
t='<!-- bugs -->\n'+'\n'.join(rows)+'\n<!-- /bugs -->'
d=open('DESIGN.md').read()
d=d.replace('BUGTABLE',t) if 'BUGTABLE' in d else re.sub(r'<!-- bugs -->.*<!-- /bugs -->',lambda _:t,d,flags=re.S)
open('DESIGN.md','w').write(d)
