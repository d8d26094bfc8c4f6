#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json,os,re
V='/verif'
s=open(V+'/DESIGN.md').read()
ids=sorted(os.listdir(V+'/seeded'))
rows=''.join(f"| {i} | {json.load(open(f'{V}/seeded/{i}/meta.json'))['what_it_breaks'].replace(chr(10),' ').replace('|','/')} |\n" for i in ids)
s=re.sub(r'(\| seed \| what it breaks \|\n\|---\|---\|\n)(\|.*\n)*',lambda m:m.group(1)+rows,s)
s=re.sub(r'All \d+ are caught',f'All {len(ids)} are caught',s)
open(V+'/DESIGN.md','w').write(s)
