#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md (between the SEEDED markers) from seeded/*/meta.json."""
import json,glob,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISS=json.load(open(V+'/scripts/seeded_notes.json'))
rows=['| bug | property | needs | caught by | note |','|---|---|---|---|---|']
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    i=f.split('/')[-2]; m=json.load(open(f)); n=MISS.get(i,{})
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {n.get('by',m['property'])} | {n.get('note','')} |")
p=V+'/DESIGN.md'; s=open(p).read()
t='<!-- SEEDED -->\n'+'\n'.join(rows)+'\n<!-- /SEEDED -->'
s=re.sub(r'<!-- SEEDED -->.*?<!-- /SEEDED -->',lambda _:t,s,flags=re.S) if '<!-- SEEDED -->' in s else s.replace('SEEDED',t,1)
open(p,'w').write(s)
