#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from seeded/ and known_findings.json."""
import json,os,re
R='/verif'
d=open(R+'/DESIGN.md').read()
rows=['| change | property | what it breaks | needs | caught |','|---|---|---|---|---|']
missed=set(json.load(open(R+'/tools/missed.json'))) if os.path.exists(R+'/tools/missed.json') else set()
for s in sorted(os.listdir(R+'/seeded')):
    m=json.load(open(f'{R}/seeded/{s}/meta.json'))
    c=lambda x:str(x).replace('\n',' ').replace('|','\\|')
    rows.append(f"| {s} | {m['property']} | {c(m['what_it_breaks'])} | {c(m['needs'])} | {'no' if s in missed else 'yes'} |")
def put(tag,body):
    global d
    d=re.sub(rf'<!-- {tag} -->.*<!-- /{tag} -->',lambda _:f'<!-- {tag} -->\n{body}\n<!-- /{tag} -->',d,flags=re.S)
put('SEEDS','\n'.join(rows))
k=json.load(open(R+'/known_findings.json'))
k=k['findings'] if isinstance(k,dict) else k
out=[]
for st in ('open','fixed'):
    out.append(f"\n**{'Not repaired' if st=='open' else 'Repaired'}**\n")
    for f in k:
        if f['status']==st:
            out.append(f"* {f['property']} `{f.get('key') or f.get('commit')}`: {f['what']}")
put('FINDINGS','\n'.join(out))
open(R+'/DESIGN.md','w').write(d)
