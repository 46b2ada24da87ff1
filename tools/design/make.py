#!/usr/bin/env python3
"""Assembles /verif/DESIGN.md from template.md, props.txt, refactors.md, misses.md and what is in /verif (evidence of a clean quick run)."""
import json,os,glob
V=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
D=V+'/tools/design/'
props={}
for l in open(V+'/properties.jsonl'):
    d=json.loads(l); props[d['id']]=d
rows=[]
text={}
for l in open(D+'props.txt'):
    f=l.rstrip('\n').split('|'); text[f[0]]=f[1:]
for id in sorted(props):
    anchors,space,oracle,why=text[id]
    e={}
    try: e=json.load(open(f'{V}/evidence/{id}.json'))
    except Exception: pass
    c=e.get('coverage',e)
    cost=''
    n=c.get('states') or e.get('states'); w=e.get('wall_s') or e.get('wall_seconds') or c.get('wall_s')
    cost=f"{w:.0f} s" if isinstance(w,(int,float)) else '?'
    if n: cost+=f", {n} executions"
    rows.append(f"**{id} {props[id]['title']}.** *Code:* {anchors}. *Enumerated:* {space.rstrip('.')}. *Oracle:* {oracle}. *Beyond tests:* {why} *Cost:* {cost}.\n")
fixed=[]
for l in open(V+'/KNOWN_FINDINGS.txt'):
    if l.startswith('fixed:'): fixed.append('* '+l[7:].strip())
seeded=['| bug | property | needs | caught |','|---|---|---|---|']
res={}
try: res=json.load(open(D+'caught.json'))
except Exception: pass
for m in sorted(glob.glob(V+'/seeded/*/meta.json')):
    d=json.load(open(m)); id=os.path.basename(os.path.dirname(m))
    seeded.append(f"| {id} | {d['property']} | {d['needs'].replace('|','/')} | {res.get(id,'yes')} |")
t=open(D+'template.md').read()
for k,v in {'PROPS':'\n'.join(rows),'FIXED':'\n'.join(fixed),'SEEDED':'\n'.join(seeded),'MISSES':open(D+'misses.md').read().strip(),'REFACTORS':open(D+'refactors.md').read().strip()}.items():
    t=t.replace('@@'+k+'@@',v)
open(V+'/DESIGN.md','w').write(t)
