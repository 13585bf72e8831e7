#!/usr/bin/env python3
"""Assembles DESIGN.md from tools/design/{head.md,props.py,tail.md} and the planted bugs with their verdicts (tools/design/caught.json)."""
import json,os,runpy
D='/verif/tools/design/'
P=runpy.run_path(D+'props.py')['P']
out=open(D+'head.md').read()
for l in open('/verif/properties.jsonl'):
    p=json.loads(l); g,o,b=P[p['id']]
    out+=f"\n**{p['id']} {p['title']}.** Generated: {g}. Oracle: {o}."+(f" Bounds: {b}." if b else "")+"\n"
out+="\n"+open(D+'tail.md').read()
caught=json.load(open(D+'caught.json')) if os.path.exists(D+'caught.json') else {}
out+="## Planted bugs and what catches them\n\n| bug | property | what it breaks | caught by |\n|---|---|---|---|\n"
for b in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{b}/meta.json'))
    out+=f"| {b} | {m['property']} | {m['what_it_breaks']} | {caught.get(b,'-')} |\n"
open('/verif/DESIGN.md','w').write(out)
