#!/usr/bin/env python3
"""design.py: writes DESIGN.md from design.tmpl, design.props and the evidence."""
import json,os,glob
here=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(here)
titles={}
for l in open(V+'/properties.jsonl'):
    d=json.loads(l); titles[d['id']]=d['title']
props=[]
for l in open(here+'/design.props'):
    i,how,why=l.rstrip('\n').split('|')
    props.append(f"### {i} {titles[i]}\n\n{how}\n\n*Beyond the tests:* {why}\n")
    ev=f'{V}/evidence/{i}.json'
    if os.path.exists(ev):
        a=json.load(open(ev)).get('assumptions') or []
        if a: props[-1]+='\n*Assumes:* '+'; '.join(a)+'.\n'
rows=['| check | world | bound | executions | exhaustive |','|---|---|---|---|---|']
for i in sorted(titles):
    ev=f'{V}/evidence/{i}.json'
    if not os.path.exists(ev): continue
    e=json.load(open(ev))
    for w in e['coverage']['worlds']:
        rows.append(f"| {i} | {w['world']} | {w['bound']} | {w['executions']} | {'yes' if w['exhaustive'] else 'no'} |")
    rows.append(f"| {i} | **{e['wall_s']:.0f} s** | | {e['coverage']['traces_validated_against_impl']} | |")
seeds=[]
for m in sorted(glob.glob(V+'/seeded/*/meta.json')):
    d=json.load(open(m))
    seeds.append(f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {d['needs']} | {d['property']} |")
t=open(here+'/design.tmpl').read()
t=t.replace('@@PROPS@@','\n'.join(props)).replace('@@TABLE@@','\n'.join(rows)).replace('@@SEEDS@@','\n'.join(seeds)).replace('@@MUT@@',open(here+'/design.mut').read().strip())
open(V+'/DESIGN.md','w').write(t)
