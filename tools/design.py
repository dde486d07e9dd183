#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md (per-property plan and seed table) from props.py, suite.json and seeded/."""
import json, glob, os, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V+'/tools')
M=json.load(open(V+'/MANIFEST.json')); P={json.loads(l)['id']:json.loads(l) for l in open(V+'/properties.jsonl')}
fixed={}
for l in open(V+'/known-findings.jsonl'):
    for i in P:
        if 'property='+i in l: fixed[i]=fixed.get(i,0)+1
seeds={}
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    d=json.load(open(f)); seeds.setdefault(d['property'],[]).append((f.split('/')[-2],d))
res=json.load(open(V+'/tools/seeds/results.json'))
o=['## Per-property plan','','Programs are the harness sources under `checks/<id>/` (each compiled for the listed standards, split in shards).','']
for c in M['checks']:
    i=c.get('property') or c.get('property_id') or c['id']; s=json.load(open(f'{V}/checks/{i}/suite.json'))
    units=', '.join('%s (%s%s)'%(u.get('src') or u.get('gen'),'/'.join(u.get('stds',['c++11'])),' clang' if u.get('cxx','').startswith('clang') else '') for u in s['units'])
    o+=[f"* **{i} {P[i]['title']}** - {c['technique']}.  {c.get('level_note','')}  Programs: {units}.  Defects repaired: {fixed.get(i,0)}."]
o+=['','## Planted bugs','','| id | what it breaks | needs | result |','|---|---|---|---|']
for i in sorted(seeds):
    for n,d in seeds[i]: o+=[f"| {n} | {d['what_it_breaks']} | {d['needs']} | {res.get(n,'caught by '+i)} |"]
p=V+'/DESIGN.md'; t=open(p).read(); a='<!-- generated: tools/design.py -->'
t=t.split(a)[0]+a+'\n\n'+'\n'.join(o)+'\n'; open(p,'w').write(t)
