#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md.in: the line PROPERTY-SECTIONS becomes one
section per property (from properties.jsonl, the evidence of the last run on the
unchanged tree, and NOTES), the line CATCHES the table of planted bugs
(seeded/*/meta.json, and tools/catches.txt as tools/catches.sh wrote it)."""
import json,os,glob
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def rd(p): return open(os.path.join(here,p)).read()
props=[json.loads(l) for l in rd('properties.jsonl').splitlines() if l.strip()]
man=json.loads(rd('MANIFEST.json'))
tech={c['property']:c['technique'] for c in man['checks']}
na={c['property']:c['reason'] for c in man['not_applicable']}
NOTES={}
cur=None
for l in rd('tools/notes.txt').splitlines():
    if l.startswith('## '): cur=l[3:].strip(); NOTES[cur]=[]
    elif cur: NOTES[cur].append(l)
out=[]
for p in props:
    i=p['id']
    out.append('### %s %s\n'%(i,p['title']))
    if i in na:
        out.append('Not applicable. '+na[i]+'\n'); continue
    e=json.loads(rd('evidence/%s.json'%i)); c=e['coverage']
    out.append('*%s.*\n'%tech[i])
    out.append(c['explanation']+'\n')
    for r,d in sorted(c['rules'].items()):
        if r in c['instances_per_rule']: out.append('- `%s` (%d): %s'%(r,c['instances_per_rule'][r],d))
    out.append('')
    a=[x for x in e['assumptions'] if 'go/ssa represents' not in x and 'behave as modelled' not in x]
    if a: out.append('Assumes: '+' '.join(x.rstrip('.')+'.' for x in a)+'\n')
    n='\n'.join(NOTES.get(i,[])).strip()
    if n: out.append(n+'\n')
rows=['| planted bug | needs | caught by |','|---|---|---|']
catches={}
try:
    for l in rd('tools/catches.txt').splitlines():
        k,v=l.split(' ',1); catches[k]=v
except FileNotFoundError: pass
for d in sorted(glob.glob(os.path.join(here,'seeded/*/meta.json'))):
    k=os.path.basename(os.path.dirname(d)); m=json.load(open(d))
    rows.append('| %s | %s | %s |'%(k,m['needs'],catches.get(k,'?')))
t=rd('tools/design.md.in').replace('PROPERTY-SECTIONS','\n'.join(out).strip()).replace('CATCHES','\n'.join(rows))
open(os.path.join(here,'DESIGN.md'),'w').write(t)
