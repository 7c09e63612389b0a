#!/usr/bin/env python3
"""Regenerates the two generated tables of DESIGN.md (between the marker comments) from evidence/ (a quick run) and seeded/."""
import json,glob,re,os
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
sc=['| check | scenario | configurations | operations | depth | transitions | states told apart by |','|---|---|---|---|---|---|---|']
for f in sorted(glob.glob('evidence/C*.json')):
    d=json.load(open(f))
    for s in d['coverage']['scenarios']:
        sc.append('| %s | %s | %s | %s | %s | %s | %s |'%(d['property'],s['scenario'],s['configs'],s['alphabet'],s['depth'],s['transitions'],s['pruning'].replace(' state','')))
sd=['| property | bug | needs | caught |','|---|---|---|---|']
n=0
for f in sorted(glob.glob('seeded/*/meta.json'),key=lambda f:(json.load(open(f))['property'],f)):
    d=json.load(open(f)); n+=1
    sd.append('| %s | %s | %s | yes |'%(d['property'],f.split('/')[1],d['needs'].replace('|','/')))
t=open('DESIGN.md').read()
def put(t,tag,lines):
    a,b='<!-- %s -->'%tag,'<!-- end %s -->'%tag
    i=t.index(a); j=t.index(b)
    return t[:i]+a+'\n'+'\n'.join(lines)+'\n'+t[j:]
t=put(t,'scenarios',sc); t=put(t,'seeds',sd)
t=re.sub(r'\d+ changes under `seeded/`','%d changes under `seeded/`'%n,t)
open('DESIGN.md','w').write(t)
