#!/usr/bin/env python3
"""Development tool: do planted bugs change lines of the original repository (not ones a fix commit added)?"""
import re,subprocess,glob,os,json
BASE='95cd7df'
def blame(f):
    o=subprocess.run(['git','-C','/repo','blame','-s','--abbrev=40',f],stdout=subprocess.PIPE,text=True).stdout.split('\n')
    return [l.split()[0].lstrip('^') for l in o if l]
base_anc=set(subprocess.run(['git','-C','/repo','rev-list',BASE],stdout=subprocess.PIPE,text=True).stdout.split())
cache={}
for d in sorted(glob.glob('/verif/seeded/*')):
    f=None;orig=new=0
    for l in open(d+'/patch.diff'):
        if l.startswith('--- a/'): f=l[6:].strip(); 
        elif l.startswith('+++'): pass
        elif l.startswith('@@'): n=int(re.match(r'@@ -(\d+)',l).group(1))
        else:
            if l[0]=='-':
                if f not in cache: cache[f]=blame(f)
                h=cache[f][n-1]
                if any(a.startswith(h[:39]) for a in base_anc): orig+=1
                else: new+=1
            if l[0] in ' -': n+=1
    print(os.path.basename(d), 'orig',orig,'new',new, '<<<' if new or not orig else '')
