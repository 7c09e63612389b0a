#!/usr/bin/env python3
# Regenerates MANIFEST.json from the checks present (run from /verif).
import json,os,glob
props=[json.loads(l) for l in open('properties.jsonl')]
exec(open(os.path.join(os.path.dirname(__file__),'levels.py')).read())
checks=[];na=[]
for p in props:
    i=p['id']
    if os.path.exists(f'checks/{i}.cpp'):
        tech,note=LEVEL[i]
        checks.append(dict(property=i,quick_cmd=f'./run.sh {i}',thorough_cmd=f'./run.sh {i} --thorough',evidence_file=f'evidence/{i}.json',technique=tech,level='model_checking',level_note=note))
    else:
        na.append(dict(property=i,reason=NA.get(i,'no check built yet')))
json.dump(dict(version=1,setup_cmd='make -j8 -s build/librepo.a build/h/engine.o build/h/hw.o build/h/world.o',hooks=dict(guard='none',enable='no hooks are needed: the checks compile the unmodified sources of /repo/src with stand-ins for the Arduino platform',source_commits=[]),checks=checks,not_applicable=na),open('MANIFEST.json','w'),indent=1)
