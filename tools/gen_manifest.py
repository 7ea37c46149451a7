#!/usr/bin/env python3
'''Writes MANIFEST.json from what checks exist'''
import json, os, glob, importlib, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
sys.path[:0]=[V+'/lib',V+'/checks']; sys.dont_write_bytecode=True
checks=[];na=[]
for p in props:
    i=p['id']; f=f'{V}/checks/{i.lower()}.py'
    if not os.path.exists(f):
        na.append(dict(property=i,reason='no check of this property has been built yet')); continue
    m=importlib.import_module(i.lower())
    checks.append(dict(property=i,quick_cmd=f'python3 run.py {i}',thorough_cmd=f'VERIF_TIER=thorough python3 run.py {i}',
                       technique=getattr(m,'TECHNIQUE','runtime monitoring: an online oracle judges every execution of the real code under generated workloads'),
                       level='exploration',level_note=m.RULE[:600]))
json.dump(dict(version=1,setup_cmd='python3 lib/vbuild.py plain asan tsan',
   hooks=dict(guard='none',enable='the code under test needs no hooks: it is observed from outside, and through sanitizer builds',source_commits=[]),
   checks=checks,not_applicable=na,
   notes='run.py builds what it needs from /repo into /verif/build (ignored by git), and runs the jobs of checks/pNN.py in worker processes. VERIF_TIER=quick|thorough and VERIF_SEED choose the workload.'),
   open(V+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'not applicable')
