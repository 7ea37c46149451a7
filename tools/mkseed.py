#!/usr/bin/env python3
'''mkseed.py FILE: FILE defines SEEDS, a list of dicts (id, property, needs, breaks, edits=[(file,old,new)...], files={name:text}, demo).
Writes /verif/seeded/<id>/'''
import sys,os,json,subprocess,tempfile,shutil,runpy
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE='''#!/bin/bash
d="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH=.
'''
for s in runpy.run_path(sys.argv[1])['SEEDS']:
    if len(sys.argv)>2 and s['id'] not in sys.argv[2:]: continue
    d=f'{V}/seeded/{s["id"]}'; os.makedirs(d,exist_ok=True)
    t=tempfile.mkdtemp(prefix='mkseed')
    fs=list(dict.fromkeys(e[0] for e in s['edits']))
    for f in fs:
        for ab in 'ab':
            os.makedirs(os.path.dirname(f'{t}/{ab}/{f}'),exist_ok=True); shutil.copy('/repo/'+f,f'{t}/{ab}/{f}')
    for f,old,new in s['edits']:
        x=open(f'{t}/b/{f}').read(); assert x.count(old)==1,(s['id'],f,x.count(old),old)
        open(f'{t}/b/{f}','w').write(x.replace(old,new))
    p=subprocess.run(['git','diff','--no-index','--no-prefix','a','b'],cwd=t,stdout=subprocess.PIPE,text=True).stdout
    open(d+'/patch.diff','w').write(p); shutil.rmtree(t)
    for n,x in s.get('files',{}).items(): open(f'{d}/{n}','w').write(x)
    if 'py' in s:
        open(d+'/demo.py','w').write(s['py']); demo=PRE+'exec /usr/bin/python3 "$d/demo.py"\n'
    else: demo=PRE+s['demo']
    open(d+'/demo.sh','w').write(demo); os.chmod(d+'/demo.sh',0o755)
    json.dump(dict(property=s['property'],needs=s['needs'],what_it_breaks=s['breaks']),open(d+'/meta.json','w'),indent=1)
    print(s['id'])
