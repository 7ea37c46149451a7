#!/usr/bin/env python3
'''Says, for each seeded patch, whether the lines it removes are from the original commit'''
import glob,os,re,subprocess,sys
BASE=subprocess.run(['git','-C','/repo','rev-list','--max-parents=0','HEAD'],stdout=subprocess.PIPE,text=True).stdout.split()[0]
BASE=os.environ.get('BASE',BASE)
for d in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    f=None; n=0; new=0; tot=0; cache={}
    for l in open(d):
        if l.startswith('--- '): f=re.sub('^a/','',l[4:].strip())
        elif l.startswith('+++'): pass
        elif l.startswith('@@'): n=int(re.match(r'@@ -(\d+)',l).group(1))
        elif l.startswith('-'):
            if f not in cache:
                b=subprocess.run(['git','-C','/repo','blame','-l','-s',f],stdout=subprocess.PIPE,text=True).stdout.splitlines(); cache[f]=b
            c=cache[f][n-1].split()[0].lstrip('^'); tot+=1; new+= not BASE.startswith(c[:39]); n+=1
        elif l.startswith(' '): n+=1
    print(os.path.basename(os.path.dirname(d)),'removed',tot,'of ours',new)
