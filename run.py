#!/usr/bin/env python3
'''run.py PROP [--replay FILE]: decides one property on /repo's current tree.

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: it is broken.
Exit 2: no answer (the build failed, or the monitors saw too little)'''
import sys, os, json, time, subprocess, importlib, signal, re, shutil, glob
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V,'lib'), os.path.join(V,'checks')]
sys.dont_write_bytecode = True
import vbuild

def known(prop):
    '''[(mechanism regex, text)] of the recorded findings of this property'''
    l = []
    try: lines = open(os.path.join(V,'known_findings.txt')).read().split('\n')
    except FileNotFoundError: return l
    for s in lines:
        m = re.match(r'finding: property=(\S+) mech=(\S+) (.*)$',s)
        if m and m[1]==prop: l.append((m[2],m[3]))
    return l

SAN = re.compile(r'==\d+==\s*ERROR: AddressSanitizer:? ?([\w-]+)|(\S+?):(\d+):\d+: runtime error: (.*)|WARNING: ThreadSanitizer: ([\w ()-]+)')

def sanitizer_reports(text):
    '''mech -> text, from what the sanitizers wrote to stderr'''
    r = {}
    lines = text.split('\n')
    for i,s in enumerate(lines):
        m = SAN.search(s)
        if not m: continue
        blk = '\n'.join(lines[i:i+40])
        frames = re.findall(r'#\d+ (?:0x[0-9a-f]+ in )?(\S+) (?:\S*?/)?([\w.-]+\.(?:c|cc|h|hh|re|py)):?\d*',blk)
        ours = [f'{fn}@{fi}' for fn,fi in frames if not fi.startswith(('asan','sanitizer','tsan','ubsan')) and fn not in ('memcpy','memset','main')]
        if m[1]:
            mech = f'asan:{m[1]}/{ours[0] if ours else "?"}'
        elif m[2]:
            kind = re.sub(r'0x[0-9a-f]+|-?\d[\d.e+-]*|-?nan|-?inf','N',m[4])[:70].replace(' ','_')
            if 'variable_length_array_bound' in kind and ('npsp-pywrap-GENERATED' in m[2] or m[4].rstrip().endswith('non-positive value 0')): continue # a GNU zero-length array (harmless); numpysane's generated code
            if 'GENERATED' in m[2] and 'npsp' in m[2] and 'null_pointer' in kind: continue # numpysane: zero-size arrays
            fn = ours[0] if ours else m[2].split('/')[-1]
            mech = f'ubsan:{kind}/{fn}'
        else:
            mech = f'tsan:{m[5].strip().replace(" ","_")}/{ours[0] if ours else "?"}'
        r.setdefault(mech,blk)
    return r

def valgrind_reports(text):
    r = {}
    for blk in re.split(r'\n==\d+== *\n',text):
        lines = [re.sub(r'^==\d+== ?','',l) for l in blk.split('\n')]
        for k,l in enumerate(lines):
            m = re.match(r'(Conditional jump or move depends on uninitialised|Use of uninitialised value|Invalid (?:read|write|free)|Syscall param .*|Source and destination overlap|Mismatched free|Process terminating.*)',l.strip())
            if not m: continue
            fr = [f.groups() for f in (re.match(r'\s*(?:at|by) 0x[0-9A-F]+: (\S+).*\(([\w./+-]+?)(?::\d+)?\)',x) for x in lines[k+1:]) if f]
            i = next((i for i,(fn,fi) in enumerate(fr) if fi.split('/')[-1] in OURS),None)
            if i is None: continue # not below any code of ours
            r.setdefault(f'valgrind:{m[1].replace(" ","_")[:40]}/{fr[i][0]}@{fr[i][1]}','\n'.join(lines[k:k+20]))
            break
    return r

def main():
    global OURS
    OURS = {os.path.basename(f) for f in vbuild.sources() if f.endswith(('.c','.cc','.h','.hh','.re'))}
    prop = sys.argv[1].upper()
    t0 = time.time()
    replay = None
    if len(sys.argv)>3 and sys.argv[2]=='--replay':
        replay = json.load(open(sys.argv[3]))
        os.environ['VERIF_SEED'],os.environ['VERIF_TIER'] = str(replay['seed']),replay['tier']
    tier = os.environ.get('VERIF_TIER','quick')
    if tier not in ('quick','thorough'): tier='quick'
    seed = int(os.environ.get('VERIF_SEED','1'))
    os.environ['VERIF_SEED'],os.environ['VERIF_TIER'] = str(seed),tier
    mod = importlib.import_module(prop.lower())
    jobs = mod.jobs(tier,seed)
    todo = list(range(len(jobs)))
    if replay:
        todo = [i for i in todo if jobs[i]['name']==replay['job']['name']]
    only = os.environ.get('VERIF_ONLY')
    if only: todo = [i for i in todo if re.search(only,jobs[i]['name'])]
    try:
        dirs = {f:vbuild.build(f) for f in sorted({jobs[i].get('flavor','plain') for i in todo})}
    except vbuild.BuildError as e:
        print(e,file=sys.stderr); print(f'{prop}: no answer: build failed'); sys.exit(2)
    tbuild = time.time()-t0
    outd = os.path.join(vbuild.BUILD,f'out-{prop}-{os.getpid()}')
    shutil.rmtree(outd,ignore_errors=True); os.makedirs(outd)
    tmpd = os.path.join(outd,'tmp'); os.makedirs(tmpd)
    limit = getattr(mod,'TIMEOUT',{}).get(tier, 600 if tier=='quick' else 7200)
    nproc = int(os.environ.get('VERIF_JOBS', min(8,os.cpu_count() or 8)))
    # longest first
    todo.sort(key=lambda i:-jobs[i].get('weight',1))
    pending, running, done = list(todo), {}, {}
    while pending or running:
        while pending and sum(jobs[i].get('procs',1) for i in running) < nproc:
            i = pending.pop(0)
            f = jobs[i].get('flavor','plain')
            e = vbuild.run_env(f,dirs[f])
            e['TMPDIR'] = tmpd
            # the sanitizers write to their own files: the checks silence the library's diagnostics
            for o in ('ASAN','UBSAN','TSAN'):
                if o+'_OPTIONS' in e: e[o+'_OPTIONS'] += ':log_path='+os.path.join(outd,f'{i}.san')
            e.update(jobs[i].get('env',{}))
            err = open(os.path.join(outd,f'{i}.err'),'wb')
            p = subprocess.Popen([w.format(san=os.path.join(outd,f'{i}.san')) for w in jobs[i].get('wrap',[])]+['/usr/bin/python3',os.path.join(V,'lib','worker.py'),prop,str(i),os.path.join(outd,f'{i}.json')],
                                 env=e,cwd=tmpd,stdin=subprocess.DEVNULL,stdout=err,stderr=err,start_new_session=True)
            err.close()
            running[i] = (p,time.time())
        time.sleep(0.02)
        for i,(p,ts) in list(running.items()):
            rc = p.poll()
            if rc is None and time.time()-ts > limit:
                os.killpg(p.pid,signal.SIGKILL); p.wait(); rc='timeout'
            if rc is None: continue
            del running[i]
            done[i] = (rc,time.time()-ts)
    # ---- gather
    viol, ev, keys, samples, counts, maxerr = {}, 0, set(), [], {}, {}
    perjob, problems = {}, []
    for i in sorted(done):
        rc,dt = done[i]
        name = jobs[i]['name']
        o = os.path.join(outd,f'{i}.json')
        try: r = json.load(open(o))
        except Exception: r = None
        try: err = open(os.path.join(outd,f'{i}.err'),errors='replace').read()
        except Exception: err = ''
        for f in sorted(glob.glob(os.path.join(outd,f'{i}.san.*'))): err += '\n'+open(f,errors='replace').read()
        try: cur = json.loads(open(o+'.current').read() or 'null')
        except Exception: cur = None
        if r:
            ev += r['evaluations']; keys |= {(name,k) for k in r['keys']}
            samples += [dict(job=name,**s) for s in r['samples'][:2 if len(jobs)>6 else 6]]
            for k,n in r['counts'].items(): counts[k] = counts.get(k,0)+n
            for k,n in r['maxerr'].items(): maxerr[k] = max(maxerr.get(k,0),n)
            for v in r['violations']:
                if v['mech'] in viol: viol[v['mech']]['count'] += v['count']
                else: viol[v['mech']] = v
        san = sanitizer_reports(err) if jobs[i].get('flavor','plain')!='plain' or 'wrap' in jobs[i] else {}
        if 'wrap' in jobs[i]: san.update(valgrind_reports(err))
        for m,t in san.items():
            viol.setdefault(m,dict(mech=m,msg=t[:3000],count=1,case=cur,data={},job=jobs[i],seed=seed,tier=tier))
        ended = r is not None and r['done']
        if not ended:
            if rc=='timeout':
                m,t = f'hang/{name}', f'did not finish in {limit}s'
            elif rc==97 or (rc!=0 and any(x.startswith('asan') for x in san)):
                m = None  # the sanitizer stopped it, and reported
                if not san: m,t = f'crash/{name}/sanitizer', err[-3000:]
            elif rc==3 or rc==1:
                # could not even start: import error or a problem of the harness
                if re.search(r'(ImportError|undefined symbol|ModuleNotFoundError)',err) and 'mrcal' in err:
                    m,t = f'import/{name}', err[-3000:]
                else:
                    m = None; problems.append(f'{name}: exit {rc}: {err[-1500:]}')
            elif isinstance(rc,int) and rc<0 or rc in (134,139):
                if rc == -9:
                    m=None; problems.append(f'{name}: killed (out of memory?)')
                else:
                    a = re.findall(r'([\w.-]+\.\w+):\d+: (\w+): Assertion',err)
                    m,t = f'crash/{name}/signal{-rc if rc<0 else rc-128}' + (f'/{a[0][0]}:{a[0][1]}' if a else ''), err[-3000:]
            else:
                m=None; problems.append(f'{name}: exit {rc}: {err[-1500:]}')
            if m: viol.setdefault(m,dict(mech=m,msg=t,count=1,case=cur,data={},job=jobs[i],seed=seed,tier=tier))
        perjob[name] = dict(seconds=round(dt,1),evaluations=r['evaluations'] if r else 0)
    # ---- known findings
    kf = known(prop)
    hit = set(); new = {}
    for m,v in viol.items():
        for k,(rx,txt) in enumerate(kf):
            if re.fullmatch(rx,m): hit.add(k); break
        else: new[m]=v
    for k,(rx,txt) in enumerate(kf):
        print(f'KNOWN-FINDING: property={prop} {txt}' + ('' if k in hit else ' [not reproduced in this run]'))
    rd = os.environ.get('VERIF_REPLAYS') or os.path.join(V,'replays'); os.makedirs(rd,exist_ok=True)
    if not replay and not only:
        for f in glob.glob(os.path.join(rd,prop+'-*.json')): os.unlink(f)
    for n,(m,v) in enumerate(sorted(new.items())):
        path = os.path.join(rd,f'{prop}-{n}.json')
        with open(path,'w') as f: json.dump(dict(property=prop,**v),f,indent=1)
        print(f'# {m}: {v["msg"].strip()[:400]}  (x{v["count"]}, job {v["job"]["name"]})')
        print(f'VIOLATION property={prop} replay={path}')
    minev = getattr(mod,'MIN_EVALUATIONS',10)
    floor = getattr(mod,'FLOORS',{})
    if not replay and not only and not new:
        if ev < minev: problems.append(f'only {ev} evaluations observed; {minev} needed')
        for k,n in floor.items():
            if counts.get(k,0) < n: problems.append(f'monitor "{k}" observed {counts.get(k,0)} executions; {n} needed')
    if not replay and not only and not os.environ.get('VERIF_REPLAYS'):
        cov = dict(evaluations=ev,distinct_nontrivial=len(keys),rule=mod.RULE,samples=samples[:24] or ['none'],
                   observed=counts,jobs=perjob,build_s=round(tbuild,1),
                   worst_error_relative_to_tolerance={k:round(x,6) for k,x in sorted(maxerr.items(),key=lambda t:-t[1])[:40]})
        if hasattr(mod,'extra_coverage'): cov.update(mod.extra_coverage(outd))
        os.makedirs(os.path.join(V,'evidence'),exist_ok=True)
        with open(os.path.join(V,'evidence',prop+'.json'),'w') as f:
            json.dump(dict(property=prop,tier=tier,seed=seed,level='exploration',coverage=cov,wall_s=round(time.time()-t0,2),
                           assumptions=getattr(mod,'ASSUMPTIONS',[]),violations=len(new)),f,indent=1)
    if os.environ.get('VERIF_KEEP'): print('kept',outd)
    else: shutil.rmtree(outd,ignore_errors=True)
    print(f'{prop}: {ev} executions observed, {len(keys)} distinct; {len(new)} violations; {time.time()-t0:.1f}s (build {tbuild:.1f}s)')
    if os.environ.get('VERIF_V'):
        for k,x in sorted(maxerr.items(),key=lambda t:-t[1])[:25]: print(f'   {x:9.3g} {k}')
        print('  ',counts); print('  ',{k:v['seconds'] for k,v in perjob.items()})
    if new: sys.exit(1)
    if problems:
        for p in problems: print('no answer: '+p)
        sys.exit(2)
    sys.exit(0)
main()
