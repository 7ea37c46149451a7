'''Builds a copy of /repo's current working tree in /verif/build/<flavor>/.

The copy is refreshed by content, so an unchanged file keeps its time stamp and
make rebuilds only what depends on what changed. /repo itself is only read.

Flavors: plain (as the project builds itself), asan (ASan+UBSan), tsan, cov
(gcov; used to study the reach of the checks, not by any check)'''

import os, sys, subprocess, shutil, fcntl, filecmp, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO  = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF,'build'))

class BuildError(Exception): pass

FLAVORS = dict(
    plain = dict(),
    asan  = dict(CC ='gcc -fsanitize=address,undefined -fno-sanitize=float-divide-by-zero',
                 CXX='g++ -fsanitize=address,undefined -fno-sanitize=float-divide-by-zero',
                 opt='-O1'),
    tsan  = dict(CC ='gcc -fsanitize=thread', CXX='g++ -fsanitize=thread', opt='-O1'),
    cov   = dict(CC ='gcc --coverage -fprofile-update=atomic', CXX='g++ --coverage -fprofile-update=atomic', opt='-O1'),
)

def sources():
    '''Relative paths of all the files of /repo that git does not ignore'''
    try:
        out = subprocess.run(['git','-c','safe.directory=*','-C',REPO,'ls-files','-co','--exclude-standard','-z'],
                             check=True,stdout=subprocess.PIPE,stderr=subprocess.DEVNULL).stdout
        l = [f.decode() for f in out.split(b'\0') if f]
        l = [f for f in l if os.path.isfile(os.path.join(REPO,f))]
    except Exception:
        l = []
    if len(l) > 50: return l
    # no git: everything that is not obviously a build product
    l = []
    for d,dd,ff in os.walk(REPO):
        dd[:] = [x for x in dd if x not in ('.git','__pycache__')]
        for f in ff:
            if f.endswith(('.o','.d','.so','.tmp','.pyc','.docstring.h')) or '.so.' in f or 'GENERATED' in f or f=='minimath_generated.h':
                continue
            l.append(os.path.relpath(os.path.join(d,f),REPO))
    return l

def clean_env():
    e = {k:v for k,v in os.environ.items() if k in ('HOME','TMPDIR','VERIF_SEED','VERIF_TIER','VERIF_REPO','VERIF_BUILD')}
    e.setdefault('HOME','/root')
    e['LC_ALL'] = 'C.UTF-8'
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['PATH'] = '/usr/bin:/bin:/usr/sbin:/sbin'
    e['OPENBLAS_NUM_THREADS'] = '1'
    e['OMP_NUM_THREADS'] = '1'
    return e

def build(flavor='plain', verbose=False):
    '''Returns the build directory'''
    t0 = time.time()
    os.makedirs(BUILD,exist_ok=True)
    d = os.path.join(BUILD,flavor)
    with open(os.path.join(BUILD,f'.lock-{flavor}'),'w') as lock:
        fcntl.flock(lock,fcntl.LOCK_EX)
        os.makedirs(d,exist_ok=True)
        src = sources()
        want = set(src)
        manifest = os.path.join(d,'.vsources')
        try:    have = set(open(manifest).read().split('\n'))
        except FileNotFoundError: have = set()
        for f in have - want - {''}:
            try: os.unlink(os.path.join(d,f))
            except OSError: pass
        changed = 0
        for f in src:
            a,b = os.path.join(REPO,f), os.path.join(d,f)
            try:
                if not os.path.islink(a) and filecmp.cmp(a,b,shallow=False) and os.access(a,os.X_OK)==os.access(b,os.X_OK): continue
            except OSError: pass
            os.makedirs(os.path.dirname(b),exist_ok=True)
            if os.path.lexists(b): os.unlink(b)
            shutil.copyfile(a,b)
            shutil.copymode(a,b)
            changed += 1
        with open(manifest,'w') as f: f.write('\n'.join(sorted(want)))
        e = clean_env()
        e['CPATH'] = '/usr/include/suitesparse'
        F = FLAVORS[flavor]
        args = ['make','-j8','NM=nm']
        if 'CC' in F:
            args += ['CC='+F['CC'],'CXX='+F['CXX']]
            e['LDFLAGS'] = ' '.join(x for x in F['CC'].split() if x.startswith('-fsanitize') or x=='--coverage')
            e['CCXXFLAGS'] = F['opt']
        log = os.path.join(d,'.vbuild.log')
        # the products the checks need; not the project's test programs
        py = subprocess.run(['/usr/bin/python3','-c','import sysconfig;print(sysconfig.get_config_var("EXT_SUFFIX"))'],
                            stdout=subprocess.PIPE,text=True,env=e).stdout.strip()
        targets = ['libmrcal.so','libmrcal.so.5'] + [f'mrcal/{m}{py}' for m in ('_mrcal','_mrcal_npsp','_poseutils_npsp','_triangulation_npsp')]
        with open(log,'w') as f:
            rc = subprocess.run(args+targets,cwd=d,env=e,stdout=f,stderr=subprocess.STDOUT).returncode
            if rc != 0:
                # maybe the set of targets changed: fall back to what the project calls "all"
                rc = subprocess.run(args+['all'],cwd=d,env=e,stdout=f,stderr=subprocess.STDOUT).returncode
        if rc != 0:
            raise BuildError(f'build of flavor {flavor} failed; see {log}:\n' + open(log).read()[-3000:])
        # the shim: flat C functions around the public headers, for ctypes
        shim = os.path.join(d,'libvshim.so')
        shimsrc = os.path.join(VERIF,'shim','vshim.c')
        if os.path.exists(shimsrc):
            key = hashlib.sha256()
            for f in [shimsrc]+sorted(os.path.join(d,f) for f in src if f.endswith('.h')):
                key.update(open(f,'rb').read())
            key = key.hexdigest()
            stamp = shim+'.key'
            if not os.path.exists(shim) or not os.path.exists(stamp) or open(stamp).read()!=key:
                cc = F.get('CC','gcc').split()
                r = subprocess.run(cc+['-g','-O1','-std=gnu11','-fPIC','-shared','-I'+d,'-I/usr/include/suitesparse',shimsrc,'-L'+d,'-lmrcal','-Wl,-rpath,$ORIGIN','-o',shim],
                                   env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
                if r.returncode != 0:
                    raise BuildError('building the shim failed:\n'+r.stdout[-3000:])
                open(stamp,'w').write(key)
    if verbose: print(f'built {flavor}: {changed} sources refreshed, {time.time()-t0:.1f}s',file=sys.stderr)
    return d

def gcc_lib(name):
    return subprocess.run(['gcc','-print-file-name='+name],stdout=subprocess.PIPE,text=True).stdout.strip()

def run_env(flavor, d):
    '''Environment to run python3 against build directory d'''
    e = clean_env()
    e['PYTHONPATH'] = d + ':' + os.path.join(VERIF,'lib') + ':' + os.path.join(VERIF,'checks')
    e['LD_LIBRARY_PATH'] = d
    e['VERIF_FLAVOR'] = flavor
    e['VERIF_BUILDDIR'] = d
    e['MPLBACKEND'] = 'Agg'
    if flavor == 'asan':
        e['LD_PRELOAD'] = gcc_lib('libasan.so') + ' ' + gcc_lib('libubsan.so')
        e['PYTHONMALLOC'] = 'malloc'
        e['ASAN_OPTIONS'] = 'detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=97:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1'
        e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=0'
    if flavor == 'tsan':
        e['LD_PRELOAD'] = gcc_lib('libtsan.so')
        e['TSAN_OPTIONS'] = 'halt_on_error=0:exitcode=0:report_signal_unsafe=0'
    return e

if __name__ == '__main__':
    for f in sys.argv[1:] or ['plain']:
        print(build(f,verbose=True))
