'''Runs the command-line tools. In a child process, forked from this one: mrcal is loaded already'''
import os, sys, time, signal, tempfile, runpy
B = os.environ.get('VERIF_BUILDDIR','')

class Result:
    def __init__(s,rc,out,err,hung): s.rc,s.out,s.err,s.hung=rc,out,err,hung
    def __repr__(s): return f'rc={s.rc} err={s.err[-1500:]!r} out={s.out[-300:]!r}'

def run(tool, *args, cwd=None, stdin=None, timeout=60, binary=False, env={}):
    '''rc<0: died by a signal'''
    d = tempfile.mkdtemp(prefix='cli')
    fo,fe,fi = d+'/out',d+'/err',d+'/in'
    with open(fi,'wb') as f: f.write(b'' if stdin is None else stdin if isinstance(stdin,bytes) else stdin.encode())
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid==0:
        rc = 125
        try:
            os.setpgid(0,0)
            for n,(path,fl) in enumerate(((fi,os.O_RDONLY),(fo,os.O_WRONLY|os.O_CREAT|os.O_TRUNC),(fe,os.O_WRONLY|os.O_CREAT|os.O_TRUNC))):
                x=os.open(path,fl,0o600); os.dup2(x,n); os.close(x)
            sys.stdin=open(0,'r',closefd=False); sys.stdout=open(1,'w',closefd=False); sys.stderr=open(2,'w',closefd=False)
            sys.__stdout__,sys.__stderr__,sys.__stdin__=sys.stdout,sys.stderr,sys.stdin
            if cwd: os.chdir(cwd)
            os.environ.update(env)
            signal.alarm(0); signal.signal(signal.SIGALRM,signal.SIG_DFL); signal.signal(signal.SIGINT,signal.SIG_DFL)
            path=os.path.join(B,tool)
            sys.argv=[path]+[str(a) for a in args]; sys.path[0:0]=[B]
            try:
                runpy.run_path(path,run_name='__main__'); rc=0
            except SystemExit as e:
                c=e.code
                if c is None: rc=0
                elif isinstance(c,int): rc=c&255
                else: print(c,file=sys.stderr); rc=1
            except BaseException:
                import traceback; traceback.print_exc(); rc=1
            try: sys.stdout.flush()
            except Exception: rc=120
            sys.stderr.flush()
        finally: os._exit(rc)
    t0=time.time(); hung=False
    while True:
        p,st=os.waitpid(pid,os.WNOHANG)
        if p: break
        if time.time()-t0>timeout:
            hung=True
            try: os.killpg(pid,signal.SIGKILL)
            except ProcessLookupError: os.kill(pid,signal.SIGKILL)
            os.waitpid(pid,0); st=None; break
        time.sleep(.002)
    rd=lambda f: open(f,'rb').read() if binary else open(f,'r',errors='replace').read()
    out,err=rd(fo) if os.path.exists(fo) else '',rd(fe) if os.path.exists(fe) else ''
    for f in (fo,fe,fi):
        if os.path.exists(f): os.unlink(f)
    os.rmdir(d)
    rc = None if st is None else (os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st))
    return Result(rc,out,err,hung)
