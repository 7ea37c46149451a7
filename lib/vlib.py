'''What a worker process uses to observe executions and to report on them.

A check module (checks/pNN.py) defines

    TITLE, RULE, ASSUMPTIONS      texts for the evidence file
    def jobs(tier, seed): -> list of dicts; each has 'name', optionally 'flavor'
    def run(ctx, job):            drives the real code, and judges what it does

Every judgement goes through ctx. A judgement has a "mechanism": a short stable
name of what was violated and where, which is what known findings are keyed
by'''

import os, sys, json, time, hashlib, traceback, contextlib, zlib
import numpy as np

class Ctx:
    def __init__(self, prop, job, tier, seed, outfile):
        self.prop, self.job, self.tier, self.seed = prop, job, tier, seed
        self.rng  = np.random.default_rng([seed, zlib.crc32((prop+job['name']).encode())])
        self.evaluations = 0
        self.keys        = set()
        self.samples     = []
        self.counts      = {}
        self.violations  = {}   # mech -> dict
        self.outfile     = outfile
        self.current     = None
        self.curf        = open(outfile+'.current','w')
        self.maxerr      = {}
    @property
    def thorough(self): return self.tier=='thorough'
    def n(self, quick, thorough=None):
        '''How many cases to run in this tier'''
        if self.thorough: return thorough if thorough is not None else quick*8
        return quick

    def case(self, kind, key=None, nontrivial=True, sample=None, **desc):
        '''Starts a case. kind: what sort of execution this is. key: what makes it distinct'''
        self.evaluations += 1
        self.counts[kind] = self.counts.get(kind,0)+1
        if nontrivial:
            h = hashlib.blake2b(repr((kind,key if key is not None else desc)).encode(),digest_size=8).digest()
            if h not in self.keys:
                self.keys.add(h)
                if self.counts[kind]==1 or len(self.samples)<3:
                    if len(self.samples)<12:
                        self.samples.append(dict(kind=kind,**{k:short(v) for k,v in desc.items()}))
        self.current = dict(kind=kind,**desc)
        # so that a crash can be attributed. Small and unbuffered
        self.curf.seek(0); self.curf.write(json.dumps(dict(kind=kind,**{k:short(v,400) for k,v in desc.items()}))+'\n'); self.curf.truncate(); self.curf.flush()

    def violate(self, mech, msg, /, **data):
        v = self.violations.get(mech)
        if v is not None:
            v['count'] += 1
            return False
        self.violations[mech] = dict(mech=mech, msg=str(msg), count=1,
                                     case={k:short(v,2000) for k,v in (self.current or {}).items()},
                                     data={str(k):short(v,4000) for k,v in data.items()},
                                     job=self.job, seed=self.seed, tier=self.tier)
        self.flush()
        return False

    def ok(self, cond, mech, msg='', /, **data):
        self.counts['judgements'] = self.counts.get('judgements',0)+1
        if cond: return True
        return self.violate(mech,msg,**data)

    def close(self, a, b, mech, /, atol=1e-9, rtol=1e-9, msg='', equal_nan=False, scale=None, **data):
        '''a and b must agree: |a-b| <= atol + rtol*max(|b|). NaNs must match if equal_nan, and are an error otherwise'''
        self.counts['judgements'] = self.counts.get('judgements',0)+1
        a = np.asarray(a,dtype=float); b = np.asarray(b,dtype=float)
        if a.shape != b.shape:
            return self.violate(mech,f'{msg}: shapes differ: {a.shape} {b.shape}',a=a,b=b,**data)
        if a.size==0: return True
        na,nb = ~np.isfinite(a),~np.isfinite(b)
        if na.any() or nb.any():
            if not equal_nan or (na!=nb).any() or (np.isnan(a)!=np.isnan(b)).any():
                return self.violate(mech,f'{msg}: non-finite values',a=a,b=b,**data)
            g = ~na
            if not g.any(): return True
            d = np.abs(a[g]-b[g]); bb=np.abs(b[g])
        else:
            d = np.abs(a-b); bb = np.abs(b)
        lim = atol + rtol*(bb.max() if scale is None else scale)
        e = d.max()/lim if lim>0 else (0. if d.max()==0 else np.inf)
        m = self.maxerr.get(mech)
        if m is None or e>m: self.maxerr[mech]=float(e)
        if e<=1: return True
        return self.violate(mech,f'{msg}: max abs difference {d.max():g} exceeds {lim:g}',a=a,b=b,**data)

    def same(self, a, b, mech, /, msg='', **data):
        '''bit-identical, NaN==NaN'''
        self.counts['judgements'] = self.counts.get('judgements',0)+1
        a = np.asarray(a); b = np.asarray(b)
        if a.shape==b.shape and a.dtype==b.dtype and (np.array_equal(a,b,equal_nan=a.dtype.kind in 'fc')): return True
        return self.violate(mech,msg+': not identical',a=a,b=b,**data)

    @contextlib.contextmanager
    def guard(self, mech, msg='', allow=()):
        '''Nothing in here may raise. An exception is a violation, except for
        those the library is entitled to ("allow")'''
        try: yield
        except allow: pass
        except Exception as e:
            # Python wrappers wrap; the text is enough
            self.violate(mech+'/raised',f'{msg} raised {type(e).__name__}: {e}',traceback=traceback.format_exc()[-3000:])

    def raises(self, f, mech, msg='', exc=Exception):
        '''f() must raise an ordinary exception'''
        self.counts['judgements'] = self.counts.get('judgements',0)+1
        try: r = f()
        except exc: return True
        except BaseException as e:
            return self.violate(mech,f'{msg} raised {type(e).__name__}: {e}')
        return self.violate(mech,f'{msg} was accepted, returning {short(r,300)}')

    def forked(self, f, seconds, external, name):
        '''Runs f() in a child process, adding what it recorded to this one. external: a shared
        mmap, nonzero while the child is inside of libdogleg: this calls exit() or loops forever
        if the jacobian isn't finite, and that isn't judged'''
        import pickle, time, signal
        fn = self.outfile+'.forked'
        sys.stdout.flush(); sys.stderr.flush()
        external[0] = 0
        pid = os.fork()
        if pid==0:
            try:
                f()
                st = {k:getattr(self,k) for k in ('evaluations','keys','samples','counts','violations','maxerr')}
                with open(fn,'wb') as fp: pickle.dump(st,fp)
            except BaseException:
                import traceback; traceback.print_exc(); sys.stderr.flush(); os._exit(4)
            os._exit(0)
        t0 = time.time()
        while True:
            p,st = os.waitpid(pid,os.WNOHANG)
            if p: break
            if time.time()-t0>seconds:
                os.kill(pid,signal.SIGKILL); os.waitpid(pid,0); st=None; break
            time.sleep(.005)
        if st==0:
            with open(fn,'rb') as fp: self.__dict__.update(pickle.load(fp))
            return
        self.curf.flush()
        if st is None or (os.WIFEXITED(st) and os.WEXITSTATUS(st)==1):
            k = 'hang' if st is None else 'exit'
            self.counts['unjudged-'+k] = self.counts.get('unjudged-'+k,0)+1
            if not external[0]:
                self.current = dict(kind=name,last=open(self.outfile+'.current').read())
                self.violate(f'{k}/{name}',f'{"did not finish in %g s"%seconds if st is None else "exited the process"}')
            return
        self.flush()
        if os.WIFSIGNALED(st): signal.signal(os.WTERMSIG(st),signal.SIG_DFL) if os.WTERMSIG(st)!=9 else None; os.kill(os.getpid(),os.WTERMSIG(st))
        os._exit(os.WEXITSTATUS(st))

    def flush(self, done=False):
        with open(self.outfile+'.tmp','w') as f:
            json.dump(dict(job=self.job,done=done,evaluations=self.evaluations,keys=[k.hex() for k in self.keys],
                           samples=self.samples,counts=self.counts,violations=list(self.violations.values()),
                           maxerr=self.maxerr),f)
        os.rename(self.outfile+'.tmp',self.outfile)

def short(v, n=160):
    '''JSON-able, short description of v'''
    if isinstance(v,(bool,int,type(None))): return v
    if isinstance(v,float): return v if np.isfinite(v) else repr(v)
    if isinstance(v,np.ndarray):
        s = np.array2string(v,threshold=60,precision=17,separator=',') if n>=400 else np.array2string(v,threshold=20,precision=6,separator=',')
        return s if len(s)<=n else s[:n]+f'... shape={v.shape}'
    if isinstance(v,(np.floating,np.integer)): return short(v.item(),n)
    if isinstance(v,dict): return {str(k):short(x,n) for k,x in list(v.items())[:40]}
    if isinstance(v,(list,tuple)) and len(v)<=20: return [short(x,n) for x in v]
    if isinstance(v,bytes): v = repr(v)
    s = str(v)
    return s if len(s)<=n else s[:n]+'...'

@contextlib.contextmanager
def quiet_fds():
    '''Send fd 1,2 to /dev/null: the library prints diagnostics for bad inputs'''
    sys.stdout.flush(); sys.stderr.flush()
    o1,o2 = os.dup(1),os.dup(2)
    n = os.open('/dev/null',os.O_WRONLY)
    os.dup2(n,1); os.dup2(n,2); os.close(n)
    try: yield
    finally:
        sys.stdout.flush(); sys.stderr.flush()
        os.dup2(o1,1); os.dup2(o2,2); os.close(o1); os.close(o2)
