'''The sensor traversal visits what is reachable, along cheapest paths'''
import ctypes, itertools
TITLE = 'traverse_sensor_links() visits exactly the reachable sensors, in order, along cheapest paths'
RULE  = ('An execution is one traversal of a connectivity matrix (Python, C, or the Python reference implementation), or one sequence of operations of the priority queue. Its callbacks, in order, are the recorded event log. Oracle: an offline checker of the log, which computes the cheapest cost of each sensor with Bellman-Ford on exact integers: '
         'each sensor reachable from 0 is visited exactly once and nothing else is; costs do not decrease along the log; the parent of each was visited before it (or is 0), shares observations with it, and the path through it costs exactly the optimum. A callback that fails is the last event, and the traversal fails. For the queue: a sorted multiset as the model. Non-trivial: distinct matrix.')
ASSUMPTIONS = ['fewer than 46341 sensors', 'a matrix that is not symmetric, or whose diagonal is not 0, is judged only as to being handled without crashing and as to its upper triangle being what is used']
MIN_EVALUATIONS = 3000
FLOORS = {'python':500,'C':500,'reference':200,'fail':100,'heap':100,'large':2,'layout':100,'exhaustive':500}

def jobs(tier,seed):
    return [dict(name='exhaustive'),dict(name='random'),dict(name='random_asan',flavor='asan'),dict(name='large',weight=3),dict(name='heap',flavor='asan')]

INF = float('inf')
def optimum(C):
    '''Bellman-Ford on exact integers (int64 holds these: at most 65536 per link)'''
    N=len(C)
    E = np.where(C>0, 65536-C.astype(np.int64), np.int64(1)<<50)
    np.fill_diagonal(E,np.int64(1)<<50)
    d = np.full(N,np.int64(1)<<50); d[0]=0
    for _ in range(N):
        d1 = np.minimum(d,(d[None,:]+E).min(axis=1))
        if (d1==d).all(): break
        d=d1
    return d, d>=(np.int64(1)<<50)

def judge(ctx,tag,log,C):
    N=len(C)
    if N==0: return ctx.ok(not log,f'{tag}/empty','callbacks from an empty matrix',log=log)
    d,unreach = optimum(C)
    to=[a for a,b in log]
    if not ctx.ok(all(0<a<N and 0<=b<N for a,b in log),f'{tag}/range','a sensor that does not exist, or the root, was reported',log=log,C=C): return
    ctx.ok(len(set(to))==len(to),f'{tag}/twice','a sensor was visited more than once',log=log,C=C)
    want=set(int(i) for i in np.nonzero(~unreach)[0] if i)
    ctx.ok(set(to)==want,f'{tag}/set',f'visited {len(set(to))} sensors; {len(want)} are reachable',missing=sorted(want-set(to))[:20],extra=sorted(set(to)-want)[:20],C=C)
    seen={0}; last=0
    for a,b in log:
        if not ctx.ok(b in seen,f'{tag}/parent-first','the parent was not visited before',link=(a,b),log=log,C=C): return
        if not ctx.ok(C[a,b]>0,f'{tag}/link','the link has no shared observations',link=(a,b),C=C): return
        if not ctx.ok(d[b]+65536-int(C[a,b])==d[a],f'{tag}/cheapest',f'the path costs {d[b]+65536-int(C[a,b])}; the cheapest costs {d[a]}',link=(a,b),log=log,C=C): return
        if not ctx.ok(d[a]>=last,f'{tag}/order','visited out of order of cost',link=(a,b),log=log,C=C): return
        last=d[a]; seen.add(a)

def upper(C): return np.ascontiguousarray(C[np.triu_indices(len(C),1)]) if len(C) else np.zeros(0,np.uint16)
CB = ctypes.CFUNCTYPE(ctypes.c_bool,ctypes.c_uint16,ctypes.c_uint16,ctypes.c_void_p)
def run_c(C,fail_at=None):
    log=[]
    u=upper(C)
    if u.size==0: u=np.zeros(1,np.uint16)
    @CB
    def cb(a,b,cookie):
        log.append((a,b)); return not (fail_at is not None and len(log)>fail_at)
    f=capi.libmrcal.mrcal_traverse_sensor_links; f.restype=ctypes.c_bool
    r=f(ctypes.c_uint16(len(C)),capi.ptr(u),cb,None)
    return r,log
def run_py(C,**kw):
    log=[]
    r=mrcal.traverse_sensor_links(connectivity_matrix=C,callback_sensor_link=lambda a,b: log.append((a,b)))
    return r,log
def run_ref(C):
    from mrcal.calibration import _traverse_sensor_links_python
    log=[]; N=len(C)
    _traverse_sensor_links_python(N,lambda i: (int(j) for j in range(N) if j!=i and C[i,j]),lambda a,b: 65536-int(C[a,b]),lambda a,b: log.append((a,b)))
    return log

class Stop(Exception): pass
def everything(ctx,rng,C,slow=False):
    N=len(C)
    key=(N,C.tobytes())
    ctx.case('python',key=key,C=C)
    with ctx.guard('python'):
        r,lp=run_py(C)
        ctx.ok(bool(r),'python/returned','did not return a true value')
        ctx.ok(all(type(a) is int and type(b) is int for a,b in lp),'python/types','')
        judge(ctx,'python',lp,C)
    ctx.case('C',key=key,C=C)
    r,lc=run_c(C)
    ctx.ok(r,'C/returned','returned an error')
    judge(ctx,'C',lc,C)
    ctx.ok(lc==lp,'C/python','the C function and its wrapper visit differently',c=lc,py=lp)
    if N and (N<40 or not slow):
        ctx.case('reference',key=key,C=C)
        with ctx.guard('reference'): judge(ctx,'reference',run_ref(C),C)
    # a callback that fails, at each place or at some
    L=len(lc)
    for at in (range(L) if L<=3 else rng.choice(L,2,replace=False)):
        at=int(at)
        ctx.case('fail',key=(key,at),C=C,at=at)
        r,l=run_c(C,at)
        ctx.ok(not r,'fail/C','succeeded, although a callback failed'); ctx.ok(l==lc[:at+1],'fail/C-log','the callbacks differ, or went on after the failure',got=l,want=lc[:at+1])
        l=[]; how=int(rng.integers(3))
        def cb(a,b):
            l.append((a,b))
            if len(l)>at:
                if how: raise Stop('stop')
                return False
            return (None,True,1,'x',np.array(3.))[len(l)%5]
        try:
            r=mrcal.traverse_sensor_links(connectivity_matrix=C,callback_sensor_link=cb)
            ctx.violate('fail/python',f'succeeded, although a callback failed; returned {r}')
        except Stop: ctx.ok(how,'fail/exception','the wrong exception')
        except Exception as e: ctx.ok(not how,'fail/exception',f'the exception of the callback did not arrive: {type(e).__name__} {e}')
        ctx.ok(l==lc[:at+1],'fail/python-log','the callbacks differ, or went on after the failure',got=l,want=lc[:at+1])
    return lp

def matrix(rng,N,kind=None):
    kind = kind or str(rng.choice(('sparse','dense','line','tree','full','ones','ties','clusters','max','grid')))
    C=np.zeros((N,N),dtype=np.int64)
    iu=np.triu_indices(N,1); M=len(iu[0])
    if kind=='sparse': v=rng.integers(1,1000,M)*(rng.uniform(size=M)<min(1,1.5/max(N,1)))
    elif kind=='dense': v=rng.integers(0,65536,M)
    elif kind=='full': v=rng.integers(1,65536,M)
    elif kind=='ones': v=(rng.uniform(size=M)<.3).astype(int)
    elif kind=='ties': v=rng.integers(0,3,M)
    elif kind=='max': v=rng.choice((0,1,2,32767,32768,65534,65535),M,p=(.6,)+(.4/6,)*6)
    else:
        v=np.zeros(M,dtype=int)
    C[iu]=v
    if kind in ('line','tree','clusters','grid') and N>1:
        p=rng.permutation(N)
        for i in range(1,N):
            if kind=='line': j=i-1
            elif kind=='tree': j=int(rng.integers(i))
            elif kind=='clusters':
                if i%5==0 and rng.uniform()<.5: continue
                j=i-1-int(rng.integers(min(i,3)))
            else: j=i-1
            C[p[i],p[j]]=C[p[j],p[i]]=int(rng.integers(1,65536))
            if kind=='grid' and i>=4: C[p[i],p[i-4]]=C[p[i-4],p[i]]=int(rng.integers(1,65536))
        C=np.maximum(C,C.T)
    C=np.triu(C,1); C=C+C.T
    return kind,C.astype(np.uint16)

def j_exhaustive(ctx,rng):
    '''every matrix of few sensors, with links chosen so that ties and trade-offs occur'''
    for N,vals in ((0,()),(1,(0,)),(2,(0,1,65535)),(3,(0,1,2,65534,65535)),(4,(0,1,65535) if not ctx.thorough else (0,1,2,65535)),) + (((5,(0,9)),)):
        iu=np.triu_indices(N,1) if N else ((),())
        for v in itertools.product(vals,repeat=len(iu[0])) if N>1 else [()]:
            C=np.zeros((N,N),dtype=np.uint16)
            if N>1: C[iu]=v; C=C+C.T
            ctx.case('exhaustive',key=(N,v),nontrivial=False,N=N)
            everything(ctx,rng,C)

def j_random(ctx,rng):
    for _ in range(ctx.n(250,3000)):
        N=int(rng.choice((1,2,3,5,6,7,8,10,13,20,40)))
        kind,C=matrix(rng,N)
        lp=everything(ctx,rng,C)
        # layouts
        if N>1 and rng.uniform()<.6:
            a=np.zeros((2*N,3*N),dtype=np.uint16); a[::2,::3]=C
            b=np.asfortranarray(C); c=C[::-1,::-1].copy()[::-1,::-1]; e=np.zeros((N,N+3),np.uint16); e[:,2:2+N]=C
            z=C.copy(); z.setflags(write=False)
            for nm,x in dict(strided=a[::2,::3],fortran=b,reversed=c,offset=e[:,2:2+N],readonly=z,T=C.T).items():
                ctx.case('layout',key=(nm,N,C.tobytes()),layout=nm,C=C)
                try: r,l=run_py(x)
                except Exception: ctx.counts['layout-refused']=ctx.counts.get('layout-refused',0)+1; continue
                ctx.ok(l==lp,f'layout/{nm}','the memory layout changes the result',got=l,want=lp)
                ctx.same(x,C,f'layout/{nm}/modified')
            # only the upper triangle is read
            x=C.copy(); x[np.tril_indices(N)]=rng.integers(0,65536,N*(N+1)//2)
            ctx.case('layout',key=('lower',N,x.tobytes()),layout='lower',C=x)
            try: ctx.ok(run_py(x)[1]==lp,'layout/lower','the lower triangle or the diagonal matters')
            except Exception: pass
        # relabeling the sensors, other than the root: the same costs
        if N>2:
            p=np.concatenate(([0],1+rng.permutation(N-1)))
            C1=C[np.ix_(p,p)]
            ctx.case('python',key=('relabel',C1.tobytes()),C=C1)
            judge(ctx,'relabel',run_py(np.ascontiguousarray(C1))[1],C1)
    # reentrant
    for _ in range(ctx.n(10)):
        _,C=matrix(rng,12,'full'); _,C2=matrix(rng,9,'tree')
        want=run_py(C)[1]; want2=run_py(C2)[1]; l=[]; l2=[]
        def cb(a,b): l.append((a,b)); l2.append(run_py(C2)[1])
        ctx.case('python',key=('reentrant',C.tobytes()),C=C)
        mrcal.traverse_sensor_links(connectivity_matrix=C,callback_sensor_link=cb)
        ctx.ok(l==want and all(x==want2 for x in l2),'reentrant','a traversal in a callback disturbs the outer one, or is disturbed')
        # the matrix is modified in a callback
        X=C.copy(); l=[]
        def cb(a,b): l.append((a,b)); X[...]=0
        mrcal.traverse_sensor_links(connectivity_matrix=X,callback_sensor_link=cb)
        ctx.ok(l==want or len(l)<=len(want),'modify','')
    for bad in (np.zeros((3,4),np.uint16),np.zeros(3,np.uint16),np.zeros((2,2,2),np.uint16),np.zeros((3,3)),np.zeros((3,3),np.int16),np.zeros((3,3),np.uint8),np.zeros((3,3),np.uint32),None,'x',3):
        ctx.case('bad',key=repr(bad),bad=bad)
        with vlib.quiet_fds(): ctx.raises(lambda: mrcal.traverse_sensor_links(connectivity_matrix=bad,callback_sensor_link=lambda a,b:None),'bad/matrix',f'{vlib.short(bad)}')
    for bad in (None,3,'x'):
        ctx.raises(lambda: mrcal.traverse_sensor_links(connectivity_matrix=np.ones((3,3),np.uint16),callback_sensor_link=bad),'bad/callback')

def j_large(ctx,rng):
    for N,kind in ((600,'sparse'),(1200,'full'),(300,'line'),(700,'ties')) + (((5000,'sparse'),(4000,'line'),(3000,'full')) if not ctx.thorough else ((15000,'sparse'),(8000,'line'),(6000,'ones'))):
        kind,C=matrix(rng,N,kind)
        ctx.case('large',key=(N,kind,int(rng.integers(1<<30))),N=N,shape=kind)
        # the numpy Bellman-Ford is too slow for a line; scipy has an exact one, on float64 integers
        import scipy.sparse as ss, scipy.sparse.csgraph as sg
        for how in (run_py,run_c):
            r,log=how(C)
            ctx.ok(r,'large/returned','failed')
            i,j=np.nonzero(C)
            d=sg.dijkstra(ss.csr_matrix((65536.-C[i,j],(i,j)),shape=C.shape),indices=0) if len(i) else np.where(np.arange(N)==0,0.,np.inf)
            to=np.array([a for a,b in log],dtype=int); fr=np.array([b for a,b in log],dtype=int)
            ctx.ok(len(set(to.tolist()))==len(to),'large/twice','visited more than once')
            ctx.ok(set(to.tolist())==set(np.nonzero(np.isfinite(d))[0].tolist())-{0},'large/set',f'visited {len(to)} of {np.isfinite(d).sum()-1} reachable',N=N,kind=kind)
            if len(to):
                ctx.ok((np.diff(d[to])>=0).all(),'large/order','out of order')
                ctx.ok((C[to,fr]>0).all() and (d[fr]+65536.-C[to,fr]==d[to]).all(),'large/cheapest','not a cheapest path',N=N,kind=kind)
                pos=np.full(N,N); pos[0]=-1; pos[to]=np.arange(len(to))
                ctx.ok((pos[fr]<pos[to]).all(),'large/parent-first','')

def j_heap(ctx,rng):
    lib=capi.libmrcal
    class H(ctypes.Structure): _fields_=[('buffer',ctypes.c_void_p),('size',ctypes.c_int)]
    lib.mrcal_heap_pop.restype=ctypes.c_uint16; lib.mrcal_heap_empty.restype=ctypes.c_bool
    for it in range(ctx.n(150,2000)):
        n=int(rng.choice((1,2,3,10,50,300)))
        # node: idx_parent: 16 bits, done: 1 bit, cost: 47 bits
        cost=[int(x) for x in rng.integers(0,{0:4,1:100,2:1<<47}[it%3],n)]
        nodes=np.zeros(n,dtype=np.uint64)
        # other fields are noise, and must not matter
        def put(i,c): nodes[i]=np.uint64((c<<17)|int(rng.integers(1<<17)))
        buf=np.zeros(n,dtype=np.uint16); h=H(buf.ctypes.data,0); inside=set()
        P=capi.ptr(nodes)
        for i in range(n): put(i,cost[i])
        ops=[]
        for step in range(4*n):
            op=str(rng.choice(('push','pop','lower','empty'),p=(.45,.3,.2,.05)))
            ctx.case('heap',key=(it,step),nontrivial=step<40,op=op,n=n)
            out=[i for i in range(n) if i not in inside]
            if op=='push' and out:
                i=int(rng.choice(out)); lib.mrcal_heap_push(ctypes.byref(h),P,ctypes.c_uint16(i)); inside.add(i)
            elif op=='pop' and inside:
                x=lib.mrcal_heap_pop(ctypes.byref(h),P)
                if not ctx.ok(x in inside and cost[x]==min(cost[i] for i in inside),'heap/pop','not the smallest',x=x,inside=sorted(inside),cost=cost): break
                inside.discard(x)
            elif op=='lower' and inside:
                for i in rng.choice(sorted(inside),int(rng.integers(1,4))):
                    i=int(i); cost[i]=int(cost[i]*rng.uniform()) if rng.uniform()<.7 else int(min(cost[i]*2+1,(1<<47)-1)); put(i,cost[i])
                lib.mrcal_heap_resort(ctypes.byref(h),P)
            ctx.ok(h.size==len(inside),'heap/size','')
            ctx.ok(lib.mrcal_heap_empty(ctypes.byref(h),P)==(not inside),'heap/empty','')
            ctx.ok(sorted(buf[:h.size].tolist())==sorted(inside),'heap/content','')

def run(ctx,job):
    global np,mrcal,vlib,capi
    import numpy as np, mrcal, vlib, capi
    globals()['j_'+job['name'].split('_')[0]](ctx,ctx.rng)
