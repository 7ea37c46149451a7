'''CHOLMOD factorization'''
import numpy as np
TITLE = 'sparse factorization'
RULE  = ('An execution is one sparse matrix factored by CHOLMOD_factorization (directly, by re-initialization, or by optimizer_callback()) and the systems solved with it; or one invalid input. '
         'Oracles: the residual of the dense normal equations, judged against their conditioning-independent backward error; the algebraic relations of the factors obtained from each system variant; dense Cholesky for rcond; bit-identity of repeated solves and of the inputs. '
         'Non-trivial: distinct random sparsity patterns, scalings and right-hand sides.')
ASSUMPTIONS = ['singular matrices are judged where the singularity is exact in floating-point arithmetic (empty columns; empty matrices), because near-singularity cannot be decided by the factorization']
MIN_EVALUATIONS = 600
FLOORS = {'solve':250,'variants':100,'refused':100,'callback':20,'reuse':40}
TIMEOUT = dict(quick=400,thorough=3600)

def jobs(tier,seed):
    return [dict(name='direct_0'),dict(name='direct_1'),dict(name='callback'),dict(name='invalid'),dict(name='invalid_asan',flavor='asan'),dict(name='direct_asan',flavor='asan')]

def run(ctx,job):
    global mrcal,gen,vlib,prob,ref,sp
    import mrcal,gen,vlib,prob,ref
    import scipy.sparse as sp
    globals()[job['name'].split('_')[0]](ctx)

def matrix(rng,big=False):
    '''A sparse matrix of full column rank'''
    w=int(rng.choice((1,2,3,5,8,13,30) if not big else (60,120)))
    for _ in range(50):
        h=w+int(rng.integers(0,3*w+2))
        kind=rng.integers(6)
        if   kind==0: J=sp.random(h,w,density=float(rng.uniform(.1,.6)),random_state=rng,data_rvs=lambda n:rng.normal(size=n)).tocsr()
        elif kind==1: J=sp.csr_matrix(rng.normal(size=(h,w)))
        elif kind==2:  # arrow: one dense block of columns, the others sparse
            D=np.zeros((h,w)); k=min(3,w); D[:,:k]=rng.normal(size=(h,k))
            for i in range(h): D[i,int(rng.integers(w))]+=rng.normal()
            J=sp.csr_matrix(D)
        elif kind==3:
            D=np.zeros((h,w)); D[:w]=np.diag(rng.uniform(.5,2,w)); J=sp.csr_matrix(D)
        elif kind==4:
            D=np.zeros((h,w))
            for i in range(h): D[i,i%w]=rng.normal(); D[i,(i+1)%w]=rng.normal()
            J=sp.csr_matrix(D)
        else:          # empty rows, explicit zeros
            D=rng.normal(size=(h,w))*(rng.uniform(size=(h,w))<.5); D[rng.uniform(size=h)<.2]=0
            J=sp.csr_matrix(D)
            if J.nnz: J.data[rng.uniform(size=J.nnz)<.05]=0.
        if rng.uniform()<.3: J=(J@sp.diags(10**rng.uniform(-3,3,w))).tocsr()
        if rng.uniform()<.2: J=(J*float(10**rng.uniform(-8,8))).tocsr()
        d=J.toarray(); n=np.linalg.norm(d,axis=0)
        if not (n>0).all(): continue
        if np.linalg.cond(d/n)<1e5:
            if rng.uniform()<.3: J=shuffled(rng,J)
            J.indptr=J.indptr.astype(np.int32); J.indices=J.indices.astype(np.int32)
            return J,int(kind)
    return sp.csr_matrix(np.diag(rng.uniform(1,2,w))),3

def shuffled(rng,J):
    '''The same matrix, with the entries of each row in another order'''
    J=J.copy(); 
    for i in range(J.shape[0]):
        a,b=J.indptr[i:i+2]; p=rng.permutation(b-a)
        J.indices[a:b]=J.indices[a:b][p]; J.data[a:b]=J.data[a:b][p]
    return sp.csr_matrix((J.data,J.indices,J.indptr),shape=J.shape)

def backward(ctx,J,b,x,mech,/,**D):
    '''|JtJ x - b| in relation to |JtJ||x|, in the scaling in which JtJ has a unit diagonal'''
    d=J.toarray().astype(np.longdouble); s=np.sqrt(np.sum(d*d,axis=0)); d=d/s
    A=d.T@d; xs=x*s; bs=b/s; w=len(s)
    r=np.abs(xs@A-bs).max(axis=-1); lim=1e-14*w*(np.abs(xs).max(axis=-1)*float(np.abs(A).sum(axis=0).max())+np.abs(bs).max(axis=-1))+1e-300
    e=float((r/lim).max()); ctx.maxerr[mech]=max(ctx.maxerr.get(mech,0),e)
    ctx.ok(np.isfinite(x).all() and e<=1,mech,f'the residual is {e:g} times the limit',**D)

def judge(ctx,rng,J,F,tag,**D):
    w=J.shape[1]
    sh=[(w,),(1,w),(3,w),(2,3,w),(2,1,4,w)][int(rng.integers(5))]
    b=rng.normal(size=sh)*10**rng.uniform(-3,3); b0=b.copy()
    ctx.case('solve',key=(ctx.job['name'],ctx.evaluations),shape=J.shape,nnz=J.nnz,rhs=sh,**D)
    with ctx.guard(f'{tag}/solve'):
        x=F.solve_xt_JtJ_bt(b)
        ctx.same(b,b0,f'{tag}/input modified')
        ctx.ok(x.shape==sh and x.dtype==float,f'{tag}/shape',f'{x.shape} {sh}')
        ctx.ok(not np.shares_memory(x,b),f'{tag}/aliased')
        backward(ctx,J,b,x,f'{tag}/residual',matrix=J.toarray() if J.shape[1]<6 else None,rhs=b,**D)
        for s in ('A','CHOLMOD_A'): ctx.same(F.solve_xt_JtJ_bt(b,sys=s),x,f'{tag}/sys {s}')
        # one at a time, and all together
        x1=np.array([F.solve_xt_JtJ_bt(np.ascontiguousarray(v)) for v in b.reshape(-1,w)]).reshape(sh)
        ctx.close(x1/(np.abs(x).max()+1e-300),x/(np.abs(x).max()+1e-300),f'{tag}/one at a time',rtol=1e-9,atol=0)
        ctx.same(F.solve_xt_JtJ_bt(bt=b),x,f'{tag}/repeated')
    return x

def variants(ctx,rng,J,F,tag):
    w=J.shape[1]; I=np.eye(w)
    ctx.case('variants',key=(ctx.job['name'],ctx.evaluations),shape=J.shape)
    with ctx.guard(f'{tag}/variants'):
        S={k:F.solve_xt_JtJ_bt(I,sys=('CHOLMOD_' if rng.uniform()<.5 else '')+k).T for k in ('A','LDLt','LD','DLt','L','Lt','D','P','Pt')}   # each is the inverse
        P=S['P']
        ctx.ok(((P==0)|(P==1)).all() and (P.sum(0)==1).all() and (P.sum(1)==1).all(),f'{tag}/P/permutation')
        ctx.same(S['Pt'],P.T.copy(),f'{tag}/Pt')
        L=S['L']; ctx.ok((np.abs(np.triu(L,1))==0).all(),f'{tag}/L/triangular')
        D=S['D']; ctx.ok((np.abs(D-np.diag(np.diag(D)))==0).all() and (np.diag(D)>0).all(),f'{tag}/D/diagonal')
        def c(a,b,m):
            # rows and columns each have a scale of their own
            n=np.sqrt(np.abs(np.diag(b))+1e-300) if (np.abs(np.diag(b))>0).all() else 1.
            sc=np.abs(b).max()+1e-300
            ctx.close(a/sc,b/sc,f'{tag}/{m}',rtol=1e-9,atol=1e-11)
        c(S['Lt'],L.T,'Lt'); c(S['LD'],D@L,'LD'); c(S['DLt'],L.T@D,'DLt'); c(S['LDLt'],L.T@D@L,'LDLt'); c(S['A'],P.T@S['LDLt']@P,'A')
        d=J.toarray().astype(np.longdouble); A=P@(d.T@d)@P.T; s=np.sqrt(np.diag(A))
        # inv(L) A inv(L') D^-1 = I
        R=(L@A@L.T)*np.sqrt(np.outer(np.diag(D),np.diag(D)))
        ctx.close(R.astype(float),np.eye(w),f'{tag}/factors',rtol=0,atol=1e-9*w+1e-14*w*np.linalg.cond(d.astype(float)/np.linalg.norm(d.astype(float),axis=0))**2)
        ctx.same(S['Pt'].T.copy(),F.solve_xt_JtJ_bt(I,sys='Pt'),f'{tag}/repeated')
        rc=F.rcond(); ctx.ok(0<rc<=1,f'{tag}/rcond/range',f'{rc}')
        g=np.diag(D); 
        ctx.close(rc,g.min()/g.max(),f'{tag}/rcond',rtol=1e-9,atol=0)

def direct(ctx):
    rng=ctx.rng; small='asan' in ctx.job['name']
    for rep in range(ctx.n(60 if small else 300,150 if small else 1500)):
        J,kind=matrix(rng,big=rep%20==19)
        keep=[J.data.copy(),J.indices.copy(),J.indptr.copy()]
        with ctx.guard('init',f'{J.shape}'):
            F=mrcal.CHOLMOD_factorization(J)
            for a,b in zip(keep,(J.data,J.indices,J.indptr)): ctx.same(b,a,'init/input modified')
            judge(ctx,rng,J,F,'direct',pattern=kind)
            if rep%2==0: variants(ctx,rng,J,F,'direct')
            ctx.ok(str(J.shape[1]) in str(F),'str',str(F))
            if rep%3==0:
                # later changes of J do not matter; re-initialization does
                J2,_=matrix(rng); Jc=J.copy(); J.data[:]=np.nan
                ctx.case('reuse',key=(ctx.job['name'],rep))
                judge(ctx,rng,Jc,F,'reuse/old')
                F.__init__(J2); judge(ctx,rng,J2,F,'reuse/new')
                if rep%2: variants(ctx,rng,J2,F,'reuse')
                # a failed initialization leaves nothing usable behind
                ctx.raises(lambda:F.__init__(sp.csr_matrix(np.zeros((3,2)))),'reuse/singular')
                ctx.raises(lambda:F.solve_xt_JtJ_bt(np.ones(J2.shape[1])),'reuse/after a failure')
                ctx.raises(lambda:F.rcond(),'reuse/rcond after a failure')
                F.__init__(Jc); judge(ctx,rng,Jc,F,'reuse/again')

def callback(ctx):
    rng=ctx.rng
    V=[dict(),dict(cameras='all'),dict(Npoints=5,warp=False),dict(Ncam=3,outliers=.1),dict(Ncam=1)]
    for rep in range(ctx.n(50,400)):
        lens=str(rng.choice(('LENSMODEL_OPENCV4','LENSMODEL_PINHOLE','LENSMODEL_STEREOGRAPHIC','LENSMODEL_CAHVOR','LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=6_Ny=5_fov_x_deg=100')))
        kw=dict(V[rep%len(V)]); s={k:bool(rng.uniform()<.8) for k in prob.SEL}; s['do_apply_regularization']=bool(rng.uniform()<.7)
        if kw.get('warp') is False: s['do_optimize_calobject_warp']=False
        try: oi=prob.make(rng,lens,WH=(4,3),select=s,noise=.2,**kw)
        except Exception: continue
        with vlib.quiet_fds():
            try: b,x,J,F=mrcal.optimizer_callback(**oi)
            except Exception: continue
        if J is None or J.shape[1]==0: continue
        d=J.toarray(); n=np.linalg.norm(d,axis=0)
        good=(n>0).all() and J.shape[0]>=J.shape[1] and np.linalg.cond(d/n)<1e6
        ctx.case('callback',key=(rep,lens),lensmodel=lens,sel=s,good=good)
        if not good:
            # a state variable that nothing depends on
            if not (n>0).all(): ctx.ok(F is None,'callback/singular','a factorization of a singular system was returned',lensmodel=lens,sel=s)
            continue
        if not ctx.ok(F is not None,'callback/none','no factorization',lensmodel=lens,sel=s): continue
        judge(ctx,rng,J,F,'callback')
        with ctx.guard('callback/init'):
            with vlib.quiet_fds(): F2=mrcal.CHOLMOD_factorization(J)
            v=rng.normal(size=(2,J.shape[1]))
            ctx.same(F2.solve_xt_JtJ_bt(v),F.solve_xt_JtJ_bt(v),'callback/same')
        if J.shape[1]<80: variants(ctx,rng,J,F,'callback')
        with vlib.quiet_fds():
            ctx.ok(mrcal.optimizer_callback(**oi,no_factorization=True)[3] is None,'callback/no_factorization')

def invalid(ctx):
    rng=ctx.rng; C=mrcal.CHOLMOD_factorization
    def bad(kind,f):
        ctx.case('refused',key=(ctx.job['name'],kind,rep),what=kind)
        with vlib.quiet_fds(): ctx.raises(f,f'invalid/{kind}',kind)
    for rep in range(ctx.n(8,60)):
        J,_=matrix(rng); w=J.shape[1]; h=J.shape[0]; F=C(J)
        def mod(**kw):
            # csr_matrix itself validates little. Set the fields one by one
            K=J.copy()
            for k,v in kw.items(): setattr(K,k,v)
            return K
        bad('dense',lambda:C(J.toarray())); bad('csc',lambda:C(J.tocsc())); bad('coo',lambda:C(J.tocoo())); bad('string',lambda:C('J')); bad('unknown argument',lambda:C(K=J)); bad('two arguments',lambda:C(J,J))
        bad('float32',lambda:C(mod(data=J.data.astype(np.float32)))); bad('int data',lambda:C(mod(data=(J.data*0+1).astype(int)))); bad('complex',lambda:C(mod(data=J.data.astype(complex))))
        bad('int64 indices',lambda:C(mod(indices=J.indices.astype(np.int64)))); bad('int64 indptr',lambda:C(mod(indptr=J.indptr.astype(np.int64))))
        if J.nnz>1: bad('strided',lambda:C(mod(data=np.repeat(J.data,2)[::2])))
        bad('2d data',lambda:C(mod(data=J.data[None])))
        # a zero column
        k=int(rng.integers(w)); d=J.toarray(); d[:,k]=0; bad('zero column',lambda:C(sp.csr_matrix(d)))
        K=J.copy(); K.data[K.indices==k]=0; bad('explicit zero column',lambda:C(K))
        bad('all zero',lambda:C(sp.csr_matrix((h,w))))
        if J.nnz:
            for v in (w,w+1000000,2**31-1,-1,-2**31):
                i=J.indices.copy(); i[int(rng.integers(len(i)))]=v; bad('index out of range',lambda:C(mod(indices=i)))
            p=J.indptr.copy(); p[-1]+=1000; bad('indptr past the end',lambda:C(mod(indptr=p)))
            if h>1:
                p=J.indptr.copy(); p[1:-1]=p[-1]+100; bad('indptr decreasing',lambda:C(mod(indptr=p)))
                p=J.indptr.copy(); p[int(rng.integers(1,h))]=-5; bad('indptr negative',lambda:C(mod(indptr=p)))
            bad('indptr too short',lambda:C(mod(indptr=J.indptr[:-1].copy())))
            bad('data too short',lambda:C(mod(data=J.data[:-1].copy())))
            bad('indices too short',lambda:C(mod(indices=J.indices[:-1].copy())))
        for v in (np.nan,np.inf):
            if J.nnz:
                x=J.data.copy(); x[int(rng.integers(len(x)))]=v; bad('non-finite',lambda:C(mod(data=x)))
        # right-hand sides
        b=rng.normal(size=(3,w)); f=F.solve_xt_JtJ_bt
        bad('rhs/too long',lambda:f(rng.normal(size=w+1))); bad('rhs/too short',lambda:f(rng.normal(size=(3,w-1)))); bad('rhs/scalar',lambda:f(np.array(1.))); bad('rhs/list',lambda:f([1.]*w)); bad('rhs/none',lambda:f(None))
        bad('rhs/float32',lambda:f(b.astype(np.float32))); bad('rhs/int',lambda:f(np.ones((2,w),dtype=int))); bad('rhs/missing',lambda:f())
        if w>1: bad('rhs/transposed',lambda:f(np.asfortranarray(rng.normal(size=(3,w))))); 
        bad('rhs/strided',lambda:f(np.repeat(b,2,axis=0)[::2]))
        bad('rhs/empty state',lambda:f(np.zeros((3,0)))); bad('rhs/empty',lambda:f(np.zeros((0,))))
        for s in ('','Q','CHOLMOD_','a','LDL','A ',None,3): bad('sys',lambda:f(b,sys=s))
        bad('not factored',lambda:C().solve_xt_JtJ_bt(b)); bad('not factored/rcond',lambda:C().rcond())
        # no right-hand sides at all
        with ctx.guard('none'):
            x=f(np.zeros((0,w))); ctx.ok(x.shape==(0,w),'none/shape',str(x.shape))
        # and F still works
        judge(ctx,rng,J,F,'after invalid input')
