'''The optimizer's measurement vector and Jacobian'''
import numpy as np
TITLE = 'optimizer residuals and Jacobian'
RULE  = ('An execution is one call of mrcal.optimizer_callback() on a generated problem (lens model x camera arrangement x selections x boards/points/fixed points/'
         'triangulated points/outliers x regularization). x is compared to an independent numpy implementation of the documented measurements; J to central differences. '
         'Non-trivial: distinct problem, Nstate>0 and Nmeasurements>0.')
ASSUMPTIONS = ['the reference lens-model formulas of P03','rotations below 1e-5 rad use a documented first-order series in the library: the Jacobian there is compared to 3e-5']
MIN_EVALUATIONS = 150
FLOORS = {'x':100,'J':60,'triangulated':5,'with points':20,'no frames':5,'zero rotations':5}

def jobs(tier,seed):
    return [dict(name=f'random{k}',k=k) for k in range(7)] + [dict(name='special')]

def run(ctx,job):
    global mrcal,ref,gen,prob
    import mrcal,ref,gen,prob
    if job['name']=='special': return special(ctx)
    rng=ctx.rng
    for rep in range(ctx.n(16,160)):
        for n,lm in enumerate(models(rng)):
            if (n+rep)%7 != job['k']: continue
            check(ctx,problem(rng,lm),lm,(lm,rep))

def models(rng):
    l = [m for m in gen.lensmodels(rng,nspline=2,ncahvore=1) if m!='x']
    return l + [gen.splined(rng,o,maxn=9) for o in (2,3)]

def problem(rng,lm,**kw):
    a = dict(lensmodel=lm,Ncam=int(rng.integers(1,4)),Nframes=int(rng.integers(0,4)),WH=(int(rng.integers(2,6)),int(rng.integers(2,6))),
             cameras=str(rng.choice(('cam0-ref','all','moving','mixed'))),noise=rng.choice((.1,5.)),outliers=rng.choice((0,.2)),
             outlier_kind=str(rng.choice(('mixed','minus1'))),warp=bool(rng.uniform()<.7),strength=rng.choice((.2,.7)),visible=.8,
             spacing=float(rng.choice((.1,.037,1.3))))
    a['Npoints']=int(rng.integers(0,5)) if a['Nframes'] else int(rng.integers(3,8))
    a['Npoints_fixed']=int(rng.integers(0,a['Npoints']+1)) if rng.uniform()<.5 else 0
    a.update(kw)
    return prob.make(rng,**a)

def scales(oi,N):
    s = np.ones(N); mrcal.unpack_state(s,**oi); return s

def state_step(R,b):
    '''Finite-difference step for each variable, in full units'''
    h = np.zeros(R.Nstate)
    for n,k,i,sc in R.blocks:
        L=len(sc)
        if   n=='intrinsics':
            h[i:i+L] = 1e-4
            if R.sel['do_optimize_intrinsics_core']: h[i:i+4]=(1.,1.,1.,1.)
        elif n in('extrinsics','frames'): h[i:i+3]=3e-4; h[i+3:i+6]=1e-3
        elif n=='points': h[i:i+3]=1e-2
        else: h[i:i+2]=1e-3
    if R.Nt: h *= 3e-3   # the angle error is as non-smooth as a norm is: stay close
    return h

def check(ctx,oi,lm,key,zero=False):
    R = prob.Ref(oi); rng=ctx.rng
    fam = gen.family(lm)
    if R.Nt: R.vtri = tri_vectors(oi,R)
    ctx.case('problem',key=key,nontrivial=R.Nstate>0 and R.m>0,lensmodel=lm,Nstate=R.Nstate,Nmeas=R.m,sel=R.sel,Ni=R.Ni,Ne=R.Ne,Nf=R.Nf,Np=R.Np,Nfixed=R.Nfixed,Nb=R.Nb,No=R.No,Nt=R.Nt,oi=oi)
    D=dict(oi=oi)
    b0 = R.pack()
    before = {k:np.array(v) for k,v in oi.items() if isinstance(v,np.ndarray)}
    if R.Nstate==0: return
    b,x,J,fac = mrcal.optimizer_callback(**oi,no_factorization=True)
    for k,v in before.items(): ctx.same(oi[k],v,f'input-modified/{k}','optimizer_callback() modified an input')
    ctx.counts['x']=ctx.counts.get('x',0)+1
    if R.Np: ctx.counts['with points']=ctx.counts.get('with points',0)+1
    if not R.Nf: ctx.counts['no frames']=ctx.counts.get('no frames',0)+1
    if not ctx.ok(b.shape==(R.Nstate,) and x.shape==(R.m,) and J.shape==(R.m,R.Nstate),'shapes',f'b {b.shape} x {x.shape} J {J.shape}, expected Nstate={R.Nstate} Nmeas={R.m}',**D): return
    sc = scales(oi,R.Nstate)
    ctx.close(b*sc,b0,'b_packed',atol=1e-12,rtol=1e-12,msg='the packed state is not that of the inputs',**D)
    xr = R.measure()
    for name,sl in parts(R):
        # pixels can be large: relative to the pixel coordinates
        if sl.stop>sl.start:
            if name=='triangulated':
                ctx.close(x[sl],xr[sl],f'x/{name}',atol=3e-8,rtol=1e-6,msg='measurements',**D)
            else:
                ctx.close(x[sl],xr[sl],f'x/{name}/{fam}',atol=1e-9 if name=='regularization' else 1e-6,rtol=1e-9,msg='measurements',**D)
            ctx.counts[f'measurements {name}']=ctx.counts.get(f'measurements {name}',0)+sl.stop-sl.start
    # no_jacobian: the same x
    bb,xx,JJ,ff = mrcal.optimizer_callback(**oi,no_jacobian=True,no_factorization=True)
    ctx.ok(JJ is None and ff is None,'no_jacobian/None','no_jacobian must return None',J=JJ)
    # compilers may contract differently: not bit-identical by contract
    ctx.close(xx,x,'no_jacobian/x',atol=1e-12,rtol=1e-12,msg='x depends on whether the jacobian was requested',**D)
    ctx.close(bb,b,'no_jacobian/b',atol=0,rtol=0,**D)
    # outliers: rows of 0
    Jd = J.toarray()
    ctx.ok(np.isfinite(Jd).all(),f'J/finite/{fam}','J has non-finite values',**D)
    if R.Nb:
        w = oi['observations_board'][...,2].ravel()<0
        ctx.ok((Jd[:R.m_board].reshape(-1,2,R.Nstate)[w]==0).all(),'J/outlier-board','an outlier board corner has a gradient',**D)
        if w.any(): ctx.counts['outliers']=ctx.counts.get('outliers',0)+int(w.sum())
    if R.No:
        w = oi['observations_point'][...,2]<=0
        ctx.ok((Jd[R.m_board:R.m_board+R.m_point].reshape(-1,2,R.Nstate)[w]==0).all(),'J/outlier-point','an outlier point has a gradient',**D)
    # the sparse structure is valid
    ctx.ok((J.indptr[1:]>=J.indptr[:-1]).all() and J.indptr[0]==0 and J.indptr[-1]==len(J.data) and (len(J.indices)==0 or (J.indices.min()>=0 and J.indices.max()<R.Nstate)),
           'J/structure','invalid sparse matrix',indptr=J.indptr,**D)
    # --- gradients: central differences of the library's own x (which was tied
    # to the reference just above, and is tied again at each perturbed point)
    h = state_step(R,b0)
    cols = np.arange(R.Nstate)
    if R.Nstate>90 and not ctx.thorough: cols = np.sort(rng.choice(R.Nstate,90,replace=False))
    useref = zero or fam=='CAHVORE'
    def xof(bv):
        o = R.with_state(bv)
        return R.measure(o) if useref else mrcal.optimizer_callback(**o,no_jacobian=True,no_factorization=True)[1]
    if useref and len(cols)>40: cols = np.sort(rng.choice(cols,40,replace=False))
    num = np.zeros((R.m,len(cols)))
    C=((1,3/4),(2,-3/20),(3,1/60))
    for n,i in enumerate(cols):
        g=0
        for k,wt in C:
            e=np.zeros(R.Nstate); e[i]=k*h[i]
            g = g+wt*(xof(b0+e)-xof(b0-e))
        num[:,n]=g/h[i]*sc[i]
    ctx.counts['J']=ctx.counts.get('J',0)+1
    ctx.counts['gradient columns']=ctx.counts.get('gradient columns',0)+len(cols)
    # a spline is only piecewise smooth: the second-order one has a discontinuous
    # second derivative
    rt = 3e-5 if zero else (2e-4 if fam=='SPLINED2' else 2e-5 if fam=='SPLINED3' else (1e-5 if fam=='CAHVORE' else 2e-6))
    for name,sl in parts(R):
        if sl.stop==sl.start: continue
        A,B = Jd[sl][:,cols],num[sl]
        # per variable: the scale of this variable's effect
        for n,i in enumerate(cols):
            s = np.abs(B[:,n]).max()
            at = 1e-7 if name=='triangulated' else 1e-6 + (1e-7*sc[i]/h[i] if fam=='CAHVORE' else 0) + (1e-9*sc[i]/h[i] if R.Nt else 0)
            blk = next(q[0] for q in R.blocks if q[2]<=i<q[2]+len(q[3]))
            tol = at + (rt if name!='triangulated' else 1e-4)*s
            Bn = B[:,n]
            for shrink in (.05,.0025):
                # near the knots of a spline, say, smaller steps are needed
                if np.abs(A[:,n]-Bn).max() <= tol: break
                g=0
                for k,wt in C:
                    e=np.zeros(R.Nstate); e[i]=k*h[i]*shrink
                    g = g+wt*(xof(b0+e)-xof(b0-e))
                Bn = (g/(h[i]*shrink)*sc[i])[sl]
                tol = at + (rt if name!='triangulated' else 1e-4)*s + 1e-11*sc[i]/(h[i]*shrink)*max(1,np.abs(x[sl]).max())
                ctx.counts['smaller steps']=ctx.counts.get('smaller steps',0)+1
            if not ctx.close(A[:,n],Bn,f'J/{name}/{blk}/{fam}',atol=tol,rtol=0,msg=f'jacobian column {i}',column=int(i),**D): break

def parts(R):
    a=R.m_board; b=a+R.m_point; c=b+R.m_tri
    return (('board',slice(0,a)),('point',slice(a,b)),('triangulated',slice(b,c)),('regularization',slice(c,R.m)))

def tri_vectors(oi,R):
    return np.array([mrcal.unproject(o[:2],oi['lensmodel'],oi['intrinsics'][i[1]]) for o,i in
                     zip(oi['observations_point_triangulated'],oi['indices_point_triangulated_camintrinsics_camextrinsics'])])

def special(ctx):
    rng=ctx.rng
    # rotations of exactly 0, and tiny
    for rep in range(ctx.n(8,80)):
        for lm in ('LENSMODEL_OPENCV4','LENSMODEL_PINHOLE','LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=8_Ny=6_fov_x_deg=150','LENSMODEL_STEREOGRAPHIC'):
            oi = problem(rng,lm,Ncam=2,Nframes=2,spacing=.1,select={**prob.ALL,'do_apply_regularization':True},cameras='cam0-ref',warp=True)
            m = int(rng.integers(3)); s = rng.choice((0.,1e-9))
            if m!=1: oi['rt_cam_ref'][:,:3] *= s
            if m!=0: oi['rt_ref_frame'][:,:3] *= s
            ctx.counts['zero rotations']=ctx.counts.get('zero rotations',0)+1
            check(ctx,oi,lm,('zero',lm,rep),zero=True)
    # triangulated points. The intrinsics must be locked
    for rep in range(ctx.n(12,120)):
        lm = str(rng.choice(('LENSMODEL_OPENCV4','LENSMODEL_PINHOLE','LENSMODEL_STEREOGRAPHIC','LENSMODEL_LONLAT')))
        oi = problem(rng,lm,Ncam=int(rng.integers(2,5)),Ntri=int(rng.integers(1,5)),cameras=str(rng.choice(('cam0-ref','all'))),spacing=.1,noise=.5)
        R = prob.Ref(oi); v = tri_vectors(oi,R)
        # the plain, well-conditioned case only
        ix = oi['indices_point_triangulated_camintrinsics_camextrinsics']
        good=True
        for a,b in R.pairs:
            Ta,Tb = [np.eye(4) if ix[k,2]<0 else ref.T_from_rt(oi['rt_cam_ref'][ix[k,2]]) for k in (a,b)]
            T = Tb@ref.inv_T(Ta); va = T[:3,:3]@v[a]
            if not prob.tri_convergent(v[b],va,T[:3,3]) or prob.tri_error(v[b],va,T[:3,3])<3e-4 or np.linalg.norm(np.cross(v[b],va))/np.linalg.norm(v[b])/np.linalg.norm(va)<.004: good=False
        if not good: continue
        ctx.counts['triangulated']=ctx.counts.get('triangulated',0)+1
        check(ctx,oi,lm,('tri',lm,rep))
    # degenerate selections, defaults, integer views of the flags
    for rep in range(ctx.n(5,30)):
        oi = problem(rng,'LENSMODEL_OPENCV8',Ncam=2,Nframes=2,Npoints=2,Npoints_fixed=int(rng.integers(3)))
        for k in prob.SEL:
            if rng.uniform()<.5: oi.pop(k)
        if oi['calobject_warp'] is None: oi['do_optimize_calobject_warp']=False
        check(ctx,oi,'LENSMODEL_OPENCV8',('defaults',rep))
    # layouts the caller could reasonably pass: C-contiguous is required for these
    # arrays, anything else must be refused and not misread
    for rep in range(ctx.n(6,40)):
        oi = problem(rng,'LENSMODEL_OPENCV4',Ncam=2,Nframes=2,Npoints=3,Npoints_fixed=1,warp=True)
        x0 = mrcal.optimizer_callback(**oi,no_jacobian=True,no_factorization=True)[1]
        for k in ('intrinsics','rt_cam_ref','rt_ref_frame','points','observations_board','observations_point','calobject_warp'):
            if oi.get(k) is None: continue
            o = dict(oi); o[k]=gen.strided(rng,oi[k])
            ctx.case('strided input',key=(rep,k),key_=k)
            try: x1 = mrcal.optimizer_callback(**o,no_jacobian=True,no_factorization=True)[1]
            except Exception: ctx.counts['layout refused']=ctx.counts.get('layout refused',0)+1; continue
            ctx.close(x1,x0,f'strided/{k}',atol=1e-12,rtol=1e-12,msg='a different memory layout of the same input gives a different x')
