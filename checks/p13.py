'''Projection uncertainty'''
import numpy as np
TITLE = 'projection uncertainty'
RULE  = ('An execution is one evaluation of projection_uncertainty(), of the matrices it is built from, or of a summary of a covariance, for one calibration problem. '
         'Oracles: dense linear algebra on the Jacobian for Var(b); the documented data flow of each method (cross-reprojection ccp and rrp, mean-pcam), differentiated numerically, for dq/db; '
         'in the thorough tier also the re-optimization of problems with every single observation perturbed. Non-trivial: distinct problems, methods, query points and outputs.')
ASSUMPTIONS = ['the dense normal equations have a condition number below 1e12','observations whose cross-reprojection Jacobian is unavailable (fixed frames, points) do not take part, as documented',
               'problems that the implementation refuses with an error (boards and points and an optimized board warp; fixed intrinsics with ccp) are not judged']
MIN_EVALUATIONS = 700
FLOORS = {'cross':120,'uncertainty':250,'propagate':60,'summary':100,'sigma':80}
TIMEOUT = dict(quick=500,thorough=7200)

VARIANTS = dict(
    boards=dict(), all=dict(cameras='all'), one=dict(Ncam=1), moving=dict(cameras='moving',Ncam=3), moving2=dict(cameras='mixed',Ncam=4),
    points=dict(Nframes=0,Npoints=24,Npoints_fixed=0,warp=False,obs_per_point=2,visible=1.), pointsfixed=dict(Nframes=0,Npoints=30,Npoints_fixed=8,warp=False,obs_per_point=2),
    mixed=dict(Npoints=6,warp=False), mixedwarp=dict(Npoints=6), outliers=dict(outliers=.15), three=dict(Ncam=3))
LENS = ('LENSMODEL_PINHOLE','LENSMODEL_STEREOGRAPHIC','LENSMODEL_OPENCV4','LENSMODEL_OPENCV8','LENSMODEL_CAHVOR','LENSMODEL_LATLON','LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=6_Ny=5_fov_x_deg=100','LENSMODEL_SPLINED_STEREOGRAPHIC_order=2_Nx=5_Ny=4_fov_x_deg=90')

def jobs(tier,seed):
    return [dict(name=f'uncertainty_{i}') for i in range(5)] + [dict(name='propagate'),dict(name='summary')] + \
           ([dict(name=f'reoptimize_{i}') for i in range(3)] if tier=='thorough' else [dict(name='reoptimize_0')])

def run(ctx,job):
    global mrcal,gen,vlib,prob,ref
    import mrcal,gen,vlib,prob,ref
    globals()[job['name'].split('_')[0]](ctx)

# ---------------------------------------------------------------- reference
def x_of(oi): return mrcal.optimizer_callback(**oi,no_jacobian=True,no_factorization=True)[1]
def rt_from_T(T):
    R=T[:3,:3]; w=np.array((R[2,1]-R[1,2],R[0,2]-R[2,0],R[1,0]-R[0,1]))/2
    s=np.linalg.norm(w); r = w if s<1e-12 else w/s*np.arctan2(s,(np.trace(R)-1)/2)
    return np.concatenate((r,T[:3,3]))
def comp(a,b): return rt_from_T(ref.T_from_rt(a)@ref.T_from_rt(b))

def movable(oi,R,icam):
    '''Which of the observation measurements can see the sought transform move: (rows, rows at reference, rows of this camera)'''
    fr=R.sel['do_optimize_frames']; l=[];at=[];mine=[]
    if R.Nb:
        i=oi['indices_frame_camintrinsics_camextrinsics']; k=2*R.H*R.W
        l.append(np.repeat(np.full(len(i),fr),k)); at.append(np.repeat(i[:,2]<0,k)); mine.append(np.repeat(i[:,1]==icam,k))
    if R.No:
        i=oi['indices_point_camintrinsics_camextrinsics']
        l.append(np.repeat(fr & (i[:,0]<R.Np-R.Nfixed),2)); at.append(np.repeat(i[:,2]<0,2)); mine.append(np.repeat(i[:,1]==icam,2))
    return np.concatenate(l),np.concatenate(at),np.concatenate(mine)

def K_definition(oi,R,J,icam):
    '''d rt_ref_ref*/db (icam<0), d rt_cam_cam*/db, packed, by the definition: -pinv(Jcross) J'''
    n=R.m_board+R.m_point
    def world(rt):
        o=dict(oi)
        if R.Nf: o['rt_ref_frame']=np.array([comp(rt,f) for f in oi['rt_ref_frame']])
        if R.Np: o['points']=oi['points']@ref.R_from_r(rt[:3]).T+rt[3:]
        return o
    def cams(rt):
        o=dict(oi)
        if R.Ne: o['rt_cam_ref']=np.array([comp(rt,f) for f in oi['rt_cam_ref']])
        return o
    J=J[:n]; cols=np.zeros(R.Nstate,bool)
    want=('frames','points','calobject_warp')+(() if icam<0 else ('extrinsics',))
    for nme,k,i,sc in R.blocks:
        if nme in want: cols[i:i+len(sc)]=True
    mov,at,mine=movable(oi,R,icam)
    Jw=ref.numgrad(lambda rt:x_of(world(rt))[:n],np.zeros(6),3e-4,order=4)
    if icam<0: Jc,use=Jw,mov
    else:
        Jc=ref.numgrad(lambda rt:x_of(cams(rt))[:n],np.zeros(6),3e-4,order=4)
        Jc[at]=Jw[at]
        use=mine & np.where(at, mov, R.sel['do_optimize_extrinsics'] | mov)
    A=Jc[use]; B=(J*cols)[use]
    N=A.T@A
    if len(A)<6 or np.linalg.cond(N)>1e12: return None
    return -np.linalg.solve(N,A.T@B)

def unpackedF(R,f,b):
    '''d f/d b, b in full units; f takes the modified problem'''
    return ref.numgrad(lambda s:f(R.with_state(s)),b,R.scale*np.array(1e-4),order=4)

def dq_definition(oi,R,K,icam,p,method,atinf):
    '''dq/db (2,Nstate), unpacked'''
    b=R.pack(); lm=oi['lensmodel']
    proj=lambda pc,o: ref.project(pc,lm,o['intrinsics'][icam])
    Ku = None if K is None else K/R.scale      # d rt/d(b unpacked)
    def tiny(x):
        # the linearized transform, composed exactly
        T=ref.T_from_rt(x)
        if atinf: T[:3,3]=0
        return T
    def app(T,v): return T[:3,:3]@v + (0 if atinf else T[:3,3])
    if method=='cross-reprojection-ccp':
        def f(s): return proj(app(ref.inv_T(tiny(Ku@(s-b))),p),R.with_state(s))
        return ref.numgrad(f,b,R.scale*1e-4,order=4)
    i=np.concatenate([oi[k][:,1:] for k in ('indices_frame_camintrinsics_camextrinsics','indices_point_camintrinsics_camextrinsics') if oi.get(k) is not None])
    ie=np.unique(i[i[:,0]==icam,1])
    if method=='cross-reprojection-rrp-Jfp':
        def f(s):
            o=R.with_state(s)
            T0=[np.eye(4) if e<0 else ref.T_from_rt(oi['rt_cam_ref'][e]) for e in ie]
            T1=[np.eye(4) if e<0 else ref.T_from_rt(o['rt_cam_ref'][e]) for e in ie]
            Tr=ref.inv_T(tiny(Ku@(s-b)))
            return proj(np.mean([app(t1,app(Tr,app(ref.inv_T(t0),p))) for t0,t1 in zip(T0,T1)],axis=0),o)
        return ref.numgrad(f,b,R.scale*1e-4,order=4)
    def f(s):
        o=R.with_state(s); l=[]
        for e in ie:
            t0,t1=[np.eye(4) if e<0 else ref.T_from_rt(q['rt_cam_ref'][e]) for q in (oi,o)]
            pr=app(ref.inv_T(t0),p)
            if R.sel['do_optimize_frames']:
                for j in range(R.Nf):
                    f0,f1=[ref.T_from_rt(q['rt_ref_frame'][j]) for q in (oi,o)]
                    l.append(app(t1,app(f1,app(ref.inv_T(f0),pr))))
            else: l.append(app(t1,pr))
        return proj(np.mean(l,axis=0),o)
    return ref.numgrad(f,b,R.scale*1e-4,order=4)

def problem(rng,variant,lens):
    kw=dict(VARIANTS[variant])
    s={k:True for k in prob.SEL}
    s.update(do_apply_regularization=bool(rng.uniform()<.6),do_apply_regularization_unity_cam01=bool(variant in('all','points') or rng.uniform()<.2))
    for k in prob.SEL:
        if rng.uniform()<.15: s[k]=False
    if kw.get('warp') is False: s['do_optimize_calobject_warp']=False
    oi=prob.make(rng,lens,WH=(4,3) if 'SPLINED' not in lens else (6,5),select=s,noise=.2,**{**dict(outliers=0.,jitter=.002),**kw})
    return oi

def lin(oi):
    with vlib.quiet_fds():
        b,x,J,F=mrcal.optimizer_callback(**oi)
    return b,x,J.toarray(),F

def uncertainty(ctx):
    rng=ctx.rng
    job=int(ctx.job['name'].split('_')[1]); todo=[(v,l) for v in VARIANTS for l in LENS][job::5]
    for rep in range(ctx.n(2,10)):
        for variant,lens in todo:
            oi=problem(rng,variant,lens); R=prob.Ref(oi)
            try: b,x,J,F=lin(oi)
            except Exception: continue
            n=R.m_board+R.m_point
            sv=np.linalg.svd(J,compute_uv=False)
            good = sv.size==R.Nstate>0 and sv.min()>sv.max()*1e-6 and R.Nstate<=len(x)
            sig=float(rng.uniform(.1,2)); icam=int(rng.integers(R.Ni))
            D=dict(variant=variant,lensmodel=lens,sel=R.sel,icam=icam)
            intr_opt = R.count('intrinsics')>0
            ie=np.unique(np.concatenate([oi[k][oi[k][:,1]==icam,2] for k in ('indices_frame_camintrinsics_camextrinsics','indices_point_camintrinsics_camextrinsics') if oi.get(k) is not None]))
            # ccp, where the extrinsics are fixed, and the camera isn't at the reference
            fixedext = not R.sel['do_optimize_extrinsics'] and (ie>=0).any()
            Ks={}
            for ic in (-1,icam):
                m='ccp' if ic>=0 else 'rrp'
                with vlib.quiet_fds():
                    try: K=mrcal.drt_cross_reprojection__dbpacked(icam_intrinsics=ic,**oi)
                    except Exception as e: K=None; msg=str(e)
                must = R.sel['do_optimize_frames'] and not (R.Np and R.count('calobject_warp')) and (ic<0 or intr_opt)
                k=K_definition(oi,R,J,ic) if must or K is not None else None
                if k is None: continue
                if K is None:
                    if must: ctx.violate(f'cross/{m}/refused',msg,**D)
                    continue
                ctx.case('cross',key=(ctx.job['name'],rep,variant,lens,ic),method=m,**D)
                mech=f'cross/{m}'+('/fixed extrinsics' if fixedext and ic>=0 else '')
                ctx.ok(K.shape==(6,R.Nstate),mech+'/shape',str(K.shape))
                if ctx.close(K,k,mech,rtol=3e-5,atol=1e-8,**D): Ks[ic]=k
            if not good: continue
            M=np.linalg.pinv(J,rcond=1e-10)[:,:n]           # db_packed/dx over the observations
            try: model=mrcal.cameramodel(optimization_inputs=oi,icam_intrinsics=icam)
            except Exception:
                # moving cameras need to say which
                try: model=mrcal.cameramodel(optimization_inputs=oi,icam_intrinsics=icam,icam_extrinsics=int(ie[0]))
                except Exception: continue
            sh=[(3,),(),(2,2)][rep%3] if rep else (2,)
            th=gen.max_theta(lens)*.6
            p=gen.points(rng,lens,int(np.prod(sh,dtype=int)),theta=min(th,.7),range_=(.5,50)).reshape(sh+(3,))
            model.rt_cam_ref(gen.rt(rng))   # must not matter
            for method in ('cross-reprojection-ccp','mean-pcam','cross-reprojection-rrp-Jfp'):
                kk = {'cross-reprojection-ccp':icam,'cross-reprojection-rrp-Jfp':-1}.get(method)
                if kk is not None and kk not in Ks: continue
                contiguous = len(ie)==1 or ((ie>=0).all() and (np.diff(ie)==1).all())
                if method!='cross-reprojection-ccp' and not contiguous: continue
                if method=='mean-pcam' and (R.No or (not R.Nf)): continue
                if method.endswith('Jfp') and len(ie)!=1: continue
                for atinf in (False,True):
                    m=f'{method}/{"inf" if atinf else "finite"}'
                    kw=dict(method=method,atinfinity=atinf)
                    ctx.case('uncertainty',key=(ctx.job['name'],rep,variant,lens,method,atinf),method=method,atinfinity=atinf,**D)
                    with ctx.guard(f'uncertainty/{m}',variant):
                        V=mrcal.projection_uncertainty(p,model,observed_pixel_uncertainty=sig,**kw)
                        ctx.ok(V.shape==sh+(2,2),f'uncertainty/shape/{m}',f'{V.shape} {sh}')
                        q=np.array([dq_definition(oi,R,Ks.get(kk),icam,v,method,atinf) for v in p.reshape(-1,3)])
                        S=(q*R.scale)@M
                        W=sig**2*np.einsum('kij,klj->kil',S,S).reshape(sh+(2,2))
                        # each point by its own scale
                        for a,c in zip(V.reshape(-1,2,2),W.reshape(-1,2,2)):
                            ctx.close(a,c,f'uncertainty/covariance/{m}',rtol=2e-4,atol=1e-12,**D)
                            ctx.close(a,a.T,f'uncertainty/symmetric/{m}',rtol=1e-10,atol=0)
                            ctx.ok(np.linalg.eigvalsh((a+a.T)/2).min()>=-1e-10*abs(a).max(),f'uncertainty/psd/{m}',f'{a}')
                        ctx.close(mrcal.projection_uncertainty(p,model,observed_pixel_uncertainty=2*sig,**kw),4*V,f'uncertainty/noise doubled/{m}',rtol=1e-9,atol=0)
                        ev=np.linalg.eigvalsh((V+np.swapaxes(V,-1,-2))/2)
                        w=mrcal.projection_uncertainty(p,model,observed_pixel_uncertainty=sig,what='worstdirection-stdev',**kw)
                        ctx.close(w,np.sqrt(ev[...,1]),f'uncertainty/worstdirection/{m}',rtol=1e-6,atol=1e-12)
                        w=mrcal.projection_uncertainty(p,model,observed_pixel_uncertainty=sig,what='rms-stdev',**kw)
                        ctx.close(w,np.sqrt((V[...,0,0]+V[...,1,1])/2),f'uncertainty/rms/{m}',rtol=1e-9,atol=1e-12)
                        if atinf:  # the distance does not matter
                            ctx.close(mrcal.projection_uncertainty(p*7.5,model,observed_pixel_uncertainty=sig,**kw),V,f'uncertainty/scale/{m}',rtol=1e-6,atol=1e-12)
                        if rng.uniform()<.3:
                            p0=p.reshape(-1,3)[0]
                            ctx.close(mrcal.projection_uncertainty(p0,model,observed_pixel_uncertainty=sig,**kw),V.reshape(-1,2,2)[0],f'uncertainty/broadcast/{m}',rtol=1e-7,atol=1e-14)
            # the noise, from the residuals
            nx=R.m_board+R.m_point
            if nx>R.Nstate:
                ctx.case('sigma',key=(ctx.job['name'],rep,variant,lens),**D)
                xr=R.measure() if not R.Nt else x
                keep=kept(oi,R)
                s=np.sqrt(np.sum(xr[:nx]**2)/keep/(1-R.Nstate/keep)) if keep>R.Nstate else None
                if s is not None and intr_opt and icam in Ks:
                    with ctx.guard('sigma'):
                        V1=mrcal.projection_uncertainty(p,model,what='worstdirection-stdev')
                        V0=mrcal.projection_uncertainty(p,model,what='worstdirection-stdev',observed_pixel_uncertainty=s)
                        ctx.close(V1,V0,'sigma/default',rtol=1e-6,atol=1e-12,**D)
    # requests that make no sense
    ctx.raises(lambda:mrcal.projection_uncertainty(p,model,method='nope'),'refusal/method')
    ctx.raises(lambda:mrcal.projection_uncertainty(p,model,what='nope'),'refusal/what')
    m=mrcal.cameramodel(model); m.optimization_inputs_reset()
    ctx.raises(lambda:mrcal.projection_uncertainty(p,m),'refusal/inputs')

def kept(oi,R):
    '''How many measurements are not outliers'''
    n=0
    if R.Nb: n+=2*int((oi['observations_board'][...,2]>0).sum())
    if R.No: n+=2*int((oi['observations_point'][...,2]>0).sum())
    return n

def propagate(ctx):
    '''Var(F) for an arbitrary F'''
    rng=ctx.rng; f=mrcal.model_analysis._propagate_calibration_uncertainty
    for rep in range(ctx.n(40,200)):
        variant=str(rng.choice(list(VARIANTS))); lens=LENS[rep%len(LENS)]
        oi=problem(rng,variant,lens); R=prob.Ref(oi)
        try: b,x,J,F=lin(oi)
        except Exception: continue
        n=R.m_board+R.m_point
        sv=np.linalg.svd(J,compute_uv=False)
        if not (sv.size==R.Nstate>0 and sv.min()>sv.max()*1e-6): continue
        if F is None: ctx.violate('propagate/factorization','the factorization failed',variant=variant); continue
        M=np.linalg.pinv(J,rcond=1e-10)[:,:n]
        for N in (None,1,2,3,5):
          for sh in ((),(3,)):
            if N is None and sh: continue
            dF=rng.normal(size=(sh+(N,) if N is not None else ())+(R.Nstate,))
            d2=dF if N is not None else dF[None]
            sig=float(rng.uniform(.1,3))
            S=d2@M; V=sig**2*S@np.swapaxes(S,-1,-2)
            D=dict(variant=variant,lensmodel=lens,N=N,shape=sh,reg=R.m_reg)
            ctx.case('propagate',key=(rep,N,sh),**D)
            with ctx.guard('propagate',f'{D}'):
                kw=dict(optimization_inputs=oi,observed_pixel_uncertainty=sig)
                c=f('covariance',dF_dbpacked=np.array(dF),**kw)
                ctx.close(c,V if N is not None else V[0,0],f'propagate/covariance/N={N}',rtol=3e-5,atol=0,**D)
                ctx.close(f('covariance',dF_dbunpacked=dF/R.scale,**kw),V if N is not None else V[0,0],f'propagate/unpacked/N={N}',rtol=3e-5,atol=0,**D)
                if N is not None:
                    ev=np.linalg.eigvalsh(V)[...,-1]
                    ctx.close(f('worstdirection-stdev',dF_dbpacked=np.array(dF),**kw),np.sqrt(ev),f'propagate/worst/N={N}',rtol=3e-5,atol=0,**D)
                    ctx.close(f('rms-stdev',dF_dbpacked=np.array(dF),**kw),np.sqrt(np.trace(V,axis1=-2,axis2=-1)/N),f'propagate/rms/N={N}',rtol=3e-5,atol=0,**D)
                    # explicit ingredients
                    _,xx,Jp,Fa=mrcal.optimizer_callback(**oi)
                    ctx.close(f('covariance',dF_dbpacked=np.array(dF),x=xx,factorization=Fa,Jpacked=Jp,Nmeasurements_observations_leading=n,observed_pixel_uncertainty=sig),V,f'propagate/explicit/N={N}',rtol=3e-5,atol=0,**D)

def summary(ctx):
    rng=ctx.rng
    for rep in range(ctx.n(150,1500)):
        N=int(rng.choice((1,2,2,2,3,4,6))); sh=[(),(4,),(2,3)][rep%3]
        A=rng.normal(size=sh+(N,N))*10**rng.uniform(-4,4)
        k=rep%5
        V=A@np.swapaxes(A,-1,-2)
        if k==1 and N>1: A=rng.normal(size=sh+(N,1)); V=A@np.swapaxes(A,-1,-2)   # one direction only
        if k==2: V=np.zeros(sh+(N,N))+np.eye(N)*rng.uniform(.1,3)
        if k==3: V=np.zeros(sh+(N,N))+np.diag(rng.uniform(.1,3,N))
        ctx.case('summary',key=rep,N=N,shape=sh,what=k)
        with ctx.guard('summary/worst'):
            w=mrcal.worst_direction_stdev(V)
            ctx.close(w,np.sqrt(np.linalg.eigvalsh(V)[...,-1]),f'summary/worst/N={min(N,3)}',rtol=1e-7,atol=1e-12,V=V)
        with ctx.guard('summary/worst/strided'):
            ctx.close(mrcal.worst_direction_stdev(gen.strided(rng,V)),w,'summary/worst/strided',rtol=1e-9,atol=1e-12)
    ctx.raises(lambda:mrcal.worst_direction_stdev(np.ones((2,3))),'summary/nonsquare')
    # the estimate of the noise
    f=mrcal.model_analysis._observed_pixel_uncertainty_from_inputs
    for rep in range(ctx.n(40,300)):
        variant=list(VARIANTS)[rep%len(VARIANTS)]
        oi=problem(rng,variant,LENS[rep%len(LENS)]); R=prob.Ref(oi)
        nx=R.m_board+R.m_point
        xr=R.measure(); keep=kept(oi,R)
        if keep<=R.Nstate: continue
        s=np.sqrt(np.sum(xr[:nx]**2)/keep/(1-R.Nstate/keep))
        ctx.case('sigma',key=('sum',rep),variant=variant)
        try: x=x_of(oi)
        except Exception: continue
        with ctx.guard('sigma/estimate'):
            ctx.close(f(oi),s,'sigma/estimate',rtol=1e-7,atol=0,variant=variant,lensmodel=oi['lensmodel'])
            ctx.close(f(oi,x=x),s,'sigma/estimate x',rtol=1e-7,atol=0,variant=variant)

def reoptimize(ctx):
    '''The covariance, from the re-optimization of problems with each observation perturbed in turn'''
    rng=ctx.rng
    for rep in range(ctx.n(1,6)):
        lens=['LENSMODEL_OPENCV4','LENSMODEL_STEREOGRAPHIC','LENSMODEL_PINHOLE'][rep%3]; method=['cross-reprojection-ccp','mean-pcam','cross-reprojection-rrp-Jfp'][int(rng.integers(3))]
        if not ctx.thorough: method='cross-reprojection-ccp'
        s=dict(prob.ALL,do_apply_regularization=bool(rep%2),do_apply_regularization_unity_cam01=False)
        oi=prob.make(rng,lens,Ncam=2,WH=(4,3),Nframes=4,select=s,noise=1e-3,outliers=0,visible=1.,jitter=.001)
        def solve(o):
            o=dict(o)
            for k in ('intrinsics','rt_cam_ref','rt_ref_frame','calobject_warp','observations_board'): o[k]=np.array(o[k])
            for _ in range(2): mrcal.optimize(**o,do_apply_outlier_rejection=False)
            return o
        oi=solve(oi); R=prob.Ref(oi); icam=int(rng.integers(2))
        J=lin(oi)[2]; sv=np.linalg.svd(J,compute_uv=False)
        if sv.min()<sv.max()*1e-7: continue
        model=mrcal.cameramodel(optimization_inputs=oi,icam_intrinsics=icam)
        p=gen.points(rng,lens,1,theta=.4,range_=(1,20))[0]
        ie=model.icam_extrinsics(); T0=np.eye(4) if ie<0 else ref.T_from_rt(oi['rt_cam_ref'][ie])
        n=R.m_board
        def obsx(o): return x_of(o)[:n]
        def qplus(o):
            # the alignment is one linear least squares step from the cross-reprojection residuals
            if method=='mean-pcam':
                T1=np.eye(4) if ie<0 else ref.T_from_rt(o['rt_cam_ref'][ie]); v=np.append(p,1)
                pc=np.mean([T1@ref.T_from_rt(f1)@ref.inv_T(ref.T_from_rt(f0))@ref.inv_T(T0)@v for f0,f1 in zip(oi['rt_ref_frame'],o['rt_ref_frame'])],axis=0)[:3]
                return ref.project(pc,lens,o['intrinsics'][icam])
            ccp=method.endswith('ccp')
            def cross(rt):
                c=dict(oi,calobject_warp=o['calobject_warp'],rt_ref_frame=o['rt_ref_frame'])
                if ccp:
                    c['rt_cam_ref']=np.array([comp(rt,t) for t in o['rt_cam_ref']])
                    if ie<0: c['rt_ref_frame']=np.array([comp(rt,t) for t in o['rt_ref_frame']])
                else: c['rt_ref_frame']=np.array([comp(rt,t) for t in o['rt_ref_frame']])
                x=obsx(c)
                if ccp: x=x[np.repeat(oi['indices_frame_camintrinsics_camextrinsics'][:,1]==icam,2*R.H*R.W)]
                return x
            rt=np.zeros(6)
            Jc=ref.numgrad(cross,np.zeros(6),1e-4,order=2)
            for _ in range(3): rt=rt-np.linalg.lstsq(Jc,cross(rt),rcond=None)[0]
            Ti=ref.inv_T(ref.T_from_rt(rt)); v=np.append(p,1)
            if ccp: pc=(Ti@v)[:3]
            else:
                T1=np.eye(4) if ie<0 else ref.T_from_rt(o['rt_cam_ref'][ie])
                pc=(T1@Ti@ref.inv_T(T0)@v)[:3]
            return ref.project(pc,lens,o['intrinsics'][icam])
        V=np.zeros((2,2)); eps=.05
        ctx.case('reoptimize',key=(ctx.job['name'],rep),lensmodel=lens,method=method,icam=icam,observations=n)
        for k in range(n//2):
            i=np.unravel_index(k,oi['observations_board'].shape[:3])
            for xy in (0,1):
                q=[]
                for sg in (1,-1):
                    o=dict(oi,observations_board=np.array(oi['observations_board'])); w=o['observations_board'][i][2]
                    o['observations_board'][i][xy]+=sg*eps/w
                    q.append(qplus(solve(o)))
                d=(q[0]-q[1])/(2*eps); V+=np.outer(d,d)
        Vr=mrcal.projection_uncertainty(p,model,method=method,observed_pixel_uncertainty=1.)
        ctx.close(Vr,V,f'reoptimize/{method}',rtol=2e-2,atol=0,lensmodel=lens,icam=icam,reg=s['do_apply_regularization'])
