'''mrcal.optimize()'''
import numpy as np, warnings
TITLE = 'optimization'
RULE  = ('An execution is one mrcal.optimize() call on a generated problem; the monitor compares the arrays, weights and statistics before and after, and re-evaluates '
         'the measurements at the seed and at the solution with mrcal.optimizer_callback() and with an independent reference. Non-trivial: distinct problem, Nstate>0, the state moved.')
ASSUMPTIONS = ['when outliers were newly marked, the cost is compared on the measurements that were kept in the end, to 1e-3: each solve minimizes a different cost',
               'libdogleg is as installed']
MIN_EVALUATIONS = 100
FLOORS = {'solved':100,'rejected outliers':30,'noise-free':15,'locked':100,'repeat':30,'stationary':30,'points only':5,'triangulated':5}
TIMEOUT = dict(quick=500,thorough=7200)

def jobs(tier,seed):
    return [dict(name=f'random{k}',k=k) for k in range(4)]+[dict(name='noise-free'),dict(name='outliers'),dict(name='points'),dict(name='big',weight=3)]

LM = ('LENSMODEL_PINHOLE','LENSMODEL_STEREOGRAPHIC','LENSMODEL_OPENCV4','LENSMODEL_OPENCV5','LENSMODEL_OPENCV8','LENSMODEL_CAHVOR',
      'LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=8_Ny=6_fov_x_deg=120','LENSMODEL_SPLINED_STEREOGRAPHIC_order=2_Nx=7_Ny=6_fov_x_deg=130','LENSMODEL_OPENCV12','LENSMODEL_CAHVORE_linearity=0.37')

def run(ctx,job):
    global mrcal,ref,gen,prob,vlib
    import mrcal,ref,gen,prob,vlib
    warnings.simplefilter('ignore')
    n = job['name']
    with vlib.quiet_fds():
        if n=='noise-free': noisefree(ctx)
        elif n=='outliers': outliers(ctx)
        elif n=='points': points(ctx)
        elif n=='big': big(ctx)
        else:
            for rep in range(ctx.n(25,300)): solve(ctx,problem(ctx.rng,rep*4+job['k']),(rep,job['k']))

def perturb(rng,oi,di=1.,dp=.01):
    lm=oi['lensmodel']
    i=oi['intrinsics']
    i[:,:4] += rng.normal(size=(len(i),4))*(8,8,8,8)*di
    if 'SPLINED' in lm: i[:,4:] += rng.normal(size=i[:,4:].shape)*1e-3*di
    elif i.shape[1]>4 and 'CAHVOR' not in lm: i[:,4:] += rng.normal(size=i[:,4:].shape)*1e-3*di
    return oi

def problem(rng,n,**kw):
    lm = LM[n%len(LM)]
    a = dict(lensmodel=lm,Ncam=int(rng.integers(1,4)),Nframes=int(rng.integers(3,8)),WH=(int(rng.integers(4,8)),int(rng.integers(4,7))),
             Npoints=int(rng.integers(0,6)) if rng.uniform()<.4 else 0,cameras=str(rng.choice(('cam0-ref','all','moving','cam0-ref'))),
             noise=float(rng.choice((.1,.5,2.))),outliers=float(rng.choice((0,.05))),outlier_kind=str(rng.choice(('mixed','minus1'))),warp=bool(rng.uniform()<.7),strength=.3,visible=.9,jitter=.005,obs_per_point=3,
             spacing=float(rng.choice((.1,.037,1.))))
    if a['Npoints']: a['Npoints_fixed']=int(rng.integers(0,a['Npoints']+1))
    a.update(kw)
    if not a['Npoints']: a['Npoints_fixed']=0
    oi = prob.make(rng,**a)
    oi['do_apply_outlier_rejection']=bool(rng.uniform()<.5)
    if rng.uniform()<.15: oi.pop('do_apply_outlier_rejection')
    perturb(rng,oi)
    return oi

def copy(oi): return {k:(np.array(v) if isinstance(v,np.ndarray) else v) for k,v in oi.items()}
def cb(o,J=False):
    o={k:v for k,v in o.items() if k!='do_apply_outlier_rejection'}
    b,x,j,_=mrcal.optimizer_callback(**o,no_factorization=True,no_jacobian=not J)
    return b,x,j
KEYS=('intrinsics','rt_cam_ref','rt_ref_frame','points','calobject_warp')

def solve(ctx,oi,key,must=False,note=''):
    '''One solve, judged. Returns the solution and the statistics, or None'''
    D=dict(oi=oi)
    R=prob.Ref(oi); o=copy(oi)
    ctx.case('solve'+note,key=key,nontrivial=R.Nstate>0,lensmodel=R.lm,Nstate=R.Nstate,m=R.m,counts=(R.Ni,R.Ne,R.Nf,R.Np,R.Nfixed,R.Nb,R.No,R.Nt),sel=R.sel,oi=oi)
    if R.Nstate==0: return
    reject = o.get('do_apply_outlier_rejection',True)
    _,xseed,_=cb(oi)
    try: stats=mrcal.optimize(**o)
    except Exception as e:
        # a problem that isn't overdetermined needn't have a solution
        ctx.ok(not must and R.m<=R.Nstate,'optimize/failed',f'{e}',**D)
        ctx.counts['failed']=ctx.counts.get('failed',0)+1
        return
    ctx.counts['solved']=ctx.counts.get('solved',0)+1
    if R.Nt: R.vtri=tri_vectors(oi)
    # --- locked things
    for k in oi:
        if not isinstance(oi[k],np.ndarray): ctx.ok(o[k] is oi[k] or o[k]==oi[k],'locked/scalar',k,**D); continue
        if k in KEYS or k=='observations_board': continue
        ctx.same(o[k],oi[k],f'locked/{k}','modified',**D)
    lock=[]
    L=R.sel
    if oi['intrinsics'] is not None:
        if not L['do_optimize_intrinsics_core']: lock.append(('intrinsics-core',o['intrinsics'][:,:4],oi['intrinsics'][:,:4]))
        if not L['do_optimize_intrinsics_distortions']: lock.append(('intrinsics-distortions',o['intrinsics'][:,4:],oi['intrinsics'][:,4:]))
    if not L['do_optimize_extrinsics']: lock.append(('extrinsics',o['rt_cam_ref'],oi['rt_cam_ref']))
    if not L['do_optimize_frames']:
        if R.Nf: lock.append(('frames',o['rt_ref_frame'],oi['rt_ref_frame']))
        if R.Np: lock.append(('points',o['points'],oi['points']))
    elif R.Nfixed: lock.append(('fixed-points',o['points'][-R.Nfixed:],oi['points'][-R.Nfixed:]))
    if oi['calobject_warp'] is not None and not (L['do_optimize_calobject_warp'] and R.Nb): lock.append(('calobject_warp',o['calobject_warp'],oi['calobject_warp']))
    for n,a,b in lock:
        ctx.counts['locked']=ctx.counts.get('locked',0)+1
        ctx.same(a,b,f'locked/{n}',n+' was not to be optimized, and changed',**D)
    # --- weights
    newout=0
    if R.Nb:
        a,b=o['observations_board'],oi['observations_board']
        ctx.same(a[...,:2],b[...,:2],'locked/pixels','observed pixels changed',**D)
        w0,w1=b[...,2],a[...,2]
        ch = w1!=w0
        ctx.ok((w1[ch]==-w0[ch]).all() and (w0[ch]>0).all(),'weights/negated','a weight changed other than by being negated',**D)
        newout=int(ch.sum())
        if not reject: ctx.ok(newout==0,'weights/no-rejection',f'{newout} outliers marked, with outlier rejection off',**D)
        ctx.ok(stats['Noutliers_board']==int((w1<0).sum()),'stats/Noutliers_board',f'{stats["Noutliers_board"]} reported; {(w1<0).sum()} marked',**D)
        if newout: ctx.counts['rejected outliers']=ctx.counts.get('rejected outliers',0)+1
    # --- what is reported is what was returned
    b,x,J=cb(o,J=True)
    if R.Nt:
        # the outlier bits of these aren't reported
        xr=x; tri=slice(R.m_board+R.m_point,R.m_board+R.m_point+R.m_tri)
        keep=np.ones(R.m,bool); keep[tri]=(stats['x'][tri]!=0)
    else: keep=np.ones(R.m,bool)
    ctx.close(stats['b_packed'],b,'stats/b_packed',atol=1e-13,rtol=1e-11,msg='the reported state is not that of the returned arrays',**D)
    ctx.close(stats['x'][keep],x[keep],'stats/x',atol=1e-8,rtol=1e-9,msg='the reported residuals are not those of the returned arrays',**D)
    ctx.close(stats['rms_reproj_error__pixels']**2*R.m,stats['x']@stats['x'],'stats/rms',atol=1e-15,rtol=1e-10,**D)
    for k in KEYS:
        if o.get(k) is not None: ctx.ok(np.isfinite(o[k]).all(),f'finite/{k}','the solution is not finite',**D)
    R1=prob.Ref(o)
    if R.Nt: R1.vtri=R.vtri
    xr=R1.measure()
    keep2=keep.copy()
    # CAHVORE may fail to project if the solve makes its distortions large
    if 'CAHVORE' not in R.lm and stats['rms_reproj_error__pixels']<20: ctx.close(x[keep2],xr[keep2],'x/reference',atol=1e-3,rtol=1e-6,msg='the residuals at the solution do not match the reference',**D)
    # --- the cost, on the measurements that were kept
    seed=dict(copy(oi))
    if R.Nb: seed['observations_board'][...,2]=o['observations_board'][...,2]
    _,xs,_=cb(seed)
    c0,c1=(xs[keep]@xs[keep]),(stats['x']@stats['x'])
    if newout==0 and keep.all():
        ctx.ok(c1<=c0*(1+1e-12)+1e-25,'cost/increased',f'seed cost {c0!r}, solution cost {c1!r}',**D)
    else:
        ctx.ok(c1<=c0*(1+1e-3)+1e-25,'cost/increased-with-rejection',f'seed cost on the measurements kept: {c0!r}, solution cost {c1!r}',**D)
    if not np.array_equal(b,cb(oi)[0]): ctx.counts['moved']=ctx.counts.get('moved',0)+1
    return o,stats,J,R

def stationary(ctx,o,stats,J,R,oi,tol=1e-5):
    '''The predicted benefit of another Gauss-Newton step is nil'''
    if R.m<=R.Nstate: return
    Jd=J.toarray(); x=stats['x']
    s=np.linalg.svd(Jd,compute_uv=False)
    if s[-1]<1e-5*s[0]: return
    dx=Jd@np.linalg.lstsq(Jd,x,rcond=None)[0]
    ctx.counts['stationary']=ctx.counts.get('stationary',0)+1
    ctx.close(np.sqrt(dx@dx),0,'stationary',atol=tol*np.sqrt(x@x)+1e-6,rtol=0,msg='the solution is not a minimum: a Gauss-Newton step would improve it',oi=oi)

def big(ctx):
    '''Well-conditioned calibrations, everything optimized'''
    rng=ctx.rng
    for rep in range(ctx.n(12,120)):
        lm=('LENSMODEL_OPENCV4','LENSMODEL_OPENCV8','LENSMODEL_PINHOLE','LENSMODEL_OPENCV5')[rep%4]
        oi=problem(rng,0,lensmodel=lm,Ncam=int(rng.integers(1,4)),Nframes=12,WH=(8,7),Npoints=0,noise=.3,outliers=.03,cameras='cam0-ref',spacing=.1,select={**prob.ALL,'do_apply_regularization':True},warp=True)
        r=solve(ctx,oi,('big',rep),must=True,note=' (full calibration)')
        if not r: continue
        o,stats,J,R=r
        stationary(ctx,o,stats,J,R,oi)
        # the noise is known: it is what remains
        w=np.abs(oi['observations_board'][...,2]); inl=o['observations_board'][...,2]>0
        x=stats['x'][:R.m_board].reshape(-1,2)
        e=np.sqrt((x[inl.ravel()]**2).sum()/((w[inl]**2).sum()*2))
        ctx.ok(.2<e<.35,'residual-level',f'the residual rms is {e}; the noise was 0.3',oi=oi)
        repeat(ctx,o,stats,R)
        # the same problem, in a different order of cameras' observations weights: scaling weights scales the residuals
        q=copy(oi); q.update(do_apply_regularization=False,do_apply_outlier_rejection=False); q2=copy(q); q2['observations_board'][...,2]*=.5
        a=solve(ctx,q,('scale',rep)); b=solve(ctx,q2,('scaled',rep))
        if a and b: ctx.close(b[1]['rms_reproj_error__pixels']*2,a[1]['rms_reproj_error__pixels'],'weights/scale',rtol=1e-4,oi=oi)

def repeat(ctx,o,stats,R):
    '''Solving again from the solution does not move'''
    r=solve(ctx,o,('again',ctx.evaluations),note=' (again)')
    if not r: return
    o2,stats2,J2,_=r
    ctx.counts['repeat']=ctx.counts.get('repeat',0)+1
    # further outliers may be found if the first solve hadn't converged fully
    ctx.close(stats2['rms_reproj_error__pixels'],stats['rms_reproj_error__pixels'],'repeat/rms',rtol=1e-3,atol=1e-7,msg='solving again from the solution changes the error',oi=o)

def noisefree(ctx):
    rng=ctx.rng
    for rep in range(ctx.n(30,300)):
        lm=LM[rep%6]
        cams=str(rng.choice(('cam0-ref','moving')))
        oi=prob.make(rng,lensmodel=lm,Ncam=int(rng.integers(1,4)),Nframes=8,WH=(7,6),cameras=cams,noise=0,outliers=0.02,outlier_kind='mixed',warp=True,strength=.3,jitter=0,
                     Npoints=int(rng.integers(0,4)),obs_per_point=3,select={**prob.ALL,'do_apply_regularization':False},spacing=.1)
        oi['do_apply_outlier_rejection']=bool(rep%2)
        R=prob.Ref(oi)
        x0=cb(oi)[1]
        # at the truth there is nothing to do. Note that the generator moved the cameras a bit if jitter>0
        ctx.ok(np.abs(x0).max()<1e-6,'noise-free/seed',f'max {np.abs(x0).max()}',oi=oi)
        truth=copy(oi)
        # the residuals are numerical noise only, so "outliers" in them mean nothing
        fix=dict(oi); fix['do_apply_outlier_rejection']=False
        r=solve(ctx,fix,('noise-free truth',rep),note=' (noise-free, from the truth)')
        if r: ctx.ok(np.abs(r[1]['x']).max()<1e-5,'noise-free/fixed-point',f'left the truth: max residual {np.abs(r[1]["x"]).max()}',oi=oi)
        s=perturb(rng,copy(oi),.3)
        for k,sc in (('rt_cam_ref',3e-4),('rt_ref_frame',3e-3),('calobject_warp',1e-3)): s[k]+=rng.normal(size=s[k].shape)*sc
        if R.Np>R.Nfixed: s['points'][:R.Np-R.Nfixed]+=rng.normal(size=(R.Np-R.Nfixed,3))*3e-3
        s['do_apply_outlier_rejection']=False
        r=solve(ctx,s,('noise-free',rep),note=' (noise-free)')
        if not r: continue
        if lm.startswith('LENSMODEL_CAHVOR'): continue
        ctx.counts['noise-free']=ctx.counts.get('noise-free',0)+1
        ctx.ok(np.abs(r[1]['x']).max()<.02,'noise-free/converges',f'max residual {np.abs(r[1]["x"]).max()} after solving noise-free data',oi=s)

def outliers(ctx):
    rng=ctx.rng; tot=[0,0,0]
    for rep in range(ctx.n(30,300)):
        lm=('LENSMODEL_OPENCV4','LENSMODEL_PINHOLE','LENSMODEL_OPENCV8')[rep%3]
        oi=prob.make(rng,lensmodel=lm,Ncam=int(rng.integers(1,4)),Nframes=10,WH=(8,7),cameras=str(rng.choice(('cam0-ref','moving'))),noise=.3,outliers=.01,warp=True,strength=.3,jitter=.003,
                     select={**prob.ALL,'do_apply_regularization':True},spacing=.1,visible=1)
        w=oi['observations_board'][...,2]
        w[...]=np.sign(w)
        n=int(rng.integers(1,8))
        ii=rng.choice(w.size,n,replace=False)
        bad=np.zeros(w.size,bool); bad[ii]=True; bad=bad.reshape(w.shape)
        th=rng.uniform(0,2*np.pi,n)
        oi['observations_board'].reshape(-1,3)[ii,:2]+=np.stack((np.cos(th),np.sin(th)),axis=-1)*rng.uniform(40,300,n)[:,None]
        bad&=(w>0)
        oi['do_apply_outlier_rejection']=True
        if rng.uniform()<.3: oi.pop('do_apply_outlier_rejection')
        r=solve(ctx,oi,('outliers',rep),must=True,note=' (gross outliers)')
        if not r: continue
        o,stats,J,R=r
        w1=o['observations_board'][...,2]
        # the gross outliers may pull the first solve somewhere bad: this is judged statistically
        tot[0]+=1; tot[1]+=not (w1[bad]<0).all()
        false=((w1<0)&(w>0)&~bad).sum()
        tot[2]+=not(false<=max(6,.02*w.size))
        # no remaining corner is beyond the documented threshold
        x=stats['x'][:R.m_board].reshape(-1,2)[(w1>0).ravel()]
        k=np.abs(x).max()/np.sqrt((x**2).mean()/1.)
        ctx.close(max(0,k-5.),0,'outliers/5-sigma',atol=1e-6,rtol=0,msg=f'a kept corner is at {k} sigma',oi=oi)
        ctx.counts['gross outliers']=ctx.counts.get('gross outliers',0)+int(bad.sum())
        if rep%3==0: repeat(ctx,o,stats,R)
        # with the rejection off they're all kept
        q=copy(oi); q['do_apply_outlier_rejection']=False
        solve(ctx,q,('outliers off',rep),note=' (gross outliers, no rejection)')
    ctx.ok(tot[1]<=.25*tot[0]+2,'outliers/gross-kept',f'in {tot[1]} of {tot[0]} solves gross outliers (>40 pixels; noise .3) were kept')
    ctx.ok(tot[2]<=.25*tot[0]+2,'outliers/false',f'in {tot[2]} of {tot[0]} solves many good corners were thrown out')
    ctx.counts['solves where gross outliers were kept']=tot[1]; ctx.counts['solves with many false outliers']=tot[2]

def tri_vectors(oi):
    return np.array([mrcal.unproject(o[:2],oi['lensmodel'],oi['intrinsics'][i[1]]) for o,i in
                     zip(oi['observations_point_triangulated'],oi['indices_point_triangulated_camintrinsics_camextrinsics'])])

def points(ctx):
    rng=ctx.rng
    # discrete points only: structure from motion with some surveyed points
    for rep in range(ctx.n(25,250)):
        Np=int(rng.integers(8,20)); nf=int(rng.integers(4,Np+1))
        lm=LM[rep%5]
        oi=prob.make(rng,lensmodel=lm,Ncam=int(rng.integers(2,5)),Nframes=0,Npoints=Np,Npoints_fixed=nf,cameras=str(rng.choice(('all','moving'))),noise=.2,outliers=.05,outlier_kind='mixed',jitter=.02,obs_per_point=4,
                     select=dict(do_optimize_intrinsics_core=False,do_optimize_intrinsics_distortions=False,do_optimize_extrinsics=True,do_optimize_frames=True,do_optimize_calobject_warp=False,do_apply_regularization=bool(rng.integers(2))),warp=bool(rng.integers(2)))
        ctx.counts['points only']=ctx.counts.get('points only',0)+1
        r=solve(ctx,oi,('points',rep),note=' (points)')
        if r:
            stationary(ctx,*r,oi,tol=1e-4)
            if rep%2: repeat(ctx,r[0],r[1],r[3])
    for rep in range(ctx.n(15,150)):
        Ncam=int(rng.integers(2,4))
        oi=prob.make(rng,lensmodel=('LENSMODEL_OPENCV4','LENSMODEL_PINHOLE','LENSMODEL_STEREOGRAPHIC')[rep%3],Ncam=Ncam,Nframes=4,WH=(5,4),Ntri=int(rng.integers(3,9)),cameras='cam0-ref',noise=.2,outliers=0,spacing=.1,warp=True,
                     select=dict(do_optimize_intrinsics_core=False,do_optimize_intrinsics_distortions=False,do_optimize_extrinsics=True,do_optimize_frames=True,do_optimize_calobject_warp=bool(rng.integers(2)),do_apply_regularization=False))
        oi['do_apply_outlier_rejection']=bool(rep%2)
        ctx.counts['triangulated']=ctx.counts.get('triangulated',0)+1
        solve(ctx,oi,('triangulated',rep),note=' (triangulated points)')
