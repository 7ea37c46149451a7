'''Projection derivatives are the true derivatives of the projection'''
import numpy as np
TITLE = 'projection derivatives'
RULE  = ('An execution is one (lens model, intrinsics, point[, batch]) projected with gradients by the real library; its gradients are compared with 6th-order '
         'central differences of the same library\'s projection, and the projection with/without gradients, batched/unbatched, Python/C are compared with each other. '
         'Non-trivial: the projection is finite, and the point, intrinsics and model are random and distinct.')
ASSUMPTIONS = ['points within 10 finite-difference steps of a spline knot line are moved away from it, because the second derivative is discontinuous there']
MIN_EVALUATIONS = 200
FLOORS = {'gradient':2000,'batch':20,'capi':40}

def jobs(tier,seed):
    return [dict(name=f'models{k}',k=k) for k in range(7)] + [dict(name='simple'),dict(name='axis')]

def run(ctx,job):
    global mrcal,ref,gen,capi
    import mrcal,ref,gen,capi
    if job['name']=='simple': return simple(ctx)
    if job['name']=='axis':   return axis(ctx)
    for rep in range(ctx.n(6,60)):
        models = gen.lensmodels(ctx.rng,nspline=4 if ctx.thorough else 3,ncahvore=4)
        for n,lm in enumerate(models):
            if n%7 != job['k']: continue
            one_model(ctx,lm,rep)

def away_from_knots(rng,lm,p,margin=.02):
    c = ref.config(lm)
    if c['kind']!='SPLINED': return p
    s = ref.spline_grid(c)
    for _ in range(50):
        u = ref.u_stereographic(p)
        ix = np.stack((u[:,0]*s+(c['Nx']-1)/2,u[:,1]*s+(c['Ny']-1)/2),axis=-1)
        if c['order']==2: ix = ix+.5
        bad = (np.abs(ix-np.round(ix))<margin).any(axis=-1)
        if not bad.any(): break
        R = np.stack([ref.R_from_r(rng.normal(size=3)*.1) for _ in range(bad.sum())])
        p[bad] = np.einsum('nij,nj->ni',R,p[bad])
    return p[~bad]

def one_model(ctx,lm,rep):
    rng = ctx.rng; fam = gen.family(lm); c=ref.config(lm)
    intr = gen.intrinsics(rng,lm,strength=rng.choice((.2,1.,2.)))
    n = 24
    p = gen.points(rng,lm,n)
    if c['kind'] in ('PINHOLE','OPENCV') and rep%2:
        # behind the camera: the formula still applies
        p[::5,2] *= -1
    p = away_from_knots(rng,lm,p)
    n = len(p)
    if n==0: return
    ctx.case('model',key=(lm,rep),lensmodel=lm,intrinsics=intr,p=p)
    M = f'{fam}'
    q,dp,di = mrcal.project(p,lm,intr,get_gradients=True)
    q0 = mrcal.project(p,lm,intr)
    good = np.isfinite(q).all(axis=-1) & (np.abs(q)<1e7).all(axis=-1) & ~((q==0).all(axis=-1))
    if fam.startswith('CAHVORE'):
        # projections past the range of the model are reported as 0
        good &= np.linalg.norm(q,axis=-1)>0
    if not good.any(): return
    p,q,dp,di,q0 = p[good],q[good],dp[good],di[good],q0[good]; n=len(p)
    scale = np.maximum(np.abs(q-intr[2:4]).max(axis=-1),intr[0])
    ctx.ok(np.max(np.abs(q-q0).max(axis=-1)/scale)<1e-9,f'{M}/value-depends-on-gradients','project() changes if gradients are requested',q=q,q0=q0)

    # --- d/dp. In units of |p|, so that everything is in pixels
    mag = np.linalg.norm(p,axis=-1)
    h = 3e-4
    C = ((1,3/4),(2,-3/20),(3,1/60))
    num = np.zeros_like(dp)
    d   = (np.eye(3)*h)[None]*mag[:,None,None]            # (n,3,3)
    for k,w in C:
        a = mrcal.project(p[:,None,:]+k*d,lm,intr); b = mrcal.project(p[:,None,:]-k*d,lm,intr)
        num += w*np.swapaxes(a-b,-1,-2)/h                # (n,2,3), px
    ana = dp*mag[:,None,None]
    sc = np.maximum(scale,np.abs(num).max(axis=(-1,-2)))
    tol = 1e-6
    err = np.abs(ana-num).max(axis=(-1,-2))/sc
    if not np.isfinite(err).all() or err.max()>tol:
        i = int(np.nanargmax(np.where(np.isfinite(err),err,np.inf)))
        ctx.violate(f'{M}/dq_dp',f'reported {ana[i].tolist()} numerical {num[i].tolist()} (pixels per unit of relative motion) for p={p[i].tolist()}',lensmodel=lm,intrinsics=intr)
    ctx.counts['gradient']=ctx.counts.get('gradient',0)+6*n
    ctx.maxerr[f'{M}/dq_dp'] = max(ctx.maxerr.get(f'{M}/dq_dp',0),float(np.nanmax(err)/tol))
    # --- d/dintrinsics
    Ni = len(intr)
    step = np.full(Ni,1e-4); step[:2]=intr[0]*1e-2; step[2:4]=10.
    if c['kind']=='SPLINED': step[4:]=1e-2
    npt = min(n,8) if Ni<60 else min(n,4)
    sel = rng.permutation(n)[:npt]
    num = np.zeros((npt,2,Ni))
    I = np.eye(Ni)*step
    for k,w in C:
        a = mrcal.project(p[sel,None,:],lm,intr+k*I); b = mrcal.project(p[sel,None,:],lm,intr-k*I)
        num += w*np.swapaxes(a-b,-1,-2)/step
    err = np.abs(di[sel]-num)
    lim = 1e-6*np.maximum(np.abs(num),1e-4*scale[sel,None,None]/np.maximum(step,1e-12)*1e-2)
    # roundoff of the differences
    lim = lim + 2e-13*np.maximum(np.abs(q[sel]).max(),1e3)/step*4
    bad = ~(err<=lim)
    if bad.any():
        i,j,k = [int(x[0]) for x in np.nonzero(bad)]
        ctx.violate(f'{M}/dq_di{"[spline]" if c["kind"]=="SPLINED" and k>=4 else f"[{k}]"}',f'dq[{j}]/dintrinsics[{k}] = {di[sel][i,j,k]:.10g}, numerical {num[i,j,k]:.10g} p={p[sel][i].tolist()}',lensmodel=lm,intrinsics=intr)
    ctx.counts['gradient']+=2*Ni*npt
    ctx.maxerr[f'{M}/dq_di'] = max(ctx.maxerr.get(f'{M}/dq_di',0),float(np.nanmax(err/lim)))
    # --- one at a time
    ctx.counts['batch']=ctx.counts.get('batch',0)+1
    for i in range(min(n,6)):
        a = mrcal.project(p[i],lm,intr,get_gradients=True)
        for name,x,y in (('q',a[0],q[i]),('dq_dp',a[1],dp[i]),('dq_di',a[2],di[i])):
            ctx.close(x,y,f'{M}/batched-differs/{name}',atol=1e-12,rtol=1e-10,msg='one point vs a batch')
        ctx.close(mrcal.project(p[i],lm,intr),q0[i],f'{M}/batched-differs/q0',atol=1e-9,rtol=1e-10,msg='one point vs a batch, no gradients')
    # --- C, with all the combinations of outputs
    for a_p in (0,1):
        for a_i in (0,1):
            ctx.counts['capi']=ctx.counts.get('capi',0)+1
            rc,cq,cdp,cdi = capi.project(p,lm,intr,a_p,a_i)
            t = f'C/{M}/want_dp={a_p},want_di={a_i}'
            ctx.ok(rc==1,t+'/rc',f'mrcal_project() returned {rc}')
            ctx.close(cq,q,t+'/q',atol=1e-7,rtol=1e-10)
            if a_p: ctx.close(cdp,dp,t+'/dq_dp',atol=1e-12,rtol=1e-10)
            if a_i: ctx.close(cdi,di,t+'/dq_di',atol=1e-12,rtol=1e-10)

def simple(ctx):
    '''The standalone functions of the simple projections: python and C'''
    rng = ctx.rng
    for rep in range(ctx.n(40,400)):
        for w in ('pinhole','stereographic','lonlat','latlon'):
            lm = 'LENSMODEL_'+w.upper()
            p = gen.points(rng,lm,7)
            if w=='pinhole': p[::3] *= -1
            f = gen.intrinsics(rng,lm) if rep%4 else np.array((1.,1.,0.,0.))
            fp = getattr(mrcal,'project_'+w)
            ctx.case('simple',key=(w,rep),which=w,p=p,fxycxy=f)
            args = (p,f) if rep%4 else (p,)
            q,dq = fp(*args,get_gradients=True)
            ctx.close(fp(*args),q,f'simple/{w}/value-depends-on-gradients',rtol=1e-12,atol=1e-12)
            qq,dp,di = mrcal.project(p,lm,f,get_gradients=True)
            ctx.close(q,qq,f'simple/{w}/q-vs-project',rtol=1e-11,atol=1e-11)
            ctx.close(dq,dp,f'simple/{w}/dq-vs-project',rtol=1e-11,atol=1e-11)
            for i in range(len(p)):
                m = np.linalg.norm(p[i])
                num = ref.numgrad(lambda x: fp(x,f),p[i],3e-4*m)*m
                ctx.close(dq[i]*m,num,f'simple/{w}/dq_dv',atol=1e-9,rtol=2e-7)
                ctx.counts['gradient']=ctx.counts.get('gradient',0)+6
            cq,cdq = capi.project_simple(w,p,f); cq0,_ = capi.project_simple(w,p,f,False)
            ctx.close(cq,q,f'C/simple/{w}/q',atol=1e-9,rtol=1e-12)
            ctx.close(cq0,q,f'C/simple/{w}/q-nograd',atol=1e-9,rtol=1e-12)
            ctx.close(cdq,dq,f'C/simple/{w}/dq',atol=1e-12,rtol=1e-11)
            ctx.counts['capi']=ctx.counts.get('capi',0)+1

def axis(ctx):
    '''Points exactly on, or next to, the optical axis: the special branches'''
    rng = ctx.rng
    for rep in range(ctx.n(8,80)):
        for lm in gen.lensmodels(rng,nspline=1,ncahvore=3):
            fam = gen.family(lm)
            intr = gen.intrinsics(rng,lm)
            o = np.array((0,0,1.))
            if fam.startswith('CAHV'):
                if rep%2: intr[4:6] = 0
                o = ref.axis_o(intr[4],intr[5])
            z = 10**rng.uniform(-1,3)
            for off in (0.,1e-11,1e-9,1e-7,1e-5):
                e = np.array((rng.normal(),rng.normal(),rng.normal()))*off
                p = (o+e)*z
                ctx.case('axis',key=(lm,rep,off),lensmodel=lm,intrinsics=intr,p=p)
                q,dp,di = mrcal.project(p,lm,intr,get_gradients=True)
                if fam.startswith('SPLINED2'): h=1e-6; tol=1e-3    # may be at a knot: discontinuous curvature
                elif fam.startswith('SPLINED'): h=1e-5; tol=1e-5
                else: h=1e-3; tol=1e-6
                if fam=='CAHVORE': h=1e-2
                num = ref.numgrad(lambda x: mrcal.project(x,lm,intr),p,h*z,order=8 if h>1e-4 else 2)*z
                ctx.close(dp*z,num,f'axis/{fam}/dq_dp',atol=intr[0]*tol,rtol=tol,msg=f'relative offset from the axis {off}')
                st = np.full(len(intr),1e-4); st[:4]=1.
                numi = ref.numgrad(lambda i: mrcal.project(p,lm,i),intr,st,order=2 if fam.startswith('SPL') else 6)
                ctx.close(di,numi,f'axis/{fam}/dq_di',atol=intr[0]*1e-6,rtol=1e-6,msg=f'relative offset from the axis {off}')
                ctx.counts['gradient']=ctx.counts.get('gradient',0)+6
