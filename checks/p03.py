'''Each lens model computes its documented projection'''
import numpy as np
TITLE = 'lens model formulas'
RULE  = ('An execution is one (lens model, configuration, intrinsics) with a batch of points projected by the real library (Python and C); every pixel is compared with an '
         'independent implementation of the documented formula (and with OpenCV itself for the OpenCV models). Non-trivial: random, distinct intrinsics and points.')
ASSUMPTIONS = ['the reference formulas in lib/ref.py are transcribed from doc/lensmodels.org and from the papers it cites',
               'CAHVORE points whose angle off the axis is out of the range of the model are judged only for being flagged']
MIN_EVALUATIONS = 200
FLOORS = {'point':4000,'opencv':500,'knots':20,'symmetry':100}

def jobs(tier,seed):
    return [dict(name=f'models{k}',k=k) for k in range(4)] + [dict(name='opencv'),dict(name='knots'),dict(name='special')]

def run(ctx,job):
    global mrcal,ref,gen,capi
    import mrcal,ref,gen,capi
    n=job['name']
    if n=='opencv': return opencv(ctx)
    if n=='knots':  return knots(ctx)
    if n=='special':return special(ctx)
    for rep in range(ctx.n(60,600)):
        for n,lm in enumerate(gen.lensmodels(ctx.rng,nspline=4,ncahvore=4)):
            if n%4 == job['k']: one_model(ctx,lm,rep)

def count(ctx,k,n=1): ctx.counts[k]=ctx.counts.get(k,0)+n

def one_model(ctx,lm,rep):
    rng=ctx.rng; fam=gen.family(lm); c=ref.config(lm); k=c['kind']
    intr = gen.intrinsics(rng,lm,strength=rng.choice((.2,1.,2.)))
    p = gen.points(rng,lm,60)
    if k in ('PINHOLE','OPENCV','CAHVOR') and rep%2: p[::5,2] *= -1
    if k in ('STEREOGRAPHIC','LONLAT','LATLON') and rep%3==0:
        # anywhere, but the poles
        d = rng.normal(size=(20,3)); d/=np.linalg.norm(d,axis=-1,keepdims=True)
        sing = np.abs(d[:,{'STEREOGRAPHIC':2,'LONLAT':1,'LATLON':0}[k]] + (1 if k=='STEREOGRAPHIC' else 0))
        d = d[sing>.02] if k=='STEREOGRAPHIC' else d[sing<.99]
        p = np.concatenate((p,d*10**rng.uniform(-3,3)))
    if k=='CAHVOR':
        o = ref.axis_o(intr[4],intr[5]); p = p[np.abs(p@o)>.1*np.linalg.norm(p,axis=-1)]
    ctx.case('model',key=(lm,rep),lensmodel=lm,intrinsics=intr,p=p)
    q = mrcal.project(p,lm,intr)
    qr = ref.project(p,lm,intr)
    if k=='CAHVORE':
        o = ref.axis_o(intr[4],intr[5]); zeta=p@o; l=np.linalg.norm(p-zeta[:,None]*o,axis=-1)
        th,res = ref.cahvore_theta(zeta,l,intr[8-1+2:])
        n = np.linalg.norm(p,axis=-1)
        g = (res<1e-9*n)&(np.abs(th-np.arctan2(l,zeta))<.2)&(th*abs(c['linearity'])<1.45)&np.isfinite(qr).all(axis=-1)
        # so close to the E-pupil that the pupil moves past the point? Not meaningful
        g &= n > .5
        ctx.ok((np.linalg.norm(q[g],axis=-1)>0).all(),'CAHVORE/failed','a projection well in range failed',p=p[g],q=q[g],intrinsics=intr,lensmodel=lm)
        p,q,qr = p[g],q[g],qr[g]
    g = np.isfinite(qr).all(axis=-1) & (np.abs(qr-intr[2:4])<intr[0]*50).all(axis=-1)
    count(ctx,'point',int(g.sum()))
    if not g.any(): return
    scale = np.maximum(np.abs(qr[g]-intr[2:4]).max(axis=-1),intr[0])[:,None]
    # the spline polynomials grow quickly out of the grid
    if k=='SPLINED':
        scale = scale * np.maximum(1,np.abs(ref.splined_deltau(ref.u_stereographic(p[g]),lm,intr)).max(axis=-1))[:,None]
    tol = 1e-9 if k!='CAHVORE' else 1e-8
    ctx.close(q[g]/scale,qr[g]/scale,f'{fam}/value',atol=tol,rtol=0,msg='projection differs from the documented formula',lensmodel=lm,intrinsics=intr,p=p[g])
    rc,qc,_,_ = capi.project(p,lm,intr,dp=False,di=False)
    ctx.ok(rc==1,f'C/{fam}/rc','mrcal_project() failed')
    ctx.close(qc[g]/scale,qr[g]/scale,f'C/{fam}/value',atol=tol,rtol=0,lensmodel=lm,intrinsics=intr,p=p[g])
    # central models see directions only
    if k!='CAHVORE':
        s = 10**rng.uniform(-3,3,(len(p),1))
        ctx.close(mrcal.project(p*s,lm,intr)[g]/scale,q[g]/scale,f'{fam}/depends-on-range',atol=1e-10,rtol=0)
    elif g.any():
        I=intr.copy(); I[-3:]=0
        a=mrcal.project(p[g],lm,I); b=mrcal.project(p[g]*10**rng.uniform(-3,3),lm,I)
        ctx.close(a/scale,b/scale,f'{fam}/E=0-depends-on-range',atol=1e-8,rtol=0)
        # linearity=1 is plain CAHVOR if E=0
        if c['linearity']==1. :
            ctx.close(a/scale,mrcal.project(p[g],'LENSMODEL_CAHVOR',I[:9])/scale,f'{fam}/linearity1-is-CAHVOR',atol=1e-8,rtol=0)
            count(ctx,'cahvore1')
    if fam in ('OPENCV4','OPENCV5','OPENCV8'):
        big = {4:5,5:8,8:12}[c['n']]; I = np.zeros(4+big); I[:len(intr)]=intr
        ctx.close(mrcal.project(p,f'LENSMODEL_OPENCV{big}',I)[g]/scale,q[g]/scale,f'{fam}/nested',atol=1e-12,rtol=0)
    count(ctx,'symmetry')

def opencv(ctx):
    import cv2
    rng=ctx.rng
    for rep in range(ctx.n(300,3000)):
        n = (4,5,8,12)[rep%4]; lm=f'LENSMODEL_OPENCV{n}'
        intr = gen.intrinsics(rng,lm,strength=rng.choice((.2,1.,3.)))
        p = gen.points(rng,lm,20)
        ctx.case('opencv',key=(lm,rep),lensmodel=lm,intrinsics=intr,p=p)
        K = np.array(((intr[0],0,intr[2]),(0,intr[1],intr[3]),(0,0,1.)))
        r = gen.r(rng,'any'); t = rng.normal(size=3)
        # in the camera frame
        qc,_ = cv2.projectPoints(p[:,None,:].copy(),np.zeros(3),np.zeros(3),K,intr[4:].copy())
        q = mrcal.project(p,lm,intr)
        ctx.close(q/intr[0],qc[:,0]/intr[0],f'{lm}/cv2',atol=1e-10,rtol=1e-10,msg='projection differs from OpenCV')
        # and with a pose: mrcal.transform_point + project == cv2.projectPoints(rvec,tvec)
        pr = mrcal.transform_point_rt(mrcal.invert_rt(np.concatenate((r,t))),p)
        qc,_ = cv2.projectPoints(pr[:,None,:].copy(),r,t,K,intr[4:].copy())
        ctx.close(mrcal.project(mrcal.transform_point_rt(np.concatenate((r,t)),pr),lm,intr)/intr[0],qc[:,0]/intr[0],f'{lm}/cv2-pose',atol=1e-8,rtol=1e-8)
        count(ctx,'opencv',len(p)-1)

def knots(ctx):
    rng=ctx.rng
    for rep in range(ctx.n(60,600)):
        lm = gen.splined(rng,(2,3)[rep%2],maxn=40); c=ref.config(lm)
        ctx.case('knots',key=lm,lensmodel=lm)
        ux,uy = mrcal.knots_for_splined_models(lm)
        rx,ry = ref.spline_knots(c)
        ctx.close(ux,rx,'knots/x',atol=1e-12,rtol=1e-12); ctx.close(uy,ry,'knots/y',atol=1e-12,rtol=1e-12)
        ctx.ok(len(ux)==c['Nx'] and len(uy)==c['Ny'],'knots/count')
        # the documented field of view is inside the well-defined spline region
        edge = 2*np.tan(np.radians(c['fov']/4)); m = {2:.5,3:1}[c['order']]
        ctx.ok(edge <= (c['Nx']-1)/2/ref.spline_grid(c) - m/ref.spline_grid(c)+1e-9,'knots/fov','the spline does not cover the requested field of view')
        # knots are where the third/second derivative is discontinuous, control points have local support
        intr = gen.intrinsics(rng,lm)
        jx,jy = int(rng.integers(c['Nx'])),int(rng.integers(c['Ny'])); comp=int(rng.integers(2))
        I = intr.copy(); I[4+2*(jy*c['Nx']+jx)+comp] += .01
        u = np.stack((rng.uniform(ux[0],ux[-1],60),rng.uniform(uy[0],uy[-1],60)),axis=-1)
        p = mrcal.unproject_stereographic(u)
        d = (mrcal.project(p,lm,I)-mrcal.project(p,lm,intr))/intr[:2]
        s = ref.spline_grid(c); R=(c['order']+1)/2
        ax = np.abs(u[:,0]*s+(c['Nx']-1)/2-jx); ay=np.abs(u[:,1]*s+(c['Ny']-1)/2-jy)
        # extrapolation happens in the outermost half/whole segment; look inside
        ins = (np.abs(u[:,0])*s<(c['Nx']-1)/2-R+1) & (np.abs(u[:,1])*s<(c['Ny']-1)/2-R+1)
        out = ins & ((ax>R+1e-9)|(ay>R+1e-9))
        ctx.ok(np.abs(d[out]).max(initial=0)<1e-12,'knots/local-support','a control point has an effect outside of its support',lensmodel=lm,u=u[out],d=d[out])
        ctx.ok(np.abs(d[:,1-comp]).max()<1e-12,'knots/component','an x control value moves y, or the reverse')
        near = ins & (ax<R*.8)&(ay<R*.8)
        ctx.ok((d[near][:,comp]>0).all(),'knots/effect','a control point has no effect in its support')
        # partition of unity
        I = intr.copy(); I[4+comp::2]+=.02
        d = (mrcal.project(p,lm,I)-mrcal.project(p,lm,intr))/intr[:2]
        ctx.close(d[:,comp],np.full(len(u),.02),'knots/partition-of-unity',atol=1e-9,rtol=0)
        # linear in the control points
        I2 = intr.copy(); I2[4:]=rng.uniform(-.1,.1,len(intr)-4)
        I3 = intr.copy(); I3[4:]=intr[4:]+2*I2[4:]; I0=intr.copy(); I0[4:]=0
        q0 = mrcal.project(p,lm,I0)
        ctx.close(q0/intr[:2],mrcal.project(p,'LENSMODEL_STEREOGRAPHIC',intr[:4])/intr[:2],'knots/zero-is-stereographic',atol=1e-11)
        ctx.close((mrcal.project(p,lm,I3)-q0)/intr[:2],(mrcal.project(p,lm,intr)-q0+2*(mrcal.project(p,lm,I2)-q0))/intr[:2],'knots/linear',atol=1e-9,rtol=0)
    for bad in ('LENSMODEL_PINHOLE','LENSMODEL_OPENCV8','LENSMODEL_CAHVORE_linearity=0.1'):
        ctx.raises(lambda: mrcal.knots_for_splined_models(bad),f'knots/accepts-{bad}')

def special(ctx):
    '''Points whose projection is known exactly'''
    rng=ctx.rng
    for rep in range(ctx.n(60,600)):
        for lm in gen.lensmodels(rng,nspline=1,ncahvore=1):
            c=ref.config(lm); k=c['kind']; fam=gen.family(lm)
            intr = gen.intrinsics(rng,lm)
            ctx.case('special',key=(lm,rep),lensmodel=lm,intrinsics=intr)
            z = np.array((0,0,10**rng.uniform(-3,3)))
            q = mrcal.project(z,lm,intr); want = intr[2:4]
            if k=='SPLINED': want = want+intr[:2]*ref.splined_deltau(np.zeros((1,2)),lm,intr)[0]
            if k in ('CAHVOR','CAHVORE'):
                z = ref.axis_o(intr[4],intr[5])*z[2]*10
                q = mrcal.project(z,lm,intr); want = intr[2:4]+intr[:2]*z[:2]/z[2]
            ctx.close(q/intr[0],want/intr[0],f'{fam}/axis',atol=1e-9,rtol=0,msg='a point on the optical axis')
            # fx,fy,cx,cy act as a scale and a shift
            p = gen.points(rng,lm,10); a=mrcal.project(p,lm,intr)
            I=intr.copy(); I[:4]=(1,1,0,0); u=mrcal.project(p,lm,I)
            g=np.isfinite(a).all(axis=-1)&np.isfinite(u).all(axis=-1)&(np.linalg.norm(u,axis=-1)>0)&(np.linalg.norm(u,axis=-1)<1e3)
            ctx.close(((a-intr[2:4])/intr[:2])[g],u[g],f'{fam}/core',atol=1e-9,rtol=1e-10)
            count(ctx,'symmetry')
            # the standalone simple projections
        for w in ('pinhole','stereographic','lonlat','latlon'):
            lm='LENSMODEL_'+w.upper(); f=gen.intrinsics(rng,lm); p=gen.points(rng,lm,20)
            ctx.case('simple',key=(w,rep),which=w,f=f)
            r = ref.project(p,lm,f)
            ctx.close(getattr(mrcal,'project_'+w)(p,f)/f[0],r/f[0],f'simple/{w}',atol=1e-10,rtol=1e-10)
            for g in (True,False):
                qc,_ = capi.project_simple(w,p,f,g); ctx.close(qc/f[0],r/f[0],f'C/simple/{w}',atol=1e-10,rtol=1e-10)
            # defaults
            ctx.close(getattr(mrcal,'project_'+w)(p),ref.project(p,lm,np.array((1.,1,0,0))),f'simple/{w}/default',atol=1e-10,rtol=1e-10)
            v = ref.project(p,lm,np.array((1.,1,0,0)))
            ctx.close(getattr(mrcal,'project_'+w)(p,np.array((1.,1,0,0))),v,f'simple/{w}/unit',atol=1e-10,rtol=1e-10)
        # stereographic: exact poles behind are infinite or huge, not a plausible pixel
        v = np.array((0,0,-1.))
        q = mrcal.project_stereographic(v)
        ctx.ok(not np.isfinite(q).all() or np.abs(q).max()>1e6,'simple/stereographic/behind','the point exactly behind projected to a plausible pixel',q=q)
