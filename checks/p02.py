'''Unprojection inverts projection'''
import numpy as np
TITLE = 'unprojection'
RULE  = ('An execution is one (lens model, intrinsics, batch of pixels) unprojected by the real library in one mode (plain/normalized/gradients/out=/C); its results are judged '
         'by reprojecting them, by comparing directions with the vectors that produced the pixels, and by 6th-order central differences. Non-trivial: finite, random, distinct.')
ASSUMPTIONS = ['the solver inside unproject() is documented to accept an error of up to 0.015 pixels; typical errors are below 1e-6 pixels and the derivative checks rely on that',
               'the direction is compared only where the projection is locally and globally one-to-one, as evaluated with the reference model']
MIN_EVALUATIONS = 200
FLOORS = {'roundtrip':2000,'gradient':500,'unreachable':10}

def jobs(tier,seed):
    return [dict(name=f'models{k}',k=k) for k in range(6)] + [dict(name='simple'),dict(name='unreachable')]

def run(ctx,job):
    global mrcal,ref,gen,capi
    import mrcal,ref,gen,capi
    if job['name']=='simple': return simple(ctx)
    if job['name']=='unreachable': return unreachable(ctx)
    for rep in range(ctx.n(8,80)):
        models = gen.lensmodels(ctx.rng,nspline=3,ncahvore=3)
        for n,lm in enumerate(models):
            if n%6 == job['k']: one_model(ctx,lm,rep)

def unit(v): return v/np.linalg.norm(v,axis=-1,keepdims=True)

def one_model(ctx,lm,rep):
    rng=ctx.rng; fam=gen.family(lm); c=ref.config(lm); k=c['kind']
    intr = gen.intrinsics(rng,lm,strength=rng.choice((.05,.5)) if k!='SPLINED' else .15,central=True)
    theta = dict(PINHOLE=1.3,STEREOGRAPHIC=2.8,LONLAT=3.,LATLON=3.,OPENCV=.7,CAHVOR=.7,CAHVORE=.8).get(k)
    if k=='SPLINED':
        e = (min(c['Nx'],c['Ny'])-1)/(c['Nx']-1) * np.tan(np.radians(c['fov']/4))
        theta = .8*2*np.arctan(e)
        if ref.spline_grid(c) > 4: intr[4:] *= 4/ref.spline_grid(c)/2
    p = gen.points(rng,lm,16,theta=theta)
    v0 = unit(p)
    q = mrcal.project(v0,lm,intr)
    if fam=='CAHVORE':
        g = np.linalg.norm(q,axis=-1)>0; v0,q=v0[g],q[g]
    if len(q)==0: return
    ctx.case('model',key=(lm,rep),lensmodel=lm,intrinsics=intr,q=q)
    v = mrcal.unproject(q,lm,intr)
    ctx.counts['roundtrip']=ctx.counts.get('roundtrip',0)+len(q)
    M=fam
    if not ctx.ok(np.isfinite(v).all() and (np.linalg.norm(v,axis=-1)>0).all(),f'{M}/not-finite','a pixel produced by a projection does not unproject',v=v,q=q,lensmodel=lm,intrinsics=intr): return
    q1 = mrcal.project(v,lm,intr)
    ctx.ok(np.abs(q1-q).max()<.015,f'{M}/reprojection','unproject() returns a vector that does not project to the pixel',q=q,q1=q1,v=v)
    ctx.maxerr[f'{M}/reprojection']=max(ctx.maxerr.get(f'{M}/reprojection',0),float(np.abs(q1-q).max()/.015))
    # the reference: a second opinion
    q2 = ref.project(v,lm,intr)
    ctx.ok(np.abs(q2-q).max()<.016,f'{M}/reprojection-reference','unproject() returns a vector that does not project to the pixel, according to the reference',q=q,q2=q2,v=v)
    # direction, in pixels: 1/f radians
    err = np.linalg.norm(unit(v)-v0,axis=-1)*intr[0]
    ctx.ok(err.max()<.05,f'{M}/direction','unproject(project(v)) is not parallel to v',v=unit(v),v0=v0,err_px=err)
    if not mrcal.lensmodel_metadata_and_config(lm)['can_project_behind_camera']:
        ctx.ok((v[:,2]>=0).all(),f'{M}/behind','a model that cannot see behind the camera unprojected to z<0',v=v)
    # --- normalization
    vn = mrcal.unproject(q,lm,intr,normalize=True)
    ctx.close(vn,unit(v),f'{M}/normalize',atol=1e-12,rtol=0,msg='normalized')
    # --- gradients
    for norm in (False,True):
        vg,dq,di = mrcal.unproject(q,lm,intr,normalize=norm,get_gradients=True)
        t = f'{M}/grad,normalize={norm}'
        ctx.close(unit(vg),unit(v),t+'/direction',atol=1e-11,rtol=0)
        if norm:
            ctx.close(vg,vn,t+'/value',atol=1e-11,rtol=0)
            ctx.close(np.einsum('ni,nij->nj',vg,dq)*intr[0],np.zeros((len(q),2)),t+'/orthogonal',atol=1e-9,rtol=0)
        good = np.linalg.norm(vg,axis=-1)<50   # stereographic scaling blows up looking backwards
        for i in np.nonzero(good)[0][:ctx.n(4,8)]:
            if near_knot(lm,v[i]): continue
            h = np.array((4.,4.)) if k!='SPLINED' else .005/ref.spline_grid(c)*intr[:2]
            order = 6 if k!='SPLINED' else 2
            f = lambda x: mrcal.unproject(x,lm,intr,normalize=norm,get_gradients=True)[0]
            num = ref.numgrad(f,q[i],h,order=order)
            # the solver is inexact: numerical noise
            ctx.close(dq[i]*intr[0],num*intr[0],t+'/dv_dq',atol=2e-4,rtol=2e-4,q=q[i],lensmodel=lm,intrinsics=intr)
            Ni = len(intr)-(3 if k=='CAHVORE' else 0)   # E!=0 cannot be unprojected
            sel = np.arange(Ni) if Ni<20 else np.unique(np.concatenate((np.arange(4),4+rng.permutation(Ni-4)[:8],nonzero_cols(di[i]))))
            st = np.full(Ni,1e-3); st[0:2]=intr[0]*1e-3; st[2:4]=4.
            if k=='SPLINED': st[4:]=1e-3; st[:2]=intr[0]*1e-4
            def fi(x):
                I = intr.copy(); I[sel]=x
                return mrcal.unproject(q[i],lm,I,normalize=norm,get_gradients=True)[0]
            num = ref.numgrad(fi,intr[sel],st[sel],order=order)
            for j in range(len(sel)):
                ctx.close(di[i][:,sel[j]]*st[sel[j]]*intr[0],num[:,j]*st[sel[j]]*intr[0],t+(f'/dv_di[{sel[j]}]' if sel[j]<4 else '/dv_di[distortion]'),atol=5e-4,rtol=5e-4,i=int(sel[j]),lensmodel=lm,intrinsics=intr,q=q[i])
            ctx.counts['gradient']=ctx.counts.get('gradient',0)+1
        # --- preallocated outputs, with garbage in them
        bad = rng.choice((np.nan,np.inf,1e300,7.))
        o = (np.full(vg.shape,bad),np.full(dq.shape,bad),np.full(di.shape,bad))
        r = mrcal.unproject(q,lm,intr,normalize=norm,get_gradients=True,out=o)
        for a,b,n in zip(o,(vg,dq,di),('v','dv_dq','dv_di')):
            ctx.close(a,b,t+f'/out-{n}',atol=1e-12,rtol=1e-9,msg=f'out= prefilled with {bad}')
    o = np.full(v.shape,np.nan)
    mrcal.unproject(q,lm,intr,out=o)
    ctx.close(o,v,f'{M}/out',atol=0,rtol=1e-12)
    # --- one at a time; C
    for i in range(0,len(q),5):
        ctx.close(mrcal.unproject(q[i],lm,intr),v[i],f'{M}/batched-differs',atol=1e-12,rtol=1e-10)
    rc,cv = capi.unproject(q,lm,intr)
    ctx.ok(rc==1,f'C/{M}/rc','failed')
    ctx.close(cv,v,f'C/{M}/v',atol=1e-12,rtol=1e-10)
    # --- pixels anywhere, also outside the imager: right, or flagged
    qa = rng.uniform(-.3,1.3,(8,2))*np.array((4000,3000))
    if k in ('LONLAT','LATLON'): qa = intr[2:4]+intr[:2]*rng.uniform(-1.5,1.5,(8,2))  # past that, angles wrap around
    va = mrcal.unproject(qa,lm,intr)
    flagged = ~np.isfinite(va).all(axis=-1)
    ctx.ok(not np.isfinite(va[flagged]).any(),f'{M}/partly-nan','a failed unprojection has finite components',v=va,q=qa,lensmodel=lm,intrinsics=intr)
    if not flagged.all():
        qq = mrcal.project(va[~flagged],lm,intr)
        ctx.ok(np.abs(qq-qa[~flagged]).max()<.015,f'{M}/reprojection-anywhere','unproject() returns a vector that does not project to the pixel, without flagging it',
               q=qa[~flagged],q1=qq,v=va[~flagged],lensmodel=lm,intrinsics=intr)
    if k=='CAHVORE':
        I = intr.copy(); I[-int(rng.integers(1,4))] = rng.choice((1e-12,-.1,.01))
        ctx.raises(lambda: mrcal.unproject(q,lm,I),f'{M}/noncentral-accepted','unproject(CAHVORE,E!=0)')

def nonzero_cols(d): 
    j = np.nonzero(np.abs(d).max(axis=0)>0)[0]; return j[j>=4][::4]

def near_knot(lm,v):
    c = ref.config(lm)
    if c['kind']!='SPLINED': return False
    s = ref.spline_grid(c); u = ref.u_stereographic(v)
    ix = np.array((u[0]*s+(c['Nx']-1)/2,u[1]*s+(c['Ny']-1)/2)) + (.5 if c['order']==2 else 0)
    return (np.abs(ix-np.round(ix))<.05).any()

def simple(ctx):
    rng=ctx.rng
    for rep in range(ctx.n(60,600)):
        for w in ('pinhole','stereographic','lonlat','latlon'):
            lm='LENSMODEL_'+w.upper()
            f = gen.intrinsics(rng,lm) if rep%4 else np.array((1.,1.,0.,0.))
            p = gen.points(rng,lm,6)
            if rep%3==0: p[0] = (0,0,rng.uniform(.1,3))
            fp,fu = getattr(mrcal,'project_'+w),getattr(mrcal,'unproject_'+w)
            q = fp(p,f)
            ctx.case('simple',key=(w,rep),which=w,q=q,fxycxy=f)
            v = fu(q,f); 
            ctx.counts['roundtrip']=ctx.counts.get('roundtrip',0)+len(q)
            ctx.close(unit(v),unit(p),f'simple/{w}/direction',atol=2e-9,rtol=0)
            if w in ('lonlat','latlon'): ctx.close(np.linalg.norm(v,axis=-1),np.ones(len(q)),f'simple/{w}/normalized',atol=1e-12)
            vg,dv = fu(q,f,get_gradients=True)
            ctx.close(vg,v,f'simple/{w}/value-depends-on-gradients',atol=1e-12,rtol=1e-12)
            for i in range(len(q)):
                n = np.linalg.norm(v[i])
                h = f[:2]*1e-3*max(1.,n if w=='pinhole' else np.sqrt(n))
                num = ref.numgrad(lambda x: fu(x,f),q[i],h)
                ctx.close(dv[i]*h,num*h,f'simple/{w}/dv_dq',atol=1e-11*max(1,n),rtol=1e-7)
                ctx.counts['gradient']=ctx.counts.get('gradient',0)+1
            cv,cdv = capi.unproject_simple(w,q,f); cv0,_=capi.unproject_simple(w,q,f,False)
            ctx.close(cv,v,f'C/simple/{w}/v',atol=1e-12,rtol=1e-12)
            ctx.close(cv0,v,f'C/simple/{w}/v-nograd',atol=1e-12,rtol=1e-12)
            ctx.close(cdv,dv,f'C/simple/{w}/dv',atol=1e-12,rtol=1e-11)
            vn,dqn,din = mrcal.unproject(q,lm,f,normalize=True,get_gradients=True)
            ctx.close(np.linalg.norm(vn,axis=-1),np.ones(len(q)),f'simple/{w}/unit',atol=1e-12)

def unreachable(ctx):
    '''Lenses whose projection has a bounded image: pixels past it cannot be unprojected'''
    rng=ctx.rng
    for rep in range(ctx.n(40,400)):
        n = (4,5,8,12)[rep%4]
        if rep%5==4:
            lm = 'LENSMODEL_CAHVOR'
            intr = np.array((1500.,1510.,2000.,1500.,.01,-.02,0.,-.35,0.))
        else:
            lm = f'LENSMODEL_OPENCV{n}'
            intr = np.concatenate((np.array((1500.,1490.,2000.,1500.)),np.zeros(n)))
            intr[4] = -rng.uniform(.2,.5)     # barrel: x(1+k x^2) has a maximum
        q = intr[2:4] + intr[:2]*np.stack([np.array((np.cos(a),np.sin(a)))*rng.uniform(.3,6) for a in rng.uniform(-np.pi,np.pi,12)])
        ctx.case('unreachable',key=(lm,rep),lensmodel=lm,intrinsics=intr,q=q)
        v = mrcal.unproject(q,lm,intr)
        rc,cv = capi.unproject(q,lm,intr,fill=.123)
        bad = ~np.isfinite(v).all(axis=-1)
        ctx.counts['unreachable'] = ctx.counts.get('unreachable',0)
        ctx.counts['unreachable']+=int(bad.sum())
        ctx.ok(np.isnan(v[bad]).all(),'unreachable/partly-nan','a failed unprojection has non-NaN components',v=v[bad])
        cbad = ~np.isfinite(cv).all(axis=-1)
        ctx.ok(np.isnan(cv[cbad]).all(),'C/unreachable/partly-nan','a failed unprojection has non-NaN components',v=cv[cbad])
        if not bad.all():
            qq = mrcal.project(v[~bad],lm,intr)
            ctx.ok(np.abs(qq-q[~bad]).max()<.015,'unreachable/wrong','a pixel that cannot be unprojected gave a vector that does not project to it',q=q[~bad],qq=qq,v=v[~bad],intrinsics=intr)
        vn = mrcal.unproject(q,lm,intr,normalize=True)
        ctx.ok((np.isnan(vn[bad])|(vn[bad]==0)).all(),'unreachable/normalized','a failed normalized unprojection looks like a vector',v=vn[bad])
        ctx.close(vn[~bad],unit(v[~bad]),'unreachable/normalized-good',atol=1e-12,rtol=0)
        # one bad pixel in a batch does not disturb the others
        for i in range(len(q)):
            ctx.close(mrcal.unproject(q[i],lm,intr),v[i],'unreachable/batched-differs',atol=1e-12,rtol=1e-10,equal_nan=True)
