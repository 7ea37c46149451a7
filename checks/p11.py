'''Stereo rectification, disparity -> range, feature matching'''
import numpy as np, warnings
TITLE = 'rectified stereo'
RULE  = ('An execution is one rectified system built from a pair of cameras, one set of rectification maps, one array of disparities converted to ranges, or one feature match. Oracles: the '
         'geometry of the cameras computed independently; the known 3D points the disparities were computed from; reference projections; the analytic texture images were sampled from. Non-trivial: distinct geometry/arguments.')
ASSUMPTIONS = ['central input cameras whose viewing directions are not along the baseline','disparities that correspond to points in view (|azimuth| < 90 degrees)']
MIN_EVALUATIONS = 500
FLOORS = {'system':80,'refusal':40,'maps':10,'range sparse':150,'range dense':60,'unproject':40,'match':40,'resolution':40}
TIMEOUT = dict(quick=500,thorough=7200)

def jobs(tier,seed):
    return [dict(name='system'),dict(name='maps'),dict(name='disparity'),dict(name='match'),dict(name='refusals'),dict(name='resolution')]

def run(ctx,job):
    global mrcal,ref,gen,vlib
    import mrcal,ref,gen,vlib
    warnings.simplefilter('ignore')
    globals()[job['name']](ctx)

norm=np.linalg.norm
D2R=np.pi/180

def rect_v(model,az,el):
    '''unit vector at (az,el) in the rectified system'''
    if model=='LENSMODEL_LATLON': return np.stack((np.sin(az)+0*el,np.cos(az)*np.sin(el),np.cos(az)*np.cos(el)),axis=-1)
    v=np.stack((np.tan(az)+0*el,np.tan(el)+0*az,1+0*(az+el)),axis=-1); return v/norm(v,axis=-1,keepdims=True)

def rect_unproject(model,f,q):
    a=(q-f[2:])/f[:2]
    if model=='LENSMODEL_LATLON': return rect_v(model,a[...,0],a[...,1])
    v=np.concatenate((a,np.ones(a.shape[:-1]+(1,))),axis=-1); return v/norm(v,axis=-1,keepdims=True)

def rect_project(model,f,p):
    if model=='LENSMODEL_LATLON':
        a=np.stack((np.arcsin(p[...,0]/norm(p,axis=-1)),np.arctan2(p[...,1],p[...,2])),axis=-1)
    else: a=p[...,:2]/p[...,2:]
    return a*f[:2]+f[2:]

def pair(rng,models=None,rot=.2):
    '''Two cameras; some stereo geometry'''
    lm = [str(rng.choice(models if models is not None else gen.lensmodels(rng))) for _ in range(2)]
    s  = 10**rng.uniform(-2,2)
    base = np.eye(3) if rng.uniform()<.3 else ref.R_from_r(gen.r(rng,'any'))
    t0 = rng.normal(size=3)*s*(rng.uniform()<.7)
    R  = [base@ref.R_from_r(rng.uniform(-rot,rot,3)) for _ in range(2)]   # ref_cam
    f  = (R[0][:,2]+R[1][:,2]); f/=norm(f)
    while True:
        b = rng.normal(size=3) if rng.uniform()<.6 else R[0][:,0]*rng.choice((1,-1))+.1*rng.normal(size=3)
        b/= norm(b)
        if abs(b@f)<.9: break
    t = [t0,t0+b*s]
    M=[]
    for i in range(2):
        W,H=int(rng.integers(300,5000)),int(rng.integers(300,5000))
        M.append(mrcal.cameramodel(intrinsics=(lm[i],gen.intrinsics(rng,lm[i],imagersize=(W,H),central=True)),imagersize=(W,H),
                                   Rt_ref_cam=np.vstack((R[i],t[i]))))
    return M

def expected_az0(M):
    Rt=[m.Rt_ref_cam() for m in M]
    b=Rt[1][3]-Rt[0][3]; L=norm(b); b=b/L
    f=Rt[0][:3,2]+Rt[1][:3,2]
    return np.arcsin(f@b/norm(f))/D2R,b,L,f

def random_args(rng,M):
    az0,b,L,f=expected_az0(M)
    rm = str(rng.choice(('LENSMODEL_LATLON','LENSMODEL_PINHOLE')))
    a = dict(az_fov_deg=float(rng.uniform(10,110)),el_fov_deg=float(rng.uniform(10,100)),rectification_model=rm)
    if rng.uniform()<.1: a['az_fov_deg'] = float(rng.choice((90,45,60,30)))
    if rng.uniform()<.1: a['el_fov_deg'] = float(rng.choice((90,45,60,30)))
    if rng.uniform()<.4: a['az0_deg']=float(np.clip(az0+rng.uniform(-10,10),-79+a['az_fov_deg']/2,79-a['az_fov_deg']/2)) if rng.uniform()<.8 else 0.
    if rng.uniform()<.4: a['el0_deg']=float(rng.uniform(-15,15))
    if rng.uniform()<.4: a['az_edge_margin_deg']=float(rng.uniform(0,30))
    for k in ('pixels_per_deg_az','pixels_per_deg_el'):
        if rng.uniform()<.6: a[k]=float(rng.choice((rng.uniform(.5,20),-rng.uniform(.05,2),-1.)))
    return a

def system(ctx):
    rng=ctx.rng
    for rep in range(ctx.n(150,2500)):
        M=pair(rng); a=random_args(rng,M); rm=a['rectification_model']
        az0,b,L,f = expected_az0(M)
        D=dict(lm=[m.intrinsics()[0] for m in M],args=a,az0=az0,rt=[m.rt_ref_cam() for m in M])
        ctx.case('system',key=rep,**D)
        margin=a.get('az_edge_margin_deg',10.); fov=a['az_fov_deg']
        inside=lambda x,m: x-fov/2>-90+m and x+fov/2<90-m
        want='ok'; az_want=a.get('az0_deg',None)
        if az_want is not None:
            if not inside(az_want,margin-2e-3): want='raise'
            elif not inside(az_want,margin): want='either'
        else:
            az_want=az0
            if not inside(az0,margin):
                if fov>180-2*margin: want='raise'
                else: az_want = np.clip(az0,-90+margin+fov/2,90-margin-fov/2)
        # what pixels would the resolution come from?
        try:
            with vlib.quiet_fds(): R,md=mrcal.rectified_system(M,return_metadata=True,**a)
        except Exception as e:
            if want=='raise': ctx.counts['refused: along the baseline']=ctx.counts.get('refused: along the baseline',0)+1
            elif want=='ok':
                # the center may be somewhere where camera 0 has no projection at all
                el0=a.get('el0_deg',0)*D2R
                if plausible(M[0],b,f,rm,az_want*D2R,el0,a): ctx.violate('system/refused',f'refused a reasonable request: {e}',**D)
            continue
        if want=='raise':
            ctx.violate('system/looks along the baseline','accepted a view too close to the baseline',**D); continue
        # the geometry
        el0=a.get('el0_deg',0)
        tolg=dict(atol=1e-9,rtol=1e-9)
        for i in range(2):
            ctx.ok(R[i].intrinsics()[0]==rm,'system/model','rectified model type')
            Rt=R[i].Rt_ref_cam()
            ctx.close(Rt[3],M[i].Rt_ref_cam()[3],'system/origin',atol=1e-9*(L+norm(M[i].Rt_ref_cam()[3])),rtol=0,msg=f'position of rectified camera {i}',**D)
            ctx.close(Rt[:3,0],b,'system/x',msg='x axis is along the baseline',**tolg)
            z=f-(f@b)*b; z/=norm(z)
            ctx.close(Rt[:3,2],z,'system/z',msg='z axis is the mean forward direction, without its component along the baseline',**tolg)
            ctx.close(Rt[:3,1],np.cross(z,b),'system/y',msg='y axis',**tolg)
        ctx.same(R[0].intrinsics()[1],R[1].intrinsics()[1],'system/intrinsics',msg='same intrinsics',**D)
        ctx.ok(tuple(R[0].imagersize())==tuple(R[1].imagersize()),'system/imagersize','same imager',**D)
        ctx.close(md['baseline'],L,'system/baseline',msg='metadata: baseline',rtol=1e-9,atol=0)
        ctx.close((md['az_fov_deg'],md['el_fov_deg']),(fov,a['el_fov_deg']),'system/metadata fov',msg='metadata: fov')
        ctx.close((md['az0_deg'],md['el0_deg']),(az_want,el0),'system/metadata center',msg='metadata: az0,el0',atol=2e-6,**D)
        W,H = R[0].imagersize(); fc=R[0].intrinsics()[1]
        ppd = np.array((md['pixels_per_deg_az'],md['pixels_per_deg_el']))
        fovs= np.array((fov,a['el_fov_deg'])); N=np.array((W,H)); c0=np.array((az_want,el0))*D2R
        # the resolution
        req=np.array((a.get('pixels_per_deg_az',-1.),a.get('pixels_per_deg_el',-1.)))
        res=np.array(req)
        if np.any(req<0):
            Rcr=M[0].Rt_cam_ref()[:3]@R[0].Rt_ref_cam()[:3]
            q=lambda x: ref.project((Rcr@rect_v(rm,x[0],x[1]))[None],*M[0].intrinsics())[0]
            J=ref.numgrad(q,np.array(c0),1e-5)
            res=np.where(req<0,-req*norm(J,axis=0)*D2R,req)
        if rm=='LENSMODEL_LATLON':
            ctx.ok(np.all(np.abs(N-fovs*res)<=.5+2e-4*N),'system/size',f'imager size {N} for fov {fovs} at {res} pixels/deg',**D)
            ctx.close(ppd,N/fovs,'system/pixels_per_deg',msg='metadata: pixels_per_deg evenly fits the image',rtol=1e-9,atol=0,**D)
            ctx.close(fc[:2],N/fovs/D2R,'system/fxy',msg='focal length',rtol=1e-9,atol=0,**D)
            ctx.close(fc[:2]*c0+fc[2:],(N-1)/2,'system/center',msg='the requested center is at the center of the imager',atol=1e-4+3e-7*np.max(fc[:2]),rtol=0,**D)
        else:
            ctx.close(ppd,res,'system/pixels_per_deg',msg='metadata: pixels_per_deg',rtol=3e-4,atol=0,**D)
            ctx.close(fc[:2]/np.cos(c0)**2*D2R,ppd,'system/fxy',msg='resolution at the center',rtol=1e-7,atol=0,**D)
            for i in range(2):
                xmax = 2*(np.tan(c0[i])*fc[i]+fc[2+i])   # symmetric about the center
                ctx.ok(abs(N[i]-1-xmax)<=.5+1e-6*N[i],'system/size',f'imager size {N[i]} instead of {xmax+1}; center {c0[i]}',**D)
                th=np.arctan((np.array((0,xmax))-fc[2+i])/fc[i])
                ctx.close(th[1]-th[0],fovs[i]*D2R,'system/fov',msg='angle between the edges of the image',atol=1e-5,rtol=0,**D)
        # corresponding points lie on the same row, in both rectified images
        n=30
        v=rect_unproject(rm,fc,np.stack((rng.uniform(0,W-1,n),rng.uniform(0,H-1,n)),axis=-1))
        p=v*L*10**rng.uniform(-.5,4,n)[:,None]
        pref=p@R[0].Rt_ref_cam()[:3].T+R[0].Rt_ref_cam()[3]
        q=[]
        for i in range(2):
            Rt=R[i].Rt_cam_ref(); pc=pref@Rt[:3].T+Rt[3]
            with vlib.quiet_fds(): q.append(mrcal.project(pc,*R[i].intrinsics()))
        sc=1e-8*max(1,norm(R[0].Rt_ref_cam()[3])/L)
        g=np.ones(n,bool) if rm=='LENSMODEL_LATLON' else p[:,2]>1e-3*norm(p,axis=-1)
        ctx.close(q[0][g,1],q[1][g,1],'system/rows',msg='row of the same point in the two rectified images',atol=sc*max(fc[:2])*30,rtol=0,**D)

def plausible(m,b,f,rm,az,el,a):
    '''Whether a request centered at (az,el) is one rectified_system() should be able to satisfy'''
    z=f-(f@b)*b; z/=norm(z); R=np.stack((b,np.cross(z,b),z),axis=-1)
    v=m.Rt_cam_ref()[:3]@R@rect_v(rm,az,el)
    if np.arccos(v[2])>.6: return False
    if rm=='LENSMODEL_PINHOLE':
        for c,w in ((az,a['az_fov_deg']),(el,a['el_fov_deg'])):
            if abs(c)+w*D2R/2>80*D2R: return False
    # tiny images are refused
    return min(a.get('pixels_per_deg_az',1) ,a.get('pixels_per_deg_el',1),key=abs)>=1

def maps(ctx):
    rng=ctx.rng
    for rep in range(ctx.n(26,300)):
        fams=('LENSMODEL_PINHOLE','LENSMODEL_STEREOGRAPHIC','LENSMODEL_LONLAT','LENSMODEL_LATLON','LENSMODEL_OPENCV4','LENSMODEL_OPENCV5','LENSMODEL_OPENCV8','LENSMODEL_OPENCV12','LENSMODEL_CAHVOR',
              'LENSMODEL_CAHVORE_linearity=0.40',gen.splined(rng,2),gen.splined(rng,3))
        M=pair(rng,[fams[rep%len(fams)]] if rng.uniform()<.5 else fams)
        rm=str(rng.choice(('LENSMODEL_LATLON','LENSMODEL_PINHOLE')))
        try:
            with vlib.quiet_fds():
                R=mrcal.rectified_system(M,az_fov_deg=float(rng.uniform(20,50)),el_fov_deg=float(rng.uniform(15,45)),
                                         pixels_per_deg_az=float(rng.uniform(.5,3)),pixels_per_deg_el=float(rng.uniform(.5,3)),rectification_model=rm)
        except Exception: continue
        W,H=R[0].imagersize(); fc=R[0].intrinsics()[1]
        D=dict(lm=[m.intrinsics() for m in M],rt=[m.rt_ref_cam() for m in M],rm=rm,fc=fc,WH=(W,H))
        ctx.case('maps',key=rep,**D)
        with ctx.guard('maps'):
            with vlib.quiet_fds(): mp=mrcal.rectification_maps(M,R)
            ctx.ok(len(mp)==2,'maps/length','two maps')
            x,y=np.meshgrid(np.arange(W,dtype=float),np.arange(H,dtype=float))
            v=rect_unproject(rm,fc,np.stack((x,y),axis=-1))
            for i in range(2):
                ctx.ok(mp[i].shape==(H,W,2) and mp[i].dtype==np.float32,'maps/type',f'{mp[i].shape} {mp[i].dtype}')
                Rcr=M[i].Rt_cam_ref()[:3]@R[i].Rt_ref_cam()[:3]
                vc=v@Rcr.T; lm,intr=M[i].intrinsics()
                th=np.arccos(vc[...,2]); g=th<min(gen.max_theta(lm),1.3)
                if lm in('LENSMODEL_LONLAT','LENSMODEL_LATLON'): g&=(np.abs(vc[...,1])<.98)&(np.abs(vc[...,0])<.98)
                q=ref.project(vc[g],lm,intr)
                fam=gen.family(lm)
                ctx.close(mp[i][g],q,f'maps/{fam}/{rm}',msg=f'map of camera {i}: where the ray of each rectified pixel appears in the image',rtol=1e-6,atol=2e-2 if rm!='LENSMODEL_PINHOLE' or 1 else 1e-3,**D)
                m=norm(mp[i][g]-q,axis=-1)
                if m.size: ctx.ok(np.median(m)<2e-3,f'maps/{fam}/median',f'median error {np.median(m)} pixels',**D)

def rect_models(rng,rm,W=None,H=None):
    '''A rectified system, made by hand'''
    W = W or int(rng.integers(20,90)); H = H or int(rng.integers(15,70))
    fov=rng.uniform(20,130)*D2R
    if rm=='LENSMODEL_LATLON': fx=W/fov; fy=fx*rng.uniform(.5,1.5)
    else: fx=W/2/np.tan(min(fov,2.)/2); fy=fx*rng.uniform(.5,1.5)
    c=np.array(((W-1)/2,(H-1)/2))*rng.uniform(.8,1.2,2)
    b=10**rng.uniform(-2,2)
    rt0=gen.rt(rng,'any'); Rt0=ref_Rt(rt0)
    Rt1=np.array(Rt0); Rt1[3]=Rt0[3]+Rt0[:3,0]*b
    f=np.array((fx,fy,*c))
    return [mrcal.cameramodel(intrinsics=(rm,f),imagersize=(W,H),Rt_ref_cam=Rt) for Rt in (Rt0,Rt1)],f,b

def ref_Rt(rt): return np.vstack((ref.R_from_r(rt[:3]),rt[3:]))

def true_disparities(rng,rm,f,b,q0):
    '''random ranges for each q0 -> disparity, point'''
    v=rect_unproject(rm,f,q0)
    r=b*10**rng.uniform(-.3,3,q0.shape[:-1])
    p=v*r[...,None]; p1=p-np.array((b,0,0))
    if rm=='LENSMODEL_PINHOLE': d=f[0]*b/p[...,2]
    else: d=f[0]*np.arctan2(b*np.cos(np.arcsin(v[...,0])),r-b*v[...,0])   # az0-az1, in the epipolar plane
    return d,r,p,p1

def disparity(ctx):
    rng=ctx.rng
    for rep in range(ctx.n(160,3000)):
        rm=('LENSMODEL_LATLON','LENSMODEL_PINHOLE')[rep%2]
        M,f,b=rect_models(rng,rm); W,H=M[0].imagersize()
        # sparse
        shape=[(),(1,),(7,),(3,4),(2,1,5)][rng.integers(5)]
        q0=np.stack((rng.uniform(0,W-1,shape),rng.uniform(0,H-1,shape)),axis=-1)
        d,r,p,p1=true_disparities(rng,rm,f,b,q0)
        q1=rect_project(rm,f,p1)
        D=dict(rm=rm,f=f,b=b,q0=q0,d=d)
        ctx.case('range sparse',key=rep,**D)
        tol=dict(rtol=1e-7,atol=1e-7*b)
        with ctx.guard('range sparse'):
            ctx.close(q0[...,0]-q1[...,0],d,'oracle',msg='self check',atol=1e-7,rtol=1e-8)
            ctx.close(mrcal.stereo_range(np.array(d),M,qrect0=q0),r,'range sparse',msg='range from floating-point disparity',**tol,**D)
            ctx.ok(np.shape(mrcal.stereo_range(np.array(d),M,qrect0=q0))==shape,'range sparse/shape','shape')
            s=float(rng.choice((16,3.5,256,.25)))
            ctx.close(mrcal.stereo_range(np.array(d)*s,M,qrect0=q0,disparity_scale=s),r,'range sparse/scale',msg='scaled disparity',**tol,**D)
            ctx.close(mrcal.stereo_unproject(np.array(d)*s,M,qrect0=q0,disparity_scale=s),p,'unproject sparse',msg='point from disparity',atol=1e-7*np.max(r),rtol=0,**D)
            if shape==():
                ctx.close(mrcal.stereo_range(float(d),M,qrect0=q0),r,'range scalar',msg='Python scalar disparity',**tol,**D)
            # limits; fuzz kept away from the limits themselves
            dd=np.array(d); lo,hi=np.sort(np.quantile(dd,(.3,.8)))*(.999,1.001)
            if hi>lo*1.01:
                ok=(dd>=lo)&(dd<=hi)
                for a in (dict(disparity_min=lo,disparity_max=hi),dict(disparity_scaled_min=lo*s,disparity_scaled_max=hi*s),dict(disparity_min=lo,disparity_scaled_max=hi*s),dict(disparity_max=hi),dict(disparity_min=lo)):
                    o=ok if len(a)==2 else (dd<=hi if 'disparity_max' in a else dd>=lo)
                    ctx.close(mrcal.stereo_range(dd*s,M,qrect0=q0,disparity_scale=s,**a),np.where(o,r,0),'range sparse/limits',msg=f'limits {sorted(a)}',**tol,**D)
            bad=np.array(dd); bad[...]=rng.choice((0,-1,-1e-300,-1e9,np.nan,np.inf,-np.inf),size=shape)
            ctx.close(mrcal.stereo_range(bad,M,qrect0=q0),np.zeros(shape),'range sparse/invalid',msg='unusable disparity means range 0',atol=0,rtol=0,bad=bad)
            if shape:
                ctx.close(mrcal.stereo_unproject(bad,M,qrect0=q0),np.zeros(shape+(3,)),'unproject sparse/invalid',msg='unusable disparity means (0,0,0)',atol=0,rtol=0,bad=bad)
            # broadcasting: one disparity for many pixels
            if shape==(3,4):
                ctx.close(mrcal.stereo_range(np.array(dd[:,:1]),M,qrect0=q0),[[float(mrcal.stereo_range(dd[i,0],M,qrect0=q0[i,j])) for j in range(4)] for i in range(3)],'range sparse/broadcast',msg='broadcasting',**tol)

        # dense
        x,y=np.meshgrid(np.arange(W,dtype=float),np.arange(H,dtype=float)); q0=np.stack((x,y),axis=-1)
        d,r,p,p1=true_disparities(rng,rm,f,b,q0)
        kind=int(rng.integers(7))
        s,dt=[(1,float),(16,np.int16),(16,np.uint16),(1,np.float32),(256,np.int32),(3.5,np.int16),(4,np.uint8)][kind]
        D=dict(rm=rm,f=f,b=b,s=s,dtype=np.dtype(dt).name,WH=(W,H))
        ctx.case('range dense',key=rep,**D)
        with ctx.guard('range dense'):
            dd=np.array(d)*s
            if np.dtype(dt).kind!='f':
                dd=np.clip(np.round(dd),1,min(np.iinfo(dt).max,20000)).astype(dt)
                # as the points these disparities really stand for
            else: dd=dd.astype(dt)
            if np.dtype(dt).kind!='f' or dt==np.float32: rr=range_of(rm,f,b,q0,dd.astype(float)/s)
            else: rr=r
            g=rr>1e-2*b
            valid=np.ones(dd.shape,bool)
            if rng.uniform()<.7:
                k=rng.uniform(size=dd.shape)<.1
                dd[k]=0; valid&=~k
                k=rng.uniform(size=dd.shape)<.1
                if np.dtype(dt).kind!='u': dd[k]=-16 if np.dtype(dt).kind=='i' else rng.choice((-1,-.5,np.nan,-np.inf)); valid&=~k
            a={}
            m=rng.integers(4)
            lo,hi=np.quantile(d,(.3,.8))*s
            if m==1: a=dict(disparity_scaled_min=float(np.floor(lo)),disparity_scaled_max=float(np.ceil(hi))+1)
            if m==2: a=dict(disparity_min=float(lo/s),disparity_max=float(hi/s)+2)
            if m==3: a=dict(disparity_max=float(rng.choice((hi/s+1,5000))))
            mn=a.get('disparity_scaled_min',a.get('disparity_min',-1)*s); mx=a.get('disparity_scaled_max',a.get('disparity_max',1e300)*s)
            with np.errstate(invalid='ignore'):
                inb=(dd>=mn)&(dd<=mx)
                # float fuzz at the limits
                g&=(np.abs(dd-mn)>1e-6*max(1,abs(mn)))&(np.abs(dd-mx)>1e-6*max(1,abs(mx)))|(np.dtype(dt).kind!='f')&(m<2)
            want=np.where(valid&inb,rr,0)
            arg=gen.strided(rng,dd)
            have=mrcal.stereo_range(arg,M,disparity_scale=s,**a)
            ctx.ok(have.shape==(H,W),'range dense/shape','shape')
            ctx.close(have[g],want[g],f'range dense/{np.dtype(dt).name}',msg=f'range image from disparities {a}',rtol=2e-6 if dt==np.float32 else 1e-7,atol=1e-6*b,**D)
            # sparse and dense agree
            have2=mrcal.stereo_range(np.array(dd),M,disparity_scale=s,qrect0=q0,**a)
            ctx.close(have2[g],have[g],'range dense-sparse',msg='dense and sparse results',rtol=1e-9,atol=1e-9*b,**D)
        ctx.case('unproject',key=rep,**D)
        with ctx.guard('unproject'):
            P=mrcal.stereo_unproject(arg,M,disparity_scale=s)
            r0=mrcal.stereo_range(arg,M,disparity_scale=s)
            v=rect_unproject(rm,f,q0)
            ctx.close(P,v*r0[...,None],'unproject dense',msg='point cloud',rtol=0,atol=1e-9*np.max(np.abs(r0)),**D)
            ctx.close(mrcal.stereo_unproject(None,M,ranges=r0),P,'unproject ranges',msg='from ranges',rtol=0,atol=1e-12*np.max(np.abs(r0)))

def range_of(rm,f,b,q0,d):
    '''range from disparity: intersect the two rays in the epipolar plane'''
    v0=rect_unproject(rm,f,q0); v1=rect_unproject(rm,f,q0-np.stack((d,0*d),axis=-1))
    # k0 v0 = b x + k1 v1 -> both have the same direction perpendicular to x
    pr=lambda v: norm(v[...,1:],axis=-1)
    t0,t1=v0[...,0]/pr(v0),v1[...,0]/pr(v1)
    return b/(t0-t1)/pr(v0)

def refusals(ctx):
    rng=ctx.rng
    def must(what,f,key):
        ctx.case('refusal',key=(what,key),what=what)
        with vlib.quiet_fds(): ctx.raises(f,'refusal/'+what,what)
    for rep in range(ctx.n(3,30)):
        M=pair(rng,('LENSMODEL_PINHOLE','LENSMODEL_OPENCV8')); A=dict(az_fov_deg=40.,el_fov_deg=30.)
        S=lambda **k: mrcal.rectified_system(M,**{**A,**k})
        for k,v in (('az_fov_deg',0.),('el_fov_deg',0.),('az_fov_deg',-10.),('el_fov_deg',-10.),('pixels_per_deg_az',0.),('pixels_per_deg_el',0.),('az_fov_deg',175.),
                    ('rectification_model','LENSMODEL_LONLAT'),('rectification_model','LENSMODEL_OPENCV4'),('rectification_model','LENSMODEL_NONE')):
            must(f'rectified_system({k}={v})',lambda: S(**{k:v}),rep)
        for rm in ('LENSMODEL_LATLON','LENSMODEL_PINHOLE'):
            must(f'rectified_system(az0_deg=85)/{rm}',lambda: S(az0_deg=85.,rectification_model=rm),rep)
        Mc=[mrcal.cameramodel(m) for m in M]; Mc[1].rt_ref_cam(Mc[0].rt_ref_cam())
        must('rectified_system(no baseline)',lambda: mrcal.rectified_system(Mc,**A),rep)
        lm='LENSMODEL_CAHVORE_linearity=0.30'
        for i in range(2):
            Mn=[mrcal.cameramodel(m) for m in M]; intr=gen.intrinsics(rng,lm); intr[-3:]=(0.01,.002,.003); Mn[i].intrinsics(intrinsics=(lm,intr))
            must(f'rectified_system(noncentral camera {i})',lambda: mrcal.rectified_system(Mn,**A),rep)
        # not rectified systems
        R,f,b=rect_models(rng,'LENSMODEL_LATLON'); W,H=R[0].imagersize(); d=np.ones((H,W),np.int16)
        users=dict(maps=lambda R: mrcal.rectification_maps(M,R),range=lambda R: mrcal.stereo_range(d,R),rangesparse=lambda R: mrcal.stereo_range(5.,R,qrect0=np.zeros(2)),unproject=lambda R: mrcal.stereo_unproject(d,R))
        def alt(i,**k):
            out=[mrcal.cameramodel(m) for m in R]
            m=out[i]
            out[i]=mrcal.cameramodel(intrinsics=k.get('intrinsics',m.intrinsics()),imagersize=k.get('imagersize',m.imagersize()),rt_ref_cam=k.get('rt_ref_cam',m.rt_ref_cam()))
            return out
        bads=dict(intrinsics=alt(1,intrinsics=('LENSMODEL_LATLON',f*1.01)),model=alt(1,intrinsics=('LENSMODEL_PINHOLE',f)),size=alt(1,imagersize=(W+1,H)),size2=alt(0,imagersize=(W,H+1)),
                  rotation=alt(1,rt_ref_cam=np.concatenate((gen.r(rng,'any'),R[1].rt_ref_cam()[3:]))),
                  y=alt(1,rt_ref_cam=R[1].rt_ref_cam()+np.concatenate((np.zeros(3),R[0].Rt_ref_cam()[:3,1]*.01))),
                  z=alt(1,rt_ref_cam=R[1].rt_ref_cam()+np.concatenate((np.zeros(3),R[0].Rt_ref_cam()[:3,2]*.01))),
                  length=R[:1],
                  lens=[mrcal.cameramodel(intrinsics=('LENSMODEL_STEREOGRAPHIC',f),imagersize=(W,H),rt_ref_cam=m.rt_ref_cam()) for m in R])
        for bn,B in bads.items():
            for un,u in users.items(): must(f'{un}(not a rectified system: {bn})',lambda: u(B),rep)
        must('stereo_range(image of the wrong size)',lambda: mrcal.stereo_range(d[:,:-1],R),rep)
        must('stereo_range(transposed image)',lambda: mrcal.stereo_range(np.ones((W,H),np.int16),R),rep) if W!=H else None
        must('stereo_range(min and scaled min)',lambda: mrcal.stereo_range(d,R,disparity_min=1,disparity_scaled_min=2),rep)
        must('stereo_range(max and scaled max)',lambda: mrcal.stereo_range(d,R,disparity_max=1,disparity_scaled_max=2),rep)
        must('stereo_range(min>max)',lambda: mrcal.stereo_range(d,R,disparity_min=7,disparity_max=2),rep)
        must('stereo_range(min>max) sparse',lambda: mrcal.stereo_range(5.,R,disparity_min=7,disparity_max=2,qrect0=np.zeros(2)),rep)
        must('stereo_unproject(disparity and ranges)',lambda: mrcal.stereo_unproject(d,R,ranges=d.astype(float)),rep)
        must('stereo_unproject(nothing)',lambda: mrcal.stereo_unproject(None,R),rep)
        # nothing wrong with this
        ctx.case('refusal',key=('control',rep))
        with ctx.guard('control'):
            for un,u in users.items(): u(R)

def resolution(ctx):
    rng=ctx.rng
    for rep in range(ctx.n(80,1500)):
        lm=str(rng.choice(gen.lensmodels(rng))); m=mrcal.cameramodel(intrinsics=(lm,gen.intrinsics(rng,lm,central=True)),imagersize=(4000,3000))
        rm=str(rng.choice(('LENSMODEL_LATLON','LENSMODEL_PINHOLE','LENSMODEL_LONLAT')))
        c0=rng.uniform(-25,25,2); fov=rng.uniform(20,150,2)
        req=np.where(rng.uniform(size=2)<.3,rng.uniform(1,30,2),-rng.uniform(.1,3,2))
        R=ref.R_from_r(rng.uniform(-.05,.05,3))
        R=np.ascontiguousarray(R) if rng.uniform()<.5 else np.asfortranarray(R)
        D=dict(lm=lm,intr=m.intrinsics()[1],rm=rm,c0=c0,fov=fov,req=req)
        ctx.case('resolution',key=rep,**D)
        with ctx.guard('resolution'):
            with vlib.quiet_fds(): have=mrcal.rectified_resolution(m,az_fov_deg=fov[0],el_fov_deg=fov[1],az0_deg=c0[0],el0_deg=c0[1],R_cam0_rect0=R,pixels_per_deg_az=req[0],pixels_per_deg_el=req[1],rectification_model=rm)
            def V(x):
                if rm!='LENSMODEL_LONLAT': return rect_v(rm,x[0],x[1])
                return np.array((np.cos(x[1])*np.sin(x[0]),np.sin(x[1]),np.cos(x[1])*np.cos(x[0])))
            J=ref.numgrad(lambda x: ref.project((R@V(x))[None],*m.intrinsics())[0],c0*D2R,1e-5)
            res=np.where(req<0,-req*norm(J,axis=0)*D2R,req)
            if rm=='LENSMODEL_PINHOLE':
                # unprojected as (tan az, tan el, 1): not normalized
                ctx.close(have,res,'resolution/pinhole',msg='pixels per degree',rtol=1e-5,atol=0,**D)
            else:
                N=np.array(have)*fov
                ctx.close(N,np.round(N),'resolution/integer',msg='an integer number of pixels fits in the field of view',rtol=1e-9,atol=1e-9)
                ctx.ok(np.all(np.abs(N-res*fov)<=.5+1e-5*N),'resolution/value',f'{have} instead of {res}',**D)

def texture(rng):
    n=120; k=rng.normal(size=(n,2))*.35; ph=rng.uniform(0,2*np.pi,n); a=rng.uniform(.3,1,n)
    return lambda x,y: np.clip(128+12*np.tensordot(a,np.cos(k[:,0,None,None]*x+k[:,1,None,None]*y+ph[:,None,None]),(0,0)),0,255)

def match(ctx):
    import cv2
    rng=ctx.rng; errs=[]
    for rep in range(ctx.n(70,800)):
        T=texture(rng); W0,H0,W1,H1=[int(x) for x in rng.integers(150,260,4)]
        h=int(rng.integers(3))
        th=rng.uniform(-.3,.3) if h else 0; s=rng.uniform(.8,1.25) if h else 1
        A=s*np.array(((np.cos(th),-np.sin(th)),(np.sin(th),np.cos(th))))
        H=np.eye(3); H[:2,:2]=A
        if h==2: H[2,:2]=rng.uniform(-2e-4,2e-4,2)
        q0=np.array((W0/2,H0/2))+rng.uniform(-15,15,2)
        edge=rng.uniform()<.3
        q1=np.array((W1/2,H1/2))+rng.uniform(-15,15,2)
        size=[int(x) for x in rng.integers(17,32,2)] if rng.uniform()<.7 else int(rng.integers(17,32))
        sz=np.array(size if isinstance(size,list) else (size,size))
        if edge: i=rng.integers(2); q1[i]=sz[i]/2+rng.uniform(3,9)
        H[:2,2]=0; w=H@np.array((*q0,1)); H[:2,2]=q1*w[2]-w[:2]
        Hi=np.linalg.inv(H)
        x,y=np.meshgrid(np.arange(W1,dtype=float),np.arange(H1,dtype=float))
        den=Hi[2,0]*x+Hi[2,1]*y+Hi[2,2]; X=(Hi[0,0]*x+Hi[0,1]*y+Hi[0,2])/den; Y=(Hi[1,0]*x+Hi[1,1]*y+Hi[1,2])/den
        x0,y0=np.meshgrid(np.arange(W0,dtype=float),np.arange(H0,dtype=float))
        dt=[np.uint8,np.float32][rng.integers(2)]
        im0,im1=[np.array(I).astype(dt) for I in (T(x0,y0),T(X,Y))]
        meth=[None,cv2.TM_CCORR_NORMED,cv2.TM_SQDIFF,cv2.TM_SQDIFF_NORMED,cv2.TM_CCOEFF_NORMED][rng.integers(5)]
        if meth in (None,cv2.TM_CCORR_NORMED):   # these need filtered images
            im0,im1=[I.astype(np.float32)-128 for I in (im0,im1)]
        # the estimate is off by some pixels
        off=rng.uniform(-2,2,2) if edge else rng.uniform(-6,6,2)
        He=np.eye(3); He[:2,2]=off; He=He@H
        a=dict(search_radius1=int(rng.integers(9,20)),template_size1=tuple(size) if isinstance(size,list) else size,method=meth)
        if h==0 and rng.uniform()<.5: a['q1_estimate']=q1+off
        else: a['H10']=He
        D=dict(args=a,q0=q0,q1=q1,off=off,h=h,edge=edge,WH=(W0,H0,W1,H1))
        ctx.case('match',key=rep,**D)
        with ctx.guard('match'):
            i0,i1,q0c=np.array(im0),np.array(im1),np.array(q0)
            got,dg=mrcal.match_feature(im0,im1,q0,**a)
            ctx.same(im0,i0,'match/input',msg='image0 unchanged'); ctx.same(im1,i1,'match/input',msg='image1 unchanged'); ctx.same(q0,q0c,'match/input',msg='q0 unchanged')
            if not ctx.ok(got is not None,'match/none','no match found',**D): continue
            ctx.close(got,q1,'match/position',msg='matched pixel',atol=.3,rtol=0,**D); errs.append(norm(got-q1))
            ctx.close(dg['matchoutput_optimum_subpixel_at']+dg['qshift_image1_matchoutput'],got,'match/diagnostics',msg='documented relation between diagnostics and q1',atol=1e-4,rtol=0)
            mo=dg['matchoutput_image']; best=np.unravel_index(np.argmin(mo) if meth in (cv2.TM_SQDIFF,cv2.TM_SQDIFF_NORMED) else np.argmax(mo),mo.shape)[::-1]
            ctx.close(dg['matchoutput_optimum_subpixel_at'],best,'match/peak',msg='subpixel peak is at the discrete peak',atol=1.01,rtol=0)
            # q1 in the searched window: centered at the estimate
            ctx.ok(np.all(np.abs(got-(q1+off))<=a['search_radius1']+1),'match/window','match outside of the window',**D)
            for i in range(2):
                n=2*a['search_radius1']+1
                ctx.ok(mo.shape[1-i]==n or mo.shape[1-i]<n and edge or a['search_radius1']+sz[i]/2>min(q1[i],((W1,H1)[i]-q1[i]))-8,'match/search size',f'match output has shape {mo.shape}; search radius {a["search_radius1"]}')
        # out of bounds
        ctx.case('match refusal',key=rep)
        a2=dict(a); a2.pop('H10',None); a2.pop('q1_estimate',None)
        for bq in ((1,50),(50,1),(W1-2,50),(50,H1-2),(-100,50)):
            ctx.raises(lambda: mrcal.match_feature(im0,im1,q0,**a2,q1_estimate=np.array(bq,float)),'match/out of bounds image1','template out of bounds in image1')
        for bq in ((1,50),(50,1),(W0-2,50),(50,H0-2)):
            ctx.raises(lambda: mrcal.match_feature(im0,im1,np.array(bq,float),**a2,q1_estimate=np.array((W1/2,H1/2))),'match/out of bounds image0','template out of bounds in image0')
        ctx.raises(lambda: mrcal.match_feature(im0,im1,q0,**a2),'match/no estimate','neither H10 nor q1_estimate')
        ctx.raises(lambda: mrcal.match_feature(im0,im1,q0,**a2,q1_estimate=q1,H10=H),'match/both','both H10 and q1_estimate')
    ctx.ok(np.median(errs)<.12,'match/median',f'median error of the matched pixels: {np.median(errs)}')
