'''Imager sampling, regions, residuals, alignment'''
import os
TITLE = 'imager sampling, region and residual helpers, alignment'
RULE  = ('An execution is one call of a helper: a sampling grid, a set of pixels tested against a valid-intrinsics region, a difference of two polygons, a contour, the board corners or the residuals of one optimization problem (one selection of camera, of given or computed measurements, of inliers), a region computed from a calibration, one alignment of two point clouds or vector sets, a resolution map, a packed state, a point cloud file. '
         'Judged against geometry computed independently: grids by their definition, regions and polygons by ray casting at sample points, corners and residuals by the reference of the measurement vector written from the documentation, observation by observation; alignments must be proper, and must reach the optimal cost known from the quaternion formulation, or be all zeros if the data is degenerate; resolutions by numeric differentiation of the projection. Non-trivial: distinct sizes, shapes, selections, data.')
ASSUMPTIONS = ['points within 1e-6 of the edge of a region are not judged','grids have 2 points or more in each direction','alignment: data of scales between 1e-3 and 1e3. Data that is degenerate in principle but not exactly so after rounding may be aligned or refused','polygons are simple (do not intersect themselves)']
MIN_EVALUATIONS = 1500
FLOORS = {'grid':60,'inregion':60,'polygon':100,'contour':60,'domain':20,'corners':60,'residuals':100,'regional':6,'validregion':6,'points':200,'vectors':150,'resolution':40,'ingest':40,'ply':40}

def jobs(tier,seed):
    return [dict(name=n) for n in ('grid','polygon','residuals','region','align','misc')]

def run(ctx,job):
    global np,mrcal,vlib,ref,gen,prob
    import numpy as np, mrcal, vlib, ref, gen, prob
    os.makedirs('w_'+job['name']); os.chdir('w_'+job['name'])
    globals()['j_'+job['name']](ctx,ctx.rng)

# ------------------------------------------------------- grids
def j_grid(ctx,rng):
    for it in range(ctx.n(80,800)):
        W,H = (int(rng.integers(2,6000)),int(rng.integers(2,5000))) if it%3 else ((2,2),(640,480),(10000,200))[it//3%3]
        nw,nh = int(rng.integers(2,70)),int(rng.integers(2,60))
        if it%4==0 and round(H/W*nw)>=2 and abs(H/W*nw%1-.5)>1e-6: nh=None
        ctx.case('grid',key=(nw,nh,W,H),W=W,H=H,nw=nw,nh=nh)
        n = int(round(H/W*nw)) if nh is None else nh
        want = np.empty((n,nw,2))
        for i in range(n):
            for j in range(nw): want[i,j] = (j*(W-1)/(nw-1),i*(H-1)/(n-1))
        with ctx.guard('grid'):
            q = mrcal.sample_imager(nw,nh,W,H); ctx.close(q,want,'grid',atol=1e-9*max(W,H))
            ctx.ok((q[0,0]==0).all() and (q[-1,-1]==(W-1,H-1)).all(),'grid/corners','',q0=q[0,0],q1=q[-1,-1])
            u = mrcal.imagergrid_using((W,H),nw,nh); a,b,c = u.split(':')
            v = [float(s.split('*')[1].rstrip(')')) for s in (a,b)]
            ctx.ok(a.startswith('($1*') and b.startswith('($2*') and c=='3' and abs(v[0]*(nw-1)-W+1)<1e-6 and abs(v[1]*(n-1)-H+1)<1e-6,'grid/using','',using=u)
    for it in range(ctx.n(60,500)):
        nc = int(rng.integers(1,4)); lms=[str(rng.choice(gen.lensmodels(rng))) for _ in range(nc)]
        sz = (int(rng.integers(800,5000)),int(rng.integers(600,4000)))
        # models whose whole imager is projectable: narrow
        lms=[l if ref.config(l)['kind'] not in ('CAHVORE','LONLAT','LATLON') else 'LENSMODEL_OPENCV4' for l in lms]
        ii=[gen.intrinsics(rng,l,strength=.2,imagersize=sz) for l in lms]
        nw,nh=int(rng.integers(2,8)),(None if it%5==0 and sz[1]/sz[0]>.6 else int(rng.integers(2,8)))
        if nh is None: nw=max(nw,4)
        multi = it%2==1; norm=bool(rng.uniform()<.5)
        ctx.case('unproject',key=(multi,norm,nw,nh,*lms),lensmodels=lms,sz=sz,nw=nw,nh=nh,multi=multi,normalize=norm)
        with ctx.guard('unproject'):
            q = mrcal.sample_imager(nw,nh,*sz)
            if multi:
                seq=(list,tuple)[it//2%2]
                v,qq = mrcal.sample_imager_unproject(nw,nh,*sz,seq(lms),seq(ii),normalize=norm)
                ctx.ok(v.shape==(nc,)+q.shape[:2]+(3,),'unproject/shape','',shape=v.shape)
            else:
                v,qq = mrcal.sample_imager_unproject(nw,nh,*sz,lms[0],ii[0],**(dict(normalize=norm) if norm or it%4 else {})); v=v[None]; 
            ctx.close(qq,q,'unproject/grid',atol=0,rtol=0)
            for k,x in enumerate(v):
                w=mrcal.unproject(q,lms[k],ii[k],normalize=norm)
                ctx.close(x,w,'unproject/vectors',atol=1e-9,equal_nan=True)
                g=np.isfinite(x).all(axis=-1) & (np.linalg.norm(np.nan_to_num(x),axis=-1)>0)
                if norm and g.any(): ctx.close(np.linalg.norm(x[g],axis=-1),np.ones(g.sum()),'unproject/normalized',atol=1e-9)
                if not multi: break

# ------------------------------------------------------- polygons
def star(rng,c,r0,r1,n):
    th=np.sort(rng.uniform(0,2*np.pi,n))
    # no gaps of >= 180 degrees: the center stays inside
    th=(np.arange(n)+rng.uniform(0,.9,n))*2*np.pi/n
    r=rng.uniform(r0,r1,n); return np.array(c)+np.stack((r*np.cos(th),r*np.sin(th)),axis=-1)
def inside(q,p):
    '''ray casting'''
    a,b=p,np.roll(p,-1,axis=0); x,y=q[:,None,0],q[:,None,1]
    c=(a[:,1]>y)!=(b[:,1]>y)
    with np.errstate(all='ignore'): xx=(b[:,0]-a[:,0])*(y-a[:,1])/(b[:,1]-a[:,1])+a[:,0]
    return (np.sum(c&(x<xx),axis=1)%2)==1
def edge_distance(q,p):
    a,b=p,np.roll(p,-1,axis=0); d=b-a; l=np.maximum(np.sum(d*d,axis=1),1e-300)
    t=np.clip(np.sum((q[:,None]-a)*d,axis=2)/l,0,1); return np.min(np.linalg.norm(q[:,None]-(a+t[...,None]*d),axis=2),axis=1)
def area(p): x,y=p.T; return abs(np.sum(x*np.roll(y,-1)-y*np.roll(x,-1)))/2
def poly(rng,kind,c=(0.,0.),s=1.):
    c=np.array(c)
    if kind==0: return star(rng,c,.5*s,s,int(rng.integers(3,14)))
    if kind==1: return c+s*np.array(((-1,-1),(1,-1),(1,1),(-1,1.)))*rng.uniform(.3,1,2)
    if kind==2: return c+s*np.array(((-1,-1),(1,-1),(1,-.6),(-.6,-.6),(-.6,.6),(1,.6),(1,1),(-1,1.)))*(1 if rng.uniform()<.5 else -1) # C
    if kind==3: return star(rng,c,.1*s,s,int(rng.integers(5,30)))
    return c+s*np.array(((0,-1),(.2,-.2),(1,0),(.2,.2),(0,1),(-.2,.2),(-1,0),(-.2,-.2)))
def j_polygon(ctx,rng):
    for it in range(ctx.n(150,1500)):
        W,H=int(rng.integers(100,5000)),int(rng.integers(100,4000))
        p=poly(rng,it%5,(W/2,H/2),1); p=np.array((W/2,H/2))+(p-np.array((W/2,H/2)))*(W/2,H/2); p=np.round(p) if it%2 else p
        if it%3==0: p=p[::-1]
        closed=it%4!=1; pc=np.vstack((p,p[:1])) if closed else p
        sh=((200,),(10,20),(),(1,),(3,1,7),(0,))[it%6]
        q=rng.uniform(-.1,1.1,sh+(2,))*(W,H)
        ctx.case('inregion',key=(it%5,len(p),sh,it%3,closed),region=p,shape=sh)
        with ctx.guard('inregion'):
            m=mrcal.cameramodel(intrinsics=('LENSMODEL_PINHOLE',np.array((1000.,1000,W/2,H/2))),imagersize=(W,H),valid_intrinsics_region=pc)
            k=mrcal.is_within_valid_intrinsics_region(q,m); ctx.ok(np.shape(k)==sh and np.asarray(k).dtype==bool,'inregion/shape','',got=np.shape(k))
            qf=q.reshape(-1,2); kf=np.asarray(k).ravel(); far=edge_distance(qf,p)>1e-6
            ctx.ok((kf==inside(qf,p))[far].all() if len(qf) else True,'inregion','',q=qf[far&(kf!=inside(qf,p))] if len(qf) else None)
            if it%7==0:
                m.valid_intrinsics_region(np.zeros((0,2))); ctx.ok(not np.any(mrcal.is_within_valid_intrinsics_region(q,m)),'inregion/empty')
                m=mrcal.cameramodel(intrinsics=('LENSMODEL_PINHOLE',np.array((1000.,1000,W/2,H/2))),imagersize=(W,H)); ctx.ok(mrcal.is_within_valid_intrinsics_region(q,m) is None,'inregion/none')
    for it in range(ctx.n(240,3000)):
        kp,kn=int(rng.integers(5)),int(rng.integers(5)); s=10**rng.uniform(-2,4); how=it%6
        P=poly(rng,kp,(0,0),s)
        if   how==0: N=poly(rng,kn,rng.uniform(-1,1,2)*s,s*rng.uniform(.3,1.5))
        elif how==1: # a hole
            P=star(rng,(0,0),.6*s,s,int(rng.integers(3,14))); ap=P@np.array(((0,-1),(1,0))) if False else P
            N=poly(rng,kn,rng.uniform(-.05,.05,2)*s,s*rng.choice((.1,.01,1e-3,.15)))
        elif how==2: N=poly(rng,kn,(3*s,3*s),s)                 # disjoint
        elif how==3: N=poly(rng,1,(0,0),s*5); N=P*1.5 if it%12>6 else N*3  # covered
        elif how==4: # strips, cutting it apart
            N=np.array(((-9,-.1),(9,-.1),(9,.1),(-9,.1)))*s; N=N if it%12>6 else N[:,::-1]
        else: # shared edges
            P=np.array(((0,0),(4,0),(4,4),(0,4.)))*s; N=np.array((((0,0),(2,0),(2,4),(0,4.)),((1,0),(2,0),(2,2),(1,2)),((4,0),(6,0),(6,4),(4,4)),((0,0),(4,0),(4,4),(0,4)))[it//6%4])*s
        cl=lambda x: np.vstack((x,x[:1])) if it%2 else x
        ctx.case('polygon',key=(how,kp,kn,len(P),len(N)),how=how,P=P,N=N)
        with ctx.guard('polygon'):
            d=mrcal.polygon_difference(cl(P),cl(N)); ctx.ok(isinstance(d,list),'polygon/type')
            q=np.vstack((rng.uniform(-1,1,(150,2))*s*1.2,rng.uniform(0,4,(50,2))*s, N+rng.normal(size=N.shape)*s*.02, P+rng.normal(size=P.shape)*s*.02))
            far=(edge_distance(q,P)>1e-6*s)&(edge_distance(q,N)>1e-6*s)
            for x in d: far&=edge_distance(q,np.asarray(x))>1e-6*s
            c=np.zeros(len(q),int)
            for x in d:
                x=np.asarray(x); ctx.ok(x.ndim==2 and x.shape[1]==2 and len(x)>=3,'polygon/shape','',got=x.shape); c+=inside(q,x)
            w=inside(q,P)&~inside(q,N)
            ctx.ok((c==w)[far].all(),'polygon','',bad=q[far&(c!=w)],got=d)
            # pieces may not overlap, and may not stick out: the areas add up
            from shapely.geometry import Polygon
            a=Polygon(P).difference(Polygon(N)).area; ctx.close(sum(area(np.asarray(x)) for x in d),a,'polygon/area',atol=1e-6*s*s,rtol=1e-6)
    for it in range(ctx.n(80,500)):
        n=int(rng.integers(1,12)); p=rng.uniform(-100,100,(n,2)); k=it%4
        if k==1 and n>1: p[-1]=p[0]
        if k==2: p=np.round(p).astype(int)
        ctx.case('contour',key=(n,k),p=p)
        with ctx.guard('contour'):
            p0=p.copy(); c=mrcal.close_contour(p); ctx.same(p,p0,'contour/modified')
            w=p if np.linalg.norm(p[0]-p[-1])<1e-6 else np.vstack((p,p[:1])); ctx.close(c,w,'contour',atol=1e-12)
            ctx.close(mrcal.close_contour(c),w,'contour/idempotent',atol=0)
            sp=float(rng.uniform(1,80)); dn=mrcal.utils._densify_polyline(p.astype(float) if it%2 else p,sp); dn=np.atleast_2d(dn)
            step=np.linalg.norm(np.diff(dn,axis=0),axis=1); ctx.ok(not len(step) or step.max()<=sp*(1+1e-5)+1e-9,'densify/spacing','',step=step,spacing=sp)
            L=np.sum(np.linalg.norm(np.diff(p,axis=0),axis=1)); ctx.close(step.sum(),L,'densify/length',atol=1e-6)
            cum=np.concatenate(((0.,),np.cumsum(step))); at=np.concatenate(((0.,),np.cumsum(np.linalg.norm(np.diff(p,axis=0),axis=1))))
            for t,x in zip(at,p):
                i=np.argmin(np.abs(cum-t)); ctx.close(dn[i],x,'densify/vertices',atol=1e-6)
    ctx.ok(mrcal.close_contour(None) is None,'contour/none'); ctx.ok(mrcal.close_contour(np.zeros((0,)) ).shape==(0,2) and mrcal.close_contour(np.zeros((0,2)) ).shape==(0,2),'contour/empty')
    for it in range(ctx.n(40,300)):
        order=2+it%2; lm=f'LENSMODEL_SPLINED_STEREOGRAPHIC_order={order}_Nx={int(rng.integers(5,20))}_Ny={int(rng.integers(5,20))}_fov_x_deg={int(rng.integers(30,170))}'
        ctx.case('domain',key=lm,lensmodel=lm)
        with ctx.guard('domain'):
            c=mrcal.utils._splined_stereographic_domain(lm); x,y=ref.spline_knots(ref.config(lm))
            e=(lambda k:(k[0]+k[1])/2,lambda k:k[1])[order-2]; r=(lambda k:(k[-1]+k[-2])/2,lambda k:k[-2])[order-2]
            lo,hi=np.array((e(x),e(y))),np.array((r(x),r(y)))
            ctx.close(c[0],c[-1],'domain/closed',atol=1e-12)
            ctx.close(np.array((c.min(axis=0),c.max(axis=0))),np.array((lo,hi)),'domain/extent',atol=1e-9)
            ctx.close(area(c),np.prod(hi-lo),'domain/area',atol=1e-9); ctx.close(np.sum(np.linalg.norm(np.diff(c,axis=0),axis=1)),2*np.sum(hi-lo),'domain/perimeter',atol=1e-9)
    ctx.raises(lambda: mrcal.utils._splined_stereographic_domain('LENSMODEL_OPENCV4'),'domain/refuse')

# ------------------------------------------------------- residuals
LM=('LENSMODEL_PINHOLE','LENSMODEL_OPENCV4','LENSMODEL_OPENCV8','LENSMODEL_STEREOGRAPHIC','LENSMODEL_CAHVOR','LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=8_Ny=6_fov_x_deg=120','LENSMODEL_SPLINED_STEREOGRAPHIC_order=2_Nx=8_Ny=6_fov_x_deg=120')
def problem(rng,it):
    lm=LM[it%len(LM)]; cams=('cam0-ref','all','moving','mixed')[it%4]; Nc=int(rng.integers(1,4)) if cams!='mixed' else int(rng.integers(2,5))
    kind=it%5; Np=int(rng.integers(2,8)) if kind in (1,2,4) else 0
    oi=prob.make(rng,lm,Ncam=Nc,Nframes=0 if kind==2 else int(rng.integers(1,5)),WH=(int(rng.integers(2,7)),int(rng.integers(2,6))),Npoints=Np,Npoints_fixed=int(rng.integers(0,2)) if Np else 0,cameras=cams,outliers=.2,warp=bool(rng.integers(2)) and kind!=2,
                 Ntri=int(rng.integers(1,4)) if kind==4 and Nc>1 and False else 0)
    if oi.get('observations_board') is None: oi['calobject_warp']=None
    if oi.get('calobject_warp') is None: oi['do_optimize_calobject_warp']=False
    # triangulated points come with neither
    return oi
def boards_cam(oi):
    H,W=oi['observations_board'].shape[1:3]; b=prob.board(W,H,oi['calibration_object_spacing'],oi.get('calobject_warp')); out=[]
    for f,ii,ie in oi['indices_frame_camintrinsics_camextrinsics']:
        p=b@ref.R_from_r(oi['rt_ref_frame'][f,:3]).T+oi['rt_ref_frame'][f,3:]
        if ie>=0: p=p@ref.R_from_r(oi['rt_cam_ref'][ie,:3]).T+oi['rt_cam_ref'][ie,3:]
        out.append(p)
    return np.array(out)
def j_residuals(ctx,rng):
    for it in range(ctx.n(150,1500)):
        oi=problem(rng,it); b=oi.get('observations_board'); pt=oi.get('observations_point')
        ref_none = oi['rt_cam_ref'] is not None and len(oi['rt_cam_ref'])==0 and rng.uniform()<.5
        if ref_none: oi['rt_cam_ref']=None; oi['do_optimize_extrinsics']=False
        if mrcal.num_states(**oi)==0: oi['do_optimize_intrinsics_distortions' if oi['lensmodel'].count('SPLINED') else 'do_optimize_intrinsics_core']=True  # nothing to optimize is refused
        R=prob.Ref(oi); desc=dict(lensmodel=oi['lensmodel'],Ni=R.Ni,Ne=R.Ne,Nb=R.Nb,No=R.No)
        with ctx.guard('residuals'):
            if b is not None:
                want=boards_cam(oi); ii=oi['indices_frame_camintrinsics_camextrinsics'][:,1]; inl=b[...,2]>0
                for cam in (None,)+tuple(range(R.Ni)):
                    given=rng.uniform()<.4; sel=rng.uniform(size=inl.shape)<.6 if given else inl; sel0=sel.copy()
                    ctx.case('corners',key=(it%20,cam is None,given,R.Nb,R.Ne),cam=cam,given=given,**desc)
                    m=np.ones(len(ii),bool) if cam is None else ii==cam
                    kw={} if cam is None and it%2 else dict(icam_intrinsics=cam)
                    if given: kw['idx_inliers']=sel
                    elif it%3==0: kw['idx_inliers']=None
                    r=mrcal.hypothesis_board_corner_positions(**kw,**oi)
                    ctx.same(sel,sel0,'corners/modified'); ctx.ok(len(r)==4,'corners/len')
                    G=dict(atol=1e-9,rtol=1e-9)
                    ctx.close(r[0],want,'corners/all',**G); ctx.close(r[1],want[m],'corners/camera',**G)
                    ctx.close(r[2],want[m][sel[m]],'corners/inliers',**G); ctx.close(r[3],want[m][~sel[m]],'corners/outliers',**G)
            x=R.measure(); xr=rng.normal(size=len(x))
            for what,f,f2,obs,n,m0 in (('board',mrcal.measurements_board,mrcal.residuals_board,b,R.m_board,0),('point',mrcal.measurements_point,mrcal.residuals_point,pt,R.m_point,R.m_board)):
                idx=oi.get('indices_frame_camintrinsics_camextrinsics' if what=='board' else 'indices_point_camintrinsics_camextrinsics')
                for cam in (None,)+tuple(range(R.Ni))+(R.Ni,):
                    given=rng.uniform()<.5; ro=rng.uniform()<.5; old=rng.uniform()<.3; xx=xr if given else x
                    ctx.case('residuals',key=(it%20,what,cam is None,given,ro,old,obs is None),what=what,cam=cam,given=given,ro=ro,**desc)
                    kw={}
                    if given: kw['residuals' if old else 'x']=xx
                    if ro: kw['return_observations']=True
                    if cam is not None: kw['i_cam' if what=='board' and it%3==0 else 'icam_intrinsics']=cam
                    r=(f2 if old else f)(oi,**kw)
                    if obs is None: we,wo=np.zeros((0,2)),np.zeros((0,2))
                    else:
                        k=(np.asarray(obs[...,2])>0) & ((idx[:,1]==cam) if cam is not None else np.ones(len(idx),bool)).reshape((-1,)+(1,)*(obs.ndim-2))
                        we=xx[m0:m0+n].reshape(obs.shape[:-1]+(2,))[k]; wo=obs[...,:2][k]
                    if ro: ctx.ok(isinstance(r,tuple) and len(r)==2,'residuals/tuple'); ctx.close(r[1],wo,'residuals/observations',atol=0); r=r[0]
                    ctx.close(r,we,'residuals',atol=1e-6 if not given else 0,rtol=1e-7)
            # boundaries
            st=mrcal.plotoptions_state_boundaries(**oi); w=[]
            for nm,k in (('intrinsics',0),('extrinsics',0),('frames',0),('points',0),('calobject_warp',0)):
                i=R.index(nm,k)
                if i is not None: w.append((i,nm))
            def parse(l): return [(int(a.split('from ')[1].split(',')[0]),t.split('"')[1]) for a,t in zip(l[::2],l[1::2])],all(a.startswith(f'arrow from {int(a.split("from ")[1].split(",")[0])}, graph 0 to {int(a.split("from ")[1].split(",")[0])}, graph 1') and f'at {int(a.split("from ")[1].split(",")[0])},' in t for a,t in zip(l[::2],l[1::2]))
            ctx.case('boundaries',key=it%30,**desc); ctx.ok(parse(st)==(w,True),'boundaries/state','',got=st,want=w)
            w=[]
            if R.m_board: w.append((0,'boards'))
            if R.m_point: w.append((R.m_board,'points'))
            if R.m_reg:   w.append((R.m_board+R.m_point,'regularization'))
            me=mrcal.plotoptions_measurement_boundaries(**oi); ctx.ok(parse(me)==(w,True),'boundaries/measurements','',got=me,want=w)
            # a packed state
            if R.Nstate:
                ctx.case('ingest',key=(it%30,R.Nstate),Nstate=R.Nstate,sel=R.sel,**desc)
                s=rng.normal(size=R.Nstate); s0=s.copy(); o={k:(np.array(v) if isinstance(v,np.ndarray) else v) for k,v in oi.items()}
                ret=mrcal.ingest_packed_state(s if it%3 else s.reshape(1,-1)[0],**o); ctx.same(s,s0,'ingest/modified'); ctx.ok(ret is None,'ingest/return')
                want=R.with_state(s*R.scale)
                for k,v in want.items():
                    if isinstance(v,np.ndarray): ctx.close(o[k],v,'ingest/'+k,atol=1e-9)
                ctx.raises(lambda: mrcal.ingest_packed_state(np.zeros(R.Nstate+1),**o),'ingest/size')
    # triangulated points, in the boundaries
    for it in range(ctx.n(15,80)):
        oi=prob.make(rng,'LENSMODEL_OPENCV4',Ncam=3,Nframes=int(it%2)*2,Npoints=int(it%3>0)*3,Ntri=3,select=dict(do_optimize_intrinsics_core=False,do_optimize_intrinsics_distortions=False,do_optimize_extrinsics=True,do_optimize_frames=True,do_optimize_calobject_warp=it%2==1,do_apply_regularization=False,do_apply_regularization_unity_cam01=it%4>1))
        if not it%2: oi['calobject_warp']=None
        R=prob.Ref(oi); ctx.case('boundaries',key=('tri',it),it=it); w=[]
        if R.m_board: w.append((0,'boards'))
        if R.m_point: w.append((R.m_board,'points'))
        if R.m_tri:   w.append((R.m_board+R.m_point,'points_triangulated'))
        if R.m_reg:   w.append((R.m_board+R.m_point+R.m_tri,'regularization'))
        with ctx.guard('boundaries/tri'):
            me=mrcal.plotoptions_measurement_boundaries(**oi); ctx.ok(parse(me)==(w,True),'boundaries/measurements/tri','',got=me,want=w)

# ------------------------------------------------------- regions
def j_region(ctx,rng):
    import scipy.ndimage
    for it in range(ctx.n(10,60)):
        lm=('LENSMODEL_OPENCV4','LENSMODEL_OPENCV8','LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=8_Ny=6_fov_x_deg=120','LENSMODEL_PINHOLE')[it%4]
        Nc=1+it%2
        oi=prob.make(rng,lm,Ncam=Nc,Nframes=8,WH=(7,6),noise=.4,outliers=.1,strength=.2,jitter=.002,warp=True,select=dict(do_optimize_intrinsics_core=True,do_optimize_intrinsics_distortions=True,do_optimize_extrinsics=True,do_optimize_frames=True,do_optimize_calobject_warp=True,do_apply_regularization=True))
        if it%2: oi['observations_board'][...,0]+=rng.uniform(-2,2); 
        R=prob.Ref(oi); x=R.measure()
        for icam in range(Nc):
            with ctx.guard('regional'):
                m=mrcal.cameramodel(optimization_inputs=oi,icam_intrinsics=icam); W,H=m.imagersize()
                nw=int(rng.integers(3,12)); nh=None if it%3==0 else int(rng.integers(3,10)); n=int(round(H/W*nw)) if nh is None else nh
                if n<2: continue
                ctx.case('regional',key=(lm,it,icam),lensmodel=lm,nw=nw,nh=nh,it=it)
                mean,std,count,using=mrcal.calibration._report_regional_statistics(m,gridn_width=nw,gridn_height=nh)
                b=oi['observations_board']; idx=oi['indices_frame_camintrinsics_camextrinsics']
                e=x[:R.m_board].reshape(b.shape[:-1]+(2,)); k=(b[...,2]>0)&(idx[:,1]==icam)[:,None,None]; q,e=b[...,:2][k],e[k]
                wm,ws,wc=np.zeros((3,n,nw)); dx,dy=(W-1)/(nw-1)/2,(H-1)/(n-1)/2
                for i in range(n):
                    for j in range(nw):
                        s=(np.abs(q[:,0]-j*2*dx)<dx)&(np.abs(q[:,1]-i*2*dy)<dy); wc[i,j]=s.sum()
                        if s.sum()>2: wm[i,j]=e[s].mean(); ws[i,j]=e[s].std()
                ctx.close(mean,wm,'regional/mean',atol=1e-6); ctx.close(std,ws,'regional/stdev',atol=1e-6); ctx.close(count,wc,'regional/count',atol=0)
                ctx.ok(using==mrcal.imagergrid_using((W,H),nw,nh),'regional/using')
            for rep in range(3):
                gw,gh=int(rng.integers(8,25)),(None if rep==0 else int(rng.integers(6,20))); g=int(round(H/W*gw)) if gh is None else gh
                th=dict(threshold_uncertainty=float(rng.choice((.3,1,3,1e6))),threshold_mean=float(rng.choice((.1,.5,5))),threshold_stdev=float(rng.choice((.2,.6,5))),threshold_count=float(rng.choice((1,3,6))),distance=float(rng.choice((0,1,3))))
                ctx.case('validregion',key=(lm,it,icam,rep),lensmodel=lm,th=th,gw=gw,gh=gh)
                with ctx.guard('validregion'):
                    q=mrcal.sample_imager(gw,g,W,H); v=mrcal.unproject(q,*m.intrinsics(),normalize=True)
                    u=mrcal.projection_uncertainty(v*(th['distance'] or 1),m,atinfinity=not th['distance'],what='worstdirection-stdev')
                    dx,dy=(W-1)/(gw-1)/2,(H-1)/(g-1)/2
                    with np.errstate(invalid='ignore'): ok=np.isfinite(u)&(u<th['threshold_uncertainty'])
                    if 'SPLINED' not in lm:
                        for i in range(g):
                            for j in range(gw):
                                s=(np.abs(qq[:,0]-j*2*dx)<dx)&(np.abs(qq[:,1]-i*2*dy)<dy) if False else (np.abs(q_(b,k)[:,0]-j*2*dx)<dx)&(np.abs(q_(b,k)[:,1]-i*2*dy)<dy)
                                c=s.sum(); mm,ss=(e[s].mean(),e[s].std()) if c>2 else (0,0)
                                if not(abs(mm)<th['threshold_mean'] and ss<th['threshold_stdev'] and c>=th['threshold_count']): ok[i,j]=False
                    r=mrcal.calibration._compute_valid_intrinsics_region(m,*[th['threshold_'+z] for z in ('uncertainty','mean','stdev','count')],th['distance'],gridn_width=gw,gridn_height=gh)
                    blocks=(ok[1:,1:]&ok[1:,:-1]&ok[:-1,1:]&ok[:-1,:-1])
                    ctx.counts['valid-nonempty']=ctx.counts.get('valid-nonempty',0)+(len(r)>0)
                    if len(r)==0: ctx.ok(r.shape==(0,2) and not blocks.any(),'validregion/empty','',mask=ok); continue
                    ctx.ok((r[0]==r[-1]).all(),'validregion/closed'); p=r[:-1].astype(float)
                    # on the grid, and in the mask
                    jj=np.round(p[:,0]/(2*dx)).astype(int); iii=np.round(p[:,1]/(2*dy)).astype(int)
                    ctx.close(p,np.stack((jj*2*dx,iii*2*dy),axis=-1),'validregion/grid',atol=.5001,rtol=0)
                    ctx.ok(ok[iii,jj].all(),'validregion/vertices','',r=r,mask=ok)
                    lab,nl=scipy.ndimage.label(ok,np.ones((3,3))); L=lab[iii[0],jj[0]]
                    ctx.ok((lab[iii,jj]==L).all(),'validregion/connected'); ci,cj=np.nonzero(lab==L)
                    ctx.ok((jj.min(),jj.max(),iii.min(),iii.max())==(cj.min(),cj.max(),ci.min(),ci.max()),'validregion/extent','',r=r,mask=ok)
                    grid=np.stack((cj*2*dx,ci*2*dy),axis=-1); o=~inside(grid,p); ctx.ok(not o.any() or edge_distance(grid[o],p).max()<1.01,'validregion/contains','',r=r)
                    big=max(np.sum(blocks&(lab==l)[1:,1:]) for l in range(1,nl+1)); ctx.ok(area(p)>=(big-.01)*4*dx*dy*.8-2*(W+H),'validregion/largest','',area=area(p),big=big*4*dx*dy)
                    # a hole of bad cells inside of the region is possible: only the outer contour is reported
def q_(b,k): return b[...,:2][k]

# ------------------------------------------------------- alignment
def horn(S):
    '''max over rotations of trace(R' S), S = sum(w a b'), from the quaternion formulation'''
    N=np.array(((S[0,0]+S[1,1]+S[2,2],S[2,1]-S[1,2],S[0,2]-S[2,0],S[1,0]-S[0,1]),(0,S[0,0]-S[1,1]-S[2,2],S[0,1]+S[1,0],S[2,0]+S[0,2]),(0,0,-S[0,0]+S[1,1]-S[2,2],S[1,2]+S[2,1]),(0,0,0,-S[0,0]-S[1,1]+S[2,2])))
    return np.linalg.eigvalsh(N+np.triu(N,1).T)[-1]
def proper(R): return np.abs(R@R.T-np.eye(3)).max()<1e-9 and abs(np.linalg.det(R)-1)<1e-9
def judge_points(ctx,Rt,a,b,w,degenerate,exact=None):
    Rt=np.asarray(Rt)
    if degenerate=='yes': ctx.ok(not Rt.any(),'points/degenerate','',Rt=Rt); return
    if not Rt.any():
        ctx.ok(degenerate=='maybe','points/refused','well-posed data was refused'); return
    R,t=Rt[:3],Rt[3]
    if not ctx.ok(proper(R),'points/proper','',R=R,det=np.linalg.det(R)): return
    w2=(np.ones(len(a)) if w is None else w)**2; s=w2.sum(); ma,mb=w2@a/s,w2@b/s; A,B=a-ma,b-mb
    best=np.sum(w2*np.sum(A*A+B*B,axis=1))-2*horn((A*w2[:,None]).T@B)
    r=a-(b@R.T+t); cost=np.sum(w2*np.sum(r*r,axis=1)); sc=np.sum(w2*np.sum(A*A+B*B,axis=1))+s*1e-12*(ma@ma+mb@mb)
    ctx.ok(cost<=best+1e-9*sc+1e-300,'points/optimal','',cost=cost,best=best,Rt=Rt)
    if exact is not None and degenerate=='no': ctx.close(Rt,exact,'points/exact',atol=1e-6)
def judge_vectors(ctx,R,a,b,w,degenerate,exact=None):
    R=np.asarray(R)
    if degenerate=='yes': ctx.ok(not R.any(),'vectors/degenerate','',R=R); return
    if not R.any(): ctx.ok(degenerate=='maybe','vectors/refused','well-posed data was refused'); return
    if not ctx.ok(proper(R),'vectors/proper','',R=R): return
    ww=np.ones(len(a)) if w is None else w; S=(a*ww[:,None]).T@b; best=horn(S); got=np.sum(R*S)
    ctx.ok(got>=best-1e-9*np.sum(np.abs(ww)),'vectors/optimal','',got=got,best=best,R=R)
    if exact is not None and degenerate=='no': ctx.close(R,exact,'vectors/exact',atol=1e-6)
def layout(rng,x,k):
    if k==0: return x
    if k==1: return np.asfortranarray(x)
    y=np.empty(x.shape[:-1]+(x.shape[-1]*2,)); y[...,::2]=x; return y[...,::2]
def j_align(ctx,rng):
    unit=lambda x: x/np.linalg.norm(x,axis=-1,keepdims=True)
    for it in range(ctx.n(400,5000)):
        N=int(rng.choice((1,2,3,4,5,20,100))); sc=10**rng.uniform(-3,3); kind=('exact','noisy','unrelated','mirror','planar','line','same','planarmirror')[it%8]
        b=rng.normal(size=(N,3)); Rt=np.vstack((ref.R_from_r(gen.r(rng)),rng.normal(size=3)*3)); deg='no' if N>=3 else 'yes' if N<=2 else 'maybe'
        if kind.startswith('planar'): b[:,2]=0
        if kind=='line': b=np.outer(rng.integers(-9,9,N),(1.,0,0)); deg='yes' if N<3 else 'maybe'
        if kind=='same': b[:]=b[0]; deg='maybe'
        a=b@Rt[:3].T+Rt[3]
        if kind=='noisy': a=a+rng.normal(size=a.shape)*.1
        if kind=='unrelated': a=rng.normal(size=a.shape)
        if 'mirror' in kind: a=a*(1,1,-1.)
        # small clouds can be near-degenerate
        if N==3 and deg=='no':
            A=a-a.mean(axis=0); B=b-b.mean(axis=0)
            if np.linalg.svd(A.T@B)[1][1]*sc*sc<1e-9: deg='maybe'
        a,b=a*sc,b*sc; Rt=np.vstack((Rt[:3],Rt[3]*sc)); Rt_=Rt
        wk=it//8%4; w=None if wk==0 else rng.uniform(.1,3,N)*(1 if wk==1 else rng.choice((-1,1),N) if wk==2 else 1)
        if wk==3: # some are ignored entirely
            w[rng.uniform(size=N)<.3]=0; 
            if deg=='no' and (w!=0).sum()<4: deg='maybe'
            if not w.any(): deg='yes'
        k0,k1=int(rng.integers(3)) if it%4==0 else 0,int(rng.integers(3)) if it%4==0 else 0
        if wk and w.any() and (np.linalg.svd(((a-a.mean(0))*(w*w)[:,None]).T@(b-b.mean(0)))[1][1]<1e-9 or sc<1e-2): deg='maybe' if deg=='no' else deg
        ctx.case('points',key=(N,kind,wk,k0,k1,it%50),N=N,kind_=kind,weights=wk,scale=sc,layout=(k0,k1))
        with ctx.guard('points'):
            a_,b_=layout(rng,a,k0),layout(rng,b,k1); s=(a_.copy(),b_.copy())
            r=mrcal.align_procrustes_points_Rt01(a_,b_,*(() if w is None and it%2 else (w,)))
            ctx.ok(np.shape(r)==(4,3),'points/shape'); ctx.same(a_,s[0],'points/modified'); ctx.same(b_,s[1],'points/modified')
            judge_points(ctx,r,a,b,w,deg,Rt if kind=='exact' else None)
            if wk==3 and w.any():
                # ignored points may be anything
                a2=a.copy(); a2[w==0]+=100*sc; r2=mrcal.align_procrustes_points_Rt01(a2,b,w); judge_points(ctx,r2,a2,b,w,deg)
    for it in range(ctx.n(300,4000)):
        N=int(rng.choice((1,2,3,4,10,50))); kind=('exact','noisy','unrelated','mirror','planar','same','opposite')[it%7]
        b=unit(rng.normal(size=(N,3))); R=ref.R_from_r(gen.r(rng)); deg='no' if N>=2 else 'yes'
        if N==1: deg='maybe'
        if kind=='planar': b[:,2]=0; b=unit(b)
        if kind=='same': b[:]=b[0]; deg='maybe'
        if kind=='opposite': b[:]=b[0]*rng.choice((-1,1),N)[:,None]; deg='maybe'
        a=b@R.T
        if kind=='noisy': a=unit(a+rng.normal(size=a.shape)*.1)
        if kind=='unrelated': a=unit(rng.normal(size=a.shape))
        if kind=='mirror': a=a*(1,1,-1)
        wk=it//7%4; w=None if wk==0 else rng.uniform(.1,3,N)
        if wk==2: w[rng.uniform(size=N)<.3]=0
        if wk==3: w*=rng.choice((-1,1),N)
        S=(a*(1 if w is None else w[:,None])).T@b; sv=np.linalg.svd(S)[1]
        if sv[1]<1e-9: deg='yes' if sv[1]==0 and sv[0]==0 else 'maybe'
        k0,k1=(int(rng.integers(3)),int(rng.integers(3))) if it%4==0 else (0,0)
        ctx.case('vectors',key=(N,kind,wk,k0,k1,it%50),N=N,kind_=kind,weights=wk)
        with ctx.guard('vectors'):
            r=mrcal.align_procrustes_vectors_R01(layout(rng,a,k0),layout(rng,b,k1),*(() if w is None and it%2 else (w,)))
            ctx.ok(np.shape(r)==(3,3),'vectors/shape'); judge_vectors(ctx,r,a,b,w,deg,R if kind=='exact' and (w is None or (w>0).all()) and sv[1]>1e-4 else None)
    # broadcasting
    for it in range(ctx.n(40,300)):
        sh=((2,),(3,2),(1,4),())[it%4]; N=int(rng.integers(4,9)); a=rng.normal(size=sh+(N,3)); b=rng.normal(size=(sh[1:] if it%3 else sh)+(N,3)); w=None if it%2 else rng.uniform(.1,2,(sh if it%4==0 else ())+(N,))
        ctx.case('broadcast',key=(sh,N,it%6),shape=sh,N=N)
        with ctx.guard('broadcast'):
            for f,one,k in ((mrcal.align_procrustes_points_Rt01,judge_points,(4,3)),(mrcal.align_procrustes_vectors_R01,judge_vectors,(3,3))):
                aa,bb=(a,b) if k==(4,3) else (unit(a),unit(b))
                r=f(aa,bb,w) if w is not None else f(aa,bb)
                if not ctx.ok(r.shape==sh+k,'broadcast/shape','',got=r.shape): continue
                A,B=np.broadcast_to(aa,sh+(N,3)),np.broadcast_to(bb,sh+(N,3)); Wt=None if w is None else np.broadcast_to(w,sh+(N,))
                for i in np.ndindex(*sh): one(ctx,r[i],A[i],B[i],None if w is None else Wt[i],'no')
    for bad in ((np.zeros((3,3)),np.zeros((4,3))),(np.zeros((3,2)),np.zeros((3,2)))):
        ctx.case('refuse',key=str(bad[0].shape)); ctx.raises(lambda: mrcal.align_procrustes_points_Rt01(*bad),'points/badshape'); ctx.raises(lambda: mrcal.align_procrustes_vectors_R01(*bad),'vectors/badshape')
        ctx.raises(lambda: mrcal.align_procrustes_points_Rt01(np.eye(3),np.eye(3),np.ones(4)),'points/badshape/weights')
    for it in range(ctx.n(150,2000)):
        sh=((),(4,),(2,3))[it%3]; v=rng.normal(size=sh+(3,))*10**rng.uniform(-4,4)
        if it%5==1: v=np.zeros(sh+(3,)); v[...,int(rng.integers(3))]=rng.choice((-1.,1.))*10**rng.uniform(-3,3)
        if it%5==2: v=v*(1,1e-6,1e-6)
        if it%5==3: v=v/np.linalg.norm(v,axis=-1,keepdims=True); v[...,0]=.9
        ctx.case('aligned',key=(sh,it%5,it),v=v)
        with ctx.guard('aligned'):
            R=mrcal.R_aligned_to_vector(v); ctx.ok(R.shape==sh+(3,3),'aligned/shape')
            for i in np.ndindex(*sh): ctx.ok(proper(R[i]),'aligned/proper','',R=R[i]); ctx.close(R[i]@(v[i]/np.linalg.norm(v[i])),(0,0,1.),'aligned',atol=1e-9)

# ------------------------------------------------------- the others
def j_misc(ctx,rng):
    for it in range(ctx.n(60,600)):
        lm=str(rng.choice(gen.lensmodels(rng))); sz=(4000,3000)
        ii=gen.intrinsics(rng,lm,strength=.5,imagersize=sz,central=False); m=mrcal.cameramodel(intrinsics=(lm,ii),imagersize=sz)
        if ref.config(lm)['kind']=='CAHVORE': continue
        p=gen.points(rng,lm,20,theta=min(.7,gen.max_theta(lm)),near_axis=.05); q=mrcal.project(p,lm,ii); 
        sh=((20,),(4,5),())[it%3]; 
        if sh==(): q=q[3]
        q=q.reshape(sh+(2,)); mode=('mean','min','max','eccentricity',None)[it%5]
        ctx.case('resolution',key=(lm,mode,sh),lensmodel=lm,intrinsics=ii,mode=mode)
        with ctx.guard('resolution'):
            r=mrcal.model_resolution__deg_pixel(q,m,**({} if mode is None else dict(mode=mode))); ctx.ok(np.shape(r)==sh,'resolution/shape','',got=np.shape(r))
            V=mrcal.unproject(q,lm,ii,normalize=True).reshape(-1,3)
            for v,x in zip(V,np.ravel(r)):
                if not np.isfinite(v).all() or not v.any(): continue
                u0=np.cross(v,(1,0,0.) if abs(v[0])<.7 else (0,1.,0)); u0/=np.linalg.norm(u0); u1=np.cross(v,u0)
                M=np.asarray(ref.numgrad(lambda z: ref.project(v+z[0]*u0+z[1]*u1,lm,ii),np.zeros(2),1e-3)); M=M.reshape(2,2)
                s=np.linalg.svd(M)[1]
                if s[1]<1 or not np.isfinite(s).all(): continue
                lo,hi=180/np.pi/s[0],180/np.pi/s[1]; w=dict(mean=(lo+hi)/2,min=lo,max=hi,eccentricity=hi/lo)[mode or 'mean']
                ctx.close(x,w,'resolution',rtol=1e-4 if 'SPLINED' not in lm else 1e-2,atol=0,v=v)
    ctx.raises(lambda: mrcal.model_resolution__deg_pixel(np.zeros(2),m,mode='nope'),'resolution/mode')
    for it in range(ctx.n(150,1500)):
        n=int(rng.integers(1,7)); sh=((),(3,),(2,2))[it%3]; L=rng.normal(size=sh+(n,n))*10**rng.uniform(-4,4); 
        if it%4==1: L[...,:,0]=0
        C=L@np.swapaxes(L,-1,-2)
        ctx.case('worst',key=(n,sh,it%4,it),C=C)
        with ctx.guard('worst'):
            s=mrcal.worst_direction_stdev(C); w=np.sqrt(np.maximum(np.linalg.eigvalsh(C)[...,-1],0)); ctx.close(s,w,'worst',rtol=1e-6,atol=1e-12 if np.abs(C).max()>0 else 0)
            l,v=mrcal.sorted_eig(C); ctx.ok(l.shape==sh+(n,) and v.shape==C.shape,'eig/shape')
            ctx.ok((np.diff(l,axis=-1)>=0).all(),'eig/order','',l=l); ctx.close(C@v,v*l[...,None,:],'eig',rtol=1e-9,atol=1e-300,scale=np.abs(C).max()); ctx.close(np.linalg.norm(v,axis=-2),np.ones(sh+(n,)),'eig/norm',atol=1e-9)
    ctx.raises(lambda: mrcal.worst_direction_stdev(np.zeros((2,3))),'worst/refuse')
    import math
    for it in range(ctx.n(40,300)):
        bw=10**rng.uniform(-3,1); s=10**rng.uniform(-2,2); mu=float(rng.normal()*10); N=int(rng.integers(2,1000)); leg=None if it%2 else 'a b'
        ctx.case('gaussian',key=it,binwidth=bw,sigma=s,mean=mu,N=N)
        with ctx.guard('gaussian'):
            if it%3==0:
                x=rng.normal(size=N)*s+mu; e=mrcal.fitted_gaussian_equation(binwidth=bw,x=x,legend=leg); mu,s=x.mean(),x.std()
            else: e=mrcal.fitted_gaussian_equation(binwidth=bw,mean=mu,sigma=s,N=N,legend=leg)
            t=' notitle ' if leg is None else ' title "a b" '; eq,rest=e.split(t); ctx.ok('with lines' in rest,'gaussian/text')
            for z in (0,1.,-2.): ctx.close(eval(eq,dict(x=mu+z*s,exp=math.exp,sqrt=math.sqrt,pi=math.pi)),N*math.erf(bw/2/s/math.sqrt(2))*math.exp(-z*z/2),'gaussian',rtol=1e-9,atol=0)
    for bad in (dict(x=np.arange(3.),mean=1.),dict(mean=1.,sigma=1.),dict()): ctx.raises(lambda: mrcal.fitted_gaussian_equation(binwidth=1.,**bad),'gaussian/refuse')
    for it in range(ctx.n(60,500)):
        N=int(rng.choice((1,2,5,300))); p=rng.normal(size=(N,3))*10**rng.uniform(-4,5); kind=it%5; binary=bool(it//5%2)
        c=None; nm=''
        if kind==1: c=rng.integers(0,256,N)
        if kind==2: c=rng.integers(0,256,(N,3))
        if kind==3: c=rng.integers(0,256,N); 
        if kind==4: c=rng.integers(0,256,(N,3))
        if c is not None and it%2 and kind<3: c=c.astype(np.uint8)
        ctx.case('ply',key=(N,kind,binary,it%4),N=N,kind_=kind,binary=binary)
        with ctx.guard('ply'):
            kw={} if binary and it%3==0 else dict(binary=binary)
            if kind in (3,4): mrcal.write_point_cloud_as_ply('a.ply',np.hstack((p,c.reshape(N,-1).astype(float))),**kw)
            else: mrcal.write_point_cloud_as_ply('a.ply',p,color=c,**kw)
            d=open('a.ply','rb').read(); h,body=d.split(b'end_header\n',1); h=h.decode().split('\n'); props=[l.split()[1:] for l in h if l.startswith('property')]
            ctx.ok(h[0]=='ply' and h[1]==('format binary_little_endian 1.0' if binary else 'format ascii 1.0') and f'element vertex {N}' in h,'ply/header','',h=h)
            dt=np.dtype([(n,dict(float='<f4',uchar='u1')[t]) for t,n in props])
            if binary:
                if not ctx.ok(len(body)==N*dt.itemsize,'ply/size','',size=len(body)): continue
                A=np.frombuffer(body,dt)
            else:
                rows=[l.split() for l in body.decode().split('\n') if l.strip()]
                if not ctx.ok(len(rows)==N and all(len(r)==len(props) for r in rows),'ply/rows','',rows=rows[:3]): continue
                A={n:np.array([float(r[i]) for r in rows]) for i,(t,n) in enumerate(props)}
            ctx.close(np.stack([A[k] for k in 'xyz'],axis=-1),p,'ply/points',rtol=2e-7)
            cols=[n for t,n in props[3:]]
            ctx.ok(cols==([] if c is None else ['intensity'] if c.ndim==1 else ['red','green','blue']),'ply/properties','',cols=cols)
            if c is not None:
                got=np.stack([A[k] for k in cols],axis=-1); ctx.close(got,c[:,None] if c.ndim==1 else c[:,::-1],'ply/color',atol=0)
    for bad in (dict(points=np.zeros((3,5))),dict(points=np.zeros(3)),dict(points=np.zeros((3,4)),color=np.zeros(3)),dict(points=np.zeros((3,3)),color=np.zeros(4)),dict(points=np.zeros((3,3)),color=np.zeros((3,2)))):
        ctx.raises(lambda: mrcal.write_point_cloud_as_ply('b.ply',**bad),'ply/refuse'); 
    ctx.ok(not os.path.exists('b.ply'),'ply/refuse/file')
