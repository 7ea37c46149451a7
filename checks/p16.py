'''No memory errors, undefined behaviour, leaks or aborts'''
import os, ctypes
TITLE = 'memory safety'
RULE  = ('An execution is one call of an API function with arguments that are valid, at the edge (empty, one element, indices at and past the end, huge or non-finite values), or wrong (shapes, types, missing, inconsistent), in a process instrumented with AddressSanitizer and UBSan, or running in valgrind (uninitialized memory), '
         'or with malloc() that fails on request, or that counts what is outstanding (leaks), or that fills memory with a given pattern. Oracle: no report, no abort, no growth, the same results for each pattern. Non-trivial: distinct function and kind of argument mutation.')
ASSUMPTIONS = ['sizes are such that the problem fits in memory and in the stack, and that the numbers of variables and measurements fit in an int',
               'zero-length GNU arrays, and pointers to empty arrays, are not considered undefined',
               'hangs inside of libdogleg, given non-finite or absurd (>1e150) values in several parameters at once, are not judged']
MIN_EVALUATIONS = 5000
FLOORS = {'solver':10000,'index':1000,'project':500,'leak':30,'image':100,'links':50,'oom':3,'valgrind':100,'perturb':30}
TIMEOUT = dict(quick=600,thorough=5400)

def jobs(tier,seed):
    n = 3 if tier=='quick' else 8
    vg=['valgrind','--error-limit=no','--num-callers=20','--log-file={san}.vg']
    return ([dict(name='valgrind',kind='valgrind',wrap=vg,env=dict(PYTHONMALLOC='malloc',VERIF_VG='1'),weight=9)]+
            [dict(name=f'solver_{i}',flavor='asan',weight=5) for i in range(n)]+
            [dict(name=k,flavor='asan',weight=3) for k in ('index','project','images','models','links','uncertainty')]+
            [dict(name='leaks',weight=4),dict(name='oom')]+
            [dict(name=f'perturb_{v}',env=dict(MALLOC_PERTURB_=str(v)),weight=2) for v in (1,85,254)])

def run(ctx,job):
    global np,mrcal,vlib,prob,gen,ref
    import numpy as np, mrcal, vlib, prob, gen, ref
    np.seterr(all='ignore')
    globals()[job['name'].split('_')[0]](ctx,job)

# ---------------------------------------------------------------- hostile arguments
BADF=(np_nan:=float('nan'),float('inf'),-float('inf'),1e300,-1e300,1e-300,0.,-0.,1e9,-1e9,5e-324)
BADI=(-2147483648,-1000,-3,-2,-1,0,1,2,3,4,5,100,2147483647)
NAMES=('','LENSMODEL_','LENSMODEL_NOPE','LENSMODEL_CAHVORE','LENSMODEL_CAHVORE_linearity=','LENSMODEL_CAHVORE_linearity=nan','LENSMODEL_CAHVORE_linearity=1e400','LENSMODEL_SPLINED_STEREOGRAPHIC',
       'LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=0_Ny=0_fov_x_deg=100','LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=1_Ny=1_fov_x_deg=100','LENSMODEL_SPLINED_STEREOGRAPHIC_order=2_Nx=2_Ny=2_fov_x_deg=100',
       'LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=-4_Ny=5_fov_x_deg=100','LENSMODEL_SPLINED_STEREOGRAPHIC_order=7_Nx=10_Ny=10_fov_x_deg=100','LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=65536_Ny=65536_fov_x_deg=100',
       'LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=99999_Ny=99999_fov_x_deg=100','LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=11_Ny=8_fov_x_deg=0','LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=11_Ny=8_fov_x_deg=-5','LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=11_Ny=8_fov_x_deg=360','LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=11_Ny=8_fov_x_deg=99999',
       'LENSMODEL_OPENCV8 ','LENSMODEL_OPENCV8\n','x'*5000,'LENSMODEL_'+'9'*300,'%s%n%d')

def lensmodel(rng):
    return str(rng.choice(gen.lensmodels(rng,1,1)))
def mutarray(rng,a,integer):
    '''-> (what, array or something else)'''
    a=np.array(a)
    for _ in range(20):
        k=str(rng.choice(('value','values','rowcopy','cut','grow','axis','squeeze','empty','dtype','zero','swap','none','junk','strided','reversed','repeat','byteswap')))
        if a.size==0 and k in ('value','values','rowcopy','cut','swap','repeat'): continue
        b=a.copy()
        if k in ('value','values'):
            for _ in range(1 if k=='value' else 1+int(rng.integers(min(b.size,4)))):
                i=tuple(int(rng.integers(n)) for n in b.shape)
                v=rng.choice(BADI) if integer else rng.choice(BADF)
                if rng.uniform()<.3: v=b[i]+rng.choice((-1,1))
                b[i]=v
            return k,b
        if k=='rowcopy' and b.ndim and len(b)>1: b[int(rng.integers(len(b)))]=b[int(rng.integers(len(b)))]; return k,b
        if k=='cut' and b.ndim: ax=int(rng.integers(b.ndim)); return k,np.ascontiguousarray(np.take(b,range(int(rng.integers(b.shape[ax]))),axis=ax))
        if k=='grow' and b.ndim and b.size: ax=int(rng.integers(b.ndim)); return k,np.ascontiguousarray(np.concatenate((b,np.take(b,[0],axis=ax)),axis=ax))
        if k=='axis': return k,b[None]
        if k=='squeeze' and b.ndim: return k,b.ravel() if rng.uniform()<.5 or not len(b) else np.ascontiguousarray(b[0])
        if k=='empty' and b.ndim: s=list(b.shape); s[int(rng.integers(b.ndim))]=0; return k,np.zeros(s,dtype=b.dtype)
        if k=='dtype':
            try: return k,b.astype(rng.choice((np.float32,np.float64,np.int64,np.int32,np.uint8,bool,complex,object,'S8')))
            except Exception: continue
        if k=='zero': return k,np.zeros_like(b)
        if k=='swap' and b.ndim and len(b)>1: i,j=rng.choice(len(b),2,replace=False); b[[i,j]]=b[[j,i]]; return k,b
        if k=='none': return k,None
        if k=='junk': return k,[3,'xyz',b.tolist(),{},b'12',np.array(3.),(),[],object(),lambda:1,-1,2**70][int(rng.integers(12))]
        if k=='strided' and b.ndim: return k,np.repeat(b,2,axis=-1)[...,::2]
        if k=='reversed' and b.ndim: return k,b[::-1]
        if k=='repeat' and b.ndim and len(b): return k,np.broadcast_to(b[:1],b.shape)
        if k=='byteswap' and b.dtype.kind in 'fi': return k,b.astype(b.dtype.newbyteorder('S'))
    return 'none',None
def mutate(rng,oi,nmax=3):
    o={k:(v.copy() if isinstance(v,np.ndarray) else v) for k,v in oi.items()}
    what=[]
    for _ in range(1+int(rng.integers(nmax))):
        k=str(rng.choice(list(o)))
        v=o[k]
        if isinstance(v,np.ndarray) : m,o[k]=mutarray(rng,v,v.dtype.kind=='i')
        elif isinstance(v,bool): m='bool'; o[k]=[True,False,None,2,-1,'x',0.5][int(rng.integers(7))]
        elif isinstance(v,str):
            if rng.uniform()<.5: m='name'; o[k]=str(rng.choice(NAMES))
            else: m='model'; o[k]=lensmodel(rng)
        elif isinstance(v,int): m='int'; o[k]=int(rng.choice(BADI[1:-1]))
        elif isinstance(v,float): m='float'; o[k]=float(rng.choice(BADF))
        else: # None
            m='given'; o[k]=[np.zeros((0,6)),np.zeros((1,6)),np.zeros((2,3)),np.zeros((0,3)),np.zeros((1,3),dtype=np.int32),np.zeros(2),0,np.zeros((1,3,4,3))][int(rng.integers(8))]
        if rng.uniform()<.1: m='missing'; o.pop(k)
        what.append((k,m))
        if not o: break
    return what,o

def problem(rng,small=True):
    lm=lensmodel(rng)
    if lm.startswith('LENSMODEL_SPLINED'): lm=gen.splined(rng,maxn=6)
    kw=dict(Ncam=int(rng.integers(1,4)),Nframes=int(rng.integers(0,3)),Npoints=int(rng.choice((0,0,2,4))),noise=.3,warp=bool(rng.integers(2)),
            WH=[(4,3),(2,2),(1,1),(3,1),(1,3)][int(rng.choice(5,p=(.6,.1,.1,.1,.1)))],cameras=str(rng.choice(('cam0-ref','all','moving','mixed'))),outliers=float(rng.choice((0,.1,.5,1.))))
    if kw['Npoints']: kw['Npoints_fixed']=int(rng.choice((0,0,1,kw['Npoints'])))
    if rng.uniform()<.2 and kw['Ncam']>1: kw['Ntri']=3
    if not kw['Nframes'] and not kw['Npoints'] and not kw.get('Ntri'): kw['Nframes']=1
    oi=prob.make(rng,lm,**kw)
    if rng.uniform()<.3:
        for k in prob.SEL: oi[k]=bool(rng.integers(2))
    if rng.uniform()<.2: oi['do_apply_regularization']=True
    oi['do_apply_outlier_rejection']=bool(rng.integers(2))
    return oi

# ---------------------------------------------------------------- the optimizer
def solver(ctx,job):
    global external
    import mmap; external=mmap.mmap(-1,4096)
    def chunk(ic):
        rng=np.random.default_rng((ctx.seed,int(job['name'].split('_')[1]),ic))
        for rep in range(20):
            try: oi=problem(rng)
            except Exception as e: ctx.counts['unmakeable']=ctx.counts.get('unmakeable',0)+1; continue
            for j in range(12):
                what,o=([],oi) if j==0 else mutate(rng,oi)
                ctx.case('solver',key=(tuple(what),oi['lensmodel'][:20],rep%7),what=repr(what)[:200],lm=oi['lensmodel'])
                solver_calls(ctx,rng,o,what)
    for ic in range(ctx.n(40,700)): ctx.forked(lambda: chunk(ic),40,external,'solver')
def hostile_values(o):
    for v in o.values():
        if isinstance(v,float) and not abs(v)<1e6: return True
        if isinstance(v,np.ndarray) and v.dtype.kind=='f' and v.size and not np.all(np.abs(v)<1e6): return True
        if isinstance(v,np.ndarray) and v.dtype.kind not in 'fi': return True
    return False
def attempt(ctx,f):
    try: r=f(); ctx.counts['accepted']=ctx.counts.get('accepted',0)+1; return r
    except Exception: ctx.counts['rejected']=ctx.counts.get('rejected',0)+1
def solver_calls(ctx,rng,o,what):
    with vlib.quiet_fds():
        r=attempt(ctx,lambda: mrcal.optimizer_callback(**o))
        if r is not None:
            b,x,J,f=r
            if f is not None:
                attempt(ctx,lambda: f.solve_xt_JtJ_bt(rng.normal(size=(2,len(b)))))
                attempt(ctx,f.rcond)
            if J is not None:
                ctx.ok(J.shape==(len(x),len(b)) and (J.nnz==0 or (J.indices.min()>=0 and J.indices.max()<len(b))) and np.all(np.diff(J.indptr)>=0) and J.indptr[-1]==len(J.data)==len(J.indices),'callback/J-structure',f'{what}')
        if rng.uniform()<.3: attempt(ctx,lambda: mrcal.optimizer_callback(**o,no_jacobian=bool(rng.integers(2)),no_factorization=True))
        if rng.uniform()<.3: attempt(ctx,lambda: mrcal.num_states(**o)); attempt(ctx,lambda: mrcal.num_measurements(**o))
        if rng.uniform()<.3: attempt(ctx,lambda: mrcal.corresponding_icam_extrinsics(int(rng.integers(-2,5)),**o))
        if rng.uniform()<.3: attempt(ctx,lambda: mrcal.drt_cross_reprojection__dbpacked(**o)) if hasattr(mrcal,'drt_cross_reprojection__dbpacked') else None
        if rng.uniform()<.3: attempt(ctx,lambda: mrcal._mrcal.drt_cross_reprojection__dbpacked(icam_intrinsics=int(rng.integers(-1,4)),**o)) if hasattr(mrcal._mrcal,'drt_cross_reprojection__dbpacked') else None
        if not hostile_values(o) and (r is None or (np.all(np.isfinite(r[1])) and np.all(np.abs(r[1])<1e8))) and rng.uniform()<.4:
            oo={k:(v.copy() if isinstance(v,np.ndarray) else v) for k,v in o.items()}
            external[0]=1; attempt(ctx,lambda: mrcal.optimize(**oo)); external[0]=0
        if rng.uniform()<.2 and r is not None:
            n=len(b)
            attempt(ctx,lambda: mrcal.ingest_packed_state(b,**{k:(v.copy() if isinstance(v,np.ndarray) else v) for k,v in o.items()}))
            attempt(ctx,lambda: mrcal.pack_state(b,**o)); attempt(ctx,lambda: mrcal.unpack_state(b,**o))

# ---------------------------------------------------------------- state, measurement layout
def index(ctx,job):
    rng=ctx.rng
    F=[n for n in dir(mrcal) if n.startswith(('state_index_','num_states','num_measurements','measurement_index_','num_intrinsics','decode_','corresponding_'))]
    ctx.ok(len(F)>=20,'index/functions',f'{F}')
    ctx.counts['index-functions']=len(F)
    dims=('Ncameras_intrinsics','Ncameras_extrinsics','Nframes','Npoints','Npoints_fixed','Nobservations_board','Nobservations_point','calibration_object_width_n','calibration_object_height_n')
    for rep in range(ctx.n(500,6000)):
        try: oi=problem(rng)
        except Exception: continue
        for n in F:
            f=getattr(mrcal,n)
            what,o=mutate(rng,oi) if rng.uniform()<.6 else ([],dict(oi))
            kw={}
            for d in dims:
                if rng.uniform()<.15: kw[d]=int(rng.choice((-5,-1,0,1,2,3,1000)))
            i=int(rng.choice((-2147483648,-100,-2,-1,0,1,2,3,5,20,50,100,1000,100000,2147483647)))
            ctx.case('index',key=(n,i,tuple(sorted(kw)),tuple(what)),f=n,i=i,kw=repr(kw),what=repr(what)[:150])
            o.update(kw)
            with vlib.quiet_fds():
                attempt(ctx,lambda: f(i,**o)); attempt(ctx,lambda: f(**o))
                if rng.uniform()<.2: attempt(ctx,lambda: f(rng.choice((None,'x',1.5)),**o))
                if rng.uniform()<.2: attempt(ctx,lambda: f(i,lensmodel=o.get('lensmodel'),**kw))

# ---------------------------------------------------------------- projection, geometry
def hostile(rng,shape,scale=1.):
    a=rng.normal(size=shape)*scale
    m=rng.uniform(size=shape)<float(rng.choice((0,.05,.5)))
    if a.size: a[m]=rng.choice(BADF,int(m.sum()))
    return a
def project(ctx,job):
    rng=ctx.rng
    shapes=[(),(0,),(1,),(3,),(2,0),(2,3),(3,1)]
    for rep in range(ctx.n(1500,15000)):
        lm=lensmodel(rng)
        try: intr=gen.intrinsics(rng,lm)
        except Exception: continue
        wild=rng.uniform()<.5
        if wild:
            m=rng.uniform(size=intr.shape)<.1; intr[m]=rng.choice(BADF[:8],int(m.sum())); intr[~m]*=rng.choice((1,1,-1,100))
        if rng.uniform()<.05: intr=intr[:-1]
        if rng.uniform()<.05: intr=np.append(intr,1.)
        name=str(rng.choice(NAMES)) if rng.uniform()<.1 else lm
        sh=shapes[int(rng.integers(len(shapes)))]
        d=3 if rng.uniform()<.95 else int(rng.integers(0,5))
        p=hostile(rng,sh+(d,)); q=hostile(rng,sh+(d-1 if d else 0,),3000)
        ctx.case('project',key=(lm[:20],sh,d,wild,name!=lm,rep%11),lm=name,shape=sh)
        with vlib.quiet_fds():
            for g in (False,True): attempt(ctx,lambda: mrcal.project(p,name,intr,get_gradients=g))
            # the inverse iterates: not with absurd parameters. See ASSUMPTIONS
            if not wild and name==lm:
                for kw in (dict(),dict(normalize=True),dict(get_gradients=True)): attempt(ctx,lambda: mrcal.unproject(q,name,intr,**kw))
            if name!=lm: attempt(ctx,lambda: mrcal.lensmodel_metadata_and_config(name)); attempt(ctx,lambda: mrcal.lensmodel_num_params(name)); attempt(ctx,lambda: mrcal.knots_for_splined_models(name))
        for n in ('pinhole','stereographic','lonlat','latlon'):
            for pre,x in (('project_',p),('unproject_',q)):
                fx=hostile(rng,(4 if rng.uniform()<.9 else 3,),1000.) if wild else np.array((1000.,1000.,500.,500.))
                ctx.counts['project']=ctx.counts.get('project',0)+1
                with vlib.quiet_fds():
                    for g in (False,True): attempt(ctx,lambda: getattr(mrcal,pre+n)(x,fx,get_gradients=g))
        # poses
        r=hostile(rng,sh+(3,)); rt=hostile(rng,sh+(6,)); R=hostile(rng,sh+(3,3)); Rt=hostile(rng,sh+(4,3)); qt=hostile(rng,sh+(7,)); qq=hostile(rng,sh+(4,))
        with vlib.quiet_fds():
            for g in (False,True):
                kw=dict(get_gradients=True) if g else {}
                for f,a in (('compose_rt',(rt,rt)),('compose_Rt',(Rt,Rt)),('compose_r',(r,r)),('invert_rt',(rt,)),('invert_Rt',(Rt,)),('R_from_r',(r,)),('r_from_R',(R,)),('rt_from_Rt',(Rt,)),('Rt_from_rt',(rt,)),
                            ('rotate_point_r',(r,p)),('rotate_point_R',(R,p)),('transform_point_rt',(rt,p)),('transform_point_Rt',(Rt,p)),('R_from_quat',(qq,)),('quat_from_R',(R,)),('Rt_from_qt',(qt,)),('qt_from_Rt',(Rt,)),('invert_R',(R,)),
                            ('compose_r_tinyr0_gradientr0',(r,)),('compose_r_tinyr1_gradientr1',(r,)),('compose_rt_tinyrt0_gradientrt0',(rt,)),('compose_rt_tinyrt1_gradientrt1',(rt,)),('skew_symmetric',(r,)),('R_aligned_to_vector',(r,))):
                    F=getattr(mrcal,f,None)
                    if F is not None: attempt(ctx,lambda: F(*a,**kw))
            for f in ('geometric','leecivera_l1','leecivera_linf','leecivera_mid2','leecivera_wmid2','lindstrom'):
                a=(p,hostile(rng,sh+(3,)),Rt if f=='lindstrom' else hostile(rng,sh+(3,)))
                F=getattr(mrcal,'triangulate_'+f)
                for kw in ({},dict(get_gradients=True)): attempt(ctx,lambda: F(*a,**kw))
            for n in (0,1,2,3,5):
                for f in ('align_procrustes_points_Rt01','align_procrustes_vectors_R01'):
                    attempt(ctx,lambda: getattr(mrcal,f)(hostile(rng,(n,3)),hostile(rng,(n,3)))); attempt(ctx,lambda: getattr(mrcal,f)(hostile(rng,(n,3)),hostile(rng,(n,3)),weights=hostile(rng,(n,))))
            attempt(ctx,lambda: mrcal._mrcal_npsp._A_Jt_J_At(hostile(rng,(2,4)),np.array((0,2),dtype=np.int32),np.array((0,3),dtype=np.int32),hostile(rng,(2,)),Nleading_rows_J=1)) if rep%50==0 else None

# ---------------------------------------------------------------- images, stereo
def images(ctx,job):
    rng=ctx.rng
    import tempfile
    D=tempfile.mkdtemp()
    for rep in range(ctx.n(150,1500)):
        w,h=int(rng.choice((0,1,2,3,7,16,33))),int(rng.choice((0,1,2,3,7,16,33)))
        dt=rng.choice((np.uint8,np.uint16,np.float64,np.int32,bool)); col=rng.uniform()<.3
        im=(rng.uniform(size=(h,w)+((3,) if col else ()))*255).astype(dt)
        f=f'{D}/a.'+str(rng.choice(('png','jpg','pgm','bmp','nope','')))
        k,im2=mutarray(rng,im,im.dtype.kind in 'iu') if rng.uniform()<.4 and im.size else ('-',im)
        ctx.case('image',key=(w,h,str(dt),col,f[-3:],k),w=w,h=h,dt=str(dt),mutation=k)
        with vlib.quiet_fds():
            attempt(ctx,lambda: mrcal.save_image(f,im2))
            for kw in ({},dict(bits_per_pixel=8,channels=1),dict(bits_per_pixel=16,channels=1),dict(bits_per_pixel=24,channels=3),dict(bits_per_pixel=int(rng.choice((-1,0,7,32))),channels=int(rng.choice((-1,0,1,2,4))))): attempt(ctx,lambda: mrcal.load_image(f,**kw))
            if os.path.exists(f) and os.path.getsize(f):
                b=bytearray(open(f,'rb').read())
                for _ in range(int(rng.integers(1,4))): b[int(rng.integers(len(b)))]=int(rng.integers(256))
                open(f+'x.'+f[-3:],'wb').write(b[:int(rng.integers(1,len(b)+1))] if rng.uniform()<.5 else b)
                attempt(ctx,lambda: mrcal.load_image(f+'x.'+f[-3:]))
            attempt(ctx,lambda: mrcal.apply_color_map(im2)); attempt(ctx,lambda: mrcal.apply_color_map(im2,a_min=float(rng.choice(BADF)),a_max=float(rng.choice(BADF))))
            mp=(hostile(rng,(int(rng.choice((0,1,3,20))),int(rng.choice((0,1,3,20))),2),20)).astype(np.float32)
            attempt(ctx,lambda: mrcal.transform_image(im2,mp))
    # stereo
    for rep in range(ctx.n(60,600)):
        lm=lensmodel(rng)
        try:
            m=[mrcal.cameramodel(intrinsics=(lm,gen.intrinsics(rng,lm,strength=.3,imagersize=(64,48))),imagersize=(64,48),rt_cam_ref=np.concatenate((rng.normal(size=3)*.05,(-.2*i,0,0)))) for i in range(2)]
        except Exception: continue
        ctx.case('image',key=('stereo',rep),lm=lm)
        kind=str(rng.choice(('LENSMODEL_LATLON','LENSMODEL_PINHOLE','LENSMODEL_OPENCV4','x')))
        fov=lambda: float(rng.choice((90.,60.,30.,0.,-10.,179.,360.,float('nan'),1e9,1e-9)))
        px=lambda: float(rng.choice((-1.,-.5,0.,1.,5.,-4,float('nan'))))
        if rng.uniform()<.3: m[1]=m[0]
        with vlib.quiet_fds():
            kw=dict(az_fov_deg=min(fov(),200.),el_fov_deg=min(fov(),200.),pixels_per_deg_az=px(),pixels_per_deg_el=px(),rectification_model=kind,az0_deg=None if rng.uniform()<.5 else fov(),el0_deg=fov() if rng.uniform()<.5 else 0.)
            mr=attempt(ctx,lambda: mrcal.rectified_system(m,**kw))
            if mr is None: mr=attempt(ctx,lambda: mrcal.rectified_system(m,az_fov_deg=60,el_fov_deg=40,pixels_per_deg_az=1.,pixels_per_deg_el=1.,rectification_model='LENSMODEL_LATLON'))
            if mr is None: continue
            if np.prod(mr[0].imagersize())>2e5: continue
            maps=attempt(ctx,lambda: mrcal.rectification_maps(m,mr))
            W,H=mr[0].imagersize()
            d=(rng.uniform(size=(H,W))*100).astype(np.int16); df=hostile(rng,(H,W),10)
            for disp,c in ((d,{}),(df,{}),(d[:-1],{}),(d,dict(disparity_scale=0)),(df,dict(disparity_min=-1e9,disparity_max=1e9)),(np.zeros((0,5)),{})):
                attempt(ctx,lambda: mrcal.stereo_range(disp,mr,**c)); attempt(ctx,lambda: mrcal.stereo_range(disp,mr[0],baseline=1.,**c))
            attempt(ctx,lambda: mrcal.stereo_range(hostile(rng,(3,),10),mr,qrect0=hostile(rng,(3,2),100))); attempt(ctx,lambda: mrcal.stereo_unproject(df,mr)); attempt(ctx,lambda: mrcal.stereo_unproject(None,mr,ranges=df))
            if hasattr(mrcal._mrcal,'_rectification_maps'): pass
            attempt(ctx,lambda: mrcal.rectified_resolution(m[0],az_fov_deg=fov(),el_fov_deg=fov(),az0_deg=fov(),el0_deg=fov(),R_cam0_rect0=hostile(rng,(3,3)),pixels_per_deg_az=px(),pixels_per_deg_el=px(),rectification_model=kind))
            attempt(ctx,lambda: mrcal.match_feature(np.zeros((10,10),np.uint8),np.zeros((10,10),np.uint8),hostile(rng,(2,),10),search_radius1=int(rng.choice((0,1,50,-1))),template_size1=(int(rng.choice((1,3,5,50))),3),H10=hostile(rng,(3,3)))) if rep%4==0 else None
    # the low-level entry points, directly
    for n in [x for x in dir(mrcal._mrcal) if x.startswith('_') and not x.startswith(('__','_test')) and callable(getattr(mrcal._mrcal,x))]:
        F=getattr(mrcal._mrcal,n)
        for rep in range(ctx.n(20,200)):
            ctx.case('image',key=('direct',n,rep),f=n)
            with vlib.quiet_fds(): attempt(ctx,lambda: F(*[mutarray(rng,rng.normal(size=tuple(rng.integers(0,4,int(rng.integers(0,4))))),False)[1] for _ in range(int(rng.integers(0,8)))]))

# ---------------------------------------------------------------- models
def models(ctx,job):
    rng=ctx.rng
    import tempfile
    D=tempfile.mkdtemp()
    for rep in range(ctx.n(150,2000)):
        lm=lensmodel(rng)
        m=mrcal.cameramodel(intrinsics=(lm,gen.intrinsics(rng,lm)),imagersize=(640,480),rt_cam_ref=rng.normal(size=6))
        f=f'{D}/m.cameramodel'
        m.write(f); s=bytearray(open(f,'rb').read())
        for j in range(4):
            t=bytearray(s)
            for _ in range(int(rng.integers(1,5))):
                k=int(rng.integers(6)); i=int(rng.integers(len(t)))
                if   k==0: t[i]=int(rng.integers(256))
                elif k==1: del t[i:i+int(rng.integers(1,20))]
                elif k==2: t[i:i]=bytes(rng.choice((b'[',b']',b'{',b'}',b"'",b'"',b',',b'(',b'1e999',b'-',b'nan',b'#',b'\\',b'\0',b'0'*400,b'True',b'b""',b"u'")))
                elif k==3: t[i:i]=t[int(rng.integers(len(t))):][:50]
                elif k==4: t=t[:i+1]
                else: t=t+t[i:]
                if not t: t=bytearray(b'{')
            ctx.case('model',key=(lm[:20],rep,j),lm=lm)
            with vlib.quiet_fds():
                open(f,'wb').write(t); attempt(ctx,lambda: mrcal.cameramodel(f))
        # arguments
        with vlib.quiet_fds():
            a=dict(intrinsics=(lm,gen.intrinsics(rng,lm)),imagersize=np.array((640,480)),rt_cam_ref=rng.normal(size=6),Rt_cam_ref=None,valid_intrinsics_region=rng.uniform(size=(4,2))*100)
            k=str(rng.choice(list(a)))
            if k=='intrinsics': a[k]=(str(rng.choice(NAMES)),a[k][1]) if rng.uniform()<.5 else (lm,mutarray(rng,a[k][1],False)[1])
            elif a[k] is not None: a[k]=mutarray(rng,a[k],k=='imagersize')[1]
            mm=attempt(ctx,lambda: mrcal.cameramodel(**a))
            if mm is not None: attempt(ctx,lambda: mm.write(f)); attempt(ctx,lambda: mrcal.cameramodel(f)); attempt(ctx,lambda: mrcal.cameramodel(mm))

# ---------------------------------------------------------------- sensor links
def links(ctx,job):
    rng=ctx.rng
    for rep in range(ctx.n(120,2000)):
        n=int(rng.choice((0,1,2,3,5,20,100)))
        c=(rng.uniform(size=(n,n))<rng.choice((.05,.3,1.)))*rng.integers(0,65536,(n,n)); c=np.triu(c,1); c=(c+c.T).astype(np.uint16)
        if rng.uniform()<.3: k,c=mutarray(rng,c,True)
        else: k='-'
        if k=='-' and rng.uniform()<.2: c=rng.integers(0,65536,(n,n)).astype(np.uint16)
        def cb(i,j):
            u=rng.uniform()
            if u<.02: raise Exception('no')
            if u<.04: raise KeyboardInterrupt
            return [None,0,'x',False][int(rng.integers(4))]
        ctx.case('links',key=(n,k,rep%20),n=n,mutation=k)
        with vlib.quiet_fds():
            for f in (cb,lambda *a: None,lambda: None,None,3):
                try: mrcal.traverse_sensor_links(connectivity_matrix=c,callback_sensor_link=f)
                except (Exception,KeyboardInterrupt): pass

# ---------------------------------------------------------------- uncertainty, and other functions of solved models
def uncertainty(ctx,job):
    rng=ctx.rng
    for rep in range(ctx.n(12,150)):
        lm=str(rng.choice(('LENSMODEL_PINHOLE','LENSMODEL_OPENCV4','LENSMODEL_CAHVOR',gen.splined(rng,maxn=6))))
        oi=prob.make(rng,lm,Ncam=2,Nframes=3,noise=.2,Npoints=int(rng.choice((0,3))),select={k:True for k in prob.SEL} if rng.uniform()<.6 else None)
        with vlib.quiet_fds():
            m=attempt(ctx,lambda: mrcal.cameramodel(optimization_inputs=oi,icam_intrinsics=int(rng.choice((0,1,1,5,-1)))))
            if m is None: continue
            for j in range(6):
                ctx.case('uncertainty',key=(rep,j),lm=lm)
                kw=dict(method=str(rng.choice(('mean-pcam','bestq','cross-reprojection-rrp-Jfp','cross-reprojection-ccp','nope'))),atinfinity=bool(rng.integers(2)),what=str(rng.choice(('covariance','worstdirection-stdev','rms-stdev','zzz'))))
                p=hostile(rng,[(3,),(2,3),(0,3),(2,2,3),(2,)][int(rng.integers(5))])
                attempt(ctx,lambda: mrcal.projection_uncertainty(p,m,**kw))
                what,o=mutate(rng,oi)
                mm=attempt(ctx,lambda: mrcal.cameramodel(optimization_inputs=o,icam_intrinsics=0))
                if mm is not None: attempt(ctx,lambda: mrcal.projection_uncertainty(p,mm,**kw))
            attempt(ctx,lambda: mrcal.residuals_board(oi,residuals=mrcal.optimizer_callback(**oi)[1])); attempt(ctx,lambda: mrcal.residuals_point(oi,residuals=mrcal.optimizer_callback(**oi)[1])); attempt(ctx,lambda: mrcal.measurements_board(oi))
            m2=mrcal.cameramodel(intrinsics=(lm,gen.intrinsics(rng,lm)),imagersize=m.imagersize())
            for kw in (dict(),dict(focus_radius=0),dict(focus_radius=1e-3,use_uncertainties=False),dict(use_uncertainties=False,distance=float(rng.choice((1.,0.,-1.,float('nan'))))),dict(implied_Rt10=hostile(rng,(4,3)))): attempt(ctx,lambda: mrcal.projection_diff((m,m2),gridn_width=5,gridn_height=4,**kw))

# ---------------------------------------------------------------- leaks
class Mallinfo(ctypes.Structure): _fields_=[(n,ctypes.c_size_t) for n in 'arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost'.split()]
def outstanding():
    l=ctypes.CDLL(None); l.mallinfo2.restype=Mallinfo
    i=l.mallinfo2(); return i.uordblks+i.hblkhd
def leaks(ctx,job):
    import gc, tempfile, capi
    rng=ctx.rng
    D=tempfile.mkdtemp()
    W=[]
    def add(name,f): W.append((name,f))
    for lm in ('LENSMODEL_OPENCV4','LENSMODEL_CAHVORE_linearity=0.37','LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=6_Ny=5_fov_x_deg=90'):
        i=gen.intrinsics(rng,lm); p=rng.normal(size=(50,3))+(0,0,4); q=mrcal.project(p,lm,i); t=lm[10:16]
        add(f'project/{t}',lambda lm=lm,i=i,p=p: mrcal.project(p,lm,i,get_gradients=True))
        if 'CAHVORE' not in lm: add(f'unproject/{t}',lambda lm=lm,i=i,q=q: mrcal.unproject(q,lm,i,get_gradients=True))
        add(f'project/bad/{t}',lambda lm=lm,i=i,p=p: mrcal.project(p[:,:2],lm,i))
        add(f'project/badlen/{t}',lambda lm=lm,i=i,p=p: mrcal.project(p,lm,i[:-1]))
        m=mrcal.cameramodel(intrinsics=(lm,i),imagersize=(640,480)); f=f'{D}/{t}.cameramodel'; m.write(f)
        add(f'read/{t}',lambda f=f: mrcal.cameramodel(f)); add(f'write/{t}',lambda m=m: m.write(f'{D}/o.cameramodel'))
        s=open(f,'rb').read()
        add(f'cread/{t}',lambda s=s: capi.read_string(s)); add(f'cread/bad/{t}',lambda s=s: capi.read_string(s[:-40])); add(f'cread/badlen/{t}',lambda s=s: capi.read_string(s.replace(b'[',b'[ 3, ',1))); add(f'cread/len/{t}',lambda s=s: capi.read_string(s,True))
        add(f'cread/dup/{t}',lambda s=s: capi.read_string(s.replace(b"'imagersize'",b"'lensmodel': 'LENSMODEL_PINHOLE', 'imagersize'")))
    oi=prob.make(rng,'LENSMODEL_OPENCV4',Ncam=2,Nframes=4,Npoints=5,noise=.1,outliers=0.,select=dict(prob.ALL)|dict(do_apply_regularization=True))
    oi1=prob.make(rng,'LENSMODEL_OPENCV4',Ncam=2,Nframes=8,noise=.1,WH=(6,5),outliers=0.,warp=False,select=dict(prob.ALL)|dict(do_apply_regularization=True,do_optimize_calobject_warp=False))
    oit=prob.make(rng,'LENSMODEL_PINHOLE',Ncam=2,Nframes=0,Npoints=0,Ntri=20)
    cp=lambda o: {k:(v.copy() if isinstance(v,np.ndarray) else v) for k,v in o.items()}
    for t,o in (('board',oi1),('points',oi),('triangulated',oit)):
        add(f'callback/{t}',lambda o=o: mrcal.optimizer_callback(**o)); add(f'callback/noJ/{t}',lambda o=o: mrcal.optimizer_callback(**o,no_jacobian=True,no_factorization=True))
        add(f'optimize/{t}',lambda o=o: mrcal.optimize(**cp(o))); add(f'num/{t}',lambda o=o: (mrcal.num_states(**o),mrcal.num_measurements(**o),mrcal.state_index_intrinsics(0,**o),mrcal.measurement_index_boards(0,**o)))
        N=mrcal.num_states(**o); add(f'pack/{t}',lambda o=o,N=N: (mrcal.pack_state(np.zeros(N),**o),mrcal.unpack_state(np.zeros(N),**o)))
        add(f'pack/bad/{t}',lambda o=o,N=N: mrcal.pack_state(np.zeros(N+1),**o)); add(f'cross/{t}',lambda o=o: mrcal._mrcal.drt_cross_reprojection__dbpacked(**o)); add(f'cross/ccp/{t}',lambda o=o: mrcal._mrcal.drt_cross_reprojection__dbpacked(icam_intrinsics=0,**o))
        add(f'factorization/{t}',lambda o=o,N=N: mrcal.optimizer_callback(**o)[3].solve_xt_JtJ_bt(np.zeros((2,N)))); add(f'icam/{t}',lambda o=o: mrcal.corresponding_icam_extrinsics(0,**o))
        J=None
        try: J=mrcal.optimizer_callback(**o)[2]
        except Exception: pass
        if J is not None: add(f'CHOLMOD/{t}',lambda J=J: mrcal.CHOLMOD_factorization(J).solve_xt_JtJ_bt(np.zeros((2,J.shape[1])))); add(f'CHOLMOD/bad/{t}',lambda J=J: mrcal.CHOLMOD_factorization(J).solve_xt_JtJ_bt(np.zeros((2,J.shape[1]+1)))); add(f'CHOLMOD/bad2/{t}',lambda J=J: mrcal.CHOLMOD_factorization(3))
        for k in list(o):
            if isinstance(o[k],np.ndarray) and o[k].size:
                bad=dict(o); bad[k]=o[k][:,:-1].copy() if o[k].ndim>1 else o[k][:-1].copy(); add(f'callback/bad/{t}/{k}',lambda bad=bad: mrcal.optimizer_callback(**bad)); add(f'num/bad/{t}/{k}',lambda bad=bad: mrcal.num_measurements(**bad))
                bad2=dict(o); bad2[k]=o[k].astype(np.float32); add(f'callback/type/{t}/{k}',lambda bad=bad2: mrcal.optimizer_callback(**bad)); add(f'optimize/type/{t}/{k}',lambda bad=bad2: mrcal.optimize(**bad)); add(f'pack/type/{t}/{k}',lambda bad=bad2,N=N: mrcal.pack_state(np.zeros(N),**bad))
        both=dict(o); both['extrinsics_rt_fromref']=o['rt_cam_ref']; add(f'callback/alias/{t}',lambda both=both: mrcal.optimizer_callback(**both)); add(f'num/alias/{t}',lambda both=both: mrcal.num_states(**both)); add(f'pack/alias/{t}',lambda both=both,N=N: mrcal.pack_state(np.zeros(N),**both))
        add(f'callback/unknown/{t}',lambda o=o: mrcal.optimizer_callback(**o,nope=None)); add(f'callback/unknown2/{t}',lambda o=o: mrcal.optimizer_callback(**o,nope=3)); add(f'num/unknown/{t}',lambda o=o: mrcal.num_states(**o,nope=None))
        b0=mrcal.optimizer_callback(**o,no_jacobian=True,no_factorization=True)[0]
        add(f'ingest/{t}',lambda o=o,b0=b0: mrcal.ingest_packed_state(b0,**cp(o)))
    mo=mrcal.cameramodel(optimization_inputs=oi1,icam_intrinsics=0); mo.write(f'{D}/oi.cameramodel')
    for meth in ('mean-pcam','cross-reprojection-rrp-Jfp','bestq'): add(f'uncertainty/{meth}',lambda meth=meth: mrcal.projection_uncertainty(np.array((.1,.2,3.)),mo,method=meth,observed_pixel_uncertainty=1.))
    add('read/oi',lambda: mrcal.cameramodel(f'{D}/oi.cameramodel').optimization_inputs()); add('write/oi',lambda: mo.write(f'{D}/o2.cameramodel'))
    for dt,sh,ext in ((np.uint8,(40,50),'png'),(np.uint16,(40,50),'png'),(np.uint8,(40,50,3),'png'),(np.uint8,(40,50),'jpg'),(np.uint8,(40,50,3),'jpg')):
        im=rng.integers(0,255,sh).astype(dt); n=f'{D}/{np.dtype(dt).name}{len(sh)}.{ext}'; t=f'{np.dtype(dt).name}{len(sh)}.{ext}'
        mrcal.save_image(n,im)
        add(f'save/{t}',lambda im=im,n=n: mrcal.save_image(n+'.'+n[-3:],im)); add(f'load/{t}',lambda n=n: mrcal.load_image(n))
        for bpp,c in ((8,1),(16,1),(24,3)): add(f'load/{t}/{bpp}',lambda n=n,bpp=bpp,c=c: mrcal.load_image(n,bits_per_pixel=bpp,channels=c))
        open(n+'bad.'+ext,'wb').write(open(n,'rb').read()[:120]); add(f'load/bad/{t}',lambda n=n,ext=ext: mrcal.load_image(n+'bad.'+ext))
        add(f'save/bad/{t}',lambda im=im: mrcal.save_image('/nonexistent/x.png',im)); add(f'save/strided/{t}',lambda im=im: mrcal.save_image(f'{D}/s.png',im[:,::2])); add(f'color/{t}',lambda im=im: mrcal.apply_color_map(im))
    m=[mrcal.cameramodel(intrinsics=('LENSMODEL_PINHOLE',np.array((60.,60,31,23))),imagersize=(64,48),rt_cam_ref=np.array((0,0,.01,-.2*k,0,0))) for k in range(2)]
    kr=dict(az_fov_deg=40,el_fov_deg=30,pixels_per_deg_az=-1.,pixels_per_deg_el=-1.)
    for rm in ('LENSMODEL_LATLON','LENSMODEL_PINHOLE'):
        mr=mrcal.rectified_system(m,rectification_model=rm,**kr); Wd,H=mr[0].imagersize(); d=np.ones((H,Wd),dtype=np.int16)
        add(f'rectified_system/{rm}',lambda rm=rm: mrcal.rectified_system(m,rectification_model=rm,**kr)); add(f'maps/{rm}',lambda mr=mr: mrcal.rectification_maps(m,mr)); add(f'range/{rm}',lambda mr=mr,d=d: mrcal.stereo_range(d,mr)); add(f'unproject/{rm}',lambda mr=mr,d=d: mrcal.stereo_unproject(d,mr)); add(f'range/bad/{rm}',lambda mr=mr,d=d: mrcal.stereo_range(d[1:],mr))
    add('rectified_system/bad',lambda: mrcal.rectified_system(m,rectification_model='LENSMODEL_OPENCV4',**kr))
    add('transform_image',lambda: mrcal.transform_image(np.zeros((40,50),np.uint8),np.zeros((10,10,2),np.float32)))
    c=np.array(((0,3,0),(3,0,4),(0,4,0)),dtype=np.uint16)
    add('links',lambda: mrcal.traverse_sensor_links(connectivity_matrix=c,callback_sensor_link=lambda i,j:None)); add('links/raise',lambda: mrcal.traverse_sensor_links(connectivity_matrix=c,callback_sensor_link=lambda i,j:1/0)); add('links/bad',lambda: mrcal.traverse_sensor_links(connectivity_matrix=c[:2],callback_sensor_link=lambda i,j:None)); add('links/bad2',lambda: mrcal.traverse_sensor_links(connectivity_matrix=c,callback_sensor_link=3))
    for f in ('lensmodel_metadata_and_config','lensmodel_num_params','knots_for_splined_models','supported_lensmodels'):
        for a in (('LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=6_Ny=5_fov_x_deg=90',),('LENSMODEL_NOPE',),(3,)): add(f'{f}/{str(a[0])[10:16]}',lambda f=f,a=a: getattr(mrcal,f)(*a))
    add('supported',lambda: mrcal.supported_lensmodels())
    rt=rng.normal(size=(20,6)); add('compose_rt',lambda: mrcal.compose_rt(rt,rt,get_gradients=True)); add('compose_rt/bad',lambda: mrcal.compose_rt(rt,rt[:,:5])); add('procrustes',lambda: mrcal.align_procrustes_points_Rt01(rt[:,:3],rt[:,3:]))
    add('triangulate_lindstrom',lambda: mrcal.triangulate_lindstrom(rt[:,:3],rt[:,3:],np.zeros((4,3)),get_gradients=True))
    for name,f in W:
        ctx.case('leak',key=name,f=name)
        def g():
            try: return f()
            except Exception: return None
        with vlib.quiet_fds():
            for _ in range(3): g()
            # a leak grows with the number of calls, in every one of the rounds
            n=12; d=[]
            for rnd in range(5):
                gc.collect(); a=outstanding()
                for _ in range(n): g()
                gc.collect(); d.append(outstanding()-a)
                if d[-1]<n*16: break
        ctx.ok(min(d)<n*16,f'leak/{name}',f'{n} more calls leave {d} more bytes allocated')
        ctx.maxerr['leak']=max(ctx.maxerr.get('leak',0),min(d)/(n*16))

# ---------------------------------------------------------------- malloc() failures
SRC=r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <string.h>
extern void* __libc_malloc(size_t); extern void* __libc_calloc(size_t,size_t); extern void* __libc_realloc(void*,size_t);
volatile int fault_at=-1, fault_count=0;
static __thread int inside;
static int fails(void* ra)
{
    if(fault_at==-1 || inside) return 0;
    inside=1; Dl_info i; int r=0;
    if(dladdr(ra,&i) && i.dli_fname && (strstr(i.dli_fname,"libmrcal") || strstr(i.dli_fname,"mrcal/_"))) r = fault_count++ == fault_at;
    inside=0; return r;
}
void* malloc(size_t n)          { return fails(__builtin_return_address(0)) ? NULL : __libc_malloc(n); }
void* calloc(size_t n,size_t m) { return fails(__builtin_return_address(0)) ? NULL : __libc_calloc(n,m); }
void* realloc(void* p,size_t n) { return fails(__builtin_return_address(0)) ? NULL : __libc_realloc(p,n); }
'''
def oom(ctx,job):
    '''Each malloc() the library makes fails, one at a time'''
    import subprocess, sys, tempfile
    D=tempfile.mkdtemp()
    open(f'{D}/f.c','w').write(SRC); subprocess.run(['gcc','-O1','-shared','-fPIC','-o',f'{D}/f.so',f'{D}/f.c','-ldl'],check=True)
    env=dict(os.environ); env['LD_PRELOAD']=f'{D}/f.so'
    driver=r'''
import sys,os,ctypes
import numpy as np, mrcal, prob, capi
l=ctypes.CDLL(os.environ['LD_PRELOAD']); at=ctypes.c_int.in_dll(l,'fault_at'); cnt=ctypes.c_int.in_dll(l,'fault_count')
D=sys.argv[1]; rng=np.random.default_rng(1)
lm='LENSMODEL_OPENCV4'; i=np.array((600.,600,300,200,.01,.01,.001,.001))
m=mrcal.cameramodel(intrinsics=(lm,i),imagersize=(640,480)); m.write(D+'/m.cameramodel'); s=open(D+'/m.cameramodel','rb').read()
im=rng.integers(0,255,(40,50,3)).astype(np.uint8); g=im[...,0].copy()
for n,x in (('c.png',im),('g.png',g),('c.jpg',im),('g.jpg',g),('h.png',g.astype(np.uint16))): mrcal.save_image(D+'/'+n,x)
oi=prob.make(rng,lm,Ncam=2,Nframes=3,noise=.1)
mr=mrcal.rectified_system([m,mrcal.cameramodel(intrinsics=(lm,i),imagersize=(640,480),rt_cam_ref=np.array((0,0,0,-1.,0,0)))],az_fov_deg=30,el_fov_deg=20,pixels_per_deg_az=1.,pixels_per_deg_el=1.)
W=dict(read=lambda: capi.read_string(s),readlen=lambda: capi.read_string(s,True),pyread=lambda: mrcal.cameramodel(D+'/m.cameramodel').intrinsics(),
 project=lambda: mrcal.project(np.ones((5,3)),lm,i,get_gradients=True),unproject=lambda: mrcal.unproject(np.ones((5,2)),lm,i),
 callback=lambda: mrcal.optimizer_callback(**oi)[1],strided=lambda: mrcal.save_image(D+'/s.png',np.zeros((40,80),np.uint8)[:,:50]),stridedc=lambda: mrcal.save_image(D+'/s.png',np.zeros((40,80,3),np.uint8)[:,:50]),stridedj=lambda: mrcal.save_image(D+'/s.jpg',np.zeros((40,80),np.uint8)[:,:50]),
 links=lambda: mrcal.traverse_sensor_links(connectivity_matrix=np.ones((3,3),dtype=np.uint16),callback_sensor_link=lambda i,j:None),
 conv=lambda: mrcal.rectified_system([m,mrcal.cameramodel(intrinsics=(lm,i),imagersize=(640,480),rt_cam_ref=np.array((0,0,0,-1.,0,0)))],az_fov_deg=30,el_fov_deg=20,pixels_per_deg_az=1.,pixels_per_deg_el=1.)[0].intrinsics()[1],
 maps=lambda: mrcal.rectification_maps([m,m],mr),color=lambda: mrcal.apply_color_map(g))
for n in ('c.png','g.png','c.jpg','g.jpg','h.png'):
    W['load'+n]=lambda n=n: mrcal.load_image(D+'/'+n)
    for b,c in ((8,1),(16,1),(24,3)): W[f'load{n}{b}']=lambda n=n,b=b,c=c: mrcal.load_image(D+'/'+n,bits_per_pixel=b,channels=c)
def val(f):
    try: return f()
    except Exception as e: return 'E'
def eq(a,b):
    if isinstance(a,(tuple,list)): return len(a)==len(b) and all(eq(x,y) for x,y in zip(a,b))
    if isinstance(a,dict): return all(eq(a[k],b[k]) for k in a)
    if isinstance(a,np.ndarray): return isinstance(b,np.ndarray) and np.array_equal(a,b,equal_nan=a.dtype.kind=='f')
    return a==b
o1,o2=os.dup(1),os.dup(2); nul=os.open('/dev/null',os.O_WRONLY)
for k,f in W.items():
    os.dup2(nul,2)
    w=val(f)
    n=0
    while True:
        os.write(o1,f'at {k} {n}\n'.encode())
        cnt.value=0; at.value=n; r=val(f); at.value=-1
        hit=cnt.value>n
        if not hit: break
        failed = isinstance(r,str) or (isinstance(r,tuple) and isinstance(r[0],int) and r[0]<0)
        os.write(o1,f'{"failed" if failed else "same" if eq(r,w) else "WRONG"} {k} {n}\n'.encode())
        if not eq(val(f),w): os.write(o1,f'AFTER {k} {n}\n'.encode())
        n+=1
        if n>200: break
os.write(o1,b'done\n')
'''
    p=subprocess.run([sys.executable,'-c',driver,D],env=env,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True)
    out=p.stdout.split('\n')
    for l in out:
        w=l.split()
        if len(w)==3 and w[0] in ('failed','same','WRONG'):
            ctx.case('oom',key=(w[1],w[2]),f=w[1],n=w[2]); ctx.ok(w[0]!='WRONG',f'oom/wrong/{w[1]}','a failed malloc() went unreported, and the result is wrong')
        if w and w[0]=='AFTER': ctx.violate(f'oom/after/{w[1]}','after a failed malloc() the results of the next call are wrong')
        if w and w[0]=='at': last=l
    ctx.ok(p.returncode==0 and 'done' in out,f'oom/crash/{last.split()[1] if out else ""}',f'exit {p.returncode} {last}: {p.stderr[-1500:]}')

# ---------------------------------------------------------------- uninitialized memory
def workload(ctx,small):
    '''A fixed sample of everything. Returns a list of (name,arrays)'''
    rng=np.random.default_rng(ctx.seed+(0 if small else 1)); res=[]
    def rec(name,f):
        ctx.case('valgrind' if small else 'perturb',key=name,f=name)
        with vlib.quiet_fds():
            try: r=f()
            except Exception as e: res.append((name,type(e).__name__)); return
        out=[]
        def walk(x):
            if isinstance(x,(tuple,list)):
                for y in x: walk(y)
            elif isinstance(x,dict):
                for k in sorted(x): walk(x[k])
            elif hasattr(x,'toarray'): walk(x.toarray())
            elif isinstance(x,mrcal.cameramodel): walk(x.intrinsics()[1]); walk(x.rt_cam_ref()); walk(x.imagersize())
            elif isinstance(x,(np.ndarray,float,int,str,bool)): out.append(np.array(x))
        walk(r)
        # using every value, so that valgrind notices those that are not defined
        for a in out:
            if a.dtype.kind in 'fiu': np.count_nonzero(a>0)
        res.append((name,out))
        return r
    lms=gen.lensmodels(rng,1,1)
    for lm in lms:
        i=gen.intrinsics(rng,lm); p=rng.normal(size=(4 if small else 60,3))+(0,0,2.); f=lm[10:40]
        q=rec(f'project/{f}',lambda: mrcal.project(p,lm,i)); rec(f'project/g/{f}',lambda: mrcal.project(p,lm,i,get_gradients=True))
        if q is not None and 'CAHVORE' not in lm: rec(f'unproject/{f}',lambda: mrcal.unproject(q,lm,i)); rec(f'unproject/g/{f}',lambda: mrcal.unproject(q,lm,i,get_gradients=True)); rec(f'unproject/n/{f}',lambda: mrcal.unproject(q,lm,i,normalize=True))
        rec(f'far/{f}',lambda: mrcal.project(np.array(((1.,0,-1),(0,0,0),(5,1,0))),lm,i,get_gradients=True))
    for rep in range(4 if small else 60):
        lm=str(rng.choice(lms)) if not small else ('LENSMODEL_PINHOLE','LENSMODEL_OPENCV4','LENSMODEL_SPLINED_STEREOGRAPHIC_order=2_Nx=4_Ny=4_fov_x_deg=90','LENSMODEL_CAHVOR')[rep]
        if 'SPLINED' in lm and not small: lm=gen.splined(rng,maxn=7)
        oi=prob.make(rng,lm,Ncam=2,Nframes=2+(not small)*2,WH=(3,3),Npoints=int(rng.choice((0,3))),noise=.2,warp=bool(rng.integers(2)),outliers=.2,cameras=str(rng.choice(('cam0-ref','all'))))
        oi['do_apply_outlier_rejection']=True
        for k,v in oi.items(): # numpy's results depend on the alignment of the arrays
            if isinstance(v,np.ndarray) and v.dtype==float: oi[k]=np.round(v,9)
        t=f'{rep}/{lm[10:20]}'
        rec(f'inputs/{t}',lambda: oi)
        r=rec(f'callback/{t}',lambda: mrcal.optimizer_callback(**oi)[:3])
        rec(f'callback/noJ/{t}',lambda: mrcal.optimizer_callback(**oi,no_jacobian=True,no_factorization=True)[:2])
        rec(f'solve/{t}',lambda: mrcal.optimizer_callback(**oi)[3].solve_xt_JtJ_bt(np.ones((1,len(r[0])))))
        o2={k:(v.copy() if isinstance(v,np.ndarray) else v) for k,v in oi.items()}
        rec(f'optimize/{t}',lambda: (mrcal.optimize(**o2),o2))
        rec(f'cross/{t}',lambda: mrcal._mrcal.drt_cross_reprojection__dbpacked(**oi)); rec(f'cross/ccp/{t}',lambda: mrcal._mrcal.drt_cross_reprojection__dbpacked(icam_intrinsics=1,**oi))
        rec(f'sizes/{t}',lambda: [mrcal.num_states(**oi),mrcal.num_measurements(**oi),mrcal.state_index_points(0,**oi),mrcal.measurement_index_regularization(**oi),mrcal.corresponding_icam_extrinsics(0,**oi)])
        m=mrcal.cameramodel(optimization_inputs=oi,icam_intrinsics=0)
        for meth in ('mean-pcam','cross-reprojection-rrp-Jfp'): rec(f'uncertainty/{meth}/{t}',lambda: mrcal.projection_uncertainty(np.array(((.1,.2,3.),(0,.1,2))),m,method=meth))
    oit=prob.make(rng,'LENSMODEL_PINHOLE',Ncam=3,Nframes=0,Npoints=0,Ntri=5); rec('triangulated',lambda: mrcal.optimizer_callback(**oit)[:3]); o3={k:(v.copy() if isinstance(v,np.ndarray) else v) for k,v in oit.items()}; rec('triangulated/optimize',lambda: (mrcal.optimize(**o3),o3))
    r,rt,R,Rt,p=(rng.normal(size=(3,)+s) for s in ((3,),(6,),(3,3),(4,3),(3,)))
    R=mrcal.R_from_r(r); Rt=mrcal.Rt_from_rt(rt)
    for g in (False,True):
        for f,a in (('compose_rt',(rt,rt)),('compose_r',(r,r)),('invert_rt',(rt,)),('R_from_r',(r,)),('r_from_R',(R,)),('rt_from_Rt',(Rt,)),('Rt_from_rt',(rt,)),('rotate_point_r',(r,p)),('rotate_point_R',(R,p)),('transform_point_rt',(rt,p)),('transform_point_Rt',(Rt,p)),('compose_r_tinyr0_gradientr0',(r,)),('invert_Rt',(Rt,)),('compose_Rt',(Rt,Rt))):
            for z in (1.,1e-9,0.): rec(f'{f}/{g}/{z}',lambda: getattr(mrcal,f)(*[x*z if x.shape[-2:] not in ((3,3),(4,3)) else x for x in a],**(dict(get_gradients=True) if g else {})))
    for f in ('geometric','leecivera_l1','leecivera_linf','leecivera_mid2','leecivera_wmid2','lindstrom'):
        for g in (False,True): rec(f'triangulate_{f}/{g}',lambda: getattr(mrcal,'triangulate_'+f)(p+(0,0,5),p+(.1,0,5),Rt if f=='lindstrom' else p,get_gradients=g))
    rec('procrustes',lambda: (mrcal.align_procrustes_points_Rt01(rng.normal(size=(6,3)),rng.normal(size=(6,3))),mrcal.align_procrustes_vectors_R01(rng.normal(size=(6,3)),rng.normal(size=(6,3)),weights=np.ones(6))))
    import tempfile
    D=tempfile.mkdtemp()
    m=[mrcal.cameramodel(intrinsics=('LENSMODEL_OPENCV4',np.array((30.,30,15,11,.01,.01,0,0))),imagersize=(32,24),rt_cam_ref=np.array((0,0,.01,-.2*k,0,0))) for k in range(2)]
    m[0].write(f'{D}/a.cameramodel'); rec('read',lambda: mrcal.cameramodel(f'{D}/a.cameramodel'))
    import capi
    s=open(f'{D}/a.cameramodel','rb').read(); rec('cread',lambda: capi.read_string(s)); rec('cread/len',lambda: capi.read_string(s,True)); rec('cread/bad',lambda: capi.read_string(s[:-20],True)[0])
    for rm in ('LENSMODEL_LATLON','LENSMODEL_PINHOLE'):
        mr=rec(f'rectified_system/{rm}',lambda: mrcal.rectified_system(m,rectification_model=rm,az_fov_deg=30,el_fov_deg=20,pixels_per_deg_az=-.7,pixels_per_deg_el=-.7))
        if mr is None: continue
        rec(f'maps/{rm}',lambda: mrcal.rectification_maps(m,mr)); Wd,H=mr[0].imagersize(); d=(rng.uniform(size=(H,Wd))*90-10).astype(np.int16)
        rec(f'range/{rm}',lambda: mrcal.stereo_range(d,mr)); rec(f'range/f/{rm}',lambda: mrcal.stereo_range(d.astype(float),mr,disparity_scale=2.)); rec(f'range/q/{rm}',lambda: mrcal.stereo_range(np.array((1.,2.,-1.,0)),mr,qrect0=np.ones((4,2))))
    for n,im in (('a.png',rng.integers(0,255,(5,7)).astype(np.uint8)),('b.png',rng.integers(0,65535,(5,7)).astype(np.uint16)),('c.png',rng.integers(0,255,(5,7,3)).astype(np.uint8)),('d.jpg',rng.integers(0,255,(5,7,3)).astype(np.uint8))):
        rec(f'save/{n}',lambda: (mrcal.save_image(f'{D}/{n}',im),np.frombuffer(open(f'{D}/{n}','rb').read(),dtype=np.uint8)))
        rec(f'load/{n}',lambda: mrcal.load_image(f'{D}/{n}'))
        for b,c in ((8,1),(16,1),(24,3)): rec(f'load/{n}/{b}',lambda: mrcal.load_image(f'{D}/{n}',bits_per_pixel=b,channels=c))
        if im.ndim==2: rec(f'color/{n}',lambda: mrcal.apply_color_map(im)); rec(f'color/same/{n}',lambda: mrcal.apply_color_map(im*0))
    rec('links',lambda: (lambda l: (mrcal.traverse_sensor_links(connectivity_matrix=np.array(((0,3,9),(3,0,4),(9,4,0)),dtype=np.uint16),callback_sensor_link=lambda i,j:l.append((int(i),int(j)))),l)[1])([]))
    return res
def valgrind(ctx,job):
    workload(ctx,True)
def perturb(ctx,job):
    '''The results mustn't depend on what fresh memory contains. This is compared across the jobs via files'''
    import pickle, glob
    mine=workload(ctx,False)
    d=os.path.dirname(os.environ['TMPDIR'])
    f=f'{d}/perturb-{job["name"]}.pkl'; pickle.dump(mine,open(f+'.t','wb')); os.rename(f+'.t',f)
    # the last one to finish judges: all have the same workload
    def same(a,b):
        if isinstance(a,str) or isinstance(b,str): return a is b or a==b if isinstance(a,str) and isinstance(b,str) else False
        if len(a)!=len(b): return False
        for x,y in zip(a,b):
            if x.shape!=y.shape or x.dtype!=y.dtype: return False
            if np.array_equal(x,y,equal_nan=x.dtype.kind=='f'): continue
            # Different alignments may produce different rounding
            if x.dtype.kind!='f' or not np.array_equal(np.isfinite(x),np.isfinite(y)): return False
            m=np.isfinite(x); s=np.max(np.abs(x[m]),initial=0)
            if np.any(np.abs(x[m]-y[m])>1e-6*s): return False
        return True
    for g in sorted(glob.glob(f'{d}/perturb-*.pkl')):
        if g==f: continue
        other=pickle.load(open(g,'rb'))
        ctx.ok(len(mine)==len(other),'uninitialized/workload','different executions')
        for (n,h),(n2,h2) in zip(mine,other):
            if n!=n2 or (n.startswith('inputs') and not same(h,h2)): ctx.violate('uninitialized/workload',f'different executions: {n} {n2}'); break
            ctx.ok(same(h,h2),f'uninitialized/{n.split("/")[0]}',f'{n}: the results depend on the contents of fresh memory ({os.path.basename(g)} {job["name"]})')
