'''Array layout never matters'''
import numpy as np, itertools
TITLE = 'broadcasting, memory layout, output arrays, const inputs'
RULE  = ('An execution is one call of a vectorized function with a broadcast stack of inputs in some memory layout (strided, transposed, reversed, zero strides, embedded in a larger buffer; empty dimensions), or into a given output array (in any of these layouts), or with unusable arrays. '
         'Oracle: the same function called slice by slice, on fresh contiguous copies. Inputs are compared byte for byte, with the surroundings in their buffers, before and after. Output arrays are embedded in canaries. '
         'Non-trivial: distinct function, shapes and layout.')
ASSUMPTIONS = ['refusing a wrong shape or numeric type is required of the compiled functions; the ones written in Python follow the rules of numpy (for instance: complex numbers are truncated, rows past the ones used are ignored)',
               'a function may refuse, with an exception, a memory layout that it documents or reports as unsupported (for instance slices that are not contiguous); it may not answer wrong',
               'results of functions that sum over many points may differ by rounding']
MIN_EVALUATIONS = 3000
FLOORS = {'layout':1500,'out':500,'refused':500,'functions':70,'empty':50,'big':15}
TIMEOUT = dict(quick=500,thorough=3600)

def jobs(tier,seed):
    n=4 if tier=='quick' else 8
    return [dict(name=f'table_{i}',part=i%4) for i in range(n)]+[dict(name='table_asan',flavor='asan',part=-1),dict(name='big'),dict(name='models'),dict(name='models_asan',flavor='asan'),dict(name='solver')]

def run(ctx,job):
    global mrcal,gen,vlib,ref
    import mrcal,gen,vlib,ref
    globals()[job['name'].split('_')[0]](ctx,job)

# ---------------------------------------------------------------- the functions
def specs(rng):
    '''name, f(*args,out=...), core shapes of the arguments, function making one slice of the arguments, core shapes of the results, has out=, options'''
    S=[]
    N=lambda *s: (lambda: rng.normal(size=s))
    r = lambda: gen.r(rng,rng.choice(('any','small','axis','zero','tiny')))
    rt= lambda: np.concatenate((r(),rng.normal(size=3)))
    R = lambda: ref.R_from_r(gen.r(rng,'any'))
    Rt= lambda: np.vstack((R(),rng.normal(size=3)))
    x = N(3)
    def add(name,f,makers,outs,out=True,**o): S.append(dict(name=name,f=f,makers=makers,outs=outs,out=out,**o))
    for inv in (False,True):
        for g in (False,True):
            kw=dict(inverted=inv,get_gradients=g); t=('/inv' if inv else '')+('/grad' if g else '')
            add('rotate_point_R'+t,lambda a,b,kw=kw,**o: mrcal.rotate_point_R(a,b,**kw,**o),[R,x],[(3,)]+[(3,3,3),(3,3)]*g)
            add('rotate_point_r'+t,lambda a,b,kw=kw,**o: mrcal.rotate_point_r(a,b,**kw,**o),[r,x],[(3,)]+[(3,3),(3,3)]*g)
            add('transform_point_Rt'+t,lambda a,b,kw=kw,**o: mrcal.transform_point_Rt(a,b,**kw,**o),[Rt,x],[(3,)]+[(3,4,3),(3,3)]*g)
            add('transform_point_rt'+t,lambda a,b,kw=kw,**o: mrcal.transform_point_rt(a,b,**kw,**o),[rt,x],[(3,)]+[(3,6),(3,3)]*g)
    for g in (False,True):
        kw=dict(get_gradients=g); t='/grad' if g else ''
        add('r_from_R'+t,lambda a,kw=kw,**o: mrcal.r_from_R(a,**kw,**o),[R],[(3,)]+[(3,3,3)]*g)
        add('R_from_r'+t,lambda a,kw=kw,**o: mrcal.R_from_r(a,**kw,**o),[r],[(3,3)]+[(3,3,3)]*g)
        add('rt_from_Rt'+t,lambda a,kw=kw,**o: mrcal.rt_from_Rt(a,**kw,**o),[Rt],[(6,)]+[(3,3,3)]*g)
        add('Rt_from_rt'+t,lambda a,kw=kw,**o: mrcal.Rt_from_rt(a,**kw,**o),[rt],[(4,3)]+[(3,3,3)]*g)
        add('invert_rt'+t,lambda a,kw=kw,**o: mrcal.invert_rt(a,**kw,**o),[rt],[(6,)]+[(6,6)]*g)
        for i0,i1 in itertools.product((False,True),repeat=2):
            k2=dict(kw,inverted0=i0,inverted1=i1); t2=t+(f'/inv{int(i0)}{int(i1)}')
            add('compose_r'+t2,lambda a,b,kw=k2,**o: mrcal.compose_r(a,b,**kw,**o),[r,r],[(3,)]+[(3,3),(3,3)]*g)
            add('compose_rt'+t2,lambda a,b,kw=k2,**o: mrcal.compose_rt(a,b,**kw,**o),[rt,rt],[(6,)]+[(6,6),(6,6)]*g)
    add('invert_R',lambda a,**o: mrcal.invert_R(a,**o),[R],[(3,3)])
    add('invert_Rt',lambda a,**o: mrcal.invert_Rt(a,**o),[Rt],[(4,3)])
    add('compose_Rt',lambda a,b,**o: mrcal.compose_Rt(a,b,**o),[Rt,Rt],[(4,3)])
    add('compose_Rt/inv',lambda a,b,**o: mrcal.compose_Rt(a,b,inverted0=True,inverted1=True,**o),[Rt,Rt],[(4,3)])
    add('compose_Rt/3',lambda a,b,c,**o: mrcal.compose_Rt(a,b,c,**o),[Rt,Rt,Rt],[(4,3)])
    add('compose_rt/3',lambda a,b,c,**o: mrcal.compose_rt(a,b,c,**o),[rt,rt,rt],[(6,)])
    add('compose_r/3',lambda a,b,c,**o: mrcal.compose_r(a,b,c,**o),[r,r,r],[(3,)])
    add('tinyr0',lambda a,**o: mrcal.compose_r_tinyr0_gradientr0(a,**o),[r],[(3,3)])
    add('tinyr1',lambda a,**o: mrcal.compose_r_tinyr1_gradientr1(a,**o),[r],[(3,3)])
    add('tinyrt0',lambda a,**o: mrcal.compose_rt_tinyrt0_gradientrt0(a,**o),[rt],[(6,6)],out=False)
    add('tinyrt1',lambda a,**o: mrcal.compose_rt_tinyrt1_gradientrt1(a,**o),[rt],[(6,6)],out=False)
    q=lambda: (lambda v: v/np.linalg.norm(v))(rng.normal(size=4))
    add('R_from_quat',lambda a,**o: mrcal.R_from_quat(a,**o),[q],[(3,3)])
    add('quat_from_R',lambda a,**o: mrcal.quat_from_R(a,**o),[R],[(4,)],out=False)
    add('qt_from_Rt',lambda a,**o: mrcal.qt_from_Rt(a,**o),[Rt],[(7,)],out=False)
    add('Rt_from_qt',lambda a,**o: mrcal.Rt_from_qt(a,**o),[lambda: np.concatenate((q(),rng.normal(size=3)))],[(4,3)])
    add('skew_symmetric',lambda a,**o: mrcal.skew_symmetric(a,**o),[x],[(3,3)])
    add('R_aligned_to_vector',lambda a,**o: mrcal.R_aligned_to_vector(a,**o),[x],[(3,3)])
    add('apply_homography',lambda a,b,**o: mrcal.apply_homography(a,b,**o),[lambda: np.eye(3)+.1*rng.normal(size=(3,3)),N(2)],[(2,)])
    # procrustes
    def cloud():
        p=rng.normal(size=(7,3)); return p
    base=rng.normal(size=(7,3)); Rb=ref.R_from_r(np.array((.3,-.2,.5)))
    add('procrustes_Rt01',lambda a,b,**o: mrcal.align_procrustes_points_Rt01(a,b,**o),[lambda: base@Rb.T+.01*rng.normal(size=(7,3)),lambda: base+.01*rng.normal(size=(7,3))],[(4,3)],tol=1e-9,out=False)
    add('procrustes_Rt01/w',lambda a,b,w,**o: mrcal.align_procrustes_points_Rt01(a,b,w,**o),[lambda: base@Rb.T+.01*rng.normal(size=(7,3)),lambda: base+.01*rng.normal(size=(7,3)),lambda: rng.uniform(.5,1,7)],[(4,3)],tol=1e-9,out=False)
    vb=base/np.linalg.norm(base,axis=-1)[:,None]
    add('procrustes_R01',lambda a,b,**o: mrcal.align_procrustes_vectors_R01(a,b,**o),[lambda: vb@Rb.T+.01*rng.normal(size=(7,3)),lambda: vb+.01*rng.normal(size=(7,3))],[(3,3)],tol=1e-9,out=False)
    # projections
    models=gen.lensmodels(rng,nspline=1,ncahvore=1)
    for lm in models:
        fam=gen.family(lm); M=mrcal.lensmodel_num_params(lm); md=mrcal.lensmodel_metadata_and_config(lm)
        i0=gen.intrinsics(rng,lm,.5)
        im=lambda i0=i0: i0*(1+.01*rng.normal(size=i0.size))
        if not fam.startswith('CAHVORE'):
            pm=lambda lm=lm: gen.points(rng,lm,1,theta=.3)[0]+np.array((0,0,1e-3))
        else: pm=lambda lm=lm: gen.points(rng,lm,1,theta=.3,range_=(3,30))[0]
        qm=lambda: np.array((2000.,1500.))+rng.normal(size=2)*150
        for g in (False,True):
            if g and not md['has_gradients']: continue
            t='/grad' if g else ''
            add(f'project/{fam}'+t,lambda a,b,lm=lm,g=g,**o: mrcal.project(a,lm,b,get_gradients=g,**o),[pm,im],[(2,)]+[(2,3),(2,M)]*g,tol=1e-10)
            if fam.startswith('CAHVORE') : continue
            for n in (False,True):
                add(f'unproject/{fam}'+t+('/norm' if n else ''),lambda a,b,lm=lm,g=g,n=n,**o: mrcal.unproject(a,lm,b,get_gradients=g,normalize=n,**o),[qm,im],[(3,)]+[(3,2),(3,M)]*g,tol=1e-7)
    for s in ('pinhole','stereographic','lonlat','latlon'):
        P=getattr(mrcal,'project_'+s); U=getattr(mrcal,'unproject_'+s)
        core=lambda: np.array((1000.,1100.,500.,400.))*(1+.1*rng.normal(size=4))
        v=lambda: np.array((.3,.2,1.))*rng.normal(size=3)+np.array((.1,.1,2.))
        for g in (False,True):
            t='/grad' if g else ''
            add(f'project_{s}'+t,lambda a,b,P=P,g=g,**o: P(a,b,get_gradients=g,**o),[v,core],[(2,)]+[(2,3)]*g)
            add(f'unproject_{s}'+t,lambda a,b,U=U,g=g,**o: U(a,b,get_gradients=g,**o),[lambda: np.array((500.,400.))+100*rng.normal(size=2),core],[(3,)]+[(3,2)]*g)
    # triangulation
    pt=np.array((.3,-.2,5.))
    v0=lambda: pt*rng.uniform(.5,2)+.003*rng.normal(size=3)
    t01=np.array((1.,.1,-.05)); R01=ref.R_from_r(np.array((.02,.3,-.05)))
    v1=lambda: (pt-t01)*rng.uniform(.5,2)+.003*rng.normal(size=3)
    v1l=lambda: R01.T@((pt-t01)*rng.uniform(.5,2)+.003*rng.normal(size=3))
    tm=lambda: t01*(1+.02*rng.normal(size=3)); Rtm=lambda: np.vstack((R01@ref.R_from_r(.002*rng.normal(size=3)),tm()))
    for k in ('geometric','leecivera_l1','leecivera_linf','leecivera_mid2','leecivera_wmid2'):
        F=getattr(mrcal,'triangulate_'+k)
        add(f'triangulate_{k}',lambda a,b,c,F=F,**o: F(a,b,c,**o),[v0,v1,tm],[(3,)])
        add(f'triangulate_{k}/grad',lambda a,b,c,F=F,**o: F(a,b,c,get_gradients=True,**o),[v0,v1,tm],[(3,),(3,3),(3,3),(3,3)])
        add(f'triangulate_{k}/local',lambda a,b,c,F=F,**o: F(a,b,v_are_local=True,Rt01=c,**o),[v0,v1l,Rtm],[(3,)])
        add(f'triangulate_{k}/Rt01',lambda a,b,c,F=F,**o: F(a,b,Rt01=c,**o),[v0,v1,Rtm],[(3,)])
    add('triangulate_lindstrom',lambda a,b,c,**o: mrcal.triangulate_lindstrom(a,b,c,**o),[v0,v1l,Rtm],[(3,)])
    add('triangulate_lindstrom/grad',lambda a,b,c,**o: mrcal.triangulate_lindstrom(a,b,c,get_gradients=True,**o),[v0,v1l,Rtm],[(3,),(3,3),(3,3),(3,4,3)])
    add('triangulate_lindstrom/notlocal',lambda a,b,c,**o: mrcal.triangulate_lindstrom(a,b,c,v_are_local=False,**o),[v0,v1,Rtm],[(3,)])
    # linear algebra
    def var():
        A=rng.normal(size=(2,2)); return A@A.T
    add('worst_direction_stdev/2',lambda a,**o: mrcal.worst_direction_stdev(a),[var],[()],out=False)
    def var3():
        A=rng.normal(size=(3,3)); return A@A.T
    add('worst_direction_stdev/3',lambda a,**o: mrcal.worst_direction_stdev(a),[var3],[()],out=False)
    # boards
    add('ref_calibration_object',lambda a,**o: mrcal.ref_calibration_object(4,3,.1,calobject_warp=a),[lambda: .01*rng.normal(size=2)],[(3,4,3)],out=False)
    # stereo
    mm=[mrcal.cameramodel(intrinsics=('LENSMODEL_PINHOLE',np.array((1000.,1000.,999.5,799.5))),imagersize=(2000,1600),rt_cam_ref=np.zeros(6)),
        mrcal.cameramodel(intrinsics=('LENSMODEL_PINHOLE',np.array((1000.,1000.,999.5,799.5))),imagersize=(2000,1600),rt_ref_cam=np.array((0,0,0,.5,0,0)))]
    for rm in ('LENSMODEL_LATLON','LENSMODEL_PINHOLE'):
        mr=mrcal.rectified_system(mm,az_fov_deg=60,el_fov_deg=40,pixels_per_deg_az=-.2,pixels_per_deg_el=-.2,rectification_model=rm)
        W,H=mr[0].imagersize()
        d=lambda: np.array(rng.uniform(1,20)); qr=lambda W=W,H=H: rng.uniform(0,1,2)*np.array((W,H))
        add(f'stereo_range/{rm[10:]}',lambda a,b,mr=mr,**o: mrcal.stereo_range(a,mr,qrect0=b),[d,qr],[()],out=False,fullbcast=True)
        add(f'stereo_unproject/{rm[10:]}',lambda a,b,mr=mr,**o: mrcal.stereo_unproject(disparity=a,models_rectified=mr,qrect0=b),[d,qr],[(3,)],out=False,fullbcast=True)
    # regions
    mv=mrcal.cameramodel(intrinsics=('LENSMODEL_PINHOLE',np.array((1000.,1000.,999.5,799.5))),imagersize=(2000,1600),valid_intrinsics_region=np.array(((100.,100.),(1700.,200.),(1500.,1300.),(900.,700.),(200.,1400.))))
    add('is_within_valid_intrinsics_region',lambda a,**o: mrcal.is_within_valid_intrinsics_region(a,mv),[lambda: rng.uniform(0,1,2)*np.array((2000.,1600.))],[()],out=False,boolean=True)
    return S

# ---------------------------------------------------------------- layouts
def broadcast_shapes(rng,n,empty=False):
    '''leading dims of each of n arguments, and of the result'''
    nd=int(rng.choice((0,1,1,2,2,3)))
    if empty: nd=max(nd,1)
    full=[int(rng.choice((1,2,3))) for _ in range(nd)]
    if empty: full[rng.integers(nd)]=0
    shs=[]
    for _ in range(n):
        s=[(d if (d!=1 and rng.uniform()<.7) else 1) if d!=0 else int(rng.integers(2)) for d in full]
        k=int(rng.integers(0,nd+1))
        while k>0 and any(d!=1 for d in s[:k]) and rng.uniform()<.6: k-=1
        shs.append(s[k:])
    if empty and not any(0 in s for s in shs): shs[rng.integers(n)]=list(full)
    # what they broadcast to
    res=np.broadcast_shapes(*[tuple(s) for s in shs])
    return [tuple(s) for s in shs],res

CANARY=-1234.5
LAYOUTS=('contiguous','embedded','strided','transposed','reversed','zero','slices','fortran')
def layout(rng,a,kind=None,lead=None):
    '''a, in some layout. Returns view, the buffer that it lives in'''
    kind=kind or rng.choice(LAYOUTS); nd=a.ndim; lead=nd if lead is None else lead
    a=np.asarray(a)
    if nd==0 or a.size==0 or kind=='contiguous': b=np.array(a,order='C'); return b,b
    if kind=='fortran': b=np.array(a,order='F'); return b,b
    if kind=='embedded':     # contiguous slices, in a bigger buffer
        b=np.full([d+(2 if i<lead else 0) for i,d in enumerate(a.shape)],CANARY,dtype=a.dtype)
        v=b[tuple(slice(1,1+d) if i<lead else slice(None) for i,d in enumerate(a.shape))]; v[...]=a; return v,b
    if kind=='strided':      # all axes
        k=[int(rng.integers(1,4)) for _ in a.shape]
        b=np.full([d*s+2 for d,s in zip(a.shape,k)],CANARY,dtype=a.dtype); v=b[tuple(slice(1,1+d*s,s) for d,s in zip(a.shape,k))]; v[...]=a; return v,b
    if kind=='slices':       # leading axes strided, the slices contiguous
        k=[int(rng.integers(2,4)) if i<lead else 1 for i in range(nd)]
        b=np.full([d*s+(1 if i<lead else 0) for i,(d,s) in enumerate(zip(a.shape,k))],CANARY,dtype=a.dtype)
        v=b[tuple(slice(1,1+d*s,s) if i<lead else slice(None) for i,(d,s) in enumerate(zip(a.shape,k)))]; v[...]=a; return v,b
    if kind=='transposed':
        p=rng.permutation(nd); b=np.array(np.transpose(a,p),order='C'); return np.transpose(b,np.argsort(p)),b
    if kind=='reversed':
        ax=tuple(i for i in range(nd) if rng.uniform()<.6) or (int(rng.integers(nd)),)
        b=np.array(np.flip(a,ax),order='C'); return np.flip(b,ax),b
    if kind=='zero':         # axes of constant data, where the data allows it
        b=a
        for i in range(nd):
            if a.shape[i]>1 and np.all(b==b.take([0],axis=i)): b=b.take([0],axis=i)
        b=np.array(b,order='C'); return np.broadcast_to(b,a.shape),b

def tup(x): return x if isinstance(x,tuple) else (x,)
def core(a,m): return a.shape[-m:] if m else ()

def reference(ctx,s,args,shs,res):
    '''slice by slice, on contiguous copies'''
    outs=[np.full(res+o,np.nan) for o in s['outs']]
    for idx in np.ndindex(*res):
        sl=[]
        for a,sh in zip(args,shs):
            nl=len(sh); ii=tuple(i if d!=1 else 0 for i,d in zip(idx[len(idx)-nl:],sh)); sl.append(np.array(a[ii],order='C'))
        y=tup(s['f'](*sl))
        if len(y)!=len(outs): ctx.violate(f'{s["name"]}/count',f'{len(y)} results, expected {len(outs)}'); return None
        for o,v,sh in zip(outs,y,s['outs']):
            v=np.asarray(v)
            if v.shape!=sh: ctx.violate(f'{s["name"]}/slice-shape',f'shape of the result of one slice {v.shape}, expected {sh}'); return None
            o[idx]=v
    return outs

def compare(ctx,s,got,want,mech,**data):
    got=tup(got)
    if len(got)!=len(want): return ctx.violate(mech,f'{len(got)} results, expected {len(want)}')
    for k,(g,w) in enumerate(zip(got,want)):
        g=np.asarray(g)
        ctx.close(g,w,f'{mech}/{k}' if k else mech,atol=s.get('tol',1e-11),rtol=s.get('tol',1e-11),equal_nan=True,msg=s['name'],**data)

def table(ctx,job):
    rng=ctx.rng; asan=job.get('flavor')=='asan'
    names=set()
    for rep in range(ctx.n(2 if asan else 12,8 if asan else 80)):
        for isp,s in enumerate(specs(rng)):
            if job['part']>=0 and isp%4!=job['part']: continue
            name=s['name']; short=name
            if name not in names: names.add(name); ctx.counts['functions']=ctx.counts.get('functions',0)+1
            n=len(s['makers'])
            for trial in range(3):
                empty = trial==2 and rng.uniform()<.35
                shs,res=broadcast_shapes(rng,n,empty)
                if s.get('fullbcast') and empty: continue
                cores=[np.shape(m()) for m in s['makers']]
                args=[]
                for m,sh,c in zip(s['makers'],shs,cores):
                    a=np.zeros(sh+c)
                    for ii in np.ndindex(*sh): a[ii]=m()
                    if len(sh) and rng.uniform()<.25 and a.size: a[...]=a[(0,)*len(sh)]   # constant: zero strides are possible
                    args.append(a)
                ctx.case('empty' if empty else 'layout',key=(name,rep,trial,shs),fn=name,shapes=[a.shape for a in args])
                try: want=reference(ctx,s,args,shs,res)
                except Exception as e:
                    ctx.violate(f'{short}/slice/raised',f'one contiguous slice: {type(e).__name__}: {e}',args=args); continue
                if want is None: continue
                # contiguous stack
                ins=[layout(rng,a,'contiguous') for a in args]; keep=[b.copy() for _,b in ins]
                with ctx.guard(f'{short}/broadcast{"-empty" if empty else ""}',f'shapes {[a.shape for a in args]}'):
                    y=s['f'](*[v for v,_ in ins]); compare(ctx,s,y,want,f'{short}/broadcast{"-empty" if empty else ""}',shapes=[a.shape for a in args])
                for (v,b),k in zip(ins,keep): ctx.same(b,k,f'{short}/input-modified')
                # any layout
                for _ in range(2):
                    kinds=[str(rng.choice(LAYOUTS)) for _ in args]
                    ins=[layout(rng,a,k,len(sh)) for a,k,sh in zip(args,kinds,shs)]; keep=[b.copy() for _,b in ins]
                    ctx.counts['layouts']=ctx.counts.get('layouts',0)+1
                    for v,a in zip(ins,args): assert np.array_equal(v[0],a)
                    try: y=s['f'](*[v for v,_ in ins])
                    except Exception as e:
                        # allowed only if some slice is not contiguous
                        simple=all(len(sh)==0 and v.flags['C_CONTIGUOUS'] or len(sh) and sliceok(v,len(sh)) for (v,_),sh in zip(ins,shs))
                        ctx.ok(not simple,f'{short}/layout/raised',f'{type(e).__name__}: {e}',kinds=kinds,strides=[v.strides for v,_ in ins],shapes=[v.shape for v,_ in ins])
                        ctx.counts['layout-refused']=ctx.counts.get('layout-refused',0)+1
                    else:
                        compare(ctx,s,y,want,f'{short}/layout',kinds=kinds,shapes=[v.shape for v,_ in ins],strides=[v.strides for v,_ in ins])
                        for yy in tup(y):
                            if isinstance(yy,np.ndarray) and yy.size and any(np.may_share_memory(yy,b) for _,b in ins): ctx.counts['shares']=ctx.counts.get('shares',0)+1
                    for (v,b),k in zip(ins,keep): ctx.same(b,k,f'{short}/input-modified',kinds=kinds)
                # outputs
                if s['out']: outputs(ctx,rng,s,args,shs,res,want)
            refused(ctx,rng,s)

def sliceok(v,lead):
    st=v.itemsize
    for d,x in list(zip(v.shape,v.strides))[:lead-1 if lead else None:-1]:
        if d>1 and x!=st: return False
        # numpysane wants the strides of even the length-1 dimensions to be what a contiguous array has
        if x!=st: return False
        st*=d
    return True

def outputs(ctx,rng,s,args,shs,res,want):
    short=s['name']
    for kind in ('embedded',str(rng.choice(('strided','transposed','reversed','slices','fortran','contiguous')))):
        oo=[]
        for w,sh in zip(want,s['outs']): oo.append(layout(rng,np.full(w.shape,7.25),kind,len(res)))
        ctx.case('out',key=(short,kind,res,rng.integers(1<<40)),fn=short,res=res,layout=kind)
        ins=[np.array(a) for a in args]
        o=tuple(v for v,_ in oo); before=[np.count_nonzero(b==CANARY) for _,b in oo]
        try: y=s['f'](*ins,out=o[0] if len(o)==1 else o)
        except Exception as e:
            ok=all(sliceok(v,len(res)) for v in o)
            ctx.ok(not ok,f'{short}/out/raised',f'{type(e).__name__}: {e}',kind=kind,shape=[v.shape for v in o],strides=[v.strides for v in o])
            ctx.counts['out-refused']=ctx.counts.get('out-refused',0)+1
            continue
        compare(ctx,s,o,want,f'{short}/out',kind=kind)
        y=tup(y)
        ctx.ok(len(y)==len(o) and all(a is b or (a.shape==b.shape and np.array_equal(a,b,equal_nan=True) and np.shares_memory(a,b)) or a.size==0 for a,b in zip(y,o)),f'{short}/out/returned','the given output arrays are not what is returned')
        for (v,b),n in zip(oo,before): ctx.ok(np.count_nonzero(b==CANARY)==n,f'{short}/out/spill','wrote outside of the elements of the output array',kind=kind)
        for a,i in zip(args,ins): ctx.same(i,a,f'{short}/input-modified')

PURE=('quat_from_R','qt_from_Rt','Rt_from_qt','ref_calibration_object','stereo_','is_within','worst_direction','tinyrt')
def refused(ctx,rng,s):
    '''unusable arrays'''
    short=s['name']; mk=[np.asarray(m()) for m in s['makers']]; n=len(mk)
    ctx.case('refused',key=(short,rng.integers(1<<40)),fn=short)
    k=int(rng.integers(n))
    def call(*a,**kw): return lambda: s['f'](*a,**kw)
    def rep(k,v): return [v if i==k else m.copy() for i,m in enumerate(mk)]
    # wrong core dimension
    pure=short.startswith(PURE) or short.endswith('/Rt01') or short.endswith('/local')
    if mk[k].ndim and not pure:
        ax=int(rng.integers(mk[k].ndim)); d=mk[k].shape[ax]
        bad=np.repeat(mk[k],2,axis=ax) if rng.uniform()<.5 else mk[k].take(range(d-1),axis=ax)
        if not (short.startswith('procrustes') and ax==mk[k].ndim-2 and n==1) and not short.startswith('worst_direction'):
            ctx.raises(call(*rep(k,bad)),f'{short}/wrong-shape',f'argument {k} of shape {bad.shape}, not {mk[k].shape},')
    # not broadcastable
    if n>1:
        k2=(k+1)%n; a=rep(k,np.stack([mk[k]]*2)); a[k2]=np.stack([mk[k2]]*3)
        ctx.raises(call(*a),f'{short}/not-broadcastable',f'shapes {[x.shape for x in a]}')
    # types
    for bad in (np.full(mk[k].shape,'x'),np.full(mk[k].shape,None),mk[k].astype(complex)+1j):
        if short.startswith(PURE) and bad.dtype!='<U1': continue
        try: y=s['f'](*rep(k,bad))
        except Exception: ctx.counts['judgements']=ctx.counts.get('judgements',0)+1
        else: ctx.violate(f'{short}/wrong-type',f'dtype {bad.dtype} of argument {k} is accepted, giving {vlib.short(y)}')
    # other numeric types: either an error, or the right answer
    for dt in (np.float32,np.int32,np.int64,bool)+(('>f8',) if short.startswith(('rotate_','transform_','compose_','invert_','skew','apply_hom')) else ()):
        big = dt=='>f8'
        v=mk[k].astype(dt)
        if np.issubdtype(v.dtype,np.integer): v=v  # truncated, still valid
        try: y=tup(s['f'](*rep(k,v)))
        except Exception: continue
        try: w=tup(s['f'](*rep(k,v.astype(float))))
        except Exception: continue
        ctx.counts['othertype']=ctx.counts.get('othertype',0)+1
        for a,b in zip(y,w):
            tol=1e-4 if dt in (np.float32,) else 1e-9
            ctx.close(a,b,'numpysane/byte-swapped' if big else f'{short}/numeric-type',atol=tol,rtol=tol,equal_nan=True,dtype=str(dt),function=short)
    # outputs
    if s['out']:
        good=[np.zeros(o) for o in s['outs']]
        def outs(l): return l[0] if len(l)==1 else tuple(l)
        j=int(rng.integers(len(good)))
        cand=[]
        buf=np.full(2000,CANARY)
        if good[j].ndim:
            l=list(good); sh=list(good[j].shape); sh[-1]-=1; l[j]=buf[50:50+int(np.prod(sh))].reshape(sh); cand.append(('smaller',l))
            l=list(good); l[j]=np.zeros(good[j].shape,dtype=np.float32); not pure and cand.append(('float32',l))
            l=list(good); l[j]=np.zeros(good[j].shape,dtype=np.int64); cand.append(('int64',l))
            l=list(good); l[j]=np.zeros(good[j].shape); l[j].flags.writeable=False; cand.append(('readonly',l))
        if len(good)>1: cand.append(('too few',good[:-1]))
        for what,l in cand:
            try: y=s['f'](*[m.copy() for m in mk],out=outs(l))
            except Exception: ctx.counts['judgements']=ctx.counts.get('judgements',0)+1
            else:
                ctx.violate('numpysane/readonly-out' if what=='readonly' else f'{short}/bad-out/{what}',f'{short}: output array {j} of type {getattr(l[min(j,len(l)-1)],"dtype",None)} and shape {getattr(l[min(j,len(l)-1)],"shape",None)} accepted')
            ctx.ok(np.all(np.delete(buf,slice(50,50+int(np.prod(good[j].shape))))==CANARY),f'{short}/bad-out/spill','wrote outside of the given array')

# ---------------------------------------------------------------- large stacks: the paths that process many points
def big(ctx,job):
    rng=ctx.rng
    for rep in range(ctx.n(2,12)):
        for s in specs(rng):
            if s.get('fullbcast') and rep%2: continue
            if not s['name'].startswith(('project','unproject','transform_point','rotate','triangulate','stereo','is_within','compose','apply')) : continue
            if rng.uniform()<.5: continue
            N=int(rng.choice((7,64,333,1000)))
            n=len(s['makers']); which=[bool(rng.integers(2)) for _ in range(n)]
            if s.get('fullbcast'): which=[True]*n
            if not any(which): which[0]=True
            args=[np.stack([m() for _ in range(N)]) if w else np.asarray(m()) for m,w in zip(s['makers'],which)]
            ctx.case('big',key=(s['name'],rep,N,which),fn=s['name'],N=N,stacked=which)
            keep=[a.copy() for a in args]
            with ctx.guard(s['name']+'/big'):
                y=tup(s['f'](*args))
                for a,k in zip(args,keep): ctx.same(a,k,s['name']+'/input-modified')
                for i in set([0,N-1]+list(rng.integers(0,N,15))):
                    w=tup(s['f'](*[np.array(a[i]) if st else a for a,st in zip(args,which)]))
                    for k,(a,b) in enumerate(zip(y,w)): ctx.close(a[i],b,s['name']+'/big'+(f'/{k}' if k else ''),atol=s.get('tol',1e-11),rtol=s.get('tol',1e-11),equal_nan=True,N=N,i=int(i),stacked=which)
                # a 2-dimensional stack is the same thing
                if N%2==0 or N==333:
                    f=2 if N%2==0 else 3
                    y2=tup(s['f'](*[a.reshape((f,N//f)+a.shape[1:]) if st else a for a,st in zip(args,which)]))
                    for a,b in zip(y2,y): ctx.close(a.reshape(b.shape),b,s['name']+'/big/2d',atol=s.get('tol',1e-11),rtol=s.get('tol',1e-11),equal_nan=True)

# ---------------------------------------------------------------- functions of models and images
def models(ctx,job):
    import prob
    rng=ctx.rng; asan=job.get('flavor')=='asan'
    for rep in range(ctx.n(3 if asan else 12,12 if asan else 100)):
        lm=str(rng.choice(gen.lensmodels(rng,1,0)[:9])) if rep%3 else 'LENSMODEL_OPENCV4'
        mk=lambda t: mrcal.cameramodel(intrinsics=(lm,gen.intrinsics(rng,lm,.3,imagersize=(400,300))),imagersize=(400,300),rt_ref_cam=np.concatenate((.05*rng.normal(size=3),t)))
        m0=mk(np.zeros(3)); m1=mk(np.array((.5,0,0)))
        # the arrays given to a model are its own
        i=np.array(m0.intrinsics()[1]); r=np.array(m0.rt_cam_ref()); v=np.array(((10.,20.),(300.,30.),(200.,250.)))
        mm=mrcal.cameramodel(intrinsics=(lm,i),imagersize=(400,300),rt_cam_ref=r,valid_intrinsics_region=v)
        ctx.case('layout',key=('models',rep),lm=lm)
        want=(i.copy(),r.copy(),np.array(mm.valid_intrinsics_region()))
        st=[gen.strided(rng,x) for x in (i,r,v)]; keep=[np.array(x) for x in st]
        m2=mrcal.cameramodel(intrinsics=(lm,st[0]),imagersize=(400,300),rt_cam_ref=st[1],valid_intrinsics_region=st[2])
        for a,b,w in zip((m2.intrinsics()[1],m2.rt_cam_ref(),m2.valid_intrinsics_region()),want,('intrinsics','rt_cam_ref','valid_intrinsics_region')): ctx.same(np.array(a),b,f'cameramodel/{w}')
        for a,b in zip(st,keep): ctx.same(np.array(a),b,'cameramodel/input-modified')
        Rt=np.vstack((ref.R_from_r(r[:3]),r[3:]))
        for k in ('strided','transposed','reversed','slices'):
            x,b=layout(rng,Rt,k); kb=b.copy(); m3=mrcal.cameramodel(m0); m3.Rt_cam_ref(x)
            ctx.close(m3.Rt_cam_ref(),Rt,'cameramodel/Rt_cam_ref',atol=1e-9,layout=k); ctx.close(m3.rt_ref_cam(),np.concatenate((-r[:3],-Rt[:3].T@r[3:])),'cameramodel/rt_ref_cam',atol=1e-8,layout=k); ctx.same(b,kb,'cameramodel/input-modified')
            x,b=layout(rng,r,k); m3=mrcal.cameramodel(m0); m3.rt_ref_cam(x); ctx.close(m3.rt_ref_cam(),r,'cameramodel/rt_ref_cam/set',atol=1e-8,layout=k)
        # triangulate(), stacked
        N=5; p=np.array((.2,.1,5.))+.3*rng.normal(size=(N,3))
        q=np.stack([mrcal.project(mrcal.transform_point_rt(m.rt_cam_ref(),p),*m.intrinsics()) for m in (m0,m1)],axis=-2)
        if np.all(np.isfinite(q)):
            one=np.array([mrcal.triangulate(np.array(x),(m0,m1)) for x in q])
            for k in ('contiguous',)+tuple(rng.choice(LAYOUTS,2)):
                x,b=layout(rng,q,str(k),1); kb=b.copy()
                try: y=mrcal.triangulate(x,(m0,m1))
                except Exception as e:
                    if 'contiguous' not in str(e) or k=='contiguous': ctx.violate('triangulate/layout/raised',f'{k}: {type(e).__name__}: {e}')
                    ctx.counts['layout-refused']=ctx.counts.get('layout-refused',0)+1; y=None
                if y is not None: ctx.close(y,one,'triangulate/layout',atol=1e-9,layout=str(k))
                ctx.same(b,kb,'triangulate/input-modified')
            with ctx.guard('triangulate/2d'): ctx.close(mrcal.triangulate(np.stack((q,q)),(m0,m1)),np.stack((one,one)),'triangulate/2d',atol=1e-9)
        # images
        W,H=400,300
        for dt,ch in ((np.uint8,()),(np.uint8,(3,)),(np.uint16,())):
            im=rng.integers(0,255,(H,W)+ch).astype(dt)
            mapxy=(np.stack(np.meshgrid(np.arange(60.),np.arange(40.)),axis=-1)*3+rng.uniform(0,30,(40,60,2))).astype(np.float32)
            want=mrcal.transform_image(im.copy(),mapxy.copy())
            ctx.case('layout',key=('transform_image',rep,str(dt),ch),image=f'{dt.__name__} {ch}')
            for k in ('embedded','reversed','transposed','fortran'):
                a,ab=layout(rng,im,k,2); m,mb=layout(rng,mapxy,str(rng.choice(('contiguous',k))),2); ka,km=ab.copy(),mb.copy()
                try: y=mrcal.transform_image(a,m)
                except Exception: ctx.counts['layout-refused']=ctx.counts.get('layout-refused',0)+1
                else: ctx.same(y,want,'transform_image/layout',layout=k)
                ctx.same(ab,ka,'transform_image/input-modified'); ctx.same(mb,km,'transform_image/input-modified')
                try: y=mrcal.apply_color_map(a)
                except Exception: pass
                else: ctx.same(y,mrcal.apply_color_map(im.copy()),'apply_color_map/layout',layout=k)
                ctx.same(ab,ka,'apply_color_map/input-modified')
            o=np.full(want.shape,7,dtype=dt)
            ctx.same(mrcal.transform_image(im,mapxy,out=o),want,'transform_image/out'); ctx.same(o,want,'transform_image/out')
        # a whole image of disparities
        mr=mrcal.rectified_system((m0,m1),az_fov_deg=40,el_fov_deg=30,pixels_per_deg_az=2,pixels_per_deg_el=2,rectification_model='LENSMODEL_LATLON') if lm!='x' else None
        W,H=mr[0].imagersize()
        for dt in (np.uint16,np.int16,np.float32,float):
            d=rng.integers(1,60,(H,W)).astype(dt)
            ctx.case('layout',key=('disparity',rep,str(dt)),dtype=str(dt))
            qr=np.stack(np.meshgrid(np.arange(W,dtype=float),np.arange(H,dtype=float)),axis=-1)
            want=mrcal.stereo_range(d.astype(float)/16,mr,qrect0=qr)
            for k in ('contiguous','embedded','reversed','transposed','fortran','strided'):
                a,ab=layout(rng,d,k,2); ka=ab.copy()
                with ctx.guard('stereo_range/image'):
                    ctx.close(mrcal.stereo_range(a,mr,disparity_scale=16),want,'stereo_range/image',atol=1e-9,layout=k,dtype=str(dt))
                    ctx.same(ab,ka,'stereo_range/input-modified')
            # stacks of images
            with ctx.guard('stereo_range/stack'):
                qs=np.stack((qr,qr[::-1])); ctx.close(mrcal.stereo_range(d.astype(float)/16,mr,qrect0=qs)[1],mrcal.stereo_range(d.astype(float)/16,mr,qrect0=np.ascontiguousarray(qr[::-1])),'stereo_range/stack',atol=1e-9)
        # uncertainty of a stack of points
        if rep%3==0:
            oi,truth=prob.make(rng,lm,Ncam=2,Nframes=4,noise=.1) if isinstance(prob.make(rng,lm,Ncam=1,Nframes=3),tuple) else (prob.make(rng,lm,Ncam=2,Nframes=4,noise=.1),None)
            model=mrcal.cameramodel(optimization_inputs=oi,icam_intrinsics=0)
            p=rng.normal(size=(2,3,3))*.2+np.array((0,0,2.)); kp=p.copy()
            for what in ('covariance','worstdirection-stdev','rms-stdev'):
                for inf in (False,True):
                    ctx.case('layout',key=('uncertainty',rep,what,inf),what=what,inf=inf)
                    kw=dict(what=what,atinfinity=inf,observed_pixel_uncertainty=1.)
                    try: one=np.array([[mrcal.projection_uncertainty(np.array(p[i,j]),model,**kw) for j in range(3)] for i in range(2)])
                    except Exception as e:
                        if any(k in str(e).lower() for k in ('sing','factor','failed')): continue # a problem whose uncertainty isn't available. P13 judges this
                        ctx.violate('projection_uncertainty/raised',f'{type(e).__name__}: {e}'); continue
                    sc=float(np.max(np.abs(one)))
                    for k in ('contiguous','reversed','transposed','strided'):
                        x,b=layout(rng,p,k,2)
                        try: y=mrcal.projection_uncertainty(x,model,**kw)
                        except Exception as e:
                            if 'contiguous' not in str(e) or k=='contiguous': ctx.violate('projection_uncertainty/layout/raised',f'{k}: {type(e).__name__}: {e}')
                            ctx.counts['layout-refused']=ctx.counts.get('layout-refused',0)+1
                            continue
                        ctx.counts['uncertainty']=ctx.counts.get('uncertainty',0)+1
                        ctx.close(y,one,'projection_uncertainty/layout',atol=1e-7*sc,rtol=1e-7,layout=k)
                        ctx.same(np.array(x),kp,'projection_uncertainty/input-modified')

# ---------------------------------------------------------------- optimization problems, in other layouts
def solver(ctx,job):
    import prob
    rng=ctx.rng
    for rep in range(ctx.n(14,120)):
        lm=str(rng.choice(('LENSMODEL_PINHOLE','LENSMODEL_OPENCV4','LENSMODEL_CAHVOR','LENSMODEL_SPLINED_STEREOGRAPHIC_order=2_Nx=5_Ny=4_fov_x_deg=90')))
        r=prob.make(rng,lm,Ncam=2,Nframes=3,noise=.1,Npoints=int(rng.choice((0,3))),warp=bool(rep%2))
        oi=r[0] if isinstance(r,tuple) else r
        with vlib.quiet_fds():
            b,x,J,_=mrcal.optimizer_callback(**{k:(v.copy() if isinstance(v,np.ndarray) else v) for k,v in oi.items()},no_factorization=True)
        N=mrcal.num_states(**oi)
        if not N: continue
        v=rng.normal(size=N); pk=v.copy(); mrcal.pack_state(pk,**oi)
        arrays=[k for k,a in oi.items() if isinstance(a,np.ndarray) and a.size]
        for k in arrays:
            kind=str(rng.choice(('strided','transposed','reversed','fortran','slices','embedded')))
            a,ab=layout(rng,oi[k],kind); 
            if a.flags['C_CONTIGUOUS']: continue
            ctx.case('layout',key=('solver',rep,k,kind),array=k,layout=kind,lm=lm)
            o=dict(oi); o[k]=a; kb=ab.copy()
            with vlib.quiet_fds():
                try: y=mrcal.optimizer_callback(**o,no_factorization=True)
                except Exception: ctx.counts['layout-refused']=ctx.counts.get('layout-refused',0)+1; y=None
            if y is not None:
                ctx.same(y[0],b,'optimizer_callback/b',array=k,layout=kind); ctx.same(y[1],x,'optimizer_callback/x',array=k,layout=kind); ctx.same(y[2].toarray(),J.toarray(),'optimizer_callback/J',array=k,layout=kind)
            ctx.same(ab,kb,'optimizer_callback/input-modified',array=k,layout=kind)
            # other types
            for dt in (np.float32,np.int64,'>f8','>i4',np.int16):
                if oi[k].dtype==dt or not np.can_cast(dt,oi[k].dtype,'same_kind') and not np.can_cast(oi[k].dtype,dt,'same_kind'): continue
                with np.errstate(all='ignore'): c=oi[k].astype(dt)
                if not np.array_equal(c,oi[k]): c=np.array(oi[k]).astype(dt)
                o[k]=c
                ctx.counts['othertype']=ctx.counts.get('othertype',0)+1
                with vlib.quiet_fds():
                    try: y=mrcal.optimizer_callback(**o,no_factorization=True)
                    except Exception: continue
                o[k]=c.astype(oi[k].dtype)
                with vlib.quiet_fds(): w=mrcal.optimizer_callback(**o,no_factorization=True)
                ctx.close(y[1],w[1],'optimizer_callback/numeric-type',atol=1e-4,array=k,dtype=str(dt))
        # packing: in place, also in arrays with other layouts
        for kind in ('strided','reversed','slices','embedded'):
            V=np.stack((v,2*v,v)); a,ab=layout(rng,V,kind)
            ctx.case('out',key=('pack',rep,kind),layout=kind)
            can=np.count_nonzero(ab==CANARY)
            try: mrcal.pack_state(a,**oi)
            except Exception:
                ctx.counts['layout-refused']=ctx.counts.get('layout-refused',0)+1
                ctx.same(np.array(a),V,'pack_state/refused-but-changed')
                continue
            for i,f in enumerate((1,2,1)): ctx.close(a[i],pk*f,'pack_state/layout',atol=1e-12,rtol=1e-12,layout=kind)
            ctx.ok(np.count_nonzero(ab==CANARY)==can,'pack_state/spill','wrote outside of the array')
        for bad in (np.zeros(N,dtype=np.float32),np.zeros(N,dtype=int),np.zeros(N+1),np.zeros(max(N-1,0)),np.zeros((2,N+1)),None,'x',[0.]*N,np.zeros(N,dtype='>f8'),readonly(np.zeros(N))):
            ctx.case('refused',key=('pack',rep,str(getattr(bad,'dtype',bad))[:20],np.shape(bad)))
            for f,n in ((mrcal.pack_state,'pack_state'),(mrcal.unpack_state,'unpack_state')):
                with vlib.quiet_fds(): ctx.raises(lambda: f(bad,**oi),f'{n}/bad-array',f'{type(bad).__name__} {getattr(bad,"dtype","")} {np.shape(bad)}')
        # what optimize() would change must be changeable, and what it doesn't, doesn't have to be
        for k in arrays:
            o={q:(a.copy() if isinstance(a,np.ndarray) else a) for q,a in oi.items()}
            w={q:(a.copy() if isinstance(a,np.ndarray) else a) for q,a in oi.items()}
            keep=o[k].copy(); o[k].flags.writeable=False
            ctx.case('layout',key=('readonly',rep,k),array=k,layout='readonly',lm=lm)
            with vlib.quiet_fds():
                try: st=mrcal.optimize(**w)
                except Exception: break # nothing to optimize
                try: st2=mrcal.optimize(**o)
                except Exception: st2=None
            ctx.same(o[k],keep,'optimize/readonly-modified',array=k)
            if st2 is not None:
                for q in arrays: ctx.same(o[q],w[q],'optimize/readonly',array=k,output=q)
                ctx.same(st2['x'],st['x'],'optimize/readonly/x',array=k)
            else: ctx.counts['readonly-refused']=ctx.counts.get('readonly-refused',0)+1
        # legacy names of the arguments
        alias=dict(rt_cam_ref='extrinsics_rt_fromref',rt_ref_frame='frames_rt_toref')
        o={alias.get(q,q):a for q,a in oi.items()}
        ctx.case('layout',key=('alias',rep),lm=lm)
        with ctx.guard('alias'):
            with vlib.quiet_fds(): y=mrcal.optimizer_callback(**o,no_factorization=True)
            ctx.same(y[0],b,'alias/b'); ctx.same(y[1],x,'alias/x')
            ctx.ok(mrcal.num_states(**o)==N,'alias/num_states')
            q=v.copy(); mrcal.pack_state(q,**o); ctx.same(q,pk,'alias/pack_state')
        for q,a in alias.items():
            if oi.get(q) is not None and oi[q].size:
                with vlib.quiet_fds(): ctx.raises(lambda: mrcal.optimizer_callback(**oi,**{a:oi[q]},no_factorization=True),'alias/both',a)

def readonly(a): a.flags.writeable=False; return a
