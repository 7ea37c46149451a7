'''Round trips of camera models'''
import numpy as np, io, os, copy, warnings, tempfile
TITLE = 'camera model round trips'
RULE  = ('An execution is one camera model, built by a random history of constructor and setter calls, written with one of the writers (Python file/stream/str, C) or formatted by hand in a random '
         'legal style, and read with each of the readers (Python file/stream, C file/string/preallocated, Python-C converter). Non-trivial: distinct model content or formatting.')
ASSUMPTIONS = ['finite values; the formatting variants are those both readers are written to support',
               'the text precision is 10 significant digits']
MIN_EVALUATIONS = 500
FLOORS = {'model':150,'optimization inputs':40,'formatting':150,'setters':60,'C writer':100,'C reader':400}

def jobs(tier,seed):
    return [dict(name=f'models{k}',k=k) for k in range(3)]+[dict(name='formatting'),dict(name='optimization-inputs'),dict(name='setters'),dict(name='asan',flavor='asan')]

def run(ctx,job):
    global mrcal,ref,gen,prob,capi,vlib
    import mrcal,ref,gen,prob,capi,vlib
    warnings.simplefilter('ignore')
    n=job['name']
    if n=='formatting': formatting(ctx,ctx.n(200,3000))
    elif n=='optimization-inputs': inputs(ctx)
    elif n=='setters': setters(ctx)
    elif n=='asan':
        formatting(ctx,ctx.n(40,500))
        for rep in range(ctx.n(20,200)): one(ctx,rep)
    else:
        for rep in range(ctx.n(60,1000)): one(ctx,rep)

def number(rng,scale=1.):
    k=rng.integers(8)
    if k==0: return 0.
    if k==1: return float(rng.integers(-5000,5000))
    if k==2: return float(rng.normal()*10.**rng.integers(-300,300))
    if k==3: return float(rng.normal()*10.**rng.integers(-20,20))
    return float(rng.normal()*scale)

def lensmodel(rng):
    l=list(gen.lensmodels(rng,nspline=1,ncahvore=1))+[f'LENSMODEL_CAHVORE_linearity={rng.uniform(-1,1)!r}','LENSMODEL_CAHVORE_linearity=1e-05','LENSMODEL_CAHVORE_linearity=0']
    return str(rng.choice(l))

def region(rng):
    k=rng.integers(5)
    if k<2: return None
    if k==2: return np.zeros((0,2))
    N=int(rng.integers(3,9)); th=np.sort(rng.uniform(0,2*np.pi,N))
    r=np.stack((1000+800*np.cos(th),700+600*np.sin(th)),axis=-1)
    if k==3: r=np.vstack((r,r[:1]))
    if rng.uniform()<.3: r=np.round(r)
    return r

NOTES=('x','generated with a "quote\' and {braces}: [1,2,','two\nlines\n',"'lensmodel': 'LENSMODEL_OPENCV4',","multi\r\nline\n\n\n{",'\u00e9\u4e2d # # }','','\n','"""','tab\there','a\x0bb\x0cc\x1cd\u2028e\x85f')

def content(rng):
    lm=lensmodel(rng)
    N=ref.num_params(lm)
    if rng.uniform()<.6: i=gen.intrinsics(rng,lm)
    else:
        i=np.array([number(rng) for _ in range(N)])
    rt=gen.rt(rng) if rng.uniform()<.7 else np.array([number(rng) for _ in range(6)])
    wh=[int(x) for x in rng.choice((1,2,17,640,4000,65535,65536,2**31-1),2)]
    return lm,i,rt,wh

def is10(a,b,ctx,mech,msg,**D):
    '''b is a, printed with 10 digits'''
    a=np.asarray(a,dtype=float); b=np.asarray(b,dtype=float)
    if not ctx.ok(a.shape==b.shape,mech+'/shape',f'{msg}: {a.shape} {b.shape}',**D): return
    bad=~(np.abs(a-b)<=5.01e-10*np.abs(a)+5e-320)
    ctx.ok(not bad.any(),mech,f'{msg}: written {a[bad][:4]!r}, read {b[bad][:4]!r}',**D)

def samemodel(ctx,a,b,mech,**D):
    '''bit-identical'''
    ctx.ok(a.intrinsics()[0]==b.intrinsics()[0],mech+'/lensmodel',f'{a.intrinsics()[0]} {b.intrinsics()[0]}',**D)
    ctx.same(a.intrinsics()[1],b.intrinsics()[1],mech+'/intrinsics',**D)
    ctx.same(a.rt_cam_ref(),b.rt_cam_ref(),mech+'/rt_cam_ref',**D)
    ctx.same(a.imagersize(),b.imagersize(),mech+'/imagersize',**D)
    ra,rb=a.valid_intrinsics_region(),b.valid_intrinsics_region()
    if ra is None or rb is None: ctx.ok(ra is None and rb is None,mech+'/region',f'{ra} {rb}',**D)
    else: ctx.same(ra,rb,mech+'/region',**D)
    ctx.ok(a.icam_intrinsics()==b.icam_intrinsics(),mech+'/icam_intrinsics',f'{a.icam_intrinsics()} {b.icam_intrinsics()}',**D)
    ctx.ok(a.icam_extrinsics()==b.icam_extrinsics(),mech+'/icam_extrinsics',f'{a.icam_extrinsics()} {b.icam_extrinsics()}',**D)
    sameinputs(ctx,a.optimization_inputs(),b.optimization_inputs(),mech+'/optimization_inputs',**D)

def sameinputs(ctx,a,b,mech,**D):
    if a is None or b is None: return ctx.ok(a is None and b is None,mech,'one is None',**D)
    ctx.ok(set(a)==set(b),mech+'/keys',f'{set(a)^set(b)}',**D)
    for k in set(a)&set(b):
        x,y=a[k],b[k]
        if isinstance(x,np.ndarray) or isinstance(y,np.ndarray): ctx.same(x,y,f'{mech}/{k}',**D)
        else: ctx.ok(type(x)==type(y) and x==y,f'{mech}/{k}',f'{x!r} {y!r}',**D)

def cname(lm):
    '''lens model, as C spells it'''
    return lm

def creaders(ctx,text,fname,m,D):
    '''All the C readers must agree with the Python reader, bit for bit'''
    want=(m.intrinsics()[1],m.rt_cam_ref(),m.imagersize())
    c=ref.config(m.intrinsics()[0])
    N=len(want[0])
    outs=[]
    outs.append(('read_file',*capi.read_file(fname)))
    outs.append(('read_string',*capi.read_string(text)))
    outs.append(('read_string-len',*capi.read_string(text,explicit_len=True)))
    for isfile in (0,1):
        for room in (N,N+3):
            rc,n,mm=capi.read_into(fname if isfile else text,room,isfile=isfile)
            outs.append((f'read_into-{isfile}-{room-N}',rc,mm))
        rc,n,mm=capi.read_into(fname if isfile else text,N-1,isfile=isfile)
        ctx.ok(rc==-1 and n==N,'C/read_into/small',f'into a buffer with room for {N-1} of {N} intrinsics: rc={rc}, reported {n}',**D)
    for n,rc,mm in outs:
        ctx.counts['C reader']=ctx.counts.get('C reader',0)+1
        if not ctx.ok(mm is not None,f'C/{n}/refused',f'the C reader refused (rc={rc}) what the Python reader took',**D): continue
        samec(ctx,mm,m,f'C/{n}',D)
    with ctx.guard('converter/file',**{}):
        d=mrcal._mrcal._test_python_cameramodel_converter(fname)
        samec(ctx,d,m,'converter/file',D)

def samec(ctx,mm,m,mech,D):
    lm=m.intrinsics()[0]
    a,b=ref.config(lm),ref.config(mm['lensmodel']) if '...' not in mm['lensmodel'] else None
    if b is None: ctx.ok(mm['lensmodel'].split('=')[0].rsplit('_',1)[0]==lm.split('=')[0].rsplit('_',1)[0],mech+'/lensmodel',f'{mm["lensmodel"]} {lm}',**D)
    elif a['kind']=='CAHVORE': ctx.ok(b['kind']=='CAHVORE' and abs(float(a['linearity'])-float(b['linearity']))<1e-9,mech+'/lensmodel',f'{mm["lensmodel"]} {lm}',**D)
    else: ctx.ok(a==b,mech+'/lensmodel',f'{mm["lensmodel"]} {lm}',**D)
    ctx.same(np.array(mm['intrinsics']),m.intrinsics()[1],mech+'/intrinsics',**D)
    ctx.same(np.array(mm['rt_cam_ref']),m.rt_cam_ref(),mech+'/rt_cam_ref',**D)
    ctx.ok(list(mm['imagersize'])==list(m.imagersize()),mech+'/imagersize',f"{mm['imagersize']} {m.imagersize()}",**D)

def roundtrip(ctx,m,D,note=None):
    '''Write m in every way; read it in every way. Returns what was read'''
    rng=ctx.rng
    fd,f=tempfile.mkstemp(suffix='.cameramodel'); os.close(fd)
    try:
        with ctx.guard('write'): m.write(f,note=note)
        text=open(f,'rb').read()
        s=io.StringIO(); m.write(s,note=note)
        ctx.ok(s.getvalue().encode()==text,'write/stream-differs','the stream has something other than the file',**D)
        s=io.StringIO(); m.write(s)
        ctx.ok(s.getvalue()==str(m),'str','str() isn\'t what is written',**D)
        try: r=mrcal.cameramodel(f)
        except Exception as e:
            ctx.violate('reread/refused',f'{e}',text=text.decode(errors='replace'),**D); return None
        with open(f) as fp: samemodel(ctx,r,mrcal.cameramodel(fp),'file-object',**D)
        samemodel(ctx,r,mrcal.cameramodel(file_or_model=f),'again',**D)
        # against what was written
        ctx.ok(r.intrinsics()[0]==m.intrinsics()[0],'reread/lensmodel',f'{m.intrinsics()[0]} {r.intrinsics()[0]}',**D)
        is10(m.intrinsics()[1],r.intrinsics()[1],ctx,'reread/intrinsics','intrinsics',**D)
        is10(m.rt_cam_ref(),r.rt_cam_ref(),ctx,'reread/rt_cam_ref','rt_cam_ref',**D)
        ctx.ok(list(m.imagersize())==list(r.imagersize()),'reread/imagersize',f'{m.imagersize()} {r.imagersize()}',**D)
        ra,rb=m.valid_intrinsics_region(),r.valid_intrinsics_region()
        if ra is None or rb is None: ctx.ok(ra is None and rb is None,'reread/region',f'{ra} {rb}',**D)
        else: is10(ra,rb,ctx,'reread/region','region',**D)
        ctx.ok((m.icam_intrinsics(),m.icam_extrinsics())==(r.icam_intrinsics(),r.icam_extrinsics()),'reread/icam','',**D)
        sameinputs(ctx,m.optimization_inputs(),r.optimization_inputs(),'reread/optimization_inputs',**D)
        # again changes nothing
        z=lambda s: s.replace(' -0,',' 0,') # an integer has no -0
        ctx.ok(z(str(r))==z(str(m)),'idempotent','writing what was read gives something different',text=str(m),text2=str(r),**D)
        creaders(ctx,text,f,r,D)
        # not a file
        with ctx.guard('converter/object'):
            samec(ctx,mrcal._mrcal._test_python_cameramodel_converter(m),m,'converter/object',D)
        # --- C writer
        g=f+'.c'
        ctx.counts['C writer']=ctx.counts.get('C writer',0)+1
        rc=capi.write_model(g,m.intrinsics()[0],m.intrinsics()[1],m.rt_cam_ref(),m.imagersize())
        if ctx.ok(rc==1,'C-writer/failed',f'{rc}',**D):
            try:
                w=mrcal.cameramodel(g)
                is10(m.intrinsics()[1],w.intrinsics()[1],ctx,'C-writer/intrinsics','intrinsics',**D)
                is10(m.rt_cam_ref(),w.rt_cam_ref(),ctx,'C-writer/rt_cam_ref','rt_cam_ref',**D)
                ctx.ok(list(m.imagersize())==list(w.imagersize()),'C-writer/imagersize',f'{m.imagersize()} {w.imagersize()}',**D)
                a,b=ref.config(m.intrinsics()[0]),ref.config(w.intrinsics()[0])
                if a['kind']=='CAHVORE': ctx.ok(abs(float(a['linearity'])-float(b['linearity']))<1e-9,'C-writer/lensmodel',f'{m.intrinsics()[0]} {w.intrinsics()[0]}',**D)
                else: ctx.ok(a==b,'C-writer/lensmodel',f'{m.intrinsics()[0]} {w.intrinsics()[0]}',**D)
                rc,mm=capi.read_file(g)
                if ctx.ok(mm is not None,'C-writer/C-reader','refused',**D): samec(ctx,mm,w,'C-writer/C-reader',D)
            except Exception as e: ctx.violate('C-writer/unreadable',f'{e}',text=open(g).read(),**D)
            os.unlink(g)
        return r
    finally: os.unlink(f)

def one(ctx,rep):
    rng=ctx.rng
    lm,i,rt,wh=content(rng)
    reg=region(rng)
    note=str(rng.choice(NOTES)) if rng.uniform()<.5 else None
    ctx.case('model',key=(lm,tuple(i),tuple(rt),tuple(wh)),lensmodel=lm,intrinsics=i,rt=rt,wh=wh,region=reg,note=note)
    D=dict(lensmodel=lm,intrinsics=i,rt=rt,wh=wh,region=reg,note=note)
    kw=dict(intrinsics=(lm,gen.strided(rng,i)),imagersize=[wh,tuple(wh),np.array(wh)][rng.integers(3)])
    if rng.uniform()<.8: kw['rt_cam_ref']=rt
    else: rt=np.zeros(6)
    if reg is not None: kw['valid_intrinsics_region']=reg
    try: m=mrcal.cameramodel(**kw)
    except Exception as e: return ctx.violate('construct',f'{e}',**D)
    ctx.same(m.intrinsics()[1],i,'construct/intrinsics',**D); ctx.same(m.rt_cam_ref(),rt,'construct/rt',**D)
    ctx.ok(list(m.imagersize())==wh,'construct/imagersize','',**D)
    if reg is not None and len(reg):
        rr=m.valid_intrinsics_region()
        w=reg if np.array_equal(reg[0],reg[-1]) else np.vstack((reg,reg[:1]))
        if ctx.ok(rr is not None,'construct/region/refused','',**D): ctx.same(rr,w,'construct/region',**D)
    elif reg is not None: ctx.ok(m.valid_intrinsics_region() is not None and m.valid_intrinsics_region().shape==(0,2),'construct/region-empty','',**D)
    else: ctx.ok(m.valid_intrinsics_region() is None,'construct/region-none','',**D)
    roundtrip(ctx,m,D,note)
    # copies are independent
    c=mrcal.cameramodel(m); samemodel(ctx,m,c,'copy',**D)
    samemodel(ctx,m,copy.deepcopy(m),'deepcopy',**D)
    before=str(m)
    c.rt_cam_ref(rt+1.); c.intrinsics((lm,i+1),imagersize=(5,6))
    m.intrinsics()[1][:]=-1; m.rt_cam_ref()[:]=-1; m.imagersize()[:]=7
    if reg is not None and len(reg): m.valid_intrinsics_region()[:]=3; reg+=1
    i*=2
    ctx.ok(str(m)==before,'aliasing','the model was modified through a copy, its inputs or what its getters returned',**D)

def inputs(ctx):
    rng=ctx.rng
    for rep in range(ctx.n(60,600)):
        cameras=str(rng.choice(('cam0-ref','all','moving')))
        lm=lensmodel(rng)
        Ncam=int(rng.integers(1,4))
        oi=prob.make(rng,lensmodel=lm,Ncam=Ncam,Nframes=int(rng.integers(0,4)),Npoints=int(rng.integers(1,5)),Npoints_fixed=0,cameras=cameras,warp=bool(rng.uniform()<.7),obs_per_point=3,visible=1,outliers=.1,
                     Ntri=int(rng.integers(0,2))*3 if 'CAHVORE' not in lm and cameras=='cam0-ref' and Ncam>1 else 0)
        if rng.uniform()<.3: oi['do_apply_outlier_rejection']=bool(rng.uniform()<.5)
        if rng.uniform()<.3: oi['do_apply_regularization_unity_cam01']=False
        if rng.uniform()<.3: oi.pop('verbose')
        Ni=len(oi['intrinsics']); ic=int(rng.integers(Ni))
        Ne=len(oi['rt_cam_ref'])
        stationary = cameras!='moving'
        used=set()
        for k in ('indices_frame_camintrinsics_camextrinsics','indices_point_camintrinsics_camextrinsics','indices_point_triangulated_camintrinsics_camextrinsics'):
            if oi.get(k) is not None: used |= {int(x[2]) for x in oi[k] if x[1]==ic}
        kw=dict(optimization_inputs=oi,icam_intrinsics=ic)
        D=dict(oi=oi,ic=ic,cameras=cameras)
        ie = (ic-1 if cameras=='cam0-ref' else ic) if stationary else int(rng.integers(-1,max(Ne,0)))
        give = not stationary or rng.uniform()<.3 or len(used)!=1
        if give: kw['icam_extrinsics']=ie
        ctx.case('optimization inputs',key=rep,lensmodel=lm,cameras=cameras,ic=ic,ie=ie,given=give)
        try: m=mrcal.cameramodel(**kw)
        except Exception as e:
            ctx.violate('optimization_inputs/refused',f'{e}',**D); continue
        ctx.same(m.intrinsics()[1],oi['intrinsics'][ic],'optimization_inputs/intrinsics',**D)
        ctx.ok(m.intrinsics()[0]==lm,'optimization_inputs/lensmodel',**D)
        ctx.ok(list(m.imagersize())==list(oi['imagersizes'][ic]),'optimization_inputs/imagersize','',**D)
        ctx.same(m.rt_cam_ref(),oi['rt_cam_ref'][ie] if ie>=0 else np.zeros(6),'optimization_inputs/rt_cam_ref',**D)
        ctx.ok((m.icam_intrinsics(),m.icam_extrinsics())==(ic,ie),'optimization_inputs/icam',f'{(m.icam_intrinsics(),m.icam_extrinsics())} {(ic,ie)}',**D)
        def check(m,what):
            o=m.optimization_inputs()
            for k in oi:
                if k=='verbose': continue
                a,b=oi[k],o.get(k)
                # those with their default value needn't be stored
                if k in ('do_apply_regularization_unity_cam01','observations_point_triangulated','indices_point_triangulated_camintrinsics_camextrinsics') and k not in o:
                    ctx.ok(a is None or a is False or np.size(a)==0,f'{what}/{k}/lost','',**D); continue
                if k=='rt_cam_ref' and (a is None or not len(a)): ctx.ok(b is not None and b.shape==(0,6),f'{what}/rt_cam_ref-empty','',**D); continue
                if isinstance(a,np.ndarray):
                    if ctx.ok(isinstance(b,np.ndarray),f'{what}/{k}',f'{type(b)}',**D): ctx.same(a,b,f'{what}/{k}',**D)
                else: ctx.ok(a==b and type(a)==type(b),f'{what}/{k}',f'{a!r} {b!r}',**D)
            return o
        o=check(m,'optimization_inputs'); o['intrinsics'][:]=0; check(m,'optimization_inputs/aliasing')
        r=roundtrip(ctx,m,D)
        if r is None: continue
        o=check(r,'reread-inputs')
        # and they're what the optimizer wants
        a={k:v for k,v in oi.items() if k!='do_apply_outlier_rejection'}
        o={k:v for k,v in o.items() if k in a or k.startswith('do_apply_reg')}
        with ctx.guard('optimization_inputs/callback'):
            b0,x0,_,_=mrcal.optimizer_callback(**a,no_jacobian=True,no_factorization=True)
            b1,x1,_,_=mrcal.optimizer_callback(**o,no_jacobian=True,no_factorization=True)
            ctx.same(b0,b1,'optimization_inputs/callback/b',**D); ctx.same(x0,x1,'optimization_inputs/callback/x',**D)
        c=mrcal.cameramodel(r)
        samemodel(ctx,c,r,'copy-inputs',**D)
        roundtrip(ctx,c,D)
        # re-serializing what was deserialized
        m2=mrcal.cameramodel(optimization_inputs=r.optimization_inputs(),icam_intrinsics=ic,icam_extrinsics=ie)
        check(m2,'reserialized')
        ctx.ok(m._optimization_inputs_match(r) and r._optimization_inputs_match(m),'optimization_inputs_match','',**D)
        # moving the camera keeps these; the intrinsics do not
        r.rt_ref_cam(gen.rt(rng)); check(r,'moved'); 
        ctx.ok(r._extrinsics_moved_since_calibration(),'moved/not-reported','',**D)
        ctx.ok(not m._extrinsics_moved_since_calibration(),'not-moved/reported','',**D)
        k=rng.integers(3)
        if k==0: c.intrinsics(c.intrinsics(),imagersize=c.imagersize())
        elif k==1: c.optimization_inputs_reset()
        else: c.intrinsics((lm,c.intrinsics()[1]*2))
        ctx.ok(c.optimization_inputs() is None and c.icam_intrinsics() is None and c.icam_extrinsics() is None,'reset/inputs','optimization_inputs survived a change of the intrinsics',**D)
        roundtrip(ctx,c,D)

def setters(ctx):
    '''Histories of setter calls, against a simple model of the state'''
    rng=ctx.rng
    for rep in range(ctx.n(100,1500)):
        lm,i,rt,wh=content(rng); rt=gen.rt(rng,str(rng.choice(('any','small','zero','axis'))))
        m=mrcal.cameramodel(intrinsics=(lm,i),imagersize=wh)
        st=dict(lm=lm,i=i.copy(),T=np.eye(4),wh=wh,reg=None)
        hist=[]
        for step in range(int(rng.integers(2,12))):
            k=int(rng.integers(10)); hist.append(k)
            D=dict(hist=hist,lensmodel=st['lm'])
            r=gen.rt(rng,str(rng.choice(('any','small','zero','axis'))))
            T=ref.T_from_rt(r)
            legacy=rng.uniform()<.3
            def call(new,old,v):
                return getattr(m,old if legacy else new)(v)
            with ctx.guard(f'setter/{k}'):
                if k==0: call('rt_cam_ref','extrinsics_rt_fromref',gen.strided(rng,r)); st['T']=T
                elif k==1: call('rt_ref_cam','extrinsics_rt_toref',gen.strided(rng,r)); st['T']=ref.inv_T(T)
                elif k==2: call('Rt_cam_ref','extrinsics_Rt_fromref',gen.strided(rng,ref.Rt_from_T(T))); st['T']=T
                elif k==3: call('Rt_ref_cam','extrinsics_Rt_toref',gen.strided(rng,ref.Rt_from_T(T))); st['T']=ref.inv_T(T)
                elif k==4:
                    lm2,i2,_,wh2=content(rng)
                    if rng.uniform()<.5: m.intrinsics((lm2,i2),imagersize=wh2); st['wh']=wh2
                    else: m.intrinsics((lm2,i2))
                    st['lm'],st['i'],st['reg']=lm2,i2.copy(),None
                elif k==5:
                    g=region(rng)
                    if g is not None:
                        m.valid_intrinsics_region(g)
                        st['reg']=g if not len(g) or np.array_equal(g[0],g[-1]) else np.vstack((g,g[:1]))
                elif k==6: m.valid_intrinsics_region_reset(); st['reg']=None
                elif k==7:
                    # rejected, and changes nothing
                    bad=int(rng.integers(6))
                    f=(lambda: m.intrinsics((st['lm'],np.append(st['i'],0.)),imagersize=st['wh']),
                       lambda: m.intrinsics((st['lm'],st['i']),imagersize=(0,5)),
                       lambda: m.rt_cam_ref(np.zeros(5)),
                       lambda: m.valid_intrinsics_region(np.zeros((2,2))+np.arange(2)[:,None]),
                       lambda: m.intrinsics(('LENSMODEL_NONE',st['i']),imagersize=st['wh']),
                       lambda: m.intrinsics((st['lm'],st['i']),imagersize=(3,5),optimization_inputs=dict(),icam_intrinsics=0))[bad]
                    ctx.raises(f,f'setter/bad/{bad}')
                elif k==8: m=mrcal.cameramodel(m)
                elif k==9: mm=copy.deepcopy(m); mm.rt_cam_ref(r); mm.intrinsics(('LENSMODEL_PINHOLE',np.ones(4)))
            lim=dict(atol=1e-9*(1+np.abs(st['T'][:3,3]).max()),rtol=0)
            ctx.case('setters',key=(rep,step),step=k)
            ctx.close(ref.T_from_rt(m.rt_cam_ref()),st['T'],f'setters/rt_cam_ref',**lim,**D)
            ctx.close(ref.T_from_rt(m.rt_ref_cam()),ref.inv_T(st['T']),'setters/rt_ref_cam',**lim,**D)
            ctx.close(ref.T_from_Rt(m.Rt_cam_ref()),st['T'],'setters/Rt_cam_ref',**lim,**D)
            ctx.close(ref.T_from_Rt(m.Rt_ref_cam()),ref.inv_T(st['T']),'setters/Rt_ref_cam',**lim,**D)
            for a,b in (('rt_cam_ref','extrinsics_rt_fromref'),('rt_ref_cam','extrinsics_rt_toref'),('Rt_cam_ref','extrinsics_Rt_fromref'),('Rt_ref_cam','extrinsics_Rt_toref')):
                ctx.same(getattr(m,a)(),getattr(m,b)(),f'setters/{b}','the legacy alias',**D)
            ctx.ok(m.intrinsics()[0]==st['lm'],'setters/lensmodel','',**D); ctx.same(m.intrinsics()[1],st['i'],'setters/intrinsics',**D)
            ctx.ok(list(m.imagersize())==list(st['wh']),'setters/imagersize','',**D)
            g=m.valid_intrinsics_region()
            if st['reg'] is None or g is None: ctx.ok(g is None and st['reg'] is None,'setters/region',f'{g} vs {st["reg"]}',**D)
            else: ctx.same(g,st['reg'],'setters/region',**D)
        roundtrip(ctx,m,dict(hist=hist,lm=st['lm']))

def fnum(rng,x):
    '''x, in some style'''
    k=rng.integers(7)
    if x==int(x) and abs(x)<1e6 and rng.uniform()<.6: return ('%d'%int(x)) if k<4 else '%d.'%int(x) if k==4 else '%d.000'%int(x) if k==5 else '%de0'%int(x)
    s=repr(float(x))
    if k==0: return '%.17e'%x
    if k==1: return ('%.12e'%x).replace('e','E')
    if k==2 and 'e' not in s and abs(x)<1: return s.replace('0.','.',1)
    if k==3 and abs(x)<1e15: return '%.20f'%x
    return s

def ws(rng,nl=True):
    k=rng.integers(9)
    return ('','',' ','  ','\t','\n' if nl else ' ',' # a comment: [}\'" , {\n' if nl else '','\n\n   # x\n#y\n \t' if nl else ' ','\r\n' if nl else '')[k]

def flist(rng,l):
    o,c=('[]','()')[int(rng.integers(2)) if len(l)>1 else 0]
    s=o
    for n,x in enumerate(l):
        s+=ws(rng)+x+ws(rng)
        if n<len(l)-1 or rng.uniform()<.4: s+=','
    return s+ws(rng)+c

def formatting(ctx,n):
    rng=ctx.rng
    for rep in range(n):
        lm,i,rt,wh=content(rng)
        q=lambda s,b=False: (lambda c: c+s+c)(('"',"'")[rng.integers(2)])
        items=[('lensmodel',q(lm)),('intrinsics',flist(rng,[fnum(rng,x) for x in i]))]
        ex='rt_cam_ref' if rng.uniform()<.6 else 'extrinsics'
        tail=[(ex,flist(rng,[fnum(rng,x) for x in rt])),('imagersize',flist(rng,[str(x) for x in wh]))]
        both=rng.uniform()<.3
        if both: tail.append(({'rt_cam_ref':'extrinsics','extrinsics':'rt_cam_ref'}[ex],tail[0][1]))
        for u in range(int(rng.integers(0,4))):
            tail.append((f'unknown{u}',[lambda:fnum(rng,rng.normal()),lambda:q('some string: {}[] # no comment'),lambda:flist(rng,[fnum(rng,x) for x in rng.normal(size=3)]),
                                        lambda:flist(rng,[flist(rng,[fnum(rng,x) for x in rng.normal(size=2)]) for _ in range(3)]),lambda:'b'+q('bytes')][rng.integers(5)]()))
        # anywhere, except that the C reader wants the lensmodel before the intrinsics
        if rng.uniform()<.5:
            for t in tail: items.insert(int(rng.integers(len(items)+1)),t)
            a=[k for k,_ in items].index('lensmodel'); b=[k for k,_ in items].index('intrinsics')
            if b<a: items[a],items[b]=items[b],items[a]
        else: items+=tail
        s=('','\n','# a comment: [}\n#\n','\n\n  # x\n')[rng.integers(4)]+'{'   # python refuses an indented first line
        for k,(key,v) in enumerate(items):
            s+=ws(rng)+q(key)+ws(rng)+':'+ws(rng)+v+ws(rng)
            if k<len(items)-1 or rng.uniform()<.5: s+=','
        s+=ws(rng)+'}'+('','\n',' # x\n','  \n\n','\r\n')[rng.integers(5)]
        text=s.encode()
        ctx.case('formatting',key=text,text=s[:300])
        D=dict(text=s)
        try: m=mrcal.cameramodel(io.StringIO(s))
        except Exception as e:
            ctx.violate('formatting/python-refused',f'{e}',**D); continue
        # what it spells out
        ctx.ok(m.intrinsics()[0]==lm,'formatting/lensmodel','',**D)
        ctx.ok(list(m.imagersize())==wh,'formatting/imagersize','',**D)
        ctx.close(m.intrinsics()[1]/np.where(i==0,1,i),np.where(i==0,0.,1.),'formatting/intrinsics',atol=1e-9,rtol=0,**D) if np.abs(i[i!=0]).min(initial=1)>1e-9 else 0
        fd,f=tempfile.mkstemp(suffix='.cameramodel'); os.close(fd)
        try:
            open(f,'wb').write(text)
            creaders(ctx,text,f,m,D)
            # a file that exactly fills its pages
            if rep%10==0:
                pad=text+b'\n'*((-len(text))%4096); open(f,'wb').write(pad)
                creaders(ctx,pad,f,m,D)
        finally: os.unlink(f)
