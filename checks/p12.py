'''Images on disk, conversions, color maps'''
import numpy as np, os, warnings
TITLE = 'images and color maps'
RULE  = ('An execution is one image saved and/or loaded (by mrcal, by OpenCV, or by the independent PNM reader/writer here), one damaged or unsupported file, or one array color-mapped. '
         'Oracles: the original pixels; OpenCV and the PNM standard as the other party; the documented gnuplot formulas and ranges. Non-trivial: distinct contents and arguments.')
ASSUMPTIONS = ['decoding errors inside an image are detected as well as the underlying decoders (libstb) can: a damaged file may load as an image of the right type','no NaN in color-mapped data']
MIN_EVALUATIONS = 1500
FLOORS = {'round trip':200,'interop':150,'convert':100,'damaged':400,'refusal':100,'colormap':300,'stretch':60,'accessor':200}
TIMEOUT = dict(quick=500,thorough=7200)

def jobs(tier,seed):
    return [dict(name='roundtrip'),dict(name='conversions'),dict(name='refusals'),dict(name='damaged',flavor='asan'),dict(name='colormap'),dict(name='colormap_asan',flavor='asan'),dict(name='accessors'),dict(name='roundtrip_asan',flavor='asan')]

def run(ctx,job):
    global mrcal,gen,vlib,capi,cv2,tmp
    import mrcal,gen,vlib,capi,tempfile
    warnings.simplefilter('ignore')
    if not job['name'].endswith('_asan') and job['name']!='damaged': import cv2
    else: cv2=None
    with tempfile.TemporaryDirectory() as tmp:
        globals()[job['name'].replace('_asan','')](ctx)

# ---- PNM, as the standard has it
def pnm_write(f,a,maxval=None,comment=False):
    color=a.ndim==3
    if maxval is None: maxval = 65535 if a.dtype==np.uint16 else 255
    d = a[...,::-1].tobytes() if color else a.astype('>u2').tobytes() if maxval>255 else a.astype(np.uint8).tobytes()
    c = b'# a comment\n' if comment else b''
    open(f,'wb').write((b'P6\n' if color else b'P5\n')+c+b'%d %d\n%d\n'%(a.shape[1],a.shape[0],maxval)+d)
def pnm_read(f):
    d=open(f,'rb').read(); tok=[]; i=0
    while len(tok)<4:
        while d[i:i+1].isspace(): i+=1
        if d[i:i+1]==b'#': i=d.index(b'\n',i); continue
        j=i
        while not d[j:j+1].isspace(): j+=1
        tok.append(d[i:j]); i=j
    i+=1; W,H,m=[int(x) for x in tok[1:]]
    if tok[0]==b'P6': n=W*H*3; r=np.frombuffer(d[i:],np.uint8).reshape(H,W,3)[...,::-1]
    elif m>255: r=np.frombuffer(d[i:],'>u2').reshape(H,W).astype(np.uint16)
    else: r=np.frombuffer(d[i:],np.uint8).reshape(H,W)
    return np.array(r),m

def random_image(rng,kind,lo=1,hi=60,smooth=False):
    H,W=[int(x) for x in rng.integers(lo,hi,2)]
    if rng.uniform()<.1: W=1
    if rng.uniform()<.1: H=1
    sh=(H,W,3) if kind=='bgr' else (H,W); dt=np.uint16 if kind=='uint16' else np.uint8
    m=65536 if kind=='uint16' else 256
    if smooth:
        y,x=np.mgrid[:H,:W]; a=127+100*np.sin(x*rng.uniform(.01,.1)+y*rng.uniform(.01,.1)+rng.uniform(0,6))
        a = np.dstack([a,a[::-1],.5*a+60]) if kind=='bgr' else a
        return np.clip(a,0,255).astype(dt)
    if rng.uniform()<.1: return np.full(sh,rng.integers(m),dtype=dt)
    return rng.integers(0,m,sh,dtype=dt)

def layouts(rng,a):
    '''The same image, with row strides that the documentation allows'''
    row=a.nbytes//a.shape[0]; es=a.dtype.itemsize
    def st(stride):
        b=np.full(stride*a.shape[0]+row,123,np.uint8); v=np.lib.stride_tricks.as_strided(b.view(np.uint8),a.shape,(stride,)+a.strides[1:]) if es==1 else \
          np.ndarray(a.shape,a.dtype,b.data,0,(stride,)+a.strides[1:])
        v[...]=a; return v
    yield 'dense',np.array(a)
    yield 'padded',st(row+es*int(rng.integers(1,9)))
    yield 'flipped',np.array(a[::-1])[::-1]
    yield 'every other row',np.repeat(a,2,axis=0)[::2]
    if a.dtype==np.uint16: yield 'odd stride',st(row+3)
    yield 'readonly',(lambda b: (b.setflags(write=False),b)[1])(np.array(a))

def roundtrip(ctx):
    rng=ctx.rng
    for rep in range(ctx.n(50,800)):
        for kind,exts in (('uint8',('png','pgm','PNG')),('uint16',('png','pgm')),('bgr',('png','ppm'))):
            a=random_image(rng,kind); ext=str(rng.choice(exts))
            for lay,b in layouts(rng,a):
                f=f'{tmp}/a.{ext}'
                ctx.case('round trip',key=(rep,kind,lay),imkind=kind,ext=ext,layout=lay,shape=a.shape)
                m=f'{kind}/{ext.lower()}'
                with ctx.guard(f'round trip/{m}/{lay}'):
                    b0=np.array(b)
                    with vlib.quiet_fds():
                        r=mrcal.save_image(f,b)
                    ctx.ok(r is None,'save/result','None')
                    ctx.same(np.array(b),b0,'save/input',msg='the image is unchanged')
                    with vlib.quiet_fds(): c=mrcal.load_image(f)
                    ctx.same(c,a,f'round trip/{m}/{lay}',msg='loaded pixels',shape=a.shape)
                    d=dict(uint8=(8,1),uint16=(16,1),bgr=(24,3))[kind]
                    ctx.same(mrcal.load_image(f,*d),a,f'round trip/{m}/{lay}/explicit',msg='loaded pixels, explicit format')
                    ctx.same(mrcal.load_image(filename=f,bits_per_pixel=0,channels=0),a,f'round trip/{m}/{lay}/explicit0',msg='loaded pixels, autodetected format')
                    # the C API
                    f2=f'{tmp}/b.{ext}'
                    ctx.ok(capi.image_save(kind,f2,b)==1,f'C/save/{m}','C API save')
                    ctx.ok(open(f,'rb').read()==open(f2,'rb').read(),f'C/same/{m}','same file from C and Python')
                    for k in (kind,'any'):
                        rc,c=capi.image_load(k,f); ctx.ok(rc==1 and c.dtype==a.dtype and np.array_equal(c,a),f'C/load/{m}/{k}','C API load')
                    if cv2 is not None:
                        ctx.same(cv2.imread(f,cv2.IMREAD_UNCHANGED),a,f'interop/cv2 reads/{m}/{lay}',msg='as OpenCV loads it')
                    if ext.lower() in ('pgm','ppm'):
                        p,mx=pnm_read(f); ctx.ok(mx==(65535 if kind=='uint16' else 255) and np.array_equal(p,a),f'interop/pnm/{m}/{lay}','as the PNM standard has it')
            # the other way
            if cv2 is None: continue
            ctx.case('interop',key=(rep,kind),ext=ext,imkind=kind)
            f=f'{tmp}/c.{ext}'
            with ctx.guard(f'interop/{m}'):
                cv2.imwrite(f,a)
                ctx.same(mrcal.load_image(f),a,f'interop/cv2 writes/{m}',msg='image written by OpenCV')
                if ext.lower() in('pgm','ppm'):
                    pnm_write(f,a,comment=rng.uniform()<.5)
                    ctx.same(mrcal.load_image(f),a,f'interop/pnm writes/{m}',msg='standard PNM file')
        # jpeg: lossy
        for kind in ('uint8','bgr'):
            a=random_image(rng,kind,10,80,smooth=True)
            for lay,b in layouts(rng,a):
                ctx.case('round trip',key=(rep,kind,'jpg',lay),imkind=kind,ext='jpg',layout=lay,shape=a.shape)
                f=f'{tmp}/a.jpg'
                with ctx.guard(f'round trip/{kind}/jpg/{lay}'):
                    mrcal.save_image(f,b)
                    c=mrcal.load_image(f)
                    ctx.ok(c.dtype==a.dtype and c.shape==a.shape,f'round trip/{kind}/jpg',f'{c.shape} {c.dtype}')
                    ctx.close(c,a,f'round trip/{kind}/jpg/{lay}',msg='jpeg pixels',atol=8,rtol=0)
                    if cv2 is not None:
                        ctx.close(cv2.imread(f,-1),a,f'interop/cv2 reads/{kind}/jpg',msg='as OpenCV loads it',atol=8,rtol=0)
                        cv2.imwrite(f,a,[cv2.IMWRITE_JPEG_QUALITY,98])
                        ctx.close(mrcal.load_image(f),a,f'interop/cv2 writes/{kind}/jpg',msg='jpeg written by OpenCV',atol=10,rtol=0)

def conversions(ctx):
    rng=ctx.rng
    for rep in range(ctx.n(70,1000)):
        # color -> gray, gray -> color, alpha ignored
        a=random_image(rng,'bgr'); f=f'{tmp}/x.png'; mrcal.save_image(f,a)
        ctx.case('convert',key=('bgr->8',rep))
        with ctx.guard('convert'):
            lum=a@np.array((.114,.587,.299))
            ctx.close(mrcal.load_image(f,8,1),lum,'convert/color to gray',msg='luminance',atol=2,rtol=0)
            if a.shape[0]>1 and a.shape[1]>1:
                al=np.dstack((a,rng.integers(0,256,a.shape[:2],dtype=np.uint8))); cv2.imwrite(f,al)
                ctx.same(mrcal.load_image(f),a,'convert/alpha',msg='alpha is ignored')
                ctx.same(mrcal.load_image(f,24,3),a,'convert/alpha explicit',msg='alpha is ignored')
        a=random_image(rng,'uint8'); mrcal.save_image(f,a)
        ctx.case('convert',key=('8->bgr',rep))
        with ctx.guard('convert'): ctx.same(mrcal.load_image(f,24,3),np.dstack((a,a,a)),'convert/gray to color',msg='gray replicated')
        # 16 -> 8: stretched to span all of [0,255]
        lo,hi=np.sort(rng.integers(0,65536,2)); k=int(rng.integers(6))
        H,W=[int(x) for x in rng.integers(1,25,2)]
        if k==0: hi=lo
        if k==1: lo,hi=0,65535
        a=rng.integers(lo,hi+1,(H,W)).astype(np.uint16)
        if k==2: a=np.sort(a.ravel())[::-1].reshape(H,W)     # decreasing
        if k==3: a=np.sort(a.ravel()).reshape(H,W)
        if k==4: a.flat[0]=65535 if rng.uniform()<.5 else 0
        a=a.astype(np.uint16)
        for ext in ('png','pgm'):
            ctx.case('stretch',key=(rep,ext),lo=int(a.min()),hi=int(a.max()),k=k,ext=ext)
            with ctx.guard('stretch'):
                f=f'{tmp}/y.{ext}'; mrcal.save_image(f,np.ascontiguousarray(a))
                c=mrcal.load_image(f,8,1)
                ctx.ok(c.dtype==np.uint8 and c.shape==a.shape,'stretch/type','type')
                if a.min()<a.max():
                    ctx.close(c,(a.astype(float)-a.min())/(float(a.max())-a.min())*255,f'stretch/value/{ext}',msg='stretched to [0,255]',atol=.51,rtol=0,a=a)
                    ctx.ok(c.flat[np.argmin(a)]==0 and c.flat[np.argmax(a)]==255,'stretch/ends','the ends of the range map to 0,255',a=a)
                else: ctx.ok(len(np.unique(c))==1,'stretch/constant','constant image')
                o=np.argsort(a.ravel(),kind='stable'); ctx.ok(np.all(np.diff(c.ravel()[o].astype(int))>=0),'stretch/monotone','monotone',a=a)
        # a pgm with an unusual maximum
        ctx.case('convert',key=('maxval',rep))
        with ctx.guard('maxval'):
            mx=int(rng.integers(256,65535)); a=rng.integers(0,mx+1,(H,W)).astype(np.uint16); f=f'{tmp}/z.pgm'; pnm_write(f,a,mx)
            c=mrcal.load_image(f); ctx.same(c,a,'pgm maxval',msg='16-bit pgm with an unusual maximum')

def refusals(ctx):
    rng=ctx.rng
    def must(what,f,cleanup=None):
        ctx.case('refusal',key=(what,rep),what=what)
        with vlib.quiet_fds(): ctx.raises(f,'refusal/'+what,what)
    for rep in range(ctx.n(4,40)):
        u8=random_image(rng,'uint8',2); u16=random_image(rng,'uint16',2); bgr=random_image(rng,'bgr',4)
        if bgr.shape[1]<4: bgr=np.repeat(bgr,5,axis=1)
        if u8.shape[1]<4: u8=np.repeat(u8,5,axis=1)
        if u16.shape[1]<4: u16=np.repeat(u16,5,axis=1)
        f8,f16,fb,fx,fa=[f'{tmp}/{n}.png' for n in('u8','u16','bgr','c16','ga')]
        for f,a in((f8,u8),(f16,u16),(fb,bgr)): mrcal.save_image(f,a)
        cv2.imwrite(fx,np.dstack([u16]*3))
        must('8-bit as 16-bit',lambda: mrcal.load_image(f8,16,1)); must('16-bit as color',lambda: mrcal.load_image(f16,24,3)); must('color as 16-bit',lambda: mrcal.load_image(fb,16,1))
        must('16-bit color',lambda: mrcal.load_image(fx)); must('16-bit color as color',lambda: mrcal.load_image(fx,24,3))
        for bc in ((8,3),(16,3),(24,1),(32,4),(8,0),(0,1),(7,1),(8,2)): must(f'load(bits_per_pixel,channels)={bc}',lambda: mrcal.load_image(f8,*bc))
        must('bits_per_pixel only',lambda: mrcal.load_image(f8,bits_per_pixel=8)); must('channels only',lambda: mrcal.load_image(f8,channels=1))
        must('no such file',lambda: mrcal.load_image(f'{tmp}/nope.png')); must('directory',lambda: mrcal.load_image(tmp)); must('empty name',lambda: mrcal.load_image(''))
        open(f'{tmp}/t.png','w').write('not an image\n'); must('text file',lambda: mrcal.load_image(f'{tmp}/t.png'))
        open(f'{tmp}/e.png','w'); must('empty file',lambda: mrcal.load_image(f'{tmp}/e.png'))
        for e in('png','jpg','pgm'):
            must(f'save to a directory that does not exist/{e}',lambda: mrcal.save_image(f'{tmp}/no/such/x.{e}',u8))
            l=f'{tmp}/full.{e}'
            def full():   # a failing png writer removes its output
                if not os.path.lexists(l): os.symlink('/dev/full',l)
                return l
            must(f'full disk/{e}',lambda: mrcal.save_image(full(),u8))
            must(f'full disk/{e} big',lambda: mrcal.save_image(full(),rng.integers(0,256,(300,300),dtype=np.uint8)))
        l=f'{tmp}/full.ppm'
        if not os.path.lexists(l): os.symlink('/dev/full',l)
        must('full disk/ppm',lambda: mrcal.save_image(l,bgr))
        for e in('tif','bmp','','txt','jpeg','exr'): must(f'save unsupported extension .{e}',lambda: mrcal.save_image(f'{tmp}/x.{e}',u8))
        must('short name',lambda: mrcal.save_image('.png',u8)); must('short name',lambda: mrcal.save_image('',u8))
        must('16-bit jpeg',lambda: mrcal.save_image(f'{tmp}/x.jpg',u16)); must('color pgm',lambda: mrcal.save_image(f'{tmp}/x.pgm',bgr)); must('gray ppm',lambda: mrcal.save_image(f'{tmp}/x.ppm',u8)); must('16-bit ppm',lambda: mrcal.save_image(f'{tmp}/x.ppm',u16))
        for dt in (float,np.float32,np.int8,np.int16,np.int32,np.uint32,bool,complex): must(f'save {np.dtype(dt).name}',lambda: mrcal.save_image(f'{tmp}/x.png',u8.astype(dt)))
        must('16-bit color',lambda: mrcal.save_image(f'{tmp}/x.png',bgr.astype(np.uint16)))
        for sh in ((3,),(),(3,4,1),(3,4,4),(3,4,2),(2,3,4,3),(0,4),(4,0),(0,0),(0,4,3)): must(f'save shape {sh}',lambda: mrcal.save_image(f'{tmp}/x.png',np.zeros(sh,np.uint8)))
        for x in (None,[[1,2],[3,4]],'x',5): must(f'save {x}',lambda: mrcal.save_image(f'{tmp}/x.png',x))
        # columns that aren't dense: refused, or done right
        for what,a in (('every other column',u8[:,::2]),('transposed',np.ascontiguousarray(u8.T).T),('reversed columns',u8[:,::-1]),('reversed columns 16',u16[:,::-1]),('every other column 16',u16[:,::2]),('reversed color columns',bgr[:,::-1]),('rgb',bgr[...,::-1]),
                       ('every other color column',bgr[:,::2]),('planar',np.ascontiguousarray(np.moveaxis(bgr,-1,0)).transpose(1,2,0))):
            for e in ('png','pgm' if a.ndim==2 else 'ppm'):
                ctx.case('refusal',key=(what,e,rep),what=what)
                try:
                    with vlib.quiet_fds(): mrcal.save_image(f'{tmp}/x.{e}',a)
                except Exception: continue
                ctx.same(mrcal.load_image(f'{tmp}/x.{e}'),np.array(a),f'not dense/{what}/{e}',msg='columns that are not dense were saved wrong')
        ctx.case('refusal',key=('control',rep))
        with ctx.guard('control'): mrcal.save_image(f'{tmp}/x.png',u8); ctx.same(mrcal.load_image(f'{tmp}/x.png'),u8,'control')

def damaged(ctx):
    '''Damaged files, with the address sanitizer watching'''
    rng=ctx.rng
    import zlib,struct
    src={}
    for k,e in (('uint8','png'),('uint16','png'),('bgr','png'),('uint8','pgm'),('uint16','pgm'),('bgr','ppm'),('uint8','jpg'),('bgr','jpg')):
        for i in range(2):
            a=random_image(rng,k,2,40,smooth=(e=='jpg')); f=f'{tmp}/s.{e}'; mrcal.save_image(f,np.ascontiguousarray(a)); src[k,e,i]=open(f,'rb').read()
    for rep in range(ctx.n(50,1500)):
        for (k,e,i),d0 in src.items():
            d=bytearray(d0); how=int(rng.integers(6))
            if how==0: d=d[:rng.integers(len(d))]
            elif how==1:
                for _ in range(int(rng.integers(1,6))): d[rng.integers(len(d))]=rng.integers(256)
            elif how==2: # the header is more interesting
                for _ in range(int(rng.integers(1,4))): d[rng.integers(min(40,len(d)))]=rng.integers(256)
            elif how==3: p=rng.integers(len(d)); d=d[:p]+bytes(rng.integers(0,256,int(rng.integers(1,9)),dtype=np.uint8))+d[p:]
            elif how==4: p=int(rng.integers(len(d))); d=d[:p]+d[p+int(rng.integers(1,9)):]
            else: # numbers in a pnm header
                d=bytearray(bytes(d).replace(b'\n255\n',rng.choice((b'\n0\n',b'\n-1\n',b'\n65536\n',b'\n256\n',b'\n99999999999\n')),1)) if rng.uniform()<.5 else bytearray(b'P%d\n%d %d\n%d\n'%(rng.integers(1,8),*rng.choice((0,1,3,1000,65536,2**24,2**31-1,2**32),2),rng.choice((0,1,255,256,65535)))+bytes(d[15:]))
            f=f'{tmp}/d.{e}'; open(f,'wb').write(d)
            ctx.case('damaged',key=hash(bytes(d)),imkind=k,ext=e,how=how,data=bytes(d[:200]))
            for a in ((),(8,1),(16,1),(24,3)):
                with vlib.quiet_fds():
                    try: c=mrcal.load_image(f,*a)
                    except (RuntimeError,MemoryError): c=None; ctx.counts['damaged: refused']=ctx.counts.get('damaged: refused',0)+1
                if c is None: continue
                ctx.counts['damaged: loaded']=ctx.counts.get('damaged: loaded',0)+1
                want={():None,(8,1):(np.uint8,2),(16,1):(np.uint16,2),(24,3):(np.uint8,3)}[a]
                ctx.ok(want is None or (c.dtype,c.ndim)==want,'damaged/type',f'{c.shape} {c.dtype}')
                if c.nbytes<1<<24: int(c.sum())
        # truncated files that can be recognized as such
        for (k,e,i),d0 in src.items():
            if e=='jpg': continue
            ctx.case('damaged',key=('truncated',rep,k,e))
            f=f'{tmp}/d.{e}'; n=len(d0); open(f,'wb').write(d0[:int(n*rng.uniform(.05,.8))])
            with vlib.quiet_fds(): ctx.raises(lambda: mrcal.load_image(f),f'truncated/{e}','a truncated image was loaded')

# ---- color maps
def formula(f,x):
    if f<0: x=1-x; f=-f
    s,c=(lambda d: np.sin(np.radians(d*x))),(lambda d: np.cos(np.radians(d*x)))
    F={0:0*x,1:.5+0*x,2:1+0*x,3:x,4:x**2,5:x**3,6:x**4,7:np.sqrt(x),8:x**.25,9:s(90),10:c(90),11:abs(x-.5),12:(2*x-1)**2,13:s(180),14:abs(c(180)),15:s(360),16:c(360),17:abs(s(360)),18:abs(c(360)),19:abs(s(720)),20:abs(c(720)),
       21:3*x,22:3*x-1,23:3*x-2,24:abs(3*x-1),25:abs(3*x-2),26:(3*x-1)/2,27:(3*x-2)/2,28:abs((3*x-1)/2),29:abs((3*x-2)/2),30:x/.32-.78125,31:2*x-.84,32:np.where(x<=.42,4*x,np.where(x<=.92,-2*x+1.84,x/.08-11.5)),
       33:abs(2*x-.5),34:2*x,35:2*x-.5,36:2*x-1}
    return np.clip(F[f],0,1)*255
# where the formulas move fast, or jump
STEEP={8:60,7:16,32:14,19:13,20:13}

def colormap(ctx):
    rng=ctx.rng
    T=[np.uint8,np.uint16,np.uint32,np.uint64,np.int8,np.int16,np.int32,np.int64,np.float32,np.float64]
    for rep in range(ctx.n(400,6000)):
        dt=np.dtype(T[rep%len(T)]); H,W=[int(x) for x in rng.integers(1,14,2)]
        if dt.kind=='f':
            k=int(rng.integers(5))
            c,s={0:(0,1),1:(-10**rng.uniform(0,6),1),2:(10**rng.uniform(0,6),1),3:(0,10**rng.uniform(-30,30)),4:(rng.normal()*1e3,10**rng.uniform(0,3))}[k]
            a=(c+s*rng.normal(size=(H,W))).astype(dt)
        else:
            ii=np.iinfo(dt); k=int(rng.integers(3))
            if k==0: a=rng.integers(ii.min,ii.max,(H,W),dtype=dt,endpoint=True)
            elif k==1: a=rng.integers(max(ii.min,-100),100,(H,W)).astype(dt)
            else: a=rng.integers(ii.min//2,ii.max//2,(H,W),dtype=dt); a.flat[0]=ii.max; a.flat[-1]=ii.min
        kw={}; lo=float(a.min()); hi=float(a.max())
        span=(hi-lo) or 1.
        lim=[float(np.finfo(dt).min/4),float(np.finfo(dt).max/4)] if dt.kind=='f' else [float(np.iinfo(dt).min),float(np.iinfo(dt).max)]
        def bound(x):
            x=float(np.clip(x,*lim)); return x if dt.kind=='f' else float(np.round(x))
        if rng.uniform()<.5: lo=bound(lo+span*rng.uniform(-.5,.45)); kw['a_min']=lo
        if rng.uniform()<.5: hi=bound(hi+span*rng.uniform(-.45,.5)); kw['a_max']=hi
        if rng.uniform()<.2 and dt.kind!='u': lo=bound(min(0,hi-1)); kw['a_min']=lo
        if not hi>lo: continue
        if dt.kind=='f': lo_,hi_=float(dt.type(lo)),float(dt.type(hi))
        else: lo_,hi_=lo,hi
        fn=(7,5,15)
        if rng.uniform()<.7:
            fn=tuple(int(x) for x in rng.integers(-36,37,3)); kw.update(function_red=fn[0],function_green=fn[1],function_blue=fn[2])
        D=dict(dtype=dt.name,kw=kw,a=a)
        ctx.case('colormap',key=rep,**D)
        with ctx.guard(f'colormap/{dt.name}'):
            b=np.array(a); 
            if rng.uniform()<.3: b=np.array(a[::-1])[::-1]
            elif rng.uniform()<.3: z=np.zeros((H,W+3),dt); z[:,:W]=a; b=z[:,:W]
            m=mrcal.apply_color_map(b,**kw)
            ctx.ok(m.dtype==np.uint8 and m.shape==(H,W,3),'colormap/type','type')
            x=np.clip((a.astype(np.longdouble)-lo_)/(np.longdouble(hi_)-np.longdouble(lo_)),0,1).astype(float)
            for i,f in enumerate(fn):
                want=formula(f,x); e=abs(m[...,2-i]-want)
                # near discontinuities of the formula, anything on either side is right
                amb=np.zeros(x.shape,bool)
                if abs(f)==32: xx=1-x if f<0 else x; amb=(abs(xx-.42)<1e-4)|(abs(xx-.92)<1e-4)
                if abs(f) in(30,31): e=np.where(e<1.6,0,e)
                tol=.51+255*1e-6*STEEP.get(abs(f),10)+ (0 if dt.kind=='f' or span<1e15 else .1)
                if abs(f) in (7,8): tol=tol+np.where((1-x if f<0 else x)<1e-6,255*.04,0)
                ctx.ok(np.all(e[~amb]<=np.broadcast_to(tol,e.shape)[~amb]),f'colormap/{dt.name}',f'color channel {i}, formula {f}: off by {e[~amb].max() if (~amb).any() else 0}',want=want,have=m[...,2-i],**D)
            # out=, with any row stride
            st=3*W+int(rng.integers(0,8)); o=np.lib.stride_tricks.as_strided(np.zeros(st*H+3*W,np.uint8),(H,W,3),(st,3,1))
            mrcal.apply_color_map(b,out=o,**kw); ctx.same(np.array(o),m,'colormap/out',msg='the same colors in a preallocated image with padded rows',**D)
            # the C API
            o[...]=0
            cf=None if fn==(7,5,15) else fn
            ctx.ok(capi.colormap(o,b,kw.get('a_min'),kw.get('a_max'),cf)==1,'C/colormap','C API') if not(dt.kind!='f' and span>2**52) else None
            if not(dt.kind!='f' and span>2**52): ctx.same(np.array(o),m,'C/colormap/same',msg='C API result',**D)
        # monotone
        ctx.case('colormap',key=('mono',rep),**D)
        with ctx.guard('monotone'):
            m=mrcal.apply_color_map(b,function_red=3,function_green=-3,function_blue=7,**{k:v for k,v in kw.items() if k[:2]=='a_'})
            o=np.argsort(a.ravel(),kind='stable')
            ctx.ok(np.all(np.diff(m[...,2].ravel()[o].astype(int))>=0),f'colormap/monotone/{dt.name}','identity map is monotone',**D)
            ctx.ok(np.all(np.diff(m[...,1].ravel()[o].astype(int))<=0),f'colormap/monotone/{dt.name}','negative map is monotone',**D)
            if 'a_min' not in kw and 'a_max' not in kw and a.min()<a.max():
                ctx.ok(m[...,2].min()==0 and m[...,2].max()==255,f'colormap/span/{dt.name}','the whole range is used',**D)
        if rep%20==0:
            ctx.case('colormap',key=('bad',rep))
            for f in (37,-37,1000): 
                with vlib.quiet_fds(): ctx.raises(lambda: mrcal.apply_color_map(a,function_green=f),'colormap/bad function',f'function {f}')
            for bad in (np.zeros((3,4),complex),np.zeros((3,4),bool),'x',None):
                with vlib.quiet_fds(): ctx.raises(lambda: mrcal.apply_color_map(bad),'colormap/bad type',f'{bad}')
    # other shapes
    for sh in ((5,),(),(2,3,4),(2,2,3,4),(0,4),(4,0)):
        ctx.case('colormap',key=sh,shape=sh)
        a=rng.normal(size=sh)
        with ctx.guard(f'colormap/shape{len(sh)}'):
            m=mrcal.apply_color_map(a)
            if not ctx.ok(m.shape==sh+(3,),f'colormap/shape/ndim={len(sh)}' if len(sh)<2 else 'colormap/shape',f'array of shape {sh} is colored with shape {m.shape}'): continue
            if a.size: ctx.same(m.reshape(1,-1,3),mrcal.apply_color_map(a.reshape(1,-1)),f'colormap/shape/whole/ndim={len(sh)}',msg='the range is that of the whole array')

def accessors(ctx):
    rng=ctx.rng
    for rep in range(ctx.n(300,3000)):
        t,s=[('uint8',1),('uint16',2),('uint32',4),('uint64',8),('int8',1),('int16',2),('int32',4),('int64',8),('float',4),('double',8),('bgr',3)][rep%11]
        w,h=[int(x) for x in rng.integers(1,30,2)]; stride=w*s+int(rng.integers(0,20))
        if rng.uniform()<.2: stride=-stride
        x,y=int(rng.integers(w)),int(rng.integers(h)); x0,y0=int(rng.integers(x+1)),int(rng.integers(y+1))
        ctx.case('accessor',key=rep,type=t,w=w,h=h,stride=stride,x=x,y=y,x0=x0,y0=y0)
        o=capi.image_at(t,abs(stride)*h+s*w,w,h,stride,x,y,x0,y0); want=y*stride+x*s
        ctx.ok(tuple(o[:3])==(want,)*3,f'accessor/{t}',f'pixel is at {o[:3]} instead of {want}'); ctx.ok(tuple(o[3:])==(w-x0,h-y0,stride),f'crop/{t}',f'{o[3:]}')
