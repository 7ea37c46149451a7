'''Malformed camera models and lens-model names'''
import numpy as np, io, os, re, ast, warnings, math
TITLE = 'malformed models and lens-model names'
RULE  = ('An execution is one byte string given to the C and/or Python camera-model readers, or to the lens-model name functions. The strings are truncations at every byte, random and structured '
         'mutations of well-formed models, and an independent parser decides what (if anything) each spells out. Non-trivial: distinct strings.')
ASSUMPTIONS = ['the optimization inputs are a zip archive: damage to its directory may hide members without being reported; those that are read are intact',
               'a model that is refused for any reason is acceptable here, unless it is well-formed (P08)',
               'the C grammar is lenient about which quote or bracket closes what, and about values of keys it does not know']
MIN_EVALUATIONS = 5000
FLOORS = {'C accepted':300,'C refused':3000,'python accepted':40,'python refused':1000,'name accepted':100,'name refused':500,'inputs corrupted':50,'usable':100}

def jobs(tier,seed):
    return [dict(name='truncate',flavor='asan'),dict(name='mutate0',flavor='asan'),dict(name='mutate1',flavor='asan'),dict(name='mutate2',flavor='asan'),dict(name='python'),dict(name='inputs'),dict(name='names',flavor='asan'),dict(name='metadata')]

def run(ctx,job):
    global mrcal,ref,gen,prob,capi,vlib,p08
    import mrcal,ref,gen,prob,capi,vlib,p08
    p08.mrcal,p08.ref,p08.gen,p08.capi,p08.vlib,p08.prob = mrcal,ref,gen,capi,vlib,prob
    warnings.simplefilter('ignore')
    n=job['name']
    with vlib.quiet_fds():
        if n=='truncate': truncate(ctx)
        elif n.startswith('mutate'): mutate(ctx)
        elif n=='python': python(ctx)
        elif n=='inputs': inputs(ctx)
        elif n=='names': names(ctx)
        elif n=='metadata': metadata(ctx)

# ---------------------------------------------------------------- an independent, lenient reader of the C format
NUM=re.compile(rb'-?(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][+-]?[0-9]+)?')
class Bad(Exception): pass
class Reader:
    def __init__(self,b): self.b,self.i=b,0
    def skip(self):
        while True:
            m=re.compile(rb'[ \t\r\n]+|#[^\n\0]*\n').match(self.b,self.i)
            if not m: return
            self.i=m.end()
    def peek(self): self.skip(); return self.b[self.i:self.i+1]
    def string(self):
        self.skip()
        m=re.compile(rb'''b?["']([^"'\0]*)["']''').match(self.b,self.i)
        if not m: raise Bad('string')
        self.i=m.end(); return m[1]
    def eat(self,c):
        if self.peek() not in [x.to_bytes(1,'big') for x in c]: raise Bad(f'wanted {c}')
        self.i+=1
    def numbers(self,n,integer=False):
        self.eat(b'[('); l=[]
        while True:
            self.skip()
            if self.peek() in (b']',b')') and len(l)==n: break
            m=(re.compile(rb'0|[1-9][0-9]*') if integer else NUM).match(self.b,self.i)
            if not m: raise Bad('number')
            self.i=m.end()
            x=int(m[0]) if integer else float(m[0])
            if not integer and not math.isfinite(x): raise Bad('not finite')
            l.append(x)
            if self.peek()==b',': self.i+=1
            else: break
        self.eat(b'])')
        if len(l)!=n: raise Bad(f'{len(l)} values; wanted {n}')
        return l
    def anything(self):
        '''lenient'''
        self.skip()
        c=self.peek()
        if c and c in b'[(':
            lev=0
            while True:
                self.skip()
                c=self.peek()
                if c==b'': raise Bad('unbalanced')
                if c in b'[(': lev+=1
                elif c in b'])': lev-=1
                elif c not in b'0123456789eE.,+-': raise Bad('in a list')
                self.i+=1
                if lev==0: return
        m=NUM.match(self.b,self.i)
        if m: self.i=m.end(); return
        m=re.compile(rb'-|[eE][+-]?[0-9]+|-?\.?[eE][+-]?[0-9]+|-\.').match(self.b,self.i)  # the C reader takes these as numbers too
        if m: self.i=m.end(); return
        self.string()
    def model(self):
        b=self.b.split(b'\0')[0]; self.b=b
        self.eat(b'{')
        d={}; ex=[]
        while True:
            k=self.string(); self.eat(b':')
            if k==b'lensmodel':
                if 'lensmodel' in d: raise Bad('again')
                d['lensmodel']=self.string()
                if not valid(d['lensmodel']): raise Bad('lensmodel')
            elif k==b'intrinsics':
                if 'intrinsics' in d: raise Bad('again')
                if 'lensmodel' not in d: raise Bad('order')
                d['intrinsics']=self.numbers(ref.num_params(d['lensmodel'].decode()))
            elif k in (b'extrinsics',b'rt_cam_ref'): ex.append(self.numbers(6))
            elif k==b'imagersize':
                if 'imagersize' in d: raise Bad('again')
                d['imagersize']=self.numbers(2,integer=True)
                if not all(0<x<2**31 for x in d['imagersize']): raise Bad('imagersize')
            else: self.anything()
            c=self.peek()
            if c==b',':
                self.i+=1
                if self.peek()==b'}': self.i+=1; break
            elif c==b'}': self.i+=1; break
            else: raise Bad('separator')
        self.skip()
        if self.i!=len(b): raise Bad('garbage')
        if not ex or any(np.abs(np.array(e)-ex[0]).max()>1.0001e-9 for e in ex): raise Bad('extrinsics')
        if not all(k in d for k in ('lensmodel','intrinsics','imagersize')): raise Bad('incomplete')
        d['rt_cam_ref']=ex[0]
        return d
SIMPLE=[b'LENSMODEL_'+x for x in (b'PINHOLE',b'STEREOGRAPHIC',b'LONLAT',b'LATLON',b'OPENCV4',b'OPENCV5',b'OPENCV8',b'OPENCV12',b'CAHVOR')]
def valid(n):
    '''Does this lens-model name describe something usable? None: unspecified'''
    if n in SIMPLE: return True
    m=re.fullmatch(rb'LENSMODEL_CAHVORE_linearity=(.*)',n,re.S)
    if m:
        if re.fullmatch(rb'-?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]+)?',m[1]): return math.isfinite(float(m[1]))
        if re.search(rb'nan|inf',m[1],re.I): return False
        if re.fullmatch(rb'[ \t\n\v\f\r]*[-+]?(0[xX][0-9a-fA-F.]+([pP][-+]?[0-9]+)?|([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]+)?)',m[1]): return None # as C takes numbers
        return False
    m=re.fullmatch(rb'LENSMODEL_SPLINED_STEREOGRAPHIC_order=([0-9]+)_Nx=([0-9]+)_Ny=([0-9]+)_fov_x_deg=([0-9]+)',n)
    if m:
        o,x,y,f=(int(v) for v in m.groups())
        ok = o in (2,3) and o+1<=x<=65535 and o+1<=y<=65535 and 1<=f<=359
        if ok and x*y*2+4>2**31-1: return False
        if not ok and f>=360 and f<65536: return None
        return ok
    return False

def cjudge(ctx,s,what,D):
    '''s: bytes'''
    z=s.split(b'\0')[0]
    try: want=Reader(z).model(); why=''
    except Bad as e: want=None; why=str(e)
    unspec = b'CAHVORE' in z and want is None and why=='lensmodel'
    outs=[('string',*capi.read_string(z)) if z else None]
    if s: outs.append(('string-len',*capi.read_string(s,explicit_len=True)))
    if ctx.evaluations%7==0:
        f=os.path.join(os.environ['TMPDIR'],f'm{os.getpid()}'); open(f,'wb').write(s)
        outs.append(('file',*capi.read_file(f)))
        rc,n,m=capi.read_into(z,60); 
        if rc!=-1 or n<=0: outs.append(('into',rc,m))
        ctx.ok(rc!=-9,'C/read_into/overrun','wrote past the given buffer',**D)
    for o in outs:
        if o is None: continue
        n,rc,m=o
        ctx.ok(rc>=-1,f'C/{n}/rc',f'{rc}',**D)
        if m is None:
            ctx.counts['C refused']=ctx.counts.get('C refused',0)+1
            continue
        ctx.counts['C accepted']=ctx.counts.get('C accepted',0)+1
        if unspec: continue
        if not ctx.ok(want is not None,f'C/{n}/accepted',f'accepted something that is not a model ({why})',**D): continue
        lm=want['lensmodel'].decode()
        a,b=ref.config(lm),ref.config(m['lensmodel'])
        ctx.ok(a==b if a['kind']!='CAHVORE' else abs(a['linearity']-b['linearity'])<=1e-9*abs(a['linearity'])+1e-320,f'C/{n}/lensmodel',f'{lm} {m["lensmodel"]}',**D)
        ctx.same(m['intrinsics'],np.array(want['intrinsics']),f'C/{n}/intrinsics',**D)
        ctx.same(m['rt_cam_ref'],np.array(want['rt_cam_ref']),f'C/{n}/rt_cam_ref',**D)
        ctx.ok(list(m['imagersize'])==want['imagersize'],f'C/{n}/imagersize',f"{m['imagersize']} {want['imagersize']}",**D)

def base(rng):
    lm,i,rt,wh=p08.content(rng)
    if ref.config(lm)['kind']=='SPLINED' : lm=gen.splined(rng,maxn=6); i=rng.normal(size=ref.num_params(lm))
    m=mrcal.cameramodel(intrinsics=(lm,i),imagersize=wh,rt_cam_ref=rt,valid_intrinsics_region=p08.region(rng))
    k=rng.integers(3)
    if k==0: return str(m).encode()
    if k==1: return ("{'lensmodel': '%s','intrinsics': [%s],'rt_cam_ref':[%s],'imagersize':[%d,%d]}"%(lm,','.join('%.4g'%x for x in i),','.join('%.4g'%x for x in rt),*wh)).encode()
    return ("# comment\n{'a':5, 'lensmodel': b\"%s\",\n 'imagersize':(%d,%d,), # c2\n'intrinsics': (%s,), 'extrinsics':[%s], 'zz': 'abc','yy':[[1,2],[3.4,5,]],}\n"%(lm,*wh,', '.join('%.6g'%x for x in i),' , '.join('%.6g'%x for x in rt))).encode()

def truncate(ctx):
    rng=ctx.rng
    for rep in range(ctx.n(12,150)):
        s=base(rng)
        if len(s)>2500: continue
        for n in range(len(s)+1):
            t=s[:n]
            ctx.case('truncated',key=t,n=n)
            cjudge(ctx,t,'truncated',dict(text=t))
            if rep<4:
                pyjudge(ctx,t,dict(text=t))

FRAG=[b"'",b'"',b'[',b']',b'(',b')',b'{',b'}',b',',b':',b'#',b'\n',b'\0',b'-',b'.',b'e',b'E',b'+',b'0',b'1e400',b'-1e999',b'1e-400',b'nan',b'inf',b'-inf',b'4294967297',b'2147483648',b'2147483647',b'-1',b'0.5',b'99999999999999999999',b'b',b' ',b'\t',b'\xff',b'\x80',
      b"'lensmodel': 'LENSMODEL_PINHOLE',",b"'intrinsics': [1,2,3,4],",b"'imagersize': [3,4],",b"'extrinsics': [0,0,0,0,0,0],",b"'rt_cam_ref': [1,2,3,4,5,6],",b"'x': 5,",b"'x': [[[1],2],",b'LENSMODEL_CAHVOR',b'OPENCV12',b'_order=3',b'Nx=70000',b'linearity=',b'#\n',b'00',b'0x10',b'1_0',b'[]',b'()',b'""',b"b''",b'e5',b'--1',b'1.2.3',b'\r']
def mutant(rng,s):
    s=bytearray(s)
    for _ in range(int(rng.choice((1,1,1,2,3,6)))):
        k=rng.integers(9); i=int(rng.integers(len(s)+1)) if len(s) else 0
        if k==0 and len(s): s[i%len(s)]=int(rng.integers(256))
        elif k==1: s[i:i]=FRAG[rng.integers(len(FRAG))]
        elif k==2: del s[i:i+int(rng.integers(1,4))]
        elif k==3: j=i+int(rng.integers(1,40)); s[i:i]=s[i:j]
        elif k==4: # replace a number
            m=[x for x in re.finditer(rb'[0-9][0-9.e+-]*',bytes(s))]
            if m: x=m[rng.integers(len(m))]; s[x.start():x.end()]=FRAG[int(rng.integers(13,34))]
        elif k==5: # drop a token
            m=[x for x in re.finditer(rb'[0-9.e+-]+|[A-Za-z_]+|[][(){},:\'"]',bytes(s))]
            if m: x=m[rng.integers(len(m))]; del s[x.start():x.end()]
        elif k==6: # drop, duplicate or swap lines or key: value
            m=[x for x in re.finditer(rb"['\"]\w+['\"]\s*:\s*(?:[\[(][^\])]*[\])]|b?['\"][^'\"]*['\"]|[0-9.e+-]+)\s*,?",bytes(s))]
            if m:
                x=m[rng.integers(len(m))]; t=s[x.start():x.end()]
                if rng.uniform()<.4: del s[x.start():x.end()]
                elif rng.uniform()<.5: s[x.start():x.start()]=t
                else: del s[x.start():x.end()]; j=s.find(b'{')+1; s[j:j]=t
        elif k==7: # rename
            m=[x for x in re.finditer(rb'lensmodel|intrinsics|extrinsics|rt_cam_ref|imagersize',bytes(s))]
            if m: x=m[rng.integers(len(m))]; s[x.start():x.end()]=(b'lensmodel',b'intrinsics',b'extrinsics',b'rt_cam_ref',b'imagersize',b'imagersiz',b'imagersizes')[rng.integers(7)]
        else: # a character of the same class
            if len(s):
                i%=len(s); c=bytes(s[i:i+1])
                for cl in (b'0123456789',b'[](){}',b'"\'',b',:.',b' \n\t#'):
                    if c in cl: s[i]=cl[rng.integers(len(cl))]
    return bytes(s)

def mutate(ctx):
    rng=ctx.rng
    for rep in range(ctx.n(250,4000)):
        s=base(rng)
        for _ in range(12):
            t=mutant(rng,s)
            ctx.case('mutated',key=t)
            cjudge(ctx,t,'mutated',dict(text=t))

# ---------------------------------------------------------------- python
def pyjudge(ctx,s,D):
    try: t=s.decode()
    except UnicodeDecodeError: t=s.decode('latin1')
    try: d=ast.literal_eval(t)
    except Exception: d=None
    try: m=mrcal.cameramodel(io.StringIO(t))
    except Exception: 
        ctx.counts['python refused']=ctx.counts.get('python refused',0)+1; return
    except BaseException as e: return ctx.violate('python/exception',f'{type(e)}',**D)
    ctx.counts['python accepted']=ctx.counts.get('python accepted',0)+1
    if not ctx.ok(isinstance(d,dict),'python/accepted','accepted something that is not a dictionary',model=str(m),**D): return
    lm=d.get('lensmodel',d.get('lens_model',d.get('distortion_model')))
    if not ctx.ok(isinstance(lm,str) and valid(lm.replace('DISTORTION','LENSMODEL').encode()) is not False,'python/accepted/lensmodel',f'{lm!r}',**D): return
    ctx.ok(m.intrinsics()[0]==lm.replace('DISTORTION','LENSMODEL'),'python/lensmodel',f'{lm!r} {m.intrinsics()[0]}',**D)
    try:
        i=np.array(d['intrinsics'],dtype=float); rt=np.array(d.get('rt_cam_ref',d.get('extrinsics')),dtype=float); wh=[float(x) for x in d['imagersize']]
    except Exception as e: return ctx.violate('python/accepted/incomplete',f'{e}',**D)
    ctx.same(m.intrinsics()[1],i,'python/intrinsics',**D); ctx.same(m.rt_cam_ref(),rt,'python/rt_cam_ref',**D)
    ctx.ok(i.shape==(mrcal.lensmodel_num_params(m.intrinsics()[0]),),'python/accepted/Nintrinsics',f'{i.shape}',**D)
    ctx.ok(rt.shape==(6,),'python/accepted/rt',f'{rt.shape}',**D)
    ctx.ok(wh==list(m.imagersize()) and min(wh)>0,'python/imagersize',f'{wh} {m.imagersize()}',**D)
    for k in ('rt_cam_ref','extrinsics'):
        if d.get(k) is not None: ctx.close(m.rt_cam_ref(),np.array(d[k],dtype=float),'python/accepted/extrinsics-conflict',atol=1.01e-9,rtol=0,equal_nan=True,**D)

def python(ctx):
    rng=ctx.rng
    # without any of the keys
    for rep in range(ctx.n(20,100)):
        lm,i,rt,wh=p08.content(rng)
        full={'lensmodel':lm,'intrinsics':list(i),'rt_cam_ref':list(rt),'imagersize':wh}
        for drop in range(16):
            keys=[k for n,k in enumerate(full) if not (drop>>n)&1]
            for extra in ({},{'valid_intrinsics_region':[[1,2],[3,4],[5,6],[1,2]],'x':5,'y':6,'z':7,'w':8}):
                d={k:full[k] for k in keys}; d.update(extra)
                t=repr(d)
                ctx.case('keys dropped',key=t)
                if drop==0: continue
                ctx.raises(lambda: mrcal.cameramodel(io.StringIO(t)),'python/incomplete',f'without {set(full)-set(keys)}')
                rc,m=capi.read_string(t.encode()); ctx.ok(m is None,'C/incomplete',f'without {set(full)-set(keys)}',text=t)
    for rep in range(ctx.n(500,6000)):
        t=mutant(rng,base(rng))
        ctx.case('mutated (python)',key=t)
        pyjudge(ctx,t,dict(text=t))
    # wrong types
    for rep in range(ctx.n(150,1500)):
        lm,i,rt,wh=p08.content(rng)
        full={'lensmodel':lm,'intrinsics':list(i),'rt_cam_ref':list(rt),'imagersize':wh}
        k=str(rng.choice(list(full)))
        full[k]=[None,5,'abc',b'abc',[],[1],[[1,2]],{},True,1j,[None]*6,['a']*6,[1j]*6,(1,2),[0,0],[-1,5],[1.5,2],[2**31,5],[1e400]*6,[[1]*6],[1]*7,[1]*5,{1,2}][rng.integers(23)]
        t=repr(full).replace('inf','1e999').encode()
        ctx.case('wrong type',key=t)
        pyjudge(ctx,t,dict(text=t))
        cjudge(ctx,t,'wrong type',dict(text=t))
        ctx.case('wrong type: constructor',key=('c',t))
        # the constructor
        full={'lensmodel':lm,'intrinsics':i,'rt_cam_ref':rt,'imagersize':wh}
        v=[5,'abc',[],np.zeros((2,6)),np.zeros(5),np.zeros((4,3)),np.zeros(0),np.zeros((6,1)),{},object()][rng.integers(10)]
        kind=rng.integers(4)
        a=dict(intrinsics=(lm,i),imagersize=wh,rt_cam_ref=rt)
        if kind==0: a['imagersize']=v
        elif kind==1: a['intrinsics']=(lm,v)
        elif kind==2: a['rt_cam_ref']=v
        else: a['intrinsics']=v
        if kind==0 and isinstance(v,np.ndarray) and v.shape==(2,): continue
        if kind==1 and np.shape(v)==np.shape(i): continue
        ctx.raises(lambda: mrcal.cameramodel(**a),'python/constructor/accepted',f'{kind} {v!r}')

def inputs(ctx):
    rng=ctx.rng
    for rep in range(ctx.n(30,300)):
        oi=prob.make(rng,Nframes=2,cameras='cam0-ref',visible=1)
        m=mrcal.cameramodel(optimization_inputs=oi,icam_intrinsics=0)
        s=str(m); o=m.optimization_inputs()
        j=s.index("'optimization_inputs': b'")+len("'optimization_inputs': b'"); e=s.index("'",j)
        for _ in range(8):
            t=list(s)
            k=rng.integers(3); i=int(rng.integers(j,e))
            if k==0: t[i]=chr(int(rng.choice(list(b'0123456789ABCabc!#$%&()*+-;<=>?@^_`{|}~'))))
            elif k==1: del t[i:i+int(rng.integers(1,50))]
            else: del t[i:e]
            t=''.join(t)
            ctx.case('corrupted inputs',key=(rep,k,i))
            ctx.counts['inputs corrupted']=ctx.counts.get('inputs corrupted',0)+1
            try:
                n=mrcal.cameramodel(io.StringIO(t)); p=n.optimization_inputs()
            except Exception: continue
            except BaseException as ex: ctx.violate('inputs/exception',f'{type(ex)}'); continue
            if p is None: ctx.violate('inputs/misread/lost',''); continue
            # what is there is what was written. A damaged zip directory may hide some of the members
            for x in set(o)&set(p):
                if x=='rt_cam_ref' and isinstance(p[x],np.ndarray) and p[x].shape==(0,6): continue
                if isinstance(o[x],np.ndarray): ctx.same(o[x],p[x],f'inputs/misread/{x}')
                else: ctx.ok(o[x]==p[x],f'inputs/misread/{x}',f'{o[x]!r} {p[x]!r}')
        # icam
        for a,b in (("'icam_intrinsics': 0,",''),("'icam_intrinsics': 0,","'icam_intrinsics': -1,"),("'icam_intrinsics': 0,","'icam_intrinsics': 0.5,"),("'icam_extrinsics': -1,","'icam_extrinsics': 'a',"),("'optimization_inputs': b'","'optimization_inputs': '")):
            assert a in s
            ctx.raises(lambda: mrcal.cameramodel(io.StringIO(s.replace(a,b))),'inputs/icam',f'{a} -> {b}')
        x=s[:s.index("'optimization_inputs'")]+'}'
        ctx.raises(lambda: mrcal.cameramodel(io.StringIO(x)),'inputs/icam-without-inputs')
        for kw in (dict(optimization_inputs=oi),dict(icam_intrinsics=0),dict(optimization_inputs=oi,icam_intrinsics=7),dict(optimization_inputs=oi,icam_intrinsics=-1),dict(optimization_inputs=5,icam_intrinsics=0),dict(optimization_inputs=oi,icam_intrinsics=0,imagersize=(3,4)),
                   dict(file_or_model=m,imagersize=(3,4)),dict(),dict(imagersize=(3,4)),dict(intrinsics=m.intrinsics()),dict(intrinsics=m.intrinsics(),imagersize=(4,5),rt_cam_ref=np.zeros(6),rt_ref_cam=np.zeros(6)),
                   dict(rt_cam_ref=np.zeros(6)),dict(file_or_model='/nonexistent/x.cameramodel'),dict(file_or_model=os.environ['TMPDIR'])):
            ctx.case('bad constructor',key=tuple(kw))
            ctx.raises(lambda: mrcal.cameramodel(**kw),'python/constructor/accepted',f'{list(kw)}')

# ---------------------------------------------------------------- names
def name_of(rng):
    k=rng.integers(8)
    if k==0: return SIMPLE[rng.integers(len(SIMPLE))]
    if k==1: return (f'LENSMODEL_CAHVORE_linearity='+str(rng.choice(('0','1','-1','.5','0.25','-0.4','1e-3','5.','1e300','1e999','-','','nan','inf','0x1p3','0.3 ','0.3_','+.3','1e-400')))).encode()
    if k<5:
        p=lambda: str(rng.choice(('2','3','4','5','8','11','30','200','65535','65536','65539','0','1','-1','+3',' 3','03','','3.5','99999999999999999999','4294967299','a','359','360','361','120')))
        g=lambda a: str(rng.choice(a))
        return (f'LENSMODEL_SPLINED_STEREOGRAPHIC_order='+(g(('2','3')) if rng.uniform()<.7 else p())+'_Nx='+(g(('4','8','30')) if rng.uniform()<.7 else p())+'_Ny='+(g(('4','9')) if rng.uniform()<.7 else p())+'_fov_x_deg='+(g(('100','200')) if rng.uniform()<.7 else p())).encode()
    s=name_of(rng) if rng.uniform()<.8 else b'LENSMODEL_'
    return mutant(rng,s)

def names(ctx):
    rng=ctx.rng
    import ctypes
    for rep in range(ctx.n(4000,60000)):
        s=name_of(rng).split(b'\0')[0]
        ctx.case('name',key=s,name=s)
        want=valid(s)
        ty=ctypes.c_int(-77)
        ok=capi.lib.v_lensmodel_from_name(ctypes.c_char_p(s),ctypes.byref(ty))
        D=dict(name=s)
        ctx.counts['name accepted' if ok else 'name refused']=ctx.counts.get('name accepted' if ok else 'name refused',0)+1
        if want is not None: ctx.ok(bool(ok)==want,'name/accepted' if ok else 'name/refused',f'{s}: accepted: {ok}; well-formed: {want}',**D)
        ctx.ok((ty.value>=0)==bool(ok),'name/type',f'{s}: type {ty.value}, accepted {ok}',**D)
        t2=capi.lib.v_lensmodel_type_from_name(ctypes.c_char_p(s))
        if ok: ctx.ok(t2==ty.value,'name/type_from_name',f'{s} {t2} {ty.value}',**D)
        base=re.match(rb'LENSMODEL_(SPLINED_STEREOGRAPHIC|CAHVORE)($|_)',s)
        if not ok: ctx.ok((t2>=0)==(bool(base) or s in SIMPLE),'name/type_from_name',f'{s} {t2}',**D)
        if not ok: ctx.ok(ty.value==(-3 if s in (b'LENSMODEL_CAHVORE',b'LENSMODEL_SPLINED_STEREOGRAPHIC') else -1 if base else -4),'name/type-code',f'{s} {ty.value}',**D)
        py=None
        try:
            u=s.decode()
            try: py=mrcal.lensmodel_num_params(u)
            except Exception: py=None
            ctx.ok((py is not None)==bool(ok),'name/python',f'{s}: C accepted {ok}; python {py}',**D)
        except UnicodeDecodeError: pass
        if not ok: continue
        n=capi.lib.v_num_params(ctypes.c_char_p(s))
        if py is not None: ctx.ok(n==py,'name/num_params/python',f'{s} {n} {py}',**D)
        buf=ctypes.create_string_buffer(256)
        r=capi.lib.v_lensmodel_name(ctypes.c_char_p(s),buf,256)
        out=buf.value
        ctx.ok(r==1,'name/print',f'{s}',**D)
        for short in (1,len(out)-3,len(out),len(out)+1):
            b2=ctypes.create_string_buffer(b'\x5c'*(len(out)+20),len(out)+20)
            r=capi.lib.v_lensmodel_name(ctypes.c_char_p(s),b2,short)
            ctx.ok((r==1)==(short>len(out)),'name/print/truncated',f'{s} into {short} bytes: {r}',**D)
            ctx.ok(b2.raw[short:]==b'\x5c'*(len(out)+20-short),'name/print/overrun',f'{s} into {short} bytes',**D)
        t3=ctypes.c_int(-77)
        ctx.ok(capi.lib.v_lensmodel_from_name(ctypes.c_char_p(out),ctypes.byref(t3)) and t3.value==ty.value,'name/roundtrip',f'{s} -> {out}',**D)
        if want:
            c,d=ref.config(s.decode()),ref.config(out.decode())
            if c['kind']=='CAHVORE': ctx.ok(d['kind']=='CAHVORE' and abs(c['linearity']-d['linearity'])<=1e-9*abs(c['linearity']),'name/roundtrip',f'{s} -> {out}',**D)
            else: ctx.ok(c==d,'name/roundtrip',f'{s} -> {out}',**D)
            ctx.ok(n==ref.num_params(s.decode()),'name/num_params',f'{s}: {n}',**D)
        ctx.ok(capi.lib.v_num_params(ctypes.c_char_p(out))==n,'name/num_params/roundtrip',f'{s} -> {out}',**D)
        m=(ctypes.c_int*4)()
        capi.lib.v_metadata(ctypes.c_char_p(s),m)
        if py is not None:
            md=mrcal.lensmodel_metadata_and_config(u)
            ctx.ok([int(bool(md[k])) for k in ('has_core','can_project_behind_camera','has_gradients','noncentral')]==[int(bool(x)) for x in m],'name/metadata','',**D)
            c=ref.config(out.decode())
            for a,b in (('order','order'),('Nx','Nx'),('Ny','Ny'),('fov_x_deg','fov'),('linearity','linearity')):
                if b in c: ctx.ok(abs(md[a]-c[b])<=1e-9*abs(c[b]),'name/config',f'{a}: {md[a]} {c[b]}',**D)

def metadata(ctx):
    '''What is said about a lens model is how it behaves'''
    rng=ctx.rng
    sup=mrcal.supported_lensmodels()
    ctx.ok({x.split('=')[0].encode() for x in sup}=={x for x in SIMPLE}|{b'LENSMODEL_CAHVORE_linearity',b'LENSMODEL_SPLINED_STEREOGRAPHIC_order'},'supported_lensmodels',f'{sup}')
    for rep in range(ctx.n(12,150)):
        for lm in gen.lensmodels(rng,nspline=3,ncahvore=3):
            k=ref.config(lm)['kind']
            ctx.case('usable',key=(lm,rep),lensmodel=lm)
            D=dict(lensmodel=lm)
            md=mrcal.lensmodel_metadata_and_config(lm)
            want=dict(has_core=True,can_project_behind_camera=k in ('STEREOGRAPHIC','LONLAT','LATLON','SPLINED'),has_gradients=True,noncentral=k=='CAHVORE')
            for a in want: ctx.ok(bool(md[a])==want[a],f'metadata/{a}',f'{lm}: {md[a]}',**D)
            N=mrcal.lensmodel_num_params(lm)
            ctx.ok(N==ref.num_params(lm),'num_params',f'{N}',**D)
            i=gen.intrinsics(rng,lm); p=gen.points(rng,lm,3)
            with ctx.guard('usable'):
                q=mrcal.project(p,lm,i); q2,dp,di=mrcal.project(p,lm,i,get_gradients=True)
                ctx.ok(di.shape[-1]==N,'usable/gradients',f'{di.shape}',**D)
            for bad in (i[:-1],np.append(i,0.),i[:0]):
                ctx.raises(lambda: mrcal.project(p,lm,bad),'project/Nintrinsics',f'{lm} with {len(bad)} of {N} intrinsics')
                ctx.raises(lambda: mrcal.unproject(q,lm,bad),'unproject/Nintrinsics',f'{lm} with {len(bad)} of {N} intrinsics')
            # behind the camera
            b=np.array((.3,-.2,-1.))
            if want['can_project_behind_camera'] and k!='SPLINED':
                q=mrcal.project(b,lm,i); v=mrcal.unproject(q,lm,i,normalize=True)
                ctx.close(v,b/np.linalg.norm(b),'metadata/behind',atol=1e-8,rtol=0,**D)
            if want['can_project_behind_camera']: ctx.ok(np.isfinite(mrcal.project(b,lm,i)).all(),'metadata/behind/finite','',**D)
            # noncentral: the range matters
            p=np.array((.3,.2,1.)); a,b=mrcal.project(p,lm,i),mrcal.project(p*2,lm,i)
            if not want['noncentral']: ctx.close(a,b,'metadata/central',atol=1e-8,rtol=1e-9,**D)
            with ctx.guard('knots',allow=() if k=='SPLINED' else (Exception,)):
                ux,uy=mrcal.knots_for_splined_models(lm)
                c=ref.config(lm); ctx.ok(k=='SPLINED' and (len(ux),len(uy))==(c['Nx'],c['Ny']),'knots',f'{len(ux)} {len(uy)}',**D)
    for x in (None,5,b'LENSMODEL_PINHOLE',[],'',('a',)):
        for f in (mrcal.lensmodel_num_params,mrcal.lensmodel_metadata_and_config,mrcal.knots_for_splined_models):
            ctx.raises(lambda: f(x),'name/type-of-argument',f'{f.__name__}({x!r})')
