'''No hidden state: calls give the same results in any thread, at any time, after anything'''
import os, sys, subprocess
TITLE = 'threads and histories'
RULE  = ('threads: 8 threads of a C program make random calls of 12 groups of operations (projection, unprojection, poses, alignment, triangulation, lens model names, reading and writing models, sensor links, rectification, images and colour maps, cost and Jacobian evaluation, solving) at once, mixed and one group at a time, on shared constant inputs '
         'and separate outputs, with yields and delays. Oracle: no ThreadSanitizer report; every result bit-identical to that of the same call made before any threads were started. Cold: the same, in processes where nothing was called before. '
         'History: a set of ~250 Python calls made in several random orders, interleaved with failing calls; pythreads: in 6 Python threads, with the interpreter switching as often as possible. Oracle: the same results as in isolation; the arguments are unchanged, and so are the process-wide settings: signal handlers, floating-point environment, '
         'working directory, open files, random number generator, environment, locale, warnings, numpy error state. Non-trivial: distinct (operation, variant) for histories, and an operation that overlapped others of its kind for threads.')
ASSUMPTIONS = ['the threads use the C library: the Python interface holds the GIL in every call',
               'races inside of libraries that are not instrumented (libdogleg, CHOLMOD, BLAS, libpng, ...) are not seen, other than through wrong results',
               'threads write to separate files']
MIN_EVALUATIONS = 3000
FLOORS = {'threads/'+k:30 for k in ('project','unproject','lensmodel','pose','triangulate','model','links','stereo','image','callback','optimize')}|{'history':800,'pythreads':500,'cold':500}
TIMEOUT = dict(quick=800,thorough=5400)

def jobs(tier,seed):
    n,N=(2,40) if tier=='quick' else (6,600)
    return ([dict(name=f'threads_{i}',flavor='tsan',args=(8 if i%2==0 else 3,N,seed*100+i),weight=9,procs=2) for i in range(n)]+
            [dict(name=f'cold_{i}',flavor='tsan',weight=5) for i in range(1 if tier=='quick' else 4)]+
            [dict(name='history',weight=6),dict(name='pythreads',weight=6)])

def run(ctx,job):
    global np,mrcal,vlib,prob,gen,ref
    import numpy as np, mrcal, vlib, prob, gen, ref
    np.seterr(all='ignore')
    globals()[job['name'].split('_')[0]](ctx,job)

def program():
    V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); B=os.environ['VERIF_BUILDDIR']; D=os.environ['TMPDIR']
    exe=f'{D}/vthreads-{os.getpid()}'
    e={k:v for k,v in os.environ.items() if k!='LD_PRELOAD'}
    p=subprocess.run(['gcc','-fsanitize=thread','-g','-O1','-std=gnu11','-I'+B,'-I/usr/include/suitesparse',f'{V}/shim/vthreads.c','-L'+B,'-lmrcal',f'-Wl,-rpath,{B}','-lm','-lpthread','-o',exe],env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if p.returncode: print(p.stdout,file=sys.stderr); raise OSError('compiling the program failed')
    d=f'{D}/vt-{os.getpid()}'; os.makedirs(d,exist_ok=True)
    return exe,d,e
def execute(ctx,exe,d,e,args,cold):
    p=subprocess.run([exe]+[str(a) for a in args[:3]]+[d]+(['cold'] if cold else []),env=e,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True)
    out=p.stdout.split('\n')
    ctx.ok(p.returncode==0 and 'DONE' in out,f'threads/crash',f'exit {p.returncode}: {p.stdout[-500:]} {p.stderr[-500:]}')
    for l in out:
        w=l.split()
        if not w: continue
        if w[0]=='OP':
            k='cold' if cold else f'threads/{w[1]}'
            ctx.evaluations+=int(w[2]); ctx.counts[k]=ctx.counts.get(k,0)+int(w[3 if not cold else 2]); ctx.case(k,key=(w[1],args),op=w[1],calls=w[2],overlapped=w[3])
        if w[0]=='DIFF': ctx.violate(f'threads/different/{w[1]}',f'{w[2]} of the results of {w[1]} differ from those of the same call in one thread')
        if w[0]=='HISTORY': ctx.violate(f'threads/history/{w[1]}',f'repeating a call of {w[1]} gives something else')
        if w[0]=='BAD': ctx.violate(f'threads/lensmodel',l)
def threads(ctx,job):
    exe,d,e=program(); execute(ctx,exe,d,e,job['args'],False)
def cold(ctx,job):
    exe,d,e=program()
    for i in range(ctx.n(6,60)): execute(ctx,exe,d,e,(8,4,ctx.seed*1000+i+7),True)

# ---------------------------------------------------------------- python
def calls(rng,D,small=False):
    '''-> list of (name,f). Each f takes nothing, and its inputs never change'''
    L=[]
    def add(name,f,*a,**k): L.append((name,(lambda f,a,k: lambda: f(*a,**k))(f,a,k),(a,k)))
    def bad(name,f,*a,**k): L.append(('fail/'+name,(lambda f,a,k: lambda: f(*a,**k))(f,a,k),(a,k)))
    for lm in gen.lensmodels(rng,1,1):
        i=gen.intrinsics(rng,lm); p=rng.normal(size=(5,3))+(0,0,3.); n=lm[10:38]
        for g in (False,True): add(f'project/{g}/{n}',mrcal.project,p,lm,i,get_gradients=g) if not (g and 'CAHVORE' in lm) else None
        if 'CAHVORE' not in lm:
            q=mrcal.project(p,lm,i); add(f'unproject/{n}',mrcal.unproject,q,lm,i); add(f'unproject/g/{n}',mrcal.unproject,q,lm,i,get_gradients=True); add(f'unproject/n/{n}',mrcal.unproject,q,lm,i,normalize=True)
        m=mrcal.cameramodel(intrinsics=(lm,i),imagersize=(640,480),rt_cam_ref=rng.normal(size=6)*.1)
        fn=f'{D}/{abs(hash(lm))}.cameramodel'; m.write(fn); add(f'read/{n}',lambda f: (lambda m: (m.intrinsics(),m.rt_cam_ref(),m.imagersize()))(mrcal.cameramodel(f)),fn)
        def wr(m,f): 
            import threading
            f=f'{f}.{threading.get_ident()}'; m.write(f,note='hi'); return open(f).read()
        add(f'write/{n}',wr,m,fn+'w')
        bad(f'project/{n}',mrcal.project,p,lm,i[:-1]); bad(f'unproject/{n}',mrcal.unproject,p,lm,i)
    for k in range(2 if small else 4):
        lm=('LENSMODEL_OPENCV4','LENSMODEL_SPLINED_STEREOGRAPHIC_order=2_Nx=5_Ny=4_fov_x_deg=90','LENSMODEL_CAHVOR','LENSMODEL_PINHOLE')[k]
        oi=prob.make(rng,lm,Ncam=2,Nframes=4,Npoints=0 if k else 3,noise=.2,warp=True,outliers=.1)
        for kk,v in oi.items():
            if isinstance(v,np.ndarray) and v.dtype==float: oi[kk]=np.round(v,9)
        add(f'callback/{k}',lambda o: mrcal.optimizer_callback(**o)[:3],oi)
        add(f'callback/f/{k}',lambda o: mrcal.optimizer_callback(**o)[3].solve_xt_JtJ_bt(np.ones((2,mrcal.num_states(**o)))),oi)
        def opt(o):
            o={k:(v.copy() if isinstance(v,np.ndarray) else v) for k,v in o.items()}; s=mrcal.optimize(**o); return s['b_packed'],s['x'],o['intrinsics'],o['observations_board']
        o2=dict(oi); o2.update(do_apply_outlier_rejection=bool(k%2),verbose=False); add(f'optimize/{k}',opt,o2)
        add(f'sizes/{k}',lambda o: [mrcal.num_states(**o),mrcal.num_measurements(**o),mrcal.state_index_frames(1,**o),mrcal.measurement_index_regularization(**o)],oi)
        m=mrcal.cameramodel(optimization_inputs=oi,icam_intrinsics=0)
        pc=np.array(((.1,.2,3.),(0,.1,2)))
        for meth in ('mean-pcam','cross-reprojection-rrp-Jfp'):
            if k: add(f'uncertainty/{meth}/{k}',mrcal.projection_uncertainty,pc,m,method=meth)
        add(f'blob/{k}',lambda m: m.optimization_inputs()['observations_board'],m)
        bad(f'callback/{k}',lambda o: mrcal.optimizer_callback(**dict(o,lensmodel='LENSMODEL_NOPE')),oi); bad(f'optimize/{k}',lambda o: mrcal.optimize(**dict(o,rt_ref_frame=o['rt_ref_frame'][:-1])),oi)
        bad(f'callback/idx/{k}',lambda o: mrcal.optimizer_callback(**dict(o,indices_frame_camintrinsics_camextrinsics=o['indices_frame_camintrinsics_camextrinsics']+1)),oi)
    a,b=rng.normal(size=(2,4,6)); R=mrcal.R_from_r(a[:,:3]); Rt=mrcal.Rt_from_rt(a); p=rng.normal(size=(4,3))
    for g in (False,True):
        for f,x in (('compose_rt',(a,b)),('compose_r',(a[:,:3],b[:,:3])),('invert_rt',(a,)),('R_from_r',(a[:,:3],)),('r_from_R',(R,)),('rt_from_Rt',(Rt,)),('Rt_from_rt',(a,)),('rotate_point_r',(a[:,:3],p)),('rotate_point_R',(R,p)),('transform_point_rt',(a,p)),('transform_point_Rt',(Rt,p))): add(f'{f}/{g}',getattr(mrcal,f),*x,get_gradients=g)
        for f in ('geometric','leecivera_l1','leecivera_linf','leecivera_mid2','leecivera_wmid2'): add(f'{f}/{g}',getattr(mrcal,'triangulate_'+f),p+(0,0,5),p+(.1,0,5),np.array((1.,0,0)),get_gradients=g)
        add(f'lindstrom/{g}',mrcal.triangulate_lindstrom,p+(0,0,5),p+(.1,0,5),Rt,get_gradients=g)
    bad('compose_rt',mrcal.compose_rt,a,b[:,:5]); bad('triangulate',mrcal.triangulate_geometric,p,p[:,:2],p)
    add('procrustes',mrcal.align_procrustes_points_Rt01,p,mrcal.transform_point_Rt(Rt[0],p)); add('procrustes/v',mrcal.align_procrustes_vectors_R01,p,mrcal.rotate_point_R(R[0],p))
    add('quat',mrcal.quat_from_R,R); add('names',mrcal.supported_lensmodels); add('meta',mrcal.lensmodel_metadata_and_config,'LENSMODEL_SPLINED_STEREOGRAPHIC_order=2_Nx=5_Ny=4_fov_x_deg=90'); bad('meta',mrcal.lensmodel_metadata_and_config,'zzz')
    M=[mrcal.cameramodel(intrinsics=('LENSMODEL_OPENCV4',np.array((30.,30,15,11,.01,.01,0,0))),imagersize=(32,24),rt_cam_ref=np.array((0,0,.01*k,-.2*k,0,0))) for k in range(3)]
    for rm in ('LENSMODEL_LATLON','LENSMODEL_PINHOLE'):
        mr=mrcal.rectified_system(M[:2],rectification_model=rm,az_fov_deg=30,el_fov_deg=20,pixels_per_deg_az=-.7,pixels_per_deg_el=-.7)
        add(f'rectified_system/{rm}',lambda rm: [(x.intrinsics()[1],x.rt_cam_ref()) for x in mrcal.rectified_system(M[:2],rectification_model=rm,az_fov_deg=30,el_fov_deg=20,pixels_per_deg_az=-.7,pixels_per_deg_el=-.7)],rm)
        add(f'maps/{rm}',mrcal.rectification_maps,M[:2],mr); W,H=mr[0].imagersize(); d=(rng.uniform(size=(H,W))*90-10).astype(np.int16); add(f'range/{rm}',mrcal.stereo_range,d,mr); bad(f'range/{rm}',mrcal.stereo_range,d[:-1],mr)
    add('diff',lambda M: mrcal.projection_diff(M[:2],gridn_width=8,gridn_height=6,distance=5.)[:2],M); add('diff/n',lambda M: mrcal.projection_diff(M,gridn_width=5,gridn_height=4,intrinsics_only=True)[0],M)
    add('xform',mrcal.image_transformation_map,M[0],M[1],intrinsics_only=True); add('imager',mrcal.sample_imager_unproject,4,3,*M[0].imagersize(),*M[0].intrinsics())
    im=rng.integers(0,255,(9,11,3)).astype(np.uint8)
    def sv(x,n):
        import threading
        f=f'{D}/{threading.get_ident()}{n}'; mrcal.save_image(f,x); return mrcal.load_image(f)
    for n,x in (('c.png',im),('g.png',im[...,0].copy()),('h.png',im[...,0].astype(np.uint16)),('c.jpg',im)): add(f'image/{n}',sv,x,n)
    add('color',mrcal.apply_color_map,im[...,0].copy()); bad('load',mrcal.load_image,'/nonexistent/x.png'); bad('save',mrcal.save_image,'/nonexistent/x.png',im); bad('read',mrcal.cameramodel,'/nonexistent/x.cameramodel')
    def lk(c): l=[]; mrcal.traverse_sensor_links(connectivity_matrix=c,callback_sensor_link=lambda i,j: l.append((int(i),int(j)))); return np.array(l)
    add('links',lk,np.array(((0,3,9),(3,0,4),(9,4,0)),dtype=np.uint16))
    def boom(i,j): raise RuntimeError('x')
    bad('links',lambda: mrcal.traverse_sensor_links(connectivity_matrix=np.ones((3,3),dtype=np.uint16),callback_sensor_link=boom))
    return L
def flat(r):
    out=[]
    def walk(x):
        if isinstance(x,(tuple,list)):
            out.append(('n',len(x)))
            for y in x: walk(y)
        elif isinstance(x,dict):
            for k in sorted(x): out.append(k); walk(x[k])
        elif isinstance(x,np.ndarray): out.append((x.dtype.str,x.shape,x.tobytes() if x.dtype!=object else repr(x)))
        elif hasattr(x,'toarray'): walk([x.data,x.indices,x.indptr])
        elif isinstance(x,mrcal.cameramodel): walk([x.intrinsics()[1],x.rt_cam_ref(),x.imagersize()])
        elif callable(x): pass
        else: out.append(repr(x))
    walk(r)
    return out
def do(f):
    try: return flat(f())
    except Exception as e: return [type(e).__name__]
def closeenough(a,b):
    '''Solutions may depend on the alignment of the memory BLAS is given'''
    if len(a)!=len(b): return False
    for x,y in zip(a,b):
        if x==y: continue
        if isinstance(x,str) or len(x)!=3 or len(y)!=3 or x[:2]!=y[:2] or x[0]!='<f8': return False
        u,v=(np.frombuffer(z[2]) for z in (x,y))
        if not np.allclose(u,v,rtol=1e-6,atol=1e-6*np.nanmax(np.abs(u),initial=0),equal_nan=True): return False
    return True
def state():
    import signal, ctypes, locale, warnings, random, hashlib
    libc=ctypes.CDLL(None,use_errno=True); libm=ctypes.CDLL('libm.so.6')
    sa={}
    for s in (signal.SIGINT,signal.SIGSEGV,signal.SIGALRM,signal.SIGFPE,signal.SIGPIPE,signal.SIGTERM,signal.SIGABRT):
        b=ctypes.create_string_buffer(160); libc.sigaction(int(s),None,b); sa[int(s)]=b.raw[:16]+b.raw[136:140]
    return dict(signals=sa,rounding=libm.fegetround(),excepts=libm.fegetexcept(),cwd=os.getcwd(),fds=sorted(os.listdir('/proc/self/fd'))[:-1].__len__(),rng=hashlib.sha1(repr(np.random.get_state()).encode()).hexdigest(),
                random=hashlib.sha1(repr(random.getstate()).encode()).hexdigest(),env=dict(os.environ),locale=locale.setlocale(locale.LC_ALL),warnings=list(map(repr,warnings.filters)),np=np.geterr(),print=repr(np.get_printoptions()),umask=(lambda u: (os.umask(u),u)[1])(os.umask(0)),sigmask=sorted(int(s) for s in signal.pthread_sigmask(signal.SIG_BLOCK,())))
def history(ctx,job):
    D=os.environ['TMPDIR']+'/hist'; os.makedirs(D,exist_ok=True)
    L=calls(ctx.rng,D); solver=lambda n: n.split('/')[0] in ('optimize','callback','uncertainty') or n.startswith('fail/')
    import copy
    with vlib.quiet_fds():
        args0=[flat(a) for n,f,a in L]
        want=[do(f) for n,f,a in L]
        # the cross-reprojection uncertainty isn't available with some of the optimization selections
        broken=[n for w,(n,f,a) in zip(want,L) if len(w)==1 and isinstance(w[0],str) and w[0].endswith('Error') and not n.startswith(('fail/','uncertainty/cross','callback/f/'))]
        ctx.ok(not broken,'history/works',f'{broken}')
        s0=state()
        for rep in range(ctx.n(4,40)):
            order=ctx.rng.permutation(len(L))
            if rep==0: order=order[::-1]
            for j in order:
                n,f,a=L[j]
                ctx.case('history',key=(n,rep),call=n,rep=rep)
                for k in range(1 if rep else 2):
                    r=do(f)
                    ctx.ok(r==want[j] or (solver(n) and closeenough(r,want[j])),f'history/result/{n.split("/")[0]}',f'{n}: this call gives something else when made at another time')
                s=state()
                for k in s0:
                    if not ctx.ok(s[k]==s0[k],f'history/state/{k}/{n.split("/")[0]}',f'{n} changed the {k} of the process'): s0=s
        for (n,f,a),b in zip(L,args0): ctx.ok(flat(a)==b,f'history/arguments/{n.split("/")[0]}',f'{n} changed its arguments')
def pythreads(ctx,job):
    import threading
    D=os.environ['TMPDIR']+'/pyt'; os.makedirs(D,exist_ok=True)
    L=calls(ctx.rng,D,True); sys.setswitchinterval(1e-6)
    with vlib.quiet_fds():
        want=[do(f) for n,f,a in L]; bad=[]; N=[0]; done=[]
        def work(t):
            rng=np.random.default_rng((ctx.seed,t)); c=0
            for rep in range(ctx.n(2,20)):
                for j in rng.permutation(len(L)):
                    n,f,a=L[j]; r=do(f); c+=1
                    if not (r==want[j] or closeenough(r,want[j])): bad.append(n)
            done.append(c)
        T=[threading.Thread(target=work,args=(t,)) for t in range(6)]
        for t in T: t.start()
        for t in T: t.join()
    for n,f,a in L: ctx.case('pythreads',key=n,call=n)
    ctx.counts['pythreads']=sum(done); ctx.evaluations+=sum(done)
    ctx.ok(len(done)==6,'pythreads/died',f'only {len(done)} threads finished')
    for n in bad: ctx.violate(f'pythreads/result/{n.split("/")[0]}',f'{n}: different results in threads')
