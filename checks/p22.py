'''Chessboard corner ingestion, and seeding'''
import os
TITLE = 'calibration data ingestion, and seeding'
RULE  = ('An execution is one corner table given to compute_chessboard_corners() (from a file, an open file, or produced by a stand-in for the detector), one list of image names given to mapping_file_framenocameraindex(), or one noise-free scene given to a seeding function. '
         'The tables are written out from a random data set (cameras, frames, missed images, missed corners, levels or weights, row order, comments, excluded and unrelated images, directories), and the arrays that come back must be that data set: each corner at its own observation, row, column, with its weight, sorted by frame and camera, the paths found according to the documented rules. Unusable tables must be refused. '
         'Seeds from noise-free observations must be the poses that the observations were made from; the joint poses from inconsistent observations must be the best fit of the board to the mean corner positions. The detector cache must appear complete, or not at all. Non-trivial: distinct shapes of data, options and functions.')
ASSUMPTIONS = ['an image with exactly the minimum number of corners is not judged (the documentation and the tests of mrcal differ)','an image listed in two places of the table is not judged','boards are in front of the camera, within 50 degrees of the axis']
MIN_EVALUATIONS = 1500
FLOORS = {'names':100,'corners':120,'refuse':60,'detector':6,'mono':100,'points':30,'cameras':60,'joint':60,'seed':40}

def jobs(tier,seed):
    return [dict(name='names'),dict(name='corners_0'),dict(name='corners_1'),dict(name='refuse'),dict(name='mono'),dict(name='cameras'),dict(name='seed')]

def run(ctx,job):
    global np,mrcal,vlib,ref,gen
    import numpy as np, mrcal, vlib, ref, gen
    os.makedirs('w_'+job['name']); os.chdir('w_'+job['name'])
    globals()['j_'+job['name'].split('_')[0]](ctx,ctx.rng)

# ------------------------------------------------------- names
def frames(rng,n):
    k=rng.integers(6)
    if k==0: f=np.arange(n)+rng.integers(0,200)
    elif k==1: f=np.arange(n)*10+rng.integers(0,30)
    elif k==2: f=int(rng.integers(1,9))+np.array([10**j for j in range(n)])
    elif k==3: f=rng.choice(1000,n,replace=False)
    elif k==4: f=np.array([int('1'*(j+1)) for j in range(n)])
    else: f=np.arange(n)*int(rng.choice((1,2,100)))
    return [int(x) for x in f]
def digits(x,w): return '%0*d'%(w,x)
PRE=('frame','img_','cam1-frame','/a/b/2021-','d3/x','left.','')
SUF=('.jpg','-cam2.png','_5.pgm','.5.tiff','','/image.jpg')
def j_names(ctx,rng):
    for it in range(ctx.n(500,6000)):
        Nc=int(rng.integers(1,4)); files=[]; want={}; w=int(rng.choice((0,0,3,6)))
        for c in range(Nc):
            pre,suf=str(rng.choice(PRE)),str(rng.choice(SUF)); tag='abcd'[c]
            F=frames(rng,int(rng.integers(1,7))); 
            if rng.uniform()<.5: F=[int(x) for x in rng.permutation(F)]
            F=list(dict.fromkeys(F))
            l=[pre+tag+digits(x,w)+suf for x in F]; files.append(l if rng.uniform()<.5 else tuple(l))
            for x,f in zip(F,l): want[f]=(x if len(F)>1 else 0,c)
        ctx.case('names',key=(Nc,w,it%40),files=files)
        with ctx.guard('names'):
            ctx.ok(mrcal.mapping_file_framenocameraindex(*files)==want,'names','',got=str(mrcal.mapping_file_framenocameraindex(*files))[:1500])
    for bad,one in ((['a.jpg','b.jpg'],True),(['f1.jpg','fx2.jpg'],True),(['1-2.jpg','3-4.jpg'],True),([],False)):
        ctx.case('names',key=str(bad),files=bad)
        if one:
            with ctx.guard('names/one'): ctx.ok(mrcal.mapping_file_framenocameraindex(bad)=={f:(k,0) for k,f in enumerate(bad)},'names/unparseable','a single camera is numbered sequentially')
        else: ctx.raises(lambda: mrcal.mapping_file_framenocameraindex(bad),'names/empty')
        ctx.raises(lambda: mrcal.mapping_file_framenocameraindex(['q1.jpg','q2.jpg'],bad),'names/refuse')

# ------------------------------------------------------- tables
def num(rng,x): return str(rng.choice(('%.3f','%.2f','%g','%.6e')))%x
def table(rng,W,H,kind,Nc,layout,nmin,complete=False):
    '''returns images: list of (name,camera or None,frame,rows of text, grid or None)'''
    F=sorted(set(frames(rng,int(rng.integers(2,6))))); 
    while len(F)<2: F=sorted(set(frames(rng,4)))
    wid=int(rng.choice((0,4))); ims=[]
    for c in range(Nc):
        for f in F:
            u=rng.uniform()
            if not complete and u<.15: continue
            n=digits(f,wid)
            name=dict(flat=f'frame{n}-cam{c}.jpg',dirs=f'cam{c}/{n}.png',deep=f'./set 1/cam{c}//img-{n}.pgm'.replace(' ','_'))[layout]
            if not complete and u<.25: ims.append((name,c,f,[('-','-')+(('-',) if kind is not False and rng.uniform()<.5 else ())],None)); continue
            g=np.full((H*W,3),-1.); rows=[]
            few=not complete and u<.35 and nmin>0
            ng=W*H if complete else int(rng.integers(0,max(nmin,1))) if few else int(rng.integers(nmin+1,W*H+1)) if nmin<W*H else W*H
            if nmin<0: ng=W*H
            good=set(rng.choice(W*H,ng,replace=False).tolist())
            for k in range(W*H):
                x,y=[float(v) for v in rng.uniform(0,4000,2)]; sx,sy=num(rng,x),num(rng,y); s3=None; w=1.
                if kind=='level':
                    v=int(rng.integers(0,6)); s3=str(v); w=2.**-v
                elif kind=='weight':
                    w=float(rng.uniform(.01,2)); s3=num(rng,w); w=float(s3)
                elif kind is None: s3=str(rng.choice(('-','3','x','-1','0.5'))); 
                if k not in good:
                    b=rng.integers(5)
                    if   b==0: sx,sy='-','-'
                    elif b==1: sx=str(rng.choice(('-','-5.1')))
                    elif b==2: sy=str(rng.choice(('-','-0.1')))
                    elif s3 is not None and kind is not None: s3=str(rng.choice(('-','-1'))) if kind=='level' else str(rng.choice(('-','-1','0','0.0')))
                    else: sx='-'
                    g[k]=(np.nan,np.nan,-1)
                else: g[k]=(float(sx),float(sy),w)
                rows.append((sx,sy)+((s3,) if s3 is not None else ()))
            ims.append((name,c,f,rows,g.reshape(H,W,3) if ng>nmin else None))
    return ims
def text(rng,ims,order=True):
    ims=list(ims)
    if order: ims=[ims[k] for k in rng.permutation(len(ims))]
    t='# filename x y level\n' if rng.uniform()<.8 else ''
    for name,c,f,rows,g in ims:
        for r in rows:
            if rng.uniform()<.03: t+='## a comment\n'+'  # another 1 2 3\n'
            t+=('  ' if rng.uniform()<.05 else '')+name+str(rng.choice((' ','\t','   ')))+' '.join(r)+(' ' if rng.uniform()<.05 else '')+'\n'
    return t,ims
GLOBS=dict(flat='frame*-cam%d.jpg',dirs='cam%d/*.png',deep='cam%d/*.pgm')
def expected(ims,excl,path):
    '''observations, indices, paths'''
    L=sorted(((f,c,path(n),g) for n,c,f,rows,g in ims if g is not None and c is not None and n not in excl),key=lambda x:x[:2])
    fs=sorted(set(x[0] for x in L)); return np.array([x[3] for x in L]),np.array([(fs.index(x[0]),x[1]) for x in L]),[x[2] for x in L]
def judge(ctx,got,want,mech):
    o,i,p=got; O,I,P=want
    if not ctx.ok(list(p)==list(P),mech+'/paths','',got=str(list(p))[:1500],want=str(P)[:1500]): return
    if not ctx.ok(i.dtype==np.int32 and i.shape==I.shape and (i==I).all(),mech+'/indices','',got=i.tolist(),want=I.tolist()): return
    if not ctx.ok(o.shape==O.shape,mech+'/shape',f'{o.shape} {O.shape}'): return
    v=O[...,2]>0
    ctx.ok(np.array_equal(o[v],O[v]),mech+'/values','corners differ from the table')
    ctx.ok((o[~v][:,2]<0).all() and np.isfinite(o).all(),mech+'/missing','missing corners have to have a negative weight')
def j_corners(ctx,rng):
    import io
    for it in range(ctx.n(250,3000)):
        W,H=int(rng.integers(2,7)),int(rng.integers(2,7)); kind=(False,'level','weight',None)[int(rng.integers(4))]; Nc=int(rng.integers(1,4)); layout=str(rng.choice(list(GLOBS)))
        nminarg=None if rng.uniform()<.4 else int(rng.integers(0,W*H)); nmin=2*min(W,H) if nminarg is None else nminarg
        if nmin>=W*H: nmin=nminarg=0
        ims=table(rng,W,H,kind,Nc,layout,nmin)
        excl=set(x[0] for x in ims if rng.uniform()<.1)
        if rng.uniform()<.3: ims.append(('unrelated/q7.gif',None,7,[('1','2')]*(W*H),np.ones((H,W,3))))
        use=[x for x in ims if x[4] is not None and x[1] is not None and x[0] not in excl]
        per=[sum(x[1]==c for x in use) for c in range(Nc)]
        t,ims=text(rng,ims)
        where=str(rng.choice(('open','open','file','cwd','prefix','dir','exists','abs')))
        if where=='dir' and layout!='flat': where='prefix'
        base='/data//x' if where=='abs' else ''
        globs=[GLOBS[layout]%c for c in range(Nc)]
        d=f't{it}'; os.makedirs(d); cwd=os.getcwd(); kw={}
        norm=os.path.normpath
        if where=='abs':
            t=''.join(l if l.lstrip().startswith('#') else l[:len(l)-len(l.lstrip())]+base+'/'+l.lstrip() for l in t.splitlines(True)); excl=set(base+'/'+x for x in excl); ims=[(base+'/'+a,)+b for a,*b in map(tuple,ims)] if False else [(base+'/'+x[0],)+tuple(x[1:]) for x in ims]
            if rng.uniform()<.6: globs=['/data/*/'+(g if layout!='deep' else 'set_1/'+g) if rng.uniform()<.9 else '*/'+g for g in globs]
        if   where in ('open','abs'): src=io.StringIO(t); path=norm
        else:
            fn='corners.vnl' if where=='cwd' else f'{d}/corners.vnl' if rng.uniform()<.5 else f'{cwd}/{d}/corners.vnl'
            os.chdir(d if where=='cwd' else cwd); open(fn,'w').write(t); src=fn
            D=os.path.dirname(fn)
            if   where=='file': path=lambda n: D+'/'+n
            elif where=='cwd': path=lambda n:n
            elif where=='prefix': kw['image_path_prefix']='/else/where'; path=lambda n:'/else/where/'+n
            elif where=='dir': kw['image_directory']=str(rng.choice(('else','/a/b'))); path=lambda n: kw['image_directory']+'/'+os.path.basename(n)
            else: # the images are there
                for x in ims: os.makedirs(os.path.dirname(f'{cwd}/{x[0]}') or '.',exist_ok=True); open(x[0],'w').close()
                path=norm
        if rng.uniform()<.2 and where in ('cwd','file') : globs=[os.getcwd()+'/'+('' if where=='cwd' else d+'/')+('set_1/' if layout=='deep' else '')+g for g in globs]
        if rng.uniform()<.1: globs=['.//'+g if g[0]!='/' else g for g in globs]
        one=Nc==1 and rng.uniform()<.2 and not any(x[1] is None for x in ims)
        ctx.case('corners',key=(W,H,kind,Nc,layout,where,nminarg is None),W=W,H=H,weight_column_kind=kind,globs=globs,table=t if len(t)<6000 else t[:6000],where=where,excl=sorted(excl),nmin=nminarg)
        call=lambda: mrcal.compute_chessboard_corners(W,H,**({} if one else dict(globs_per_camera=tuple(globs) if rng.uniform()<.5 else globs)),corners_cache_vnl=src,jobs=-1 if rng.uniform()<.5 else 1,exclude_images=excl,**kw,**({} if kind is False or (kind=='level' and rng.uniform()<.5) else dict(weight_column_kind=kind)),**({} if nminarg is None else dict(Npoint_observations_per_board_min=nminarg)))
        if min(per)<(2 if Nc>1 else 1): ctx.raises(call,'corners/too-few')
        else:
            with ctx.guard('corners'): judge(ctx,call(),expected(ims,excl,path),'corners')
            if where not in ('open','abs'): ctx.ok(open(src).read()==t,'corners/modified','the table was modified')
        os.chdir(cwd)
        if where=='exists':
            for x in ims: os.unlink(x[0])

def j_refuse(ctx,rng):
    import io, signal, subprocess
    for it in range(ctx.n(10,100)):
        W=H=int(rng.integers(3,6)); ims=table(rng,W,H,'level',2,'flat',2*W,complete=True); t,ims=text(rng,ims); L=t.splitlines(True)
        data=[k for k,l in enumerate(L) if not l.lstrip().startswith('#')]
        def tab(x,**kw): return mrcal.compute_chessboard_corners(kw.pop('W',W),kw.pop('H',H),globs_per_camera=kw.pop('globs',('frame*-cam0.jpg','frame*-cam1.jpg')),corners_cache_vnl=io.StringIO(x) if isinstance(x,str) else x,jobs=-1,**kw)
        ctx.case('corners',key=('good',it),table=t)
        with ctx.guard('refuse/good'): judge(ctx,tab(t),expected(ims,(),lambda n:n),'corners')
        k=int(rng.choice(data)); w=L[k].split(); swap=lambda l: ''.join(L[:k]+l+L[k+1:])
        for nm,x in dict(short=swap([]),long=swap([L[k],L[k]]),text=swap([f'{w[0]} hello 5 0\n']),text2=swap([f'{w[0]} 5 y 0\n']),text3=swap([f'{w[0]} 5 6 y\n']),onlyx=swap([f'{w[0]} 5\n']),cols=swap([f'{w[0]} 5 6 0 7\n']),name=swap([f'{w[0]}\n']),other=swap([f'z{L[k].lstrip()}']),
                         nan=swap([f'{w[0]} nan 5 0\n']),nan2=swap([f'{w[0]} 5 nan 0\n']),inf=swap([f'{w[0]} 5 inf 0\n']),nan3=swap([f'{w[0]} 5 6 nan\n']),inf3=swap([f'{w[0]} 5 6 inf\n']),empty='',comments='# filename x y\n').items():
            ctx.case('refuse',key=nm,what=nm,table=x); ctx.raises(lambda: tab(x),f'refuse/{nm}')
        ctx.case('refuse',key='W',what='W'); ctx.raises(lambda: tab(t,W=W+1),'refuse/W'); ctx.raises(lambda: tab(t,H=H-1),'refuse/H')
        ctx.case('refuse',key='globs',what='globs'); ctx.raises(lambda: tab(t,globs=('frame*-cam0.jpg','frame*-cam7.jpg')),'refuse/globs'); ctx.raises(lambda: tab(t,weight_column_kind='levels'),'refuse/kind')
        ctx.case('refuse',key='files',what='files'); ctx.raises(lambda: tab('nofile.vnl' and os.path.join(os.getcwd(),'nope')) if False else mrcal.compute_chessboard_corners(W,H,globs_per_camera=('*',),corners_cache_vnl='nope.vnl',jobs=-1),'refuse/jobs')
        ctx.raises(lambda: mrcal.compute_chessboard_corners(W,H+1,globs_per_camera=('*',),corners_cache_vnl='nope.vnl'),'refuse/square'); ctx.raises(lambda: mrcal.compute_chessboard_corners(W,H,globs_per_camera=('*',),corners_cache_vnl='nope.vnl',weight_column_kind='weight'),'refuse/detector-weight')
        ctx.raises(lambda: mrcal.compute_chessboard_corners(W,H,globs_per_camera=('*',),corners_cache_vnl='.'),'refuse/directory')
        ctx.ok(not os.path.exists('nope.vnl'),'refuse/left','a cache was left')
        # the detector, as a stand-in
        os.makedirs(f'bin{it}',exist_ok=True); os.makedirs('tmp',exist_ok=True)
        path=os.environ['PATH']; os.environ['PATH']=os.path.abspath(f'bin{it}')+':'+path
        import tempfile; tempfile.tempdir=os.path.abspath('tmp')
        try:
            for nm in ('good','noisy','nocache','fails','dies','truncated','garbage'):
                cache=f'c{it}-{nm}.vnl'; open(f'bin{it}/table','w').write(t if nm!='truncated' else t[:len(t)*2//3].rsplit('\n',1)[0]+'\n' if nm!='garbage' else t+'oops\n')
                if nm=='garbage': open(f'bin{it}/table','a').write('oops\n')
                if nm=='truncated': # the last image is incomplete
                    open(f'bin{it}/table','w').write(''.join(L[:data[-1]]))
                open(f'bin{it}/mrgingham','w').write('#!/bin/sh\necho "$@" > $(dirname $0)/args\n'+('yes "warning: something" | head -c 300000 >&2\n' if nm in ('noisy','fails') else '')+'cat $(dirname $0)/table\n'+('yes "warning: something" | head -c 300000 >&2\n' if nm in ('noisy','fails') else '')+dict(fails='exit 3\n',dies='kill -9 $$\n').get(nm,''))
                os.chmod(f'bin{it}/mrgingham',0o755)
                ctx.case('detector',key=(nm,),how=nm)
                def go(): return mrcal.compute_chessboard_corners(W,W,globs_per_camera=('frame*-cam0.jpg','frame*-cam1.jpg'),corners_cache_vnl=None if nm=='nocache' else cache,jobs=3)
                def expire(*a): raise TimeoutError
                old=signal.signal(signal.SIGALRM,expire); signal.alarm(40)
                try:
                    with vlib.quiet_fds():
                        try: r=go()
                        except TimeoutError: r='hang'; os.system(f"pkill -9 -f {os.path.abspath(f'bin{it}')}/mrgingham")
                        except Exception as e: r=e
                finally: signal.alarm(0); signal.signal(signal.SIGALRM,old)
                if not ctx.ok(not isinstance(r,str),'detector/hang','the detector has been waiting for its stderr to be read'): continue
                if nm in ('good','noisy','nocache'):
                    if not ctx.ok(not isinstance(r,Exception),'detector/raised',f'{r!r}'[:500]): continue
                    judge(ctx,r,expected(ims,(),lambda n:n),'detector'); a=open(f'bin{it}/args').read().split()
                    ctx.ok(a==['--jobs','3','--gridn',str(W),'frame*-cam0.jpg','frame*-cam1.jpg'],'detector/args',f'{a}')
                    if nm=='nocache': ctx.ok(not os.path.exists(cache),'detector/cache','no cache was asked for'); continue
                    if not ctx.ok(os.path.exists(cache) and open(cache).read()==t,'detector/cache','the cache differs from what the detector said'): continue
                    os.unlink(f'bin{it}/mrgingham')
                    with ctx.guard('detector/again'): judge(ctx,go(),expected(ims,(),lambda n:n),'detector/again')
                else:
                    ctx.ok(isinstance(r,Exception),f'detector/{nm}','a failed detection was accepted')
                    ctx.ok(not os.path.exists(cache),'detector/partial-cache',f'{nm}: a partial cache was left')
        finally: os.environ['PATH']=path; tempfile.tempdir=None

# ------------------------------------------------------- seeding
LM=('LENSMODEL_PINHOLE','LENSMODEL_STEREOGRAPHIC','LENSMODEL_OPENCV4','LENSMODEL_OPENCV5','LENSMODEL_OPENCV8','LENSMODEL_CAHVOR','LENSMODEL_CAHVORE_linearity=0.37','S')
def scene_intr(rng,lm):
    if lm=='S': lm='LENSMODEL_SPLINED_STEREOGRAPHIC_order=%d_Nx=11_Ny=9_fov_x_deg=140'%rng.choice((2,3))
    i=gen.intrinsics(rng,lm,strength=.4,imagersize=(4000,3000),central=True); i[:2]=4000*rng.uniform(.6,1.2)*np.array((1,rng.uniform(.98,1.02)))
    if 'SPLINED' in lm: i[4:]*=.3; i[:2]=4000*rng.uniform(.35,.6)
    return lm,i
def grid(W,H,s): x=np.zeros((H,W,3)); x[...,0]=np.arange(W)*s; x[...,1]=np.arange(H)[:,None]*s; return x
def app(T,p): return p@T[:3,:3].T+T[:3,3]
def board_pose(rng,W,H,s,zmin=1.3,zmax=4,tilt=.5,off=.4):
    L=max(W,H)*s
    while True:
        T=np.eye(4); T[:3,:3]=ref.R_from_r(rng.normal(size=3)*tilt); z=L*rng.uniform(zmin,zmax)
        T[:3,3]=np.array((rng.uniform(-off,off)*z,rng.uniform(-off,off)*z,z))-T[:3,:3]@grid(W,H,s).reshape(-1,3).mean(0)
        p=app(T,grid(W,H,s)); 
        if (p[...,2]>.2*L).all() and (np.hypot(p[...,0],p[...,1])<p[...,2]*1.15).all() and abs((T[:3,:3]@(0,0,1))@p.reshape(-1,3).mean(0))/np.linalg.norm(p.reshape(-1,3).mean(0))>.35: return T
def T_of(Rt): return ref.T_from_Rt(Rt)
def j_mono(ctx,rng):
    for it in range(ctx.n(200,3000)):
        W,H=int(rng.integers(3,11)),int(rng.integers(3,11)); s=float(10**rng.uniform(-2,1)); Nc=int(rng.integers(1,4)); No=int(rng.integers(1,6))
        cams=[scene_intr(rng,str(rng.choice(LM))) for _ in range(Nc)]
        ifc=np.array([(int(rng.integers(20)),int(rng.integers(Nc))) for _ in range(No)],dtype=np.int32)
        Ts=[board_pose(rng,W,H,s) for _ in range(No)]
        o=np.empty((No,H,W,3)); ok=True
        for k,T in enumerate(Ts):
            o[k,...,:2]=ref.project(app(T,grid(W,H,s)).reshape(-1,3),*cams[ifc[k,1]]).reshape(H,W,2); o[k,...,2]=rng.uniform(.1,2,(H,W))
            m=rng.uniform(size=(H,W))<rng.choice((0,.2,.4))
            if (~m).sum()>=8 and np.linalg.matrix_rank(np.argwhere(~m)-np.argwhere(~m).mean(0))==2 and min(len(set(a)) for a in np.argwhere(~m).T)>=3: o[k,m]=np.concatenate((rng.uniform(-5,5000,(m.sum(),2)),np.full((m.sum(),1),-1.)),-1)
        as_model=rng.uniform()<.5
        ms=[mrcal.cameramodel(intrinsics=c,imagersize=(4000,3000),rt_cam_ref=rng.normal(size=6)) if as_model else c for c in cams]
        o0=o.copy()
        ctx.case('mono',key=(W,H,Nc,as_model,tuple(sorted(gen.family(c[0]) for c in cams))),W=W,H=H,s=s,cams=[(a,b.tolist()) for a,b in cams] if len(cams[0][1])<20 else [a for a,b in cams],T=[T.tolist() for T in Ts],ifc=ifc.tolist())
        with ctx.guard('mono'):
            Rt=mrcal.estimate_monocular_calobject_poses_Rt_tocam(ifc,o,s,ms,**(dict(paths=['x']*No) if rng.uniform()<.3 else {}))
            ctx.ok(np.array_equal(o,o0),'mono/modified','')
            if not ctx.ok(Rt.shape==(No,4,3),'mono/shape',f'{Rt.shape}'): continue
            for k in range(No):
                d=np.linalg.norm(Ts[k][:3,3])
                ctx.close(app(T_of(Rt[k]),grid(W,H,s)),app(Ts[k],grid(W,H,s)),'mono/pose',atol=1e-5*d*(5 if (o[k,...,2]<0).any() else 1),rtol=0,lensmodel=cams[ifc[k,1]][0],k=k)
        if it%6==0:
            b=o.copy(); b[0,...,2]=-1; b[0].reshape(-1,3)[:5,2]=1
            ctx.case('mono',key='few'); ctx.raises(lambda: mrcal.estimate_monocular_calobject_poses_Rt_tocam(ifc,b,s,ms),'mono/few')
    for it in range(ctx.n(120,1500)):
        lm,i=scene_intr(rng,str(rng.choice(LM))); N=int(rng.integers(12,60)); T=ref.T_from_rt(np.concatenate((rng.normal(size=3)*.8,rng.normal(size=3)*3)))
        pc=gen.points(rng,lm,N,theta=.6,range_=(3,9)); P=app(ref.inv_T(T),pc); extra=int(rng.integers(0,9)); perm=rng.permutation(N+extra)
        pts=np.empty((N+extra,3)); pts[perm[:N]]=P; pts[perm[N:]]=rng.normal(size=(extra,3))
        order=rng.permutation(N); idx=np.array([(perm[k],0,int(-1)) for k in order],dtype=np.int32); came=int(rng.choice((-1,0))); idx[:,2]=came
        ob=np.concatenate((ref.project(pc,lm,i)[order],rng.uniform(.5,2,(N,1))),-1); bad=rng.uniform(size=N)<.2
        if (~bad).sum()<10: bad[:]=False
        ob[bad,:2]+=500; ob[bad,2]=-1
        ctx.case('points',key=(gen.family(lm),N,extra),lensmodel=lm,N=N)
        with ctx.guard('points'):
            Rt=mrcal.calibration._estimate_camera_pose_from_point_observations(idx,ob,((lm,i),),pts,0)
            if ctx.ok(Rt.shape==(1,4,3),'points/shape',''): ctx.close(app(T_of(Rt[0]),P),pc,'points/pose',atol=1e-4,rtol=0,lensmodel=lm)
        if it%7==0:
            z=idx.copy(); z[0,2]+=1; ctx.case('refuse',key='moving'); f=mrcal.calibration._estimate_camera_pose_from_point_observations
            ctx.raises(lambda: f(z,ob,((lm,i),),pts,0),'points/moving'); ctx.raises(lambda: f(idx[:3],ob[:3],((lm,i),),pts,0),'points/few'); ctx.raises(lambda: f(idx,ob,((lm,i),)*2,pts,0),'points/cameras')

def rig(rng,Nc,Nf,p=.6,connected=None):
    '''which camera sees which frame, sorted'''
    see=rng.uniform(size=(Nf,Nc))<p
    for f in range(Nf):
        if not see[f].any(): see[f,rng.integers(Nc)]=True
    return np.array([(f,c) for f in range(Nf) for c in range(Nc) if see[f,c]],dtype=np.int32)
def links(ifc,Nc):
    L=np.zeros((Nc,Nc),int)
    for f in set(ifc[:,0]):
        c=ifc[ifc[:,0]==f,1]
        for a in c:
            for b in c:
                if a!=b: L[a,b]+=1
    return L
def connected(L):
    seen={0}; todo=[0]
    while todo:
        a=todo.pop()
        for b in np.nonzero(L[a]>=2)[0]:
            if b not in seen: seen.add(int(b)); todo.append(int(b))
    return len(seen)==len(L)
def rnd_T(rng,rot=1.,t=1.): return ref.T_from_rt(np.concatenate((rng.normal(size=3)*rot,rng.normal(size=3)*t)))
def Rt_of(T): return np.concatenate((T[:3,:3],T[None,:3,3]),0)
def j_cameras(ctx,rng):
    E=mrcal.calibration._estimate_camera_poses
    for it in range(ctx.n(400,5000)):
        Nc=int(rng.integers(1,7)); Nf=int(rng.integers(2,12)); ifc=rig(rng,Nc,Nf,rng.choice((.3,.5,.8,1)))
        if it%5==0 and Nc>1: # a chain: consecutive cameras only
            perm=rng.permutation(Nc-1)+1; ch=[0]+perm.tolist(); l=[]
            for f in range(4*(Nc-1)): l+=[(f,c) for c in sorted(ch[f%(Nc-1):f%(Nc-1)+2])]
            ifc=np.array(l,dtype=np.int32)
        if ifc[:,1].max()!=Nc-1: continue
        W,H=int(rng.integers(2,9)),int(rng.integers(2,9)); s=float(10**rng.uniform(-2,1))
        Tc=[np.eye(4)]+[rnd_T(rng,1,3*s) for _ in range(Nc-1)] # cam from ref
        Tf=[rnd_T(rng,1.5,5*s) for _ in range(ifc[:,0].max()+1)]
        # A frame the two cameras don't agree about changes the pose of nothing else
        P=np.array([Rt_of(Tc[c]@Tf[f]) for f,c in ifc]); sc=s*max(W,H)+max(np.abs(T[:3,3]).max() for T in Tc+Tf)
        good=connected(links(ifc,Nc))
        ctx.case('cameras',key=(Nc,len(ifc),W,H,good),ifc=ifc.tolist(),W=W,H=H,s=s,connected=good)
        if not good: ctx.raises(lambda: E(P,ifc,W,H,s),'cameras/disconnected')
        else:
            with ctx.guard('cameras'):
                R=E(P,ifc,W,H,s)
                if ctx.ok(len(R)==Nc-1,'cameras/shape',f'{R.shape}'):
                    for c in range(1,Nc): ctx.close(T_of(R[c-1]),ref.inv_T(Tc[c]),'cameras/pose',atol=1e-8*max(1,sc/s),rtol=0,camera=c)
        if it%10==0 and Nc>1 and len(ifc)>2:
            ctx.case('refuse',key='order'); b=ifc[::-1].copy()
            if (np.diff(b[:,0])<0).any(): ctx.raises(lambda: E(P[::-1].copy(),b,W,H,s),'cameras/order')
        # joint frame poses. With consistent, and inconsistent observations
        noise=float(rng.choice((0,0,.01,.1)))
        P=np.array([Rt_of(Tc[c]@Tf[f]@ref.T_from_rt(rng.normal(size=6)*noise*np.array((1,1,1,s,s,s)))) for f,c in ifc])
        Rcr=np.array([Rt_of(T) for T in Tc[1:]]).reshape(-1,4,3); c0=(P.copy(),Rcr.copy(),ifc.copy())
        ctx.case('joint',key=(Nc,len(ifc),W,H,noise),ifc=ifc.tolist(),W=W,H=H,s=s,noise=noise)
        with ctx.guard('joint'):
            rt=mrcal.estimate_joint_frame_poses(P,Rcr,ifc,W,H,s)
            ctx.ok(all(np.array_equal(a,b) for a,b in zip(c0,(P,Rcr,ifc))),'joint/modified','')
            if not ctx.ok(rt.shape==(len(Tf),6),'joint/shape',f'{rt.shape}'): continue
            g=grid(W,H,s).reshape(-1,3)
            for f in range(len(Tf)):
                k=np.nonzero(ifc[:,0]==f)[0]; M=np.mean([app(ref.inv_T(Tc[ifc[j,1]])@T_of(P[j]),g) for j in k],0)
                if len(k)==1: want=M
                elif min(W,H)<2: continue
                else: # the best fit, independently
                    a,b=g-g.mean(0),M-M.mean(0); U,S,Vt=np.linalg.svd(b.T@a); R=U@np.diag((1,1,np.sign(np.linalg.det(U@Vt))))@Vt; want=a@R.T+M.mean(0)
                ctx.close(app(ref.T_from_rt(rt[f]),g),want,'joint/pose',atol=1e-8*max(sc,s),rtol=0,frame=f,cameras=ifc[k,1].tolist())

def j_seed(ctx,rng):
    for it in range(ctx.n(90,1500)):
        Nc=int(rng.integers(1,4)); Nf=int(rng.integers(3,9)); W,H=int(rng.integers(4,9)),int(rng.integers(4,9)); s=float(10**rng.uniform(-1.5,.5)); L=s*max(W,H)
        sizes=[(int(rng.integers(1000,5000)),int(rng.integers(1000,4000))) for _ in range(Nc)]; f=[float(rng.uniform(.4,1.3)*a) for a,b in sizes]
        how=int(rng.integers(4))
        if how<=1 or how==3: f=[f[0]]*Nc
        intr=[np.array((f[c],f[c],(sizes[c][0]-1)/2,(sizes[c][1]-1)/2)) for c in range(Nc)]
        Tc=[np.eye(4)]+[rnd_T(rng,.15,.15*L) for _ in range(Nc-1)]
        ifc=rig(rng,Nc,Nf,.85)
        if ifc[:,1].max()!=Nc-1: continue
        Tf=[board_pose(rng,W,H,s,zmin=2,zmax=4,tilt=.4,off=.3) for _ in range(Nf)]
        p=[app(Tc[c]@Tf[k],grid(W,H,s)) for k,c in ifc]
        if any((x[...,2]<.4*L).any() for x in p): continue
        o=np.array([np.concatenate((ref.project(x.reshape(-1,3),'LENSMODEL_STEREOGRAPHIC',intr[c]).reshape(H,W,2),np.ones((H,W,1))),-1) for x,(k,c) in zip(p,ifc)])
        o[rng.uniform(size=o.shape[:3])<.1]=(-1,-1,-1)
        fe=[f[0],[f[0]],f,np.array(f[:1])][how]
        if how==2 and rng.uniform()<.5: fe=np.array(f)
        ctx.case('seed',key=(Nc,how,W,H),Nc=Nc,how=how,W=W,H=H,s=s,f=f,ifc=ifc.tolist())
        call=lambda: mrcal.seed_stereographic(np.array(sizes) if rng.uniform()<.5 else sizes,fe,ifc,o,s)
        if not connected(links(ifc,Nc)): ctx.raises(call,'seed/disconnected'); continue
        with ctx.guard('seed'):
            i,rc,rf=call()
            ctx.close(np.array(i),np.array(intr),'seed/intrinsics',atol=0,rtol=0)
            if not ctx.ok(np.shape(rc)==(Nc-1,6) and rf.shape==(Nf,6),'seed/shape',f'{np.shape(rc)} {rf.shape}'): continue
            for c in range(1,Nc): ctx.close(app(ref.T_from_rt(rc[c-1]),grid(W,H,s)),app(Tc[c],grid(W,H,s)),'seed/camera',atol=1e-4*L,rtol=0)
            for k in range(Nf): ctx.close(app(ref.T_from_rt(rf[k]),grid(W,H,s)),app(Tf[k],grid(W,H,s)),'seed/frame',atol=1e-4*L,rtol=0)
        if it%4==0: ctx.case('refuse',key='focal'); ctx.raises(lambda: mrcal.seed_stereographic(sizes,f+[1000.,3.],ifc,o,s),'seed/focal')
