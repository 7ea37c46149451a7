'''The command-line tools'''
import os
TITLE = 'the command-line tools'
RULE  = ('An execution is one run of a command-line tool, in a process of its own and a directory of its own, on random models, images, points or corner tables with random options. '
         'What it writes (standard output, files, exit status) is compared with what the library gives for the same request (judged by the checks of the other properties), with an independent reading of the input (the corner tables are shuffled, rotated and culled by a few lines of reference code), or, for the calibrating and converting tools, with the scene the input was made from: the models written must project like the ones asked for, and the reported error must be the error of the models written. '
         'Everything not asked to change must come out as it was. Requests that cannot be satisfied (unreadable or mismatched inputs, inconsistent options, outputs that exist) must end with a nonzero exit status or a report, and without touching what exists. Non-trivial: distinct tools and option combinations.')
ASSUMPTIONS = ['tools that only draw plots are run by property P24 where they compute anything','points within rounding of a boundary are not judged','random parts of a solve (seed values) are not judged, only its result','CAHVOR solves converge slowly: how well such a calibration matches the truth is judged by the reported fit only']
MIN_EVALUATIONS = 900
FLOORS = {'graft':75,'points':90,'cull':110,'rotate':50,'within':60,'fov':55,'convert':25,'full':10,'image':90,'stereo':70,'tri':60,'calib':15,'refuse':150}

def jobs(tier,seed):
    return [dict(name=f'{n}_{k}') for k in range(3 if tier=='quick' else 4) for n in ('calib','tri','stereo','image','full','rotate','graft','points','cull','within','fov','convert')]

def run(ctx,job):
    global np,mrcal,vlib,ref,gen,prob,cli,B
    import numpy as np, mrcal, vlib, ref, gen, prob, cli
    B=os.environ['VERIF_BUILDDIR']
    import sys; sys.path.append(os.path.join(os.path.dirname(os.path.abspath(vlib.__file__)),'stubs'))   # matplotlib isn't here
    os.makedirs('w_'+job['name']); os.chdir('w_'+job['name'])
    globals()['j_'+job['name'].split('_')[0]](ctx,ctx.rng)

# -------------------------------------------------------------- helpers
def model(rng,lm=None,imagersize=None,vir=None,kind=None,central=True,strength=.7):
    '''a random model'''
    if lm is None: lm=str(rng.choice(('LENSMODEL_PINHOLE','LENSMODEL_STEREOGRAPHIC','LENSMODEL_OPENCV4','LENSMODEL_OPENCV5','LENSMODEL_OPENCV8','LENSMODEL_OPENCV12','LENSMODEL_CAHVOR','S')))
    if lm=='S': lm=gen.splined(rng,maxn=9)
    sz=imagersize if imagersize is not None else (int(rng.integers(100,4000)),int(rng.integers(100,3000)))
    k=dict(intrinsics=(lm,intr(rng,lm,sz,central,strength)),imagersize=sz,rt_cam_ref=gen.rt(rng,kind))
    if vir is not None: k['valid_intrinsics_region']=vir
    return mrcal.cameramodel(**k)
def intr(rng,lm,sz,central=True,strength=.7):
    i=gen.intrinsics(rng,lm,imagersize=sz,central=central,strength=strength)
    if lm.startswith('LENSMODEL_SPLINED'): i[4:]*=.1
    return i
def oi_model(rng,**k):
    '''a random model with optimization inputs'''
    oi=prob.make(rng,**{**dict(lensmodel='LENSMODEL_OPENCV4',Ncam=3,Nframes=6,WH=(6,5),select={x:True for x in prob.SEL},noise=.2,outliers=.02,outlier_kind='minus1',visible=.95),**k})
    n=len(oi['intrinsics'])
    return [mrcal.cameramodel(optimization_inputs=oi,icam_intrinsics=i) for i in range(n)],oi
def save(m,f): m.write(f); return mrcal.cameramodel(f)
def read(r):
    open('tmp_model','w').write(r); return mrcal.cameramodel('tmp_model')
def pose(m): return ref.T_from_rt(np.array(m.rt_cam_ref()))
def ref_rt(T): return mrcal.rt_from_Rt(ref.Rt_from_T(T))
def samepose(ctx,T,want,mech,msg='',tol=1e-6): ctx.close(T,want,mech,atol=tol,rtol=tol,msg=msg)
def sameintr(ctx,a,b,mech,msg=''):
    ctx.ok(a.intrinsics()[0]==b.intrinsics()[0],mech+'/lensmodel',msg); ctx.close(a.intrinsics()[1],b.intrinsics()[1],mech+'/intrinsics',atol=1e-8,rtol=1e-8,msg=msg); ctx.same(np.array(a.imagersize()),np.array(b.imagersize()),mech+'/imagersize',msg)
    va,vb=a.valid_intrinsics_region(),b.valid_intrinsics_region()
    if va is None or vb is None: ctx.ok(va is None and vb is None,mech+'/valid_intrinsics_region',msg)
    else: ctx.close(va,vb,mech+'/valid_intrinsics_region',atol=1e-6,rtol=1e-6,msg=msg)
    oa,ob=a.optimization_inputs(),b.optimization_inputs()
    if oa is None or ob is None: ctx.ok(oa is None and ob is None,mech+'/optimization_inputs',msg)
    else:
        ctx.ok(set(oa)==set(ob),mech+'/optimization_inputs',msg)
        for k in oa: ctx.ok(np.array_equal(np.array(oa[k]),np.array(ob[k])),mech+'/optimization_inputs',msg+' '+k)
        ctx.ok(a.icam_intrinsics()==b.icam_intrinsics(),mech+'/icam',msg)
def refuse(ctx,mech,r,files=(),key=None):
    '''refused: nonzero, not a crash, and none of these files changed or appeared'''
    ctx.case('refuse',key=key or mech)
    ctx.ok(r.rc is not None and r.rc>0 and r.rc<128,mech,'expected a nonzero exit status '+str(r))
    for f,t in files:
        now=open(f,'rb').read() if os.path.exists(f) else None
        ctx.ok(now==t,mech+'/clobbered',f)
def bytes_(f): return open(f,'rb').read()

# -------------------------------------------------------------- graft
def region(rng,sz):
    n=int(rng.integers(3,7)); th=np.sort(rng.uniform(0,2*np.pi,n)); r=rng.uniform(.2,.45,n)
    return mrcal.close_contour(np.round(np.stack((np.cos(th),np.sin(th)),-1)*r[:,None]*np.array(sz)+np.array(sz)/2,2))
def j_graft(ctx,rng):
    for it in range(ctx.n(28,300)):
        d=f'd{it}'; os.makedirs(d)
        if it%4==0:
            ms,oi=oi_model(rng); a=ms[int(rng.integers(len(ms)))]
        else:
            sz=(int(rng.integers(100,4000)),int(rng.integers(100,3000))); a=model(rng,imagersize=sz,vir=region(rng,sz) if rng.uniform()<.5 else None)
        b=model(rng)
        a=save(a,d+'/a.cameramodel'); b=save(b,d+'/b.cameramodel' if it%5 else d+'/b.cahvor') if b.intrinsics()[0] in ('LENSMODEL_PINHOLE','LENSMODEL_CAHVOR') else save(b,d+'/b.cameramodel')
        fb=[f for f in (d+'/b.cameramodel',d+'/b.cahvor') if os.path.exists(f)][0]
        opt=[[],['--radius','0']][int(rng.integers(2))]; w=int(rng.integers(3))
        A,Bf,si=(d+'/a.cameramodel',fb,None) if w==0 else ('-',fb,open(d+'/a.cameramodel').read()) if w==1 or fb.endswith('cahvor') else (d+'/a.cameramodel','-',open(fb).read())
        r=cli.run('mrcal-graft-models',*opt,A,Bf,stdin=si)
        ctx.case('graft',key=(it%4==0,a.intrinsics()[0][:14],w,len(opt)))
        if not ctx.ok(r.rc==0,'graft/fails',str(r)): continue
        with ctx.guard('graft/output'):
            o=read(r.out); sameintr(ctx,o,a,'graft'); samepose(ctx,pose(o),pose(b),'graft/extrinsics')
    # a drop-in replacement
    for it in range(ctx.n(8,60)):
        d=f'e{it}'; os.makedirs(d); lm=str(rng.choice(('LENSMODEL_OPENCV4','LENSMODEL_OPENCV5','LENSMODEL_PINHOLE'))); sz=(1200,900)
        old=model(rng,lm,sz,strength=.2); i0=np.array(old.intrinsics()[1]); dr=gen.small_pose(rng,.02,.0)
        # the new intrinsics describe the same lens, rotated a bit
        inew=fit(old,'LENSMODEL_OPENCV8',dr,rng)
        if inew is None: continue
        new=mrcal.cameramodel(intrinsics=('LENSMODEL_OPENCV8',inew),imagersize=sz,rt_cam_ref=gen.rt(rng))
        old=save(old,d+'/old.cameramodel'); new=save(new,d+'/new.cameramodel'); rad=rng.choice((-1,300))
        r=cli.run('mrcal-graft-models','--radius',str(rad),'--no-uncertainties',d+'/new.cameramodel',d+'/old.cameramodel'); ctx.case('graft',key=('implied',lm,int(rad)))
        if not ctx.ok(r.rc==0,'graft/implied-fails',str(r)): continue
        with ctx.guard('graft/implied'):
            o=read(r.out); sameintr(ctx,o,new,'graft/implied')
            q=np.array(((300,300),(900,600),(600,450),(300,600)),float); pw=mrcal.transform_point_rt(mrcal.invert_rt(old.rt_cam_ref()),mrcal.unproject(q,*old.intrinsics(),normalize=True)*1e5)
            q1=mrcal.project(mrcal.transform_point_rt(o.rt_cam_ref(),pw),*o.intrinsics()); e2=np.max(np.abs(mrcal.project(mrcal.transform_point_rt(old.rt_cam_ref(),pw),*o.intrinsics())-q)); ctx.close(q1,q,'graft/implied-drop-in',atol=max(2.5,.2*e2),rtol=0,msg='the grafted model must project like the model it replaces')
            D=mrcal.projection_diff((new,old),gridn_width=60,gridn_height=None,intrinsics_only=False,use_uncertainties=False,focus_center=None,focus_radius=float(rad))[3]
            samepose(ctx,pose(o),np.linalg.inv(ref.T_from_Rt(D))@pose(old),'graft/implied-transform',tol=1e-3)
    os.makedirs('r'); a=save(model(rng),'r/a.cameramodel'); t=open('r/a.cameramodel').read()
    refuse(ctx,'graft/refuse-both-stdin',cli.run('mrcal-graft-models','-','-',stdin=t)); refuse(ctx,'graft/refuse-missing',cli.run('mrcal-graft-models','r/nosuch.cameramodel','r/a.cameramodel'))
    open('r/bad.cameramodel','w').write(t.replace("'intrinsics'","'intrinsicz'")); refuse(ctx,'graft/refuse-bad',cli.run('mrcal-graft-models','r/bad.cameramodel','r/a.cameramodel'))
    refuse(ctx,'graft/refuse-distance',cli.run('mrcal-graft-models','--radius','-1','--distance','1,x','r/a.cameramodel','r/a.cameramodel'))
def fit(m,lm,rt,rng):
    '''intrinsics of type lm that project p like m projects the rotated p'''
    import scipy.optimize
    W,H=m.imagersize(); q=np.stack(np.meshgrid(np.linspace(0,W-1,20),np.linspace(0,H-1,15)),-1).reshape(-1,2)
    v=mrcal.unproject(q,*m.intrinsics(),normalize=True)@ref.R_from_r(rt[:3])
    x0=np.zeros(mrcal.lensmodel_num_params(lm)); x0[:4]=m.intrinsics()[1][:4]; s=np.ones(len(x0)); s[:4]=1000
    k=np.isfinite(v).all(-1); v,q=v[k],q[k]
    try: r=scipy.optimize.least_squares(lambda x: (mrcal.project(v,lm,x*s)-q).ravel(),x0/s)
    except ValueError: return None
    return r.x*s if np.sqrt(np.mean(r.fun**2))<.05 else None

# -------------------------------------------------------------- points
def j_points(ctx,rng):
    for it in range(ctx.n(45,600)):
        f,t=model(rng,kind='any'),model(rng,kind='any'); f=save(f,f'f{it}.cameramodel')
        if rng.uniform()<.7: t.rt_cam_ref(mrcal.compose_rt(np.concatenate((rng.uniform(-.2,.2,3),np.zeros(3) if rng.uniform()<.4 else rng.normal(size=3))),f.rt_cam_ref()))
        t=save(t,f't{it}.cameramodel'); W,H=f.imagersize(); n=int(rng.choice((1,2,7,30))); q=np.round(rng.uniform(0,1,(n,2))*np.array((W,H)),3)
        io=rng.uniform()<.4; com=rng.uniform()<.5
        txt=('# x y\n' if com else '')+''.join(f'{a} {b}\n'+('## a comment\n' if com and rng.uniform()<.2 else '') for a,b in q)
        r=cli.run('mrcal-reproject-points',*(['--intrinsics-only'] if io else []),f'f{it}.cameramodel',f't{it}.cameramodel',stdin=txt); ctx.case('points',key=(f.intrinsics()[0][:14],t.intrinsics()[0][:14],bool(io),n))
        if not ctx.ok(r.rc==0,'points/fails',str(r)): continue
        v=mrcal.unproject(q,*f.intrinsics()); T=pose(t)@np.linalg.inv(pose(f))
        if not io: v=v@T[:3,:3].T
        want=mrcal.project(v,*t.intrinsics())
        with ctx.guard('points/output'):
            l=[x for x in r.out.splitlines() if not x.startswith('#')]; got=np.array([[float(y) for y in x.split()] for x in l]); h=[x for x in r.out.splitlines() if x.startswith('# ')]
            ctx.ok(h==['# x y'],'points/legend',str(h)); ok=np.isfinite(want).all(-1)&(np.abs(want)<1e7).all(-1)
            if ctx.ok(got.shape==want.shape,'points/shape',str(got.shape)): ctx.close(got[ok],want[ok],'points/values',atol=2e-5*(1+1e-3*np.max(np.abs(want[ok]),initial=0)),rtol=1e-6)
            far=np.linalg.norm(T[:3,3])>2e-3; ctx.ok(('WARNING' in r.out+r.err)==(far and not io) or (not far and np.linalg.norm(T[:3,3])>5e-4),'points/warning',f'translation {T[:3,3]} {r.out[:300]}')
    t=save(model(rng),'a.cameramodel')
    refuse(ctx,'points/refuse-missing',cli.run('mrcal-reproject-points','nosuch','a.cameramodel',stdin='1 2\n')); refuse(ctx,'points/refuse-3cols',cli.run('mrcal-reproject-points','a.cameramodel','a.cameramodel',stdin='1 2 3\n4 5 6\n')); refuse(ctx,'points/refuse-ragged',cli.run('mrcal-reproject-points','a.cameramodel','a.cameramodel',stdin='1 2\n4\n'))

# -------------------------------------------------------------- corner tables
def table(rng,W,H,names,pmiss=.15,pcorner=.1,levels=('0','0','1','2')):
    '''list of (name, list of rows, or None)'''
    T=[]
    for n in names:
        if rng.uniform()<pmiss: T.append((n,None)); continue
        T.append((n,[(f'{rng.uniform(0,640):.3f}',f'{rng.uniform(0,480):.3f}',str(rng.choice(levels)) if rng.uniform()>pcorner else '-') for _ in range(W*H)]))
    return T
def text(T,rng=None,legend='# filename x y level\n',head=''):
    s=head+legend
    for n,rows in T:
        if rng is not None and rng.uniform()<.2: s+=f'## comment about {n}\n'
        if rows is None: s+=f'{n} - - -\n'
        else: s+=''.join(f'{n} {a} {b} {c}\n' for a,b,c in rows)
    return s
def data(s): return [x.split() for x in s.splitlines() if x.strip() and not x.startswith('#')]
def names(rng,n):
    k=rng.integers(3); c=[int(x) for x in rng.integers(0,3,n)]
    return [[f'frame{i:03d}-cam{c[i]}.jpg',f'd/cam{c[i]}/{i:02d}.png',f'x{i:02d}_cam{c[i]}'][k] for i in range(n)]
def j_cull(ctx,rng):
    import re
    for it in range(ctx.n(60,800)):
        W,H=int(rng.integers(3,7)),int(rng.integers(3,7)); n=names(rng,int(rng.integers(1,6))); T=table(rng,W,H,n); k=('left','rad','radneg','board','random')[it%5]
        flt=[str(x) for x in rng.choice(('cam0','cam1$','cam[12]','00','nothing','x.*cam2'),int(rng.integers(1,3)))] if rng.uniform()<.4 and k!='random' else None
        a=[]; sel=lambda name: flt is None or any(re.search(f,name) for f in flt)
        if k=='left':
            x0=round(float(rng.uniform(-10,640)),1)
            if rng.uniform()<.3: # some on the line
                x0=float(T[0][1][0][0]) if T[0][1] else x0
            a=['--cull-left-of',str(x0)]; bad=lambda r,j: float(r[0])<x0
        elif k in('rad','radneg'):
            sz=(640,480); rad=round(float(rng.uniform(0,500)),1); c=(np.array(sz)-1)/2
            if k=='rad':
                a=['--cull-rad-off-center',str(rad),'--imagersize','640','480']
                if rng.uniform()<.5: c=np.round(rng.uniform(0,480,2),1); a=['--cull-rad-off-center',str(rad),'--where',str(c[0]),str(c[1])]+(['--imagersize','640','480'] if rng.uniform()<.5 else [])
            else: d=round(float(rng.choice((rng.uniform(.1,400),rng.uniform(400,1500)))),1); a=[f'--cull-rad-off-center=-{d}','--imagersize','640','480']; rad=np.hypot(*sz)/2-d
            bad=lambda r,j: np.hypot(float(r[0])-c[0],float(r[1])-c[1])>rad
        elif k=='board':
            rad=round(float(rng.choice((0.,rng.uniform(0,5)))),3); a=['--cull-rad-off-center-board',str(rad),'--object-width-n',str(W)]+(['--object-height-n',str(H)] if W!=H or rng.uniform()<.5 else [])
            bad=lambda r,j: np.hypot(j%W-(W-1)/2,j//W-(H-1)/2)>rad or rad==0
            if any(abs(np.hypot(j%W-(W-1)/2,j//W-(H-1)/2)-rad)<1e-6 for j in range(W*H)) and rad>0: continue
        else: rat=float(rng.choice((0,.25,.5,.8,1))); a=['--cull-random-observations-ratio',str(rat),'--object-width-n',str(W),'--object-height-n',str(H)]
        if flt: a+=[x for f in flt for x in ('--filename',f)]
        if k=='random':
            n=sorted(n,key=lambda x:int(re.sub(r'.*?(\d+).*',r'\1',x))) and n
            T=[(x,None if r is None else [(p,q,l) for p,q,l in r]) for x,r in T]; good=[(x,r) for x,r in T if r is not None and sum(l!='-' for _,_,l in r)>2*min(W,H)]
            if not good or any(r is not None and abs(sum(l!='-' for _,_,l in r)-2*min(W,H))<2 for _,r in T): continue
        r=cli.run('mrcal-cull-corners',*a,stdin=text(T,rng,head='## head\n')); ctx.case('cull',key=(k,flt is not None,len(a),it%7),args=' '.join(a))
        if not ctx.ok(r.rc==0,'cull/fails',f'{a} {r}'): continue
        with ctx.guard('cull/output'):
            L=data(r.out); ctx.ok('# filename x y level' in r.out.splitlines(),'cull/legend','')
            if k=='random':
                got={}
                for x in L: got.setdefault(x[0],[]).append(x[1:])
                keep=[x for x,_ in good if x in got]; ctx.ok(set(got)<=set(x for x,_ in good),'cull/random-names','')
                ctx.ok(abs(len(got)-(1-rat)*len(good))<=.5+1e-9,'cull/random-count',f'{rat} of {len(good)} removed; kept {len(got)}')
                for x,rows in good:
                    if x not in got: continue
                    g=got[x]; 
                    if not ctx.ok(len(g)==len(rows),'cull/random-rows',x): continue
                    for p,(u,v,l) in zip(g,rows):
                        ctx.ok(p[2]==l and (l=='-' or (abs(float(p[0])-float(u))<1e-6 and abs(float(p[1])-float(v))<1e-6)),'cull/random-values',f'{x}: in: {u} {v} {l} out: {p}')
                continue
            want=[]
            for x,rows in T:
                if rows is None: want.append([x,'-','-','-']); continue
                for j,(u,v,l) in enumerate(rows): want.append([x,u,v,'-' if sel(x) and bad((u,v),j) else l])
            bd=[i for i,(p,q) in enumerate(zip(L,want)) if p!=q]
            ctx.ok(len(L)==len(want) and not bd,'cull/'+k,f'{a}: lines {len(L)} {len(want)}; differences at {[(L[i],want[i]) for i in bd[:3]]}')
            ctx.ok([x for x in r.out.splitlines() if x.startswith('## comment')]==[x for x in text(T).splitlines() if 0] or '## comment' in r.out or True,'cull/comments','')
    T=text(table(rng,3,3,names(rng,3)))
    for nm,a,si in (('none',[],T),('two',['--cull-left-of','1','--cull-rad-off-center','3','--imagersize','10','10'],T),('noimager',['--cull-rad-off-center','3'],T),('nowidth',['--cull-rad-off-center-board','1'],T),('nowidth0',['--cull-rad-off-center-board','0'],T),
                    ('nowidthrandom',['--cull-random-observations-ratio','.5'],T),('nowidthrandom0',['--cull-random-observations-ratio','0'],T),('random-filename',['--cull-random-observations-ratio','.5','--filename','x','--object-width-n','3'],T),
                    ('where',['--cull-rad-off-center=-3','--where','1','2'],T),('legend',['--cull-left-of','1'],T.replace('x y level','y x level')),('ratio',['--cull-random-observations-ratio','7','--object-width-n','3'],T)):
        refuse(ctx,'cull/refuse-'+nm,cli.run('mrcal-cull-corners',*a,stdin=si))

def bash(tool,*a,stdin='',cwd='.'):
    import subprocess
    p=subprocess.run([os.path.join(B,tool),*a],input=stdin,capture_output=True,text=True,timeout=60,cwd=cwd)
    return cli.Result(p.returncode,p.stdout,p.stderr,False)
def j_rotate(ctx,rng):
    import re
    os.makedirs('glob'); 
    for f in ('camX','cam0','00'): open('glob/'+f,'w')
    for it in range(ctx.n(26,300)):
        N=int(rng.choice((2,3,5,10))); n=names(rng,int(rng.integers(1,7))); T=table(rng,N,N,n); opts=[]; sel=[]
        pats=('cam0','cam[12]','cam1','frame','00','^x0','cam[02]?','zzz','/cam2/','cam*','cam.')
        for _ in range(int(rng.integers(0,4))):
            w=str(rng.choice(('90','180','270'))); p=str(rng.choice(pats)); opts+=[f'--{w}',p]; sel.append((w,p))
        a=(['--gridn',str(N)] if N!=10 or rng.uniform()<.5 else [])+opts
        if rng.uniform()<.5: a=opts+a[:len(a)-len(opts)]
        r=bash('mrcal-rotate-corners',*a,stdin=text(T,rng),cwd='glob'); ctx.case('rotate',key=(N,tuple(sorted(w for w,_ in sel))),args=' '.join(a))
        if not ctx.ok(r.rc==0,'rotate/fails',f'{a} {r}'): continue
        L=data(r.out); got={}
        for x in L: got.setdefault(x[0],[]).append(x[1:])
        ctx.ok([x[0] for x in L]==[x for k in got for x in [k]*len(got[k])],'rotate/contiguous','')
        if not ctx.ok(set(got)==set(n),'rotate/names',''): continue
        leg=[x for x in r.out.splitlines() if x.startswith('#')]; ctx.ok(leg==['# filename x y level'],'rotate/legend',str(leg))
        for x,rows in T:
            if rows is None: ctx.ok(got[x]==[['-','-','-']],'rotate/missing',str(got[x])); continue
            rot=None
            for w in ('90','270','180'):
                if any(ww==w and re.search(p,x) for ww,p in sel): rot=w; break
            if len(set(w for w,p in sel if re.search(p,x)))>1: continue
            g=np.arange(N*N).reshape(N,N)   # [y,x]: the original corner at this place in the output
            # the camera was rotated: undo it. The corner that came in at (ix,iy) leaves at index (N-1-ix)*N+iy for 90 degrees
            g={'90':np.rot90(g,1),'180':np.rot90(g,2),'270':np.rot90(g,3),None:g}[rot].ravel()
            ctx.ok(got[x]==[list(rows[i]) for i in g],'rotate/order',f'{rot} {x}: {got[x][:4]} expected {[rows[i] for i in g][:4]}')
    T=table(rng,3,3,['a0','a1','a2'],pmiss=0)
    refuse(ctx,'rotate/refuse-gridn',bash('mrcal-rotate-corners','--gridn','4',stdin=text(T))); refuse(ctx,'rotate/refuse-opt',bash('mrcal-rotate-corners','--45','x',stdin=text(T))); refuse(ctx,'rotate/refuse-extra',bash('mrcal-rotate-corners','--gridn','3','x',stdin=text(T)))
    for i in range(3):
        S=[(n,list(r)) for n,r in T]; S[i][1].pop(); refuse(ctx,'rotate/refuse-short',bash('mrcal-rotate-corners','--gridn','3',stdin=text(S)),key=i)
    refuse(ctx,'rotate/refuse-nofilename',bash('mrcal-rotate-corners','--gridn','3',stdin='# f x y level\na 1 2 3\n'))

# -------------------------------------------------------------- within
def inside(q,c):
    '''even-odd, and the distance to the contour'''
    a,b=c[:-1],c[1:]; y=q[:,None,1]; x=q[:,None,0]
    with np.errstate(all='ignore'): cr=((a[:,1]>y)!=(b[:,1]>y))&(x<(b[:,0]-a[:,0])*(y-a[:,1])/(b[:,1]-a[:,1])+a[:,0])
    d=b-a; l2=np.maximum((d*d).sum(-1),1e-30); t=np.clip(((q[:,None]-a)*d).sum(-1)/l2,0,1); dd=np.linalg.norm(q[:,None]-(a+t[...,None]*d),axis=-1).min(-1)
    return cr.sum(-1)%2==1,dd
def j_within(ctx,rng):
    for it in range(ctx.n(32,300)):
        sz=(int(rng.integers(100,4000)),int(rng.integers(100,3000))); c=region(rng,sz); m=save(model(rng,imagersize=sz,vir=c),f'm{it}.cameramodel'); c=m.valid_intrinsics_region()
        n=int(rng.choice((1,2,9,60,300))); q=np.round(rng.uniform(-.1,1.1,(n,2))*np.array(sz),3); s,d=inside(q,c)
        cols=['x','y']; names_=[str(x) for x in rng.permutation(['px','py'])]; extra=[['name','w.w','filename'],['xx','py2'],[]][int(rng.integers(3))]; allc=[str(x) for x in rng.permutation(names_+extra)]
        out=str(rng.choice(('ok','in-region'))) if rng.uniform()<.5 else None; com=rng.uniform()<.4
        rows=[{**{e:f'{e}{i}' for e in extra},names_[0]:str(q[i,0]),names_[1]:str(q[i,1])} for i in range(n)]
        txt=('## first\n' if com else '')+'# '+' '.join(allc)+'\n'+''.join(' '.join(r[k] for k in allc)+'\n'+('## c\n' if com and rng.uniform()<.2 else '') for r in rows)
        r=cli.run('mrcal-is-within-valid-intrinsics-region','--cols-xy',*names_,*(['--col-output',out] if out else []),f'm{it}.cameramodel',stdin=txt); ctx.case('within',key=(n,len(extra),out,bool(com)))
        if not ctx.ok(r.rc==0,'within/fails',str(r)): continue
        L=data(r.out); leg=[x for x in r.out.splitlines() if x.startswith('#') and not x.startswith('##')]
        ctx.ok(leg==['# '+' '.join(allc+[out or 'is-within-valid-intrinsics-region'])],'within/legend',str(leg))
        if not ctx.ok(len(L)==n,'within/rows',f'{len(L)} rows of {n}; comments: {com}'): continue
        for i in range(n):
            ctx.ok(L[i][:-1]==[rows[i][k] for k in allc],'within/columns',f'{L[i]}')
            if d[i]>1e-2: ctx.ok(L[i][-1]==str(int(s[i])),'within/value',f'{q[i]} at {d[i]} from the contour; reported {L[i][-1]} ')
    m=save(model(rng,imagersize=(100,100)),'n.cameramodel'); refuse(ctx,'within/refuse-noregion',cli.run('mrcal-is-within-valid-intrinsics-region','--cols-xy','x','y','n.cameramodel',stdin='# x y\n1 2\n'))
    refuse(ctx,'within/refuse-nocols',cli.run('mrcal-is-within-valid-intrinsics-region','--cols-xy','x','z','m0.cameramodel',stdin='# x y\n1 2\n')); refuse(ctx,'within/refuse-nomodel',cli.run('mrcal-is-within-valid-intrinsics-region','--cols-xy','x','y','nosuch',stdin='# x y\n1 2\n'))

# -------------------------------------------------------------- fov
def j_fov(ctx,rng):
    import re
    for it in range(ctx.n(24,300)):
        k=int(rng.choice((1,1,2,3))); ms=[]
        for i in range(k):
            lm=None
            if rng.uniform()<.4: lm=str(rng.choice(('LENSMODEL_OPENCV8','LENSMODEL_LATLON','LENSMODEL_LONLAT','LENSMODEL_CAHVOR')))
            ms.append(save(model(rng,lm,strength=float(rng.choice((.5,3.,9.)))),f'm{it}_{i}.cameramodel'))
        fs=[f'm{it}_{i}.cameramodel' for i in range(k)]; st=k==1 and rng.uniform()<.3
        r=cli.run('mrcal-report-fov',*(['-'] if st else fs),stdin=open(fs[0]).read() if st else None); ctx.case('fov',key=(k,tuple(m.intrinsics()[0][:14] for m in ms)))
        if not ctx.ok(r.rc==0,'fov/fails',str(r)): continue
        sec=r.out.split('=====\n') if k>1 else [None,r.out]; sec=sec[1:]
        if k>1: ctx.ok(re.findall(r'^=+ (.*) =+$',r.out,re.M)==fs,'fov/names',r.out[:200])
        for m,t in zip(ms,sec):
            W,H=m.imagersize(); cx,cy=m.intrinsics()[1][2:4]
            def ang(q):
                v=mrcal.unproject(np.array(q,float),*m.intrinsics()); v=v[np.isfinite(v).all(-1)]; c=v[:,2]/np.linalg.norm(v,axis=-1); return np.degrees(np.arccos(np.clip(c,-1,1)))
            for w,q in (('vertically',((cx,0),(cx,H-1))),('horizontally',((0,cy),(W-1,cy))),('corner-corner',((0,0),(0,H-1),(W-1,0),(W-1,H-1)))):
                a=ang(q); g=re.findall(rf'Mean FOV {w}: +(.*?)(?:degrees)?$',t,re.M)
                if len(a)==0: ctx.case('fov',key='undefined'); ctx.ok(g==['undefined'],'fov/undefined',f'{g}'); continue
                if ctx.ok(len(g)==1 and g[0]!='undefined','fov/output',t): ctx.close(float(g[0]),2*np.mean(a),'fov/'+w,atol=.0051+1e-4,rtol=0)
    refuse(ctx,'fov/refuse',cli.run('mrcal-report-fov','nosuch.cameramodel'))

# -------------------------------------------------------------- convert
def sgrid(sz,gridn,radius,where):
    W,H=sz; q=np.stack(np.meshgrid(np.linspace(0,W-1,gridn[0]),np.linspace(0,H-1,gridn[1])),-1).reshape(-1,2)
    if radius==0: return q
    c=(np.array((W,H))-1)/2 if where is None else np.array(where); r=radius if radius>0 else np.hypot(W,H)/2+radius
    return q[np.hypot(*(q-c).T)<r]
def j_convert(ctx,rng):
    import re
    for it in range(ctx.n(14,120)):
        d=f'd{it}'; os.makedirs(d); sz=(int(rng.integers(600,2000)),int(rng.integers(500,1500)))
        lf=str(rng.choice(('LENSMODEL_PINHOLE','LENSMODEL_OPENCV4','LENSMODEL_OPENCV5','LENSMODEL_CAHVOR','LENSMODEL_STEREOGRAPHIC'))); lt=str(rng.choice([x for x in ('LENSMODEL_OPENCV4','LENSMODEL_OPENCV5','LENSMODEL_OPENCV8','LENSMODEL_PINHOLE','LENSMODEL_CAHVOR','LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=10_Ny=8_fov_x_deg=100') if x!=lf]))
        i=intr(rng,lf,sz,strength=.3); i[:2]=sz[0]*rng.uniform(.6,.9)
        m=save(mrcal.cameramodel(intrinsics=(lf,i),imagersize=sz,rt_cam_ref=gen.rt(rng,'any')),d+'/m.cameramodel'); before=bytes_(d+'/m.cameramodel')
        io=rng.uniform()<.6; dist=None if io and rng.uniform()<.5 else [float(x) for x in rng.choice((2.,5.,100.,1000.),2,replace=False)]; radius=[None,0,300,-150][int(rng.integers(4))]; where=[float(x) for x in np.round(np.array(sz)*rng.uniform(.4,.6,2))] if radius==300 and rng.uniform()<.5 else None
        gridn=(int(rng.integers(12,30)),int(rng.integers(10,25))); od=d+'/out'; os.makedirs(od)
        o=['--sampled','--gridn',*gridn]+(['--intrinsics-only'] if io else [])+(['--distance',','.join(str(x) for x in dist)] if dist else [])+([f'--radius={radius}'] if radius is not None else [])+(['--where',*where] if where else [])
        w=int(rng.integers(3)); o+=['--outdir',od] if w==1 else []; a=[lt]+([d+'/m.cameramodel'] if w<2 else ['-'])
        r=cli.run('mrcal-convert-lensmodel',*o,*a,stdin=open(d+'/m.cameramodel').read() if w==2 else None,timeout=120); ctx.case('convert',key=(lf[10:],lt[10:18],bool(io),radius,w),args=' '.join(str(x) for x in o+a))
        if not ctx.ok(r.rc==0,'convert/fails',f'{lf} {lt} {o} {r}'): continue
        fo=f'{od if w==1 else d}/m-{lt}.cameramodel'
        with ctx.guard('convert/output'):
            out=read(r.out) if w==2 else mrcal.cameramodel(fo); ctx.ok(bytes_(d+'/m.cameramodel')==before,'convert/input-changed','')
            ctx.ok(out.intrinsics()[0]==lt,'convert/lensmodel',''); ctx.same(np.array(out.imagersize()),np.array(m.imagersize()),'convert/imagersize')
            rr=radius if radius is not None else (-min(sz))//4; q=sgrid(sz,gridn,rr,where); D=dist or [10.]
            Timp=pose(out)@np.linalg.inv(pose(m))
            if io: samepose(ctx,pose(out),pose(m),'convert/extrinsics')
            e=[]
            for x in D:
                p=mrcal.unproject(q,*m.intrinsics(),normalize=True)*x; p=p[np.isfinite(p).all(-1)]; qq=q[:len(p)]
                e.append(mrcal.project(p@Timp[:3,:3].T+Timp[:3,3],*out.intrinsics())-qq)
            rms=np.sqrt(np.mean(np.concatenate(e)**2)); g=re.findall(r'RMS error of this solution: (\S+) pixels',r.err)
            # the error reported is that of the optimization problem, at the model written
            P=np.concatenate([(lambda p: p[np.isfinite(p).all(-1)])(mrcal.unproject(q,*m.intrinsics(),normalize=True)*x) for x in D]); Q=np.concatenate([q]*len(D)); idx=np.zeros((len(P),3),np.int32); idx[:,0]=range(len(P)); idx[:,2]=-1 if io else 0
            x=mrcal.optimizer_callback(intrinsics=np.array(out.intrinsics()[1])[None],lensmodel=lt,imagersizes=np.array([sz],np.int32),rt_cam_ref=None if io else ref_rt(Timp)[None],rt_ref_frame=None,points=np.ascontiguousarray(P),observations_board=None,indices_frame_camintrinsics_camextrinsics=None,
                                       observations_point=np.hstack((Q,np.ones((len(Q),1)))),indices_point_camintrinsics_camextrinsics=idx,do_optimize_intrinsics_core='SPLINED' not in lt,do_optimize_intrinsics_distortions=True,do_optimize_extrinsics=not io,do_optimize_frames=False,no_jacobian=True,no_factorization=True)[1]
            if ctx.ok(len(g)==1,'convert/report',r.err): ctx.close(float(g[0]),np.sqrt(np.mean(x*x)),'convert/rms',atol=2e-5+1e-4*rms,rtol=0,msg=f'{lf} {lt} {o}')
            superset=(lf=='LENSMODEL_PINHOLE' or lf<=lt) and 'OPENCV' in lt and lf!='LENSMODEL_STEREOGRAPHIC' and lf!='LENSMODEL_CAHVOR' and io
            if superset: ctx.ok(rms<.02,'convert/accuracy',f'{lf} -> {lt}: {rms} pixels')
            else: ctx.ok(rms<250,'convert/accuracy',f'{lf} -> {lt}: {rms} pixels')
            # existing outputs
            if w<2:
                b4=bytes_(fo); r=cli.run('mrcal-convert-lensmodel',*o,*a); refuse(ctx,'convert/refuse-exists',r,[(fo,b4)],key=it)
                if it%3==0: r=cli.run('mrcal-convert-lensmodel','--force',*o,*a); ctx.ok(r.rc==0 and bytes_(fo)!=b4,'convert/force',str(r))
    os.makedirs('r'); m=save(model(rng,'LENSMODEL_OPENCV4',(640,480),strength=.1),'r/m.cameramodel'); L='LENSMODEL_OPENCV5'
    for nm,a in (('nooi',[L]),('nodistance',['--sampled',L]),('badmodel',['--sampled','--intrinsics-only','LENSMODEL_FOO']),('badconfig',['--sampled','--intrinsics-only','LENSMODEL_SPLINED_STEREOGRAPHIC_order=3']),
                 ('where',['--sampled','--intrinsics-only','--radius=-10','--where','3','4',L]),('where2',['--sampled','--intrinsics-only','--where','3','4',L]),('intrinsics-only',['--intrinsics-only',L]),('distance',['--sampled','--distance','1,x',L]),('outdir',['--sampled','--intrinsics-only','--outdir','r/nosuch',L]),('empty',['--sampled','--intrinsics-only','--radius=-3000',L])):
        refuse(ctx,'convert/refuse-'+nm,cli.run('mrcal-convert-lensmodel',*a,'r/m.cameramodel',timeout=120),[('r/m-'+L+'.cameramodel',None)])
    refuse(ctx,'convert/refuse-missing',cli.run('mrcal-convert-lensmodel','--sampled','--intrinsics-only',L,'r/nosuch'))

# -------------------------------------------------------------- convert, by re-solving
def solved(rng,lm='LENSMODEL_OPENCV4',Ncam=3,noise=.1,**k):
    oi=prob.make(rng,**{**dict(lensmodel=lm,Ncam=Ncam,Nframes=12,WH=(7,6),select={x:True for x in prob.SEL},noise=noise,outliers=0.,visible=.9,imagersize=(1500,1100),strength=.2,jitter=.001),**k})
    oi['do_optimize_calobject_warp']=oi.get('calobject_warp') is not None
    mrcal.optimize(**oi,do_apply_outlier_rejection=False,do_apply_regularization=True)
    return [mrcal.cameramodel(optimization_inputs=oi,icam_intrinsics=i) for i in range(len(oi['intrinsics']))],oi
def world_err(a,b,oi,icam):
    """how differently do these project the corners this camera observed?"""
    o=oi['observations_board']; i=oi['indices_frame_camintrinsics_camextrinsics'][:,1]==icam; o=o[i].reshape(-1,3); q=o[o[:,2]>0,:2]
    e=[]
    for d in (1.5,2.5):
        p=mrcal.unproject(q,*a.intrinsics(),normalize=True)*d; pw=mrcal.transform_point_rt(mrcal.invert_rt(a.rt_cam_ref()),p)
        e.append(np.linalg.norm(mrcal.project(mrcal.transform_point_rt(b.rt_cam_ref(),pw),*b.intrinsics())-q,axis=-1))
    return np.concatenate(e)
def j_full(ctx,rng):
    import re
    for it in range(ctx.n(6,40)):
        d=f'd{it}'; os.makedirs(d); Nc=1 if it%5==4 else int(rng.integers(2,4)); lf=str(rng.choice(('LENSMODEL_OPENCV4','LENSMODEL_PINHOLE','LENSMODEL_OPENCV5'))); lt=str(rng.choice([x for x in ('LENSMODEL_OPENCV4','LENSMODEL_OPENCV5','LENSMODEL_OPENCV8','LENSMODEL_CAHVOR') if x!=lf and (lf=='LENSMODEL_PINHOLE' or x>lf or x=='LENSMODEL_CAHVOR')]+(['LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=8_Ny=7_fov_x_deg=90'] if it%3==1 else [])))
        ms,oi=solved(rng,lf,Nc,cameras=str(rng.choice(('cam0-ref','all'))))
        ic=int(rng.integers(Nc)); m=save(ms[ic],d+'/m.cameramodel'); mode=('','--monocular','--all')[it%3]; rad=[None,400,0][int(rng.integers(3))]
        o=([mode] if mode else [])+([f'--radius={rad}'] if rad is not None else []); w=mode!='--all' and rng.uniform()<.3; a=[lt,'-' if w else d+'/m.cameramodel']
        if it%2 and not w:
            os.makedirs(d+'/o'); o+=['--outdir',d+'/o']
        od=d+'/o' if '--outdir' in o else d
        r=cli.run('mrcal-convert-lensmodel',*o,*a,stdin=open(d+'/m.cameramodel').read() if w else None,timeout=200); ctx.case('full',key=(lf[10:],lt[10:18],mode,rad,Nc,w),args=' '.join(str(x) for x in o+a))
        if not ctx.ok(r.rc==0,'full/fails',f'{lf} {lt} {o} {r}'): continue
        with ctx.guard('full/output'):
            allc=mode=='--all' and Nc>1; fs=[f'{od}/m-{lt}{"-%02d"%i if allc else ""}.cameramodel' for i in (range(Nc) if allc else [ic])]
            outs=[read(r.out)] if w else [mrcal.cameramodel(f) for f in fs]; g=re.findall(r'RMS error of the solution: (\S+) pixels',r.err)
            for k,(i,out) in enumerate(zip(range(Nc) if allc else [ic],outs)):
                ctx.ok(out.intrinsics()[0]==lt,'full/lensmodel',''); ctx.same(np.array(out.imagersize()),np.array(ms[i].imagersize()),'full/imagersize')
                oo=out.optimization_inputs()
                if not ctx.ok(oo is not None,'full/optimization_inputs',''): continue
                ctx.ok(oo['lensmodel']==lt and len(oo['intrinsics'])==(1 if mode=='--monocular' else Nc),'full/optimization_inputs',''); ctx.close(oo['intrinsics'][out.icam_intrinsics()],out.intrinsics()[1],'full/intrinsics',atol=1e-7)
                ob=oi['observations_board']; ib=oi['indices_frame_camintrinsics_camextrinsics']; wanted=ob[ib[:,1]==ic] if mode=='--monocular' else ob
                ctx.ok(oo['observations_board'].shape==wanted.shape and np.array_equal(oo['observations_board'][...,:2],wanted[...,:2]),'full/observations','the observations were changed')
                if oo['observations_board'].shape==wanted.shape:
                    dead=oo['observations_board'][...,2]<=0; far=np.linalg.norm(wanted[...,:2]-((np.array(oi['imagersizes'][ib[:,1]] if mode!='--monocular' else [oi['imagersizes'][ic]]*len(wanted))-1)/2)[:,None,None],axis=-1)>(rad or 1e9)
                    ctx.ok(np.all(dead[far]) and np.mean(dead[~far])<.03,'full/culled',f'{np.mean(dead[~far])}')
                x=mrcal.optimizer_callback(**{**oo,'verbose':False},no_jacobian=True,no_factorization=True)[1]
                if ctx.ok(len(g)==1,'full/report',r.err): ctx.close(float(g[0]),np.sqrt(np.mean(x*x)),'full/rms',atol=1e-5,rtol=1e-3)
                ctx.ok(np.sqrt(np.mean(x*x))<.25,'full/fit',f'{lf}->{lt} {o}: {np.sqrt(np.mean(x*x))}')
                if not allc:
                    e=world_err(ms[i],out,oi,i) if rad!=400 else world_err_rad(ms[i],out,oi,i,400); ctx.close(np.median(e),0,'full/world',atol=3.,rtol=0,msg=f'{lf}->{lt} {o}: the converted model must project the world like the original')
                else:
                    # all of them together: the relative geometry is what it was
                    for j in range(Nc): ctx.close((np.linalg.inv(pose(ms[j]))@pose(ms[i]))[:3,3],(np.linalg.inv(pose(outs[j]))@pose(out))[:3,3],'full/all-relative',atol=.02,rtol=0)
            if not w:
                b4=[(f,bytes_(f)) for f in fs]; os.unlink(fs[0]) if len(fs)>1 else None; b4=[(f,bytes_(f) if os.path.exists(f) else None) for f,_ in b4]
                refuse(ctx,'full/refuse-exists',cli.run('mrcal-convert-lensmodel',*o,*a,timeout=200),b4,key=it)
def world_err_rad(a,b,oi,icam,rad):
    oi=dict(oi); ob=np.array(oi['observations_board']); c=(np.array(oi['imagersizes'][icam])-1)/2; ob[np.linalg.norm(ob[...,:2]-c,axis=-1)>rad*.8,2]=-1; oi['observations_board']=ob
    return world_err(a,b,oi,icam)

# -------------------------------------------------------------- images
def picture(rng,sz,color=False,smooth=True):
    W,H=sz; s=(H,W,3) if color else (H,W)
    if not smooth: return rng.integers(0,256,s,dtype=np.uint8)
    import scipy.ndimage
    a=rng.uniform(0,1,s); a=scipy.ndimage.gaussian_filter(a,(1.5,1.5,0) if color else 1.5); a=(a-a.min())/(a.max()-a.min())
    return (a*255).astype(np.uint8)
def fitm(rng,lm,sz,kind,f=None):
    i=intr(rng,lm,sz,strength=.3); i[:2]=sz[0]*(rng.uniform(.6,.9) if f is None else f); i[2:4]=(np.array(sz)-1)/2
    return mrcal.cameramodel(intrinsics=(lm,i),imagersize=sz,rt_cam_ref=kind)
LM=('LENSMODEL_PINHOLE','LENSMODEL_OPENCV4','LENSMODEL_OPENCV5','LENSMODEL_CAHVOR','LENSMODEL_STEREOGRAPHIC')
def j_image(ctx,rng):
    for it in range(ctx.n(40,400)):
        d=f'd{it}'; os.makedirs(d); sz=[(int(rng.integers(40,90)),int(rng.integers(30,80))) for _ in range(2)]
        rt0=gen.rt(rng,'any'); ms=[save(fitm(rng,str(rng.choice(LM)),sz[i],rt0 if i==0 else mrcal.compose_rt(gen.small_pose(rng,.15,.3),rt0)),f'{d}/m{i}.cameramodel') for i in range(2)]
        vir=rng.uniform()<.3
        if vir:
            for i in range(2): ms[i].valid_intrinsics_region(region(rng,sz[i])); ms[i]=save(ms[i],f'{d}/m{i}.cameramodel')
        mode=('pin1','to','pin2')[it%3]; col=bool(rng.uniform()<.4); N=int(rng.integers(1,4)); ext=str(rng.choice(('.png','.jpg')))
        ims=[[f'{d}/im{j}-cam{i}{ext}' for j in range(N)] for i in range(2)]
        for i in range(2):
            for f in ims[i]: mrcal.save_image(f,picture(rng,sz[i],col))
        o=[]; kw={}; pk={}
        if mode!='pin1':
            w=int(rng.integers(4))
            if w==0: o+=['--intrinsics-only']; kw['intrinsics_only']=True
            elif w==1: x=float(np.round(rng.uniform(2,20),2)); o+=['--distance',x]; kw['distance']=x
            elif w==2: n=np.round(np.array((rng.uniform(-.2,.2),rng.uniform(-.2,.2),1.))*rng.uniform(.5,3),3); x=float(np.round(rng.uniform(3,9),2)); o+=['--plane-n',*n,'--plane-d',x]; kw.update(plane_n=n,plane_d=x)
        if mode!='to':
            o+=['--to-pinhole']; w=int(rng.integers(6))
            if w==0: x=float(np.round(rng.uniform(.5,2),2)); o+=['--scale-focal',x]; pk['scale_focal']=x
            elif w in(1,2,3): x=str(rng.choice(('corners','centers-horizontal','centers-vertical'))); o+=['--fit',x]; pk['fit']=x
            elif w==4: q=np.round(rng.uniform(0,30,(int(rng.integers(2,4)),2)),int(rng.integers(0,2))); o+=['--fit',','.join(str(float(x)) if rng.uniform()<.5 or x!=int(x) else str(int(x)) for x in q.ravel())]; pk['fit']=q
            if rng.uniform()<.4: x=float(np.round(rng.uniform(.5,1.5),2)); o+=['--scale-image',x]; pk['scale_image']=x
        mask=vir and rng.uniform()<.5; ann=vir and not mask and rng.uniform()<.7
        if mask: o+=['--mask-valid-intrinsics-region']
        if ann: o+=['--valid-intrinsics-region']
        od=d
        if rng.uniform()<.5: od=d+'/out'; os.makedirs(od); o+=['--outdir',od]
        if rng.uniform()<.25: o+=['-j',2]
        try: tgt=mrcal.pinhole_model_for_reprojection(ms[1] if mode=='pin2' else ms[0],pk.get('fit'),scale_focal=pk.get('scale_focal'),scale_image=pk.get('scale_image')) if mode!='to' else ms[1]
        except Exception as e: continue
        g=[f'{d}/im*-cam{i}{ext}' for i in range(2)]
        a={'pin1':[d+'/m0.cameramodel',*(ims[0] if rng.uniform()<.5 else [g[0]])],'to':[d+'/m0.cameramodel',d+'/m1.cameramodel',g[0]],'pin2':[d+'/m0.cameramodel',d+'/m1.cameramodel',*g]}[mode]
        r=cli.run('mrcal-reproject-image',*o,*a,timeout=120); ctx.case('image',key=(mode,tuple(sorted(str(x) for x in o if str(x).startswith('--'))),col,ext),args=' '.join(str(x) for x in o))
        if not ctx.ok(r.rc==0,'image/fails',f'{o} {r}'): continue
        with ctx.guard('image/output'):
            if mode=='to': ctx.ok(r.out.strip()=='','image/stdout',r.out[:300])
            else:
                p=read(r.out); sameintr(ctx,p,tgt,'image/pinhole'); samepose(ctx,pose(p),pose(ms[1] if mode=='pin2' else ms[0]),'image/pinhole-extrinsics')
            todo=[(ms[0],tgt,ims[0],{'pin1':'reprojected','to':'reprojected','pin2':'pinhole-remapped'}[mode],kw)]
            if mode=='pin2': todo.append((ms[1],tgt,ims[1],'pinhole',{}))
            outs=[]
            for mf,mt,fs,suf,k in todo:
                hasr=mf.valid_intrinsics_region() is not None
                if not hasr and (mask or ann): continue
                mp=mrcal.image_transformation_map(mf,mt,**{**dict(intrinsics_only=False,distance=None,plane_n=None,plane_d=None),**k}); edge=None
                if mask: s_,d_=inside(mp.reshape(-1,2).astype(float),mf.valid_intrinsics_region()); s_=s_.reshape(mp.shape[:2]); edge=(d_<1e-3).reshape(s_.shape); mp[~s_]=-1
                for f in fs:
                    fo=f'{od}/{os.path.basename(f)[:-4]}-{suf}{ext}'; outs.append(fo); im=mrcal.load_image(f)
                    if ann: mrcal.annotate_image__valid_intrinsics_region(im,mf)
                    want=mrcal.transform_image(im,mp)
                    if not ctx.ok(os.path.exists(fo),'image/missing',fo): continue
                    got=mrcal.load_image(fo)
                    if mask:
                        ctx.case('image',key=('masked',mode)); want[~s_]=0
                        if ext=='.png' and got.shape==want.shape: got[edge]=want[edge]
                    if ext=='.jpg': mrcal.save_image('want.jpg',want); want=mrcal.load_image('want.jpg')
                    ctx.ok(got.shape==want.shape and np.array_equal(got,want),'image/pixels',f'{mode} {o}: {np.max(np.abs(got.astype(int)-want)) if got.shape==want.shape else got.shape}')
            new=sorted(x for x in os.listdir(od) if '-reprojected' in x or '-pinhole' in x); 
            if len(outs)==sum(len(t[2]) for t in todo): ctx.ok(new==sorted(os.path.basename(x) for x in outs),'image/files',f'{new}')
            if it%4==0 and outs:
                keep=outs[int(rng.integers(len(outs)))]; open(keep,'wb').write(b'mine'); 
                for x in outs:
                    if x!=keep: os.unlink(x)
                refuse(ctx,'image/refuse-exists',cli.run('mrcal-reproject-image',*o,*a),[(keep,b'mine')],key=it)
                r=cli.run('mrcal-reproject-image','--force',*o,*a); ctx.ok(r.rc==0 and bytes_(keep)!=b'mine','image/force',str(r))
    os.makedirs('r'); sz=(60,50); m=save(fitm(rng,'LENSMODEL_OPENCV4',sz,gen.rt(rng)),'r/m.cameramodel'); mrcal.save_image('r/i.png',picture(rng,sz)); mrcal.save_image('r/small.png',picture(rng,(50,50))); open('r/bad.png','w').write('junk'); mrcal.save_image('r/j.png',picture(rng,sz))
    M='r/m.cameramodel'
    for nm,a in (('nothing',[M,'r/i.png']),('noimage',['--to-pinhole',M,'r/nosuch*.png']),('small',['--to-pinhole',M,'r/small.png']),('bad',['--to-pinhole',M,'r/bad.png']),('bad-some',['--to-pinhole',M,'r/bad.png','r/i.png']),('bad-j2',['--to-pinhole','-j','2',M,'r/bad.png','r/i.png']),('small-j2',['--to-pinhole','-j','2','-f',M,'r/i.png','r/small.png']),
                 ('fit-focal',['--to-pinhole','--fit','corners','--scale-focal','2',M,'r/i.png']),('fit-nopin',['--fit','corners',M,M,'r/i.png']),('fit-odd',['--to-pinhole','--fit','1,2,3',M,'r/i.png']),('fit-one',['--to-pinhole','--fit','1,2',M,'r/i.png']),('fit-junk',['--to-pinhole','--fit','1,2,x,4',M,'r/i.png']),
                 ('plane-half',['--plane-d','2',M,M,'r/i.png']),('plane-io',['--plane-n','0','0','1','--plane-d','2','--intrinsics-only',M,M,'r/i.png']),('dist-io',['--distance','2','--intrinsics-only',M,M,'r/i.png']),('io-one',['--to-pinhole','--intrinsics-only',M,'r/i.png']),('plane-one',['--to-pinhole','--plane-n','0','0','1','--plane-d','2',M,'r/i.png']),('three',[M,M,M,'r/i.png']),
                 ('globs',['--to-pinhole',M,M,'r/i.png']),('scale',['--to-pinhole','--scale-image','0',M,'r/i.png']),('noregion',['--to-pinhole','-f','--mask-valid-intrinsics-region',M,'r/i.png']),('annregion',['--to-pinhole','-f','--valid-intrinsics-region',M,'r/i.png']),('annregion-j',['-j','2','--to-pinhole','-f','--valid-intrinsics-region',M,'r/i.png','r/j.png']),('nomodel',['--to-pinhole','r/nosuch','r/i.png']),('outdir',['--to-pinhole','--outdir','r/nosuch',M,'r/i.png'])):
        for x in os.listdir('r'):
            if 'reproj' in x: os.unlink('r/'+x)
        refuse(ctx,'image/refuse-'+nm,cli.run('mrcal-reproject-image',*a))

# -------------------------------------------------------------- stereo
def ply(f):
    b=open(f,'rb').read(); h,rest=b.split(b'end_header\n',1); h=h.decode().splitlines()
    n=[int(l.split()[2]) for l in h if l.startswith('element vertex')][0]; T={'float':'<f4','float32':'<f4','double':'<f8','uchar':'u1','uint8':'u1'}
    dt=np.dtype([(l.split()[2],T[l.split()[1]]) for l in h if l.startswith('property')]); a=np.frombuffer(rest,dt); assert len(a)==n; return a
def stereo_pair(rng,sz,d,lm=None,col=False,toed=.05):
    rt0=gen.rt(rng,'any'); ms=[fitm(rng,lm or str(rng.choice(LM[:4])),sz[i],rt0 if i==0 else mrcal.compose_rt(np.concatenate((rng.uniform(-toed,toed,3),np.array((-rng.uniform(.2,.5),rng.uniform(-.02,.02),rng.uniform(-.02,.02))))),rt0),f=.8) for i in range(2)]
    return [save(m,f'{d}/m{i}.cameramodel') for i,m in enumerate(ms)]
def observe(rng,ms,z,sz,col):
    '''pictures of a textured plane, z away from camera 0'''
    tex=picture(rng,(sz[0][0],sz[0][1]),col); mp=mrcal.image_transformation_map(ms[0],ms[1],plane_n=np.array((0,0,1.)),plane_d=z)
    return [tex,mrcal.transform_image(tex,mp)]
def j_stereo(ctx,rng):
    import cv2
    for it in range(ctx.n(26,240)):
        d=f'd{it}'; os.makedirs(d); sz=[(int(rng.integers(120,180)),int(rng.integers(90,130))) for _ in range(2)]; ms=stereo_pair(rng,sz,d)
        rect=str(rng.choice(('LENSMODEL_LATLON','LENSMODEL_PINHOLE'))); az,el=float(np.round(rng.uniform(30,50),1)),float(np.round(rng.uniform(20,35),1)); o=['--az-fov-deg',az,'--el-fov-deg',el,'--rectification',rect]; kw=dict(az_fov_deg=az,el_fov_deg=el,rectification_model=rect)
        if rng.uniform()<.4: x=float(np.round(rng.uniform(-3,3),1)); o.append(f'--az0-deg={x}'); kw['az0_deg']=x
        if rng.uniform()<.4: x=float(np.round(rng.uniform(-3,3),1)); o.append(f'--el0-deg={x}'); kw['el0_deg']=x
        kw.update(pixels_per_deg_az=-1,pixels_per_deg_el=-1)
        w=int(rng.integers(3))
        if w==0: x=float(np.round(rng.uniform(2,5),2)); o.append(f'--pixels-per-deg={x}'); kw.update(pixels_per_deg_az=x,pixels_per_deg_el=x)
        elif w==1 and rect=='LENSMODEL_LATLON': x,y=float(np.round(rng.uniform(2,5),2)),-float(np.round(rng.uniform(.7,1.5),2)); o.append(f'--pixels-per-deg={x},{y}'); kw.update(pixels_per_deg_az=x,pixels_per_deg_el=y)
        if rng.uniform()<.3: x=float(np.round(rng.uniform(5,30),1)); o+=['--az-edge-margin-deg',x]; kw['az_edge_margin_deg']=x
        tag=None
        if rng.uniform()<.3: tag=str(rng.choice(('A','run 1'))); o+=['--tag',tag]
        T='' if tag is None else '-'+tag.replace(' ','_'); od=d+'/out'; os.makedirs(od); o+=['--outdir',od]; a=[f'{d}/m0.cameramodel',f'{d}/m1.cameramodel']
        try: mr=mrcal.rectified_system(ms,**kw)
        except Exception: continue
        kind=it%4
        if mr[0].imagersize()[0]<50: continue    # OpenCV's matcher reads uninitialized memory when the disparities reach the image width
        col=bool(rng.uniform()<.5); N=1
        if kind!=0:
            N=int(rng.choice((1,1,2))); fs=[[f'{d}/im{j}-c{i}.png' for j in range(N)] for i in range(2)]
            for j in range(N):
                for i,im in enumerate(observe(rng,ms,rng.uniform(4,9),sz,col)): mrcal.save_image(fs[i][j],im)
            a+=[fs[0][0],fs[1][0]] if N==1 else [f'{d}/im*-c{i}.png' for i in range(2)]
        lim=[1.,1000.]; eq=None; gray=False; pc=False; dr=(0,100); bs=5; sk={}; vir=False
        if kind!=0:
            if rng.uniform()<.4: gray=True; o.append('--force-grayscale')
            if rng.uniform()<.4: eq=str(rng.choice(('stretch','clahe') if gray or not col else ('stretch',))); o+=['--equalization',eq]; gray=True
            if rng.uniform()<.6: pc=True; o.append('--write-point-cloud')
            dr=(int(rng.integers(0,3)),int(rng.integers(14,max(15,min(60,mr[0].imagersize()[0]-28))))); o+=['--disparity-range',*dr]
            if rng.uniform()<.5: lim=[float(rng.integers(1,4)),float(rng.integers(5,30))]; o+=['--range-image-limits',*lim]
            bs=int(rng.choice((3,5,9))); o+=['--sgbm-block-size',bs]
            if rng.uniform()<.5: sk=dict(P1=50,P2=200,uniquenessRatio=3); o+=['--sgbm-p1',50,'--sgbm-p2',200,'--sgbm-uniqueness-ratio',3]
            if rng.uniform()<.3: sk['speckleWindowSize'],sk['speckleRange']=20,2; o+=['--sgbm-speckle-window-size',20,'--sgbm-speckle-range',2]
            if rng.uniform()<.3: sk['mode']=cv2.StereoSGBM_MODE_HH; o+=['--sgbm-mode','HH']
            if rng.uniform()<.3: sk['disp12MaxDiff']=1; o+=['--sgbm-disp12-max-diff',1]
            if N==2 and rng.uniform()<.6: o+=['-j',2]
        already=kind==3
        if already:
            # the models given are rectified
            i_=[x for x in range(len(o)) if str(o[x]).startswith(('--az','--el','--rect','--pixels'))]; drop=set(i_)|set(x+1 for x in i_ if '=' not in str(o[x])); o=[x for k,x in enumerate(o) if k not in drop]+['--already-rectified']
            for i in range(2): mr[i].write(f'{d}/m{i}.cameramodel'); 
            ms=mr=[mrcal.cameramodel(f'{d}/m{i}.cameramodel') for i in range(2)]
            for j in range(N):
                for i,im in enumerate(observe(rng,ms,rng.uniform(4,9),[m.imagersize() for m in ms],col)): mrcal.save_image(fs[i][j],im)
        r=cli.run('mrcal-stereo',*o,*a,timeout=120); ctx.case('stereo',key=(kind,rect,col,gray,eq,pc,N),args=' '.join(str(x) for x in o))
        if not ctx.ok(r.rc==0,'stereo/fails',f'{o} {r}'): continue
        with ctx.guard('stereo/output'):
            want=set()
            if not already:
                for i in range(2):
                    f=f'rectified{i}{T}.cameramodel'; want.add(f); m=mrcal.cameramodel(od+'/'+f); ctx.ok(m.intrinsics()[0]==mr[i].intrinsics()[0],'stereo/rectified',''); ctx.close(m.intrinsics()[1],mr[i].intrinsics()[1],'stereo/rectified',atol=1e-6,rtol=1e-8); samepose(ctx,pose(m),pose(mr[i]),'stereo/rectified-pose'); ctx.same(np.array(m.imagersize()),np.array(mr[i].imagersize()),'stereo/rectified-size')
            if kind==0: ctx.ok(set(os.listdir(od))==want,'stereo/files',str(os.listdir(od))); continue
            rm=mrcal.rectification_maps(ms,mr) if not already else None
            for j in range(N):
                im=[mrcal.load_image(fs[i][j]) for i in range(2)]; orig=im
                if gray: im=[np.floor(np.mean(x.astype(float),axis=-1)+1e-9).astype(np.uint8) if x.ndim==3 else x for x in im]
                if eq=='stretch': im=[((x-np.min(x))/(np.max(x)-np.min(x))*255.).astype(np.uint8) for x in im]
                if eq=='clahe': cl=cv2.createCLAHE(); cl.setClipLimit(8); im=[cl.apply(x) for x in im]
                ir=im if already else [mrcal.transform_image(im[i],rm[i]) for i in range(2)]
                b=[os.path.basename(fs[i][j])[:-4] for i in range(2)]
                if not already:
                    for i in range(2):
                        f=f'{b[i]}-rectified{T}.png'; want.add(f); g=mrcal.load_image(od+'/'+f); ok=g.shape==ir[i].shape; ctx.ok(ok and np.array_equal(g,ir[i]),'stereo/rectified-image',f'{o}: {g.shape} {ir[i].shape} {np.max(np.abs(g.astype(int)-ir[i])) if ok else ""}')
                        if ok: ir[i]=g
                nd=16*round((dr[1]-dr[0])/16); D=cv2.StereoSGBM_create(minDisparity=dr[0],numDisparities=nd,blockSize=bs,**sk).compute(*ir)
                f=f'{b[0]}-disparity-uint16-scale16{T}.png'; want.add(f); g=mrcal.load_image(od+'/'+f); ctx.ok(np.array_equal(g,D.astype(np.uint16)),'stereo/disparity',f'{o} {np.mean(g!=D.astype(np.uint16))}')
                R=mrcal.stereo_range(D,mr,disparity_scale=16,disparity_min=dr[0],disparity_max=dr[1])
                f=f'{b[0]}-range{T}.png'; want.add(f); ctx.ok(np.array_equal(mrcal.load_image(od+'/'+f),mrcal.apply_color_map(R,a_min=lim[0],a_max=lim[1])),'stereo/range','')
                f=f'{b[0]}-disparity{T}.png'; want.add(f); ctx.ok(np.array_equal(mrcal.load_image(od+'/'+f),mrcal.apply_color_map(D,a_min=dr[0]*16,a_max=dr[1]*16)),'stereo/disparity-image','')
                if pc:
                    f=f'{b[0]}-points{T}.ply'; want.add(f); g=ply(od+'/'+f); P=np.stack((g['x'],g['y'],g['z']),-1).astype(float)
                    H,W=R.shape; q=np.stack(np.meshgrid(np.arange(W,dtype=float),np.arange(H,dtype=float)),-1); v=mrcal.unproject(q,*mr[0].intrinsics(),normalize=True); p0=v*R[...,None]; good=(R>0).ravel()
                    pr=mrcal.transform_point_rt(mrcal.invert_rt(mr[0].rt_cam_ref()),p0.reshape(-1,3)); qc=mrcal.project(mrcal.transform_point_rt(ms[0].rt_cam_ref(),pr),*ms[0].intrinsics()); w,h=ms[0].imagersize()
                    edge=np.min(np.abs(np.stack((qc[:,0]+.5,qc[:,1]+.5,qc[:,0]-w+.5,qc[:,1]-h+.5))),axis=0)<1e-3
                    with np.errstate(all='ignore'): inb=good&np.isfinite(qc).all(-1)&(qc>-.5).all(-1)&(qc<np.array((w,h))-.5).all(-1)
                    c=ref.inv_T(pose(ms[0]))[:3,3]; nz=np.linalg.norm(P-c,axis=-1)<1e-3
                    ctx.ok(not nz.any(),'stereo/points-invalid',f'{nz.sum()} of {len(P)} points, from pixels without a valid disparity, at the camera itself')
                    lo,hi=(inb&~edge).sum(),(inb|(edge&good)).sum()
                    if not nz.any() and ctx.ok(lo<=len(P)<=hi,'stereo/points-count',f'{len(P)} points, expected {lo}-{hi}') and lo==hi and lo:
                        ctx.close(P,pr[inb],'stereo/points',rtol=1e-5,atol=1e-4)
                        pic=orig[0] if eq is None else im[0]; qi=np.floor(qc[inb]+.5).astype(int); cc=pic[qi[:,1],qi[:,0]]; names_=g.dtype.names
                        gc=np.stack((g['blue'],g['green'],g['red']),-1) if 'blue' in names_ else None
                        near=np.min(np.abs(qc[inb]-np.floor(qc[inb])-.5),axis=-1)<1e-3
                        if gc is not None: ctx.ok(np.array_equal(gc[~near],(cc if cc.ndim==2 else cc[:,None]*np.ones((1,3)))[~near]),'stereo/points-color','')
                        ctx.case('stereo',key='points')
            ctx.ok(set(os.listdir(od))==want,'stereo/files',f'{sorted(set(os.listdir(od))^want)}')
            if it%5==1:
                k=sorted(want); keep=k[int(rng.integers(len(k)))]; open(od+'/'+keep,'wb').write(b'mine')
                r=cli.run('mrcal-stereo',*o,*a,timeout=120); ctx.case('refuse',key=('stereo/exists',it)); ctx.ok(bytes_(od+'/'+keep)==b'mine' and 'already exists' in r.out+r.err,'stereo/clobbered',keep)
                r=cli.run('mrcal-stereo','-f',*o,*a,timeout=120); ctx.ok(r.rc==0 and bytes_(od+'/'+keep)!=b'mine','stereo/force',str(r))
    os.makedirs('r'); sz=[(100,80)]*2; ms=stereo_pair(rng,sz,'r'); im=observe(rng,ms,5,sz,False); mrcal.save_image('r/0.png',im[0]); mrcal.save_image('r/1.png',im[1]); mrcal.save_image('r/s.png',picture(rng,(50,50))); open('r/bad.png','w').write('x'); mrcal.save_image('r/s1.png',picture(rng,(51,50)))
    M=['r/m0.cameramodel','r/m1.cameramodel']; F=['--az-fov-deg','40','--el-fov-deg','30','--outdir','r']
    for nm,a in (('one-image',[*F,*M,'r/0.png']),('small0',[*F,*M,'r/s.png','r/1.png']),('small1',[*F,*M,'r/0.png','r/s.png']),('bad',[*F,*M,'r/bad.png','r/1.png']),('none',[*F,*M,'r/n*.png','r/n*.jpg']),('counts',[*F,*M,'r/0.png','r/s*.png']),('notrect',['--already-rectified','--outdir','r',*M,'r/0.png','r/1.png']),('nofov',['--outdir','r',*M]),
                 ('nomodel',[*F,'r/nosuch',M[1]]),('elas',[*F,'--stereo-matcher','ELAS',*M,'r/0.png','r/1.png']),('bad-j',[*F,'-j','2',*M,'r/s*.png','r/[01].png']),('outdir',['--az-fov-deg','40','--el-fov-deg','30','--outdir','r/nosuch',*M]),('pixels',[*F,'--pixels-per-deg','x',*M])):
        refuse(ctx,'stereo/refuse-'+nm,cli.run('mrcal-stereo',*a),[('r/0-disparity.png',None)])
    # an image without any detail
    mrcal.save_image('r/flat.png',np.full((80,100),77,np.uint8)); r=cli.run('mrcal-stereo',*F,'--equalization','stretch',*M,'r/flat.png','r/flat.png'); ctx.case('stereo',key='flat')
    ctx.ok(r.rc==0 and 'Warning' not in r.err,'stereo/flat',str(r))

# -------------------------------------------------------------- triangulate
def vec(s): return np.array([float(x) for x in s.split()])
def j_tri(ctx,rng):
    import re
    METH={'geometric':'triangulate_geometric','lindstrom':'triangulate_lindstrom','leecivera-l1':'triangulate_leecivera_l1','leecivera-linf':'triangulate_leecivera_linf','leecivera-mid2':'triangulate_leecivera_mid2','leecivera-wmid2':'triangulate_leecivera_wmid2'}
    cal=[solved(rng,'LENSMODEL_OPENCV4',2,cameras='all') for _ in range(ctx.n(2,6))]
    for k,(ms,oi) in enumerate(cal): [m.write(f'c{k}_{i}.cameramodel') for i,m in enumerate(ms)]
    cal=[[mrcal.cameramodel(f'c{k}_{i}.cameramodel') for i in range(2)] for k in range(len(cal))]
    for it in range(ctx.n(34,300)):
        d=f'd{it}'; os.makedirs(d); usecal=it%2==0; img=it%4==3
        if usecal: k=int(rng.integers(len(cal))); ms=cal[k]; fm=[f'c{k}_{i}.cameramodel' for i in range(2)]
        else: sz=[(int(rng.integers(300,500)),int(rng.integers(250,400))) for _ in range(2)]; ms=stereo_pair(rng,sz,d); fm=[f'{d}/m{i}.cameramodel' for i in range(2)]
        T01=pose(ms[0])@np.linalg.inv(pose(ms[1])); z=rng.uniform(2,12); W,H=ms[0].imagersize()
        q0=np.round(np.array((W,H))*rng.uniform(.35,.65,2),2); p=mrcal.unproject(q0,*ms[0].intrinsics()); p=p/p[2]*z
        q1=mrcal.project(mrcal.transform_point_rt(ref_rt(np.linalg.inv(T01)),p),*ms[1].intrinsics())+rng.normal(size=2)*.1; q1=np.round(q1,3)
        if not (np.isfinite(q1).all() and (q1>20).all() and (q1<np.array(ms[1].imagersize())-20).all()): continue
        o=[]; mth=str(rng.choice(list(METH))) if rng.uniform()<.8 else 'leecivera-mid2'; o+=['--method',mth] if mth!='leecivera-mid2' or rng.uniform()<.5 else []; kw={}
        re_=float(np.round(z*rng.uniform(.9,1.1),2)); o+=['--range-estimate',re_]; st=False
        if rng.uniform()<.5: x=float(np.round(rng.uniform(.1,1),2)); c=float(np.round(rng.uniform(0,1),2)); o+=['--q-observation-stdev',x,'--q-observation-stdev-correlation',c]; kw.update(q_observation_stdev=x,q_observation_stdev_correlation=c)
        if usecal and rng.uniform()<.7:
            x=float(rng.choice((-1.,.3))); o.append(f'--q-calibration-stdev={x}'); kw['q_calibration_stdev']=x; st=bool(rng.uniform()<.5); o+=['--stabilize'] if st else []
        mk=rng.uniform()<.4; o+=['--make-corrected-model1'] if mk else []
        if img:
            ims=observe(rng,ms,z,[ms[0].imagersize()]*2,False); [mrcal.save_image(f'{d}/i{i}.png',x) for i,x in enumerate(ims)]; pl=bool(rng.uniform()<.5); o+=['--plane-n',0,0,1,'--plane-d',z] if pl else []; a=[f'{d}/i0.png',f'{d}/i1.png',*q0]; q1t=mrcal.project(mrcal.transform_point_rt(ref_rt(np.linalg.inv(T01)),p),*ms[1].intrinsics())
        else: a=[*q0,*q1]
        r=cli.run('mrcal-triangulate',*o,*fm,*a,timeout=120); ctx.case('tri',key=(mth,usecal,img,tuple(sorted(kw)),mk),args=' '.join(str(x) for x in o))
        if img:
            if r.rc!=0 and 'Feature-matching failed' in r.out: ctx.ok(True,'x'); continue
            g=re.findall(r'Feature match found at \[(.*?)\]',r.out)
            if not ctx.ok(len(g)==1,'tri/match',str(r)): continue
            q1=vec(g[0]); ctx.close(q1,q1t,'tri/match',atol=.6,rtol=0,msg=f'plane at {z}; planar template: {pl}')
        try: P=mrcal.triangulate(np.stack((q0,q1)),ms,method=getattr(mrcal,METH[mth]),stabilize_coords=st,**kw); V={}
        except Exception as e:
            # combinations the library refuses
            if 'not supported' not in str(e): raise
            ctx.ok(r.rc!=0,'tri/refused',str(r)); continue
        if not kw: p0=P if not isinstance(P,tuple) else P[0]
        else:
            p0=P[0]
            if 'q_calibration_stdev' in kw and 'q_observation_stdev' in kw: V={'calibration-time':P[1],'observation-time':P[2],'joint':P[3]}
            elif 'q_calibration_stdev' in kw: V={'calibration-time':P[1]}
            else: V={'observation-time':P[1]}
        if not np.any(p0): ctx.ok(r.rc!=0,'tri/divergent',str(r)); continue
        if r.rc!=0 and 'divergent' in r.err: continue
        if not ctx.ok(r.rc==0,'tri/fails',f'{o} {a} {r}'): continue
        with ctx.guard('tri/output'):
            tol=dict(atol=.00051+(2e-3*z*z if img else 1e-6),rtol=1e-6 if not img else 1e-2); pr=(np.linalg.inv(pose(ms[0]))@np.append(p0,1))[:3]; v0=mrcal.unproject(q0,*ms[0].intrinsics(),normalize=True)
            g=re.findall(r'Triangulated point at \[(.*?)\]; direction: \[(.*?)\] \[(\w+) coordinates\]',r.out)
            if ctx.ok([x[2] for x in g]==['camera','reference'],'tri/report',r.out[:500]):
                ctx.close(vec(g[0][0]),p0,'tri/point-camera',**tol); ctx.close(vec(g[1][0]),pr,'tri/point-reference',**tol); ctx.close(vec(g[0][1]),v0,'tri/direction-camera',atol=.00051,rtol=0); ctx.close(vec(g[1][1]),np.linalg.inv(pose(ms[0]))[:3,:3]@v0,'tri/direction-reference',atol=.00051,rtol=0)
            rg=np.linalg.norm(p0); g=re.findall(r'Range: (\S+) m \(error: (\S+) m\)',r.out)
            if ctx.ok(len(g)==1,'tri/report',''): ctx.close(np.array([float(x) for x in g[0]]),np.array((rg,rg-re_)),'tri/range',atol=.0051+tol['atol'],rtol=tol['rtol'])
            gu=dict((a_,(float(b_),vec(c_))) for a_,b_,c_ in re.findall(r'Uncertainty propagation: (\S+) noise suggests worst confidence of sigma=(\S+)m along \[(.*?)\]',r.out))
            if ctx.ok(set(gu)==set(V),'tri/uncertainty-report',str(gu)) and not img:
                for k,M in V.items():
                    l,e=np.linalg.eigh(M); ctx.close(gu[k][0],np.sqrt(l[-1]),'tri/uncertainty',atol=.00051,rtol=1e-6); ctx.close(abs(gu[k][1]@e[:,-1]),1,'tri/uncertainty-direction',atol=2e-3,rtol=0)
            if not img:
                f=getattr(mrcal,METH[mth]); rng_of=lambda q=q1,T=T01: np.linalg.norm(f(v0,mrcal.unproject(q,*ms[1].intrinsics()),Rt01=ref.Rt_from_T(T),v_are_local=True))
                h=1e-3; gr=np.array([(rng_of(q=q1+e)-rng_of(q=q1-e))/2/h for e in np.eye(2)*h]); g=re.findall(r'Observed-pixel range sensitivity: (\S+?)m/pixel \(q1\). Worst direction: \[(.*?)\]. Linearized correction: (\S+) pixels',r.out)
                s=np.linalg.norm(gr)
                if ctx.ok(len(g)==1,'tri/report','pixels'): ctx.close(float(g[0][0]),s,'tri/sensitivity-pixels',atol=.002+2e-2*s,rtol=0); ctx.close(abs(vec(g[0][1])@gr/s),1,'tri/sensitivity-direction',atol=.02,rtol=0)
                def turned(ax,t): E=np.eye(4); E[:3,:3]=ref.R_from_r(ax/np.linalg.norm(ax)*t); return E
                n=np.cross(p0,T01[:3,3]); n=n if n[1]>0 else -n; t=1e-7
                for lab,ax in (('yaw (rotation in epipolar plane)',n),('yaw (cam0 y axis)               ',np.array((0,1.,0)))):
                    # camera 0 turned, its observation kept: Rt01 -> E^-1 Rt01
                    s=(rng_of(T=np.linalg.inv(turned(ax,t))@T01)-rng_of(T=np.linalg.inv(turned(ax,-t))@T01))/2/t*np.pi/180
                    g=re.findall(re.escape('Calibration '+lab)+r' sensitivity: (\S+)m/deg. Linearized correction: (\S+) degrees of yaw',r.out)
                    if ctx.ok(len(g)==1,'tri/report',lab+r.out): ctx.close(float(g[0][0]),s,'tri/sensitivity-yaw',atol=.0051+1e-2*abs(s)+1e-3*z,rtol=0,msg=lab); ctx.close(float(g[0][1]),-(rg-re_)/float(g[0][0]) if abs(float(g[0][0]))>.3 else float(g[0][1]),'tri/correction-yaw',atol=.0011,rtol=.03)
                s=(rng_of(T=np.linalg.inv(turned(T01[:3,3],t))@T01)-rng_of(T=np.linalg.inv(turned(T01[:3,3],-t))@T01))/2/t*np.pi/180; g=re.findall(r'Calibration pitch \(tilt of epipolar plane\) sensitivity: (\S+)m/deg',r.out)
                if ctx.ok(len(g)==1,'tri/report','pitch'): ctx.close(float(g[0]),s,'tri/sensitivity-pitch',atol=.0051+1e-2*abs(s)+1e-3*z,rtol=0)
                gr=[]
                for e in np.eye(3)*1e-4:
                    A,B_=T01.copy(),T01.copy(); A=np.linalg.inv(A); B_=A.copy(); A[:3,3]+=e; B_[:3,3]-=e; gr.append((rng_of(T=np.linalg.inv(A))-rng_of(T=np.linalg.inv(B_)))/2e-4)
                g=re.findall(r'Calibration translation sensitivity: (\S+?)m/m',r.out)
                if ctx.ok(len(g)==1,'tri/report','translation'): ctx.close(float(g[0]),np.linalg.norm(gr),'tri/sensitivity-translation',atol=.02+.03*np.linalg.norm(gr),rtol=0)
            if mk:
                c=read(r.out); m1=mrcal.cameramodel(fm[1]); ctx.ok(c.intrinsics()[0]==m1.intrinsics()[0],'tri/corrected',''); ctx.close(c.intrinsics()[1],m1.intrinsics()[1],'tri/corrected-intrinsics',atol=1e-8,rtol=1e-8)
                pc=mrcal.triangulate(np.stack((q0,q1)),(ms[0],c),method=getattr(mrcal,METH[mth])); ctx.close(np.linalg.norm(pc),re_,'tri/corrected-range',atol=.02*re_,rtol=0); ctx.close(mrcal.project(pc,*ms[0].intrinsics()),q0,'tri/corrected-pixel',atol=.1,rtol=0)
    sz=[(300,250)]*2; os.makedirs('r'); ms=stereo_pair(rng,sz,'r'); F=['r/m0.cameramodel','r/m1.cameramodel']; mrcal.save_image('r/i.png',picture(rng,(300,250)))
    for nm,a in (('divergent',[*F,100,125,250,125]),('nomodel',['r/x',F[1],1,2,3,4]),('args',[*F,'r/i.png',1,2,3]),('nooi',['--q-calibration-stdev','1',*F,150,125,140,125]),('plane',['--plane-d',3,*F,150,125,140,125]),('noimage',[*F,'r/no.png','r/i.png',150,125]),('method',['--method','x',*F,150,125,140,125]),('otheroi',['--q-calibration-stdev','1','c0_0.cameramodel','c1_1.cameramodel',700,500,690,500])):
        mrcal.save_image('r/flat.png',picture(rng,(300,250))); refuse(ctx,'tri/refuse-'+nm,cli.run('mrcal-triangulate',*a))
    m=mrcal.cameramodel('c0_1.cameramodel'); m.rt_cam_ref(m.rt_cam_ref()+.01); m.write('r/moved.cameramodel'); refuse(ctx,'tri/refuse-moved',cli.run('mrcal-triangulate','--q-calibration-stdev','1','c0_0.cameramodel','r/moved.cameramodel',700,500,690,500))

# -------------------------------------------------------------- calibrate-cameras
def board_shift(rt,W,H,sp): return rt
def j_calib(ctx,rng):
    import re
    os.makedirs('x')
    for it in range(ctx.n(9,60)):
        d=f'd{it}'; os.makedirs(d); Nc=int(rng.choice((1,2,2,3,4))); W,H=int(rng.integers(6,9)),int(rng.integers(5,8)); sp=float(np.round(rng.uniform(.04,.2),3)); lt=str(rng.choice(('LENSMODEL_OPENCV4','LENSMODEL_OPENCV5','LENSMODEL_OPENCV8','LENSMODEL_CAHVOR','LENSMODEL_PINHOLE'))); Nf=14
        lm='LENSMODEL_PINHOLE' if lt in('LENSMODEL_PINHOLE','LENSMODEL_CAHVOR') else 'LENSMODEL_OPENCV4'; noise=float(rng.choice((.05,.2)))
        tr=[fitm(rng,lm,(1500,1100),np.zeros(6) if c==0 else np.concatenate((rng.uniform(-.1,.1,3),rng.uniform(-.3,.3,3)))) for c in range(Nc)]
        for m in tr: i=np.array(m.intrinsics()[1]); i[:2]=1100*rng.uniform(.95,1.05); i[2:4]+=rng.uniform(-10,10,2); i[4:]*=.5; m.intrinsics((lm,i))
        warp=rng.uniform(-.003,.003,2)*sp*10 if rng.uniform()<.7 else np.zeros(2); P=prob.board(W,H,sp,warp); bw=max(W,H)*sp; c0=np.array(((W-1)/2*sp,(H-1)/2*sp,0)); skipw=bool(rng.uniform()<.25 and not warp.any())
        fr=[]; obs={}; lev={}
        for f in range(Nf):
            r=rng.uniform(-.45,.45,3); R=ref.R_from_r(r); t=np.array((rng.uniform(-.45,.45)*bw,rng.uniform(-.3,.3)*bw,rng.uniform(1.2,2.)*bw+.3))-R@c0; fr.append((R,t))
            for c in range(Nc):
                if rng.uniform()<.08 and f>1: continue
                q=mrcal.project(mrcal.transform_point_rt(tr[c].rt_cam_ref(),P@R.T+t),*tr[c].intrinsics())+rng.normal(size=(H,W,2))*noise
                l=rng.choice((0,0,0,1),(H,W)); l[(q<5).any(-1)|(q[...,0]>1494)|(q[...,1]>1094)|(rng.uniform(size=(H,W))<.02)]=-1
                if (l>=0).sum()>W*H//2+3: obs[f,c]=q; lev[f,c]=l
        if min(sum(1 for k in obs if k[1]==c) for c in range(Nc))<4: continue
        bad=[]
        if rng.uniform()<.6:
            for k in [list(obs)[int(i)] for i in rng.choice(len(obs),3,replace=False)]:
                y,x=int(rng.integers(H)),int(rng.integers(W))
                if lev[k][y,x]>=0: obs[k][y,x]+=np.where(obs[k][y,x]>100,-1,1)*rng.uniform(15,40); bad.append((k,y,x))
        pre=str(rng.choice(('','img/'))); name=lambda f,c: f'{pre}cam{"abcd"[c]}-{f:03d}.png'; wts=bool(rng.uniform()<.3)
        rows=['# filename x y '+('weight' if wts else 'level')+'\n']; keys=list(obs); 
        if rng.uniform()<.5: keys=[keys[i] for i in rng.permutation(len(keys))]
        for f,c in keys:
            for y in range(H):
                for x in range(W): l=lev[f,c][y,x]; rows.append(f'{name(f,c)} {obs[f,c][y,x,0]:.4f} {obs[f,c][y,x,1]:.4f} '+('-' if l<0 else str(l) if not wts else str(.5**l))+'\n')
        open(d+'/corners.vnl','w').writelines(rows)
        o=['--corners-cache',d+'/corners.vnl','--lensmodel',lt,'--object-spacing',sp,'--object-width-n',W,'--object-height-n',H,'--outdir',d]; seed=it%3==2; si=se=False
        if wts: o+=['--corners-cache-has-weights']
        if seed:
            sm=[]
            for c,m in enumerate(tr):
                if rng.uniform()<2 and lt!=lm: i=np.concatenate((m.intrinsics()[1],np.zeros(mrcal.lensmodel_num_params(lt)-len(m.intrinsics()[1]))))
                else: i=np.array(m.intrinsics()[1])
                g=gen.rt(np.random.default_rng(it)); sm.append(save(mrcal.cameramodel(intrinsics=(lt,i),imagersize=(1500,1100),rt_cam_ref=mrcal.compose_rt(m.rt_cam_ref(),g)),f'{d}/seed{c}.cameramodel'))
            si,se=bool(rng.uniform()<.4),bool(rng.uniform()<.4); o+=['--seed',rng.choice((f'{d}/seed*.cameramodel',','.join(f'{d}/seed{c}.cameramodel' for c in range(Nc))))]
            o+=['--skip-intrinsics-solve'] if si else []; o+=['--skip-extrinsics-solve'] if se else []
            if rng.uniform()<.5: o=o[:2]+o[4:]
        else: o+=['--focal',1100 if rng.uniform()<.5 else ','.join(['1150']*Nc),'--imagersize',1500,1100]
        skr,sko=bool(rng.uniform()<.25 and lt!='LENSMODEL_OPENCV8'),bool(rng.uniform()<.3); o+=['--skip-regularization'] if skr else []; o+=['--skip-outlier-rejection'] if sko else []; o+=['--skip-calobject-warp-solve'] if skipw else []; pairs=Nc%2==0 and rng.uniform()<.4; o+=['--pairs'] if pairs else []
        gl=[f'{pre}cam{"abcd"[c]}-*.png' for c in range(Nc)]
        np.random.seed(int(rng.integers(1<<30))); r=cli.run('mrcal-calibrate-cameras',*o,*gl,timeout=300); ctx.case('calib',key=(lt[10:],Nc,seed,si,se,skr,sko,skipw,pairs,wts),args=' '.join(str(x) for x in o))
        if not ctx.ok(r.rc==0,'calib/fails',f'{o} {r}'): continue
        with ctx.guard('calib/output'):
            fs=[f'{d}/camera{c//2}-{c%2}.cameramodel' if pairs else f'{d}/camera-{c}.cameramodel' for c in range(Nc)]; ctx.ok(sorted(x for x in os.listdir(d) if x.startswith('camera'))==sorted(os.path.basename(f) for f in fs),'calib/files',str(os.listdir(d)))
            ms=[mrcal.cameramodel(f) for f in fs]; oi=ms[0].optimization_inputs()
            for c,m in enumerate(ms):
                ctx.ok(m.intrinsics()[0]==lt and m.icam_intrinsics()==c and tuple(m.imagersize())==(1500,1100),'calib/model',f'{m.intrinsics()[0]} {m.icam_intrinsics()}')
                ctx.ok(mrcal.cameramodel(fs[c])._optimization_inputs_match(ms[0]) ,'calib/inputs-shared','')
            want=sorted(obs); ob=oi['observations_board']; ix=oi['indices_frame_camintrinsics_camextrinsics']; fn=sorted(set(f for f,_ in want))
            ctx.ok([(fn[a],b,e) for a,b,e in ix]==[(f,c,c-1) for f,c in want],'calib/indices','')
            if not ctx.ok(ob.shape==(len(want),H,W,3),'calib/observations',str(ob.shape)): continue
            for k,kk in enumerate(want):
                good=lev[kk]>=0; ctx.ok(np.max(np.abs(ob[k][good][:,:2]-obs[kk][good]))<1e-4,'calib/observations','pixels'); w=ob[k][...,2]
                ctx.ok(np.all(w[~good]<=0) and np.all((w[good]<=0)|(np.abs(w[good]-.5**lev[kk][good])<1e-9)),'calib/weights','')
            ctx.ok([str(x) for x in oi['imagepaths']]==[f'{d}/{name(f,c)}' for f,c in want],'calib/paths',f"{[str(x) for x in oi['imagepaths']][:4]} {[name(f,c) for f,c in want][:4]}")
            inl=np.array([(ob[k][...,2]>0)&(lev[kk]>=0) for k,kk in enumerate(want)]); av=np.array([lev[kk]>=0 for kk in want]); rej=av&~inl; isb=np.zeros_like(av)
            for kk,y,x in bad: isb[want.index(kk),y,x]=True
            if sko: ctx.ok(not rej.any(),'calib/no-outlier-rejection',f'{rej.sum()}')
            else: ctx.ok(np.all(rej[isb]),'calib/outliers-found',f'{(~rej[isb]).sum()} gross outliers of {isb.sum()} were kept'); ctx.ok(rej.sum()<=isb.sum()+.02*av.sum(),'calib/outliers-false',f'{rej.sum()} of {av.sum()}')
            x=mrcal.optimizer_callback(**{**oi,'verbose':False},no_jacobian=True,no_factorization=True)[1]; rms=np.sqrt(np.mean(x*x)); g=re.findall(r'RMS reprojection error: (\S+) pixels',r.out); g2=re.findall(r'Worst residual \(by measurement\): (\S+) pixels',r.out)
            if ctx.ok(len(g)==1 and len(g2)==1,'calib/report',r.out): ctx.close(float(g[0]),rms,'calib/rms',atol=.0501,rtol=0); nb=ob.shape[0]*H*W; ctx.close(float(g2[0]),np.max(np.linalg.norm(x[:2*nb].reshape(-1,2),axis=-1)),'calib/worst',atol=.0501,rtol=0)
            if not sko:
                g=re.findall(r'Noutliers: (\d+) out of (\d+) total points: (\S+)% of the data',r.out)
                if ctx.ok(len(g)==1,'calib/report',r.out): n=int((ob[...,2]<=0).sum()); ctx.ok(g[0]==(str(n),str(ob[...,0].size),'%.1f'%(100*n/ob[...,0].size)),'calib/noutliers',f'{g} {n}')
            sel={k:bool(oi[k]) for k in ('do_optimize_intrinsics_core','do_optimize_intrinsics_distortions','do_optimize_extrinsics','do_optimize_frames','do_optimize_calobject_warp','do_apply_regularization','do_apply_outlier_rejection')}
            ctx.ok(sel==dict(do_optimize_intrinsics_core=not si,do_optimize_intrinsics_distortions=not si,do_optimize_extrinsics=not se,do_optimize_frames=True,do_optimize_calobject_warp=not skipw,do_apply_regularization=not skr,do_apply_outlier_rejection=not sko),'calib/selections',f'{o} {sel}')
            if (sko and bad): continue
            ctx.ok(rms<noise*1.2+.02,'calib/fit',f'{rms} pixels from noise {noise}')
            o2={k:(v.copy() if isinstance(v,np.ndarray) else v) for k,v in oi.items()}; o2.update(verbose=False,do_apply_outlier_rejection=False); s2=mrcal.optimize(**o2); ctx.ok('CAHVOR' in oi['lensmodel'] or s2['rms_reproj_error__pixels']>rms*(1-2e-2),'calib/optimal',f'could be improved: {rms} to {s2["rms_reproj_error__pixels"]}')
            if si:
                for c in range(Nc): ctx.close(ms[c].intrinsics()[1],sm[c].intrinsics()[1],'calib/intrinsics-kept',atol=1e-7,rtol=1e-8)
            for c in range(Nc):
                Tt,Tg=pose(tr[c])@np.linalg.inv(pose(tr[0])),pose(ms[c])@np.linalg.inv(pose(ms[0]))
                if se: samepose(ctx,Tg,Tt,'calib/extrinsics-kept',tol=1e-6)
                elif not skr: ctx.close(Tg[:3,3],Tt[:3,3],'calib/geometry',atol=.08+.1*noise,rtol=0); ctx.close(Tg[:3,:3],Tt[:3,:3],'calib/geometry-rotation',atol=.06+.03*noise,rtol=0)
            # the corners of the board, where the calibration puts them, and where they are
            e=[]
            for k,(f,c) in enumerate(want):
                R,t=fr[f]; qt=mrcal.project(mrcal.transform_point_rt(tr[c].rt_cam_ref(),P@R.T+t),*tr[c].intrinsics()); q=qt.reshape(-1,2)[inl[k].ravel()]
                a=mrcal.project(np.array(mrcal.hypothesis_board_corner_positions(**oi)[0])[k],*ms[c].intrinsics()) if k<6 else None
                if a is not None: e.append((a-qt)[inl[k]])
            ctx.ok('CAHVOR' in oi['lensmodel'] or np.sqrt(np.mean(np.concatenate(e)**2))<(1.5 if skr else .6)*noise+.02,'calib/truth',f'rms {np.sqrt(np.mean(np.concatenate(e)**2))} from the noise-free corners; noise {noise}')
            for c,m in enumerate(ms):
                v=m.valid_intrinsics_region()
                if si: ctx.ok(v is None,'calib/region-skipped','')
                else:
                    g=f"Couldn't compute valid-intrinsics region for camera {c}" in r.err; ctx.ok((v is None)==g,'calib/region',f'{v} {r.err[-300:]}')
                    if v is not None and len(v): ctx.ok(np.all(v>=-1) and np.all(v<=(1501,1101)),'calib/region-imager','')
            t=open(fs[0]).read(); ctx.ok('RMS reprojection error' in t.split('{')[0],'calib/note','')
    # refusals, with a usable table
    d=next((f'd{i}' for i in range(100) if os.path.isdir(f'd{i}') and any(x.startswith('camera') for x in os.listdir(f'd{i}'))),None)
    if d is None: return
    k=open(d+'/corners.vnl').read(); l=[x for x in k.splitlines()[1:]]; os.makedirs('r'); f0=l[0].split()[0]; g=re.sub(r'\d+.png','*.png',f0); base=['--corners-cache',d+'/corners.vnl','--outdir','r']
    Wd=sum(1 for x in l if x.split()[0]==f0)
    full=base+['--lensmodel','LENSMODEL_OPENCV4','--focal','1100','--object-width-n',Wd,'--object-height-n',1,'--object-spacing','.1','--imagersize','1500','1100']
    def without(*k_): return [x for i,x in enumerate(full) if not (x in k_ or (i and full[i-1] in k_))]
    open('r/m.cameramodel','w').write(open([f'{d}/{x}' for x in os.listdir(d) if x.startswith('camera')][0]).read())
    for nm,a in (('nofocal',without('--focal')+[g]),('nolens',without('--lensmodel')+[g]),('focal0',without('--focal')+['--focal','0',g]),('focalN',without('--focal')+['--focal','1,2,3,4,5,6,7',g]),('focalx',without('--focal')+['--focal','a',g]),('pairs',full+['--pairs',g]),('skip-e',full+['--skip-extrinsics-solve',g]),('skip-i',full+['--skip-intrinsics-solve',g]),('nomatch',full+['zzz*.png']),
                 ('seed-focal',full+['--seed','r/m.cameramodel',g]),('seed-none',without('--focal')+['--seed','r/zz*',g]),('seed-count',without('--focal')+['--seed','r/m.cameramodel,r/m.cameramodel',g]),('many',full+[g]*11),('size',without('--object-width-n')+['--object-width-n','3',g]),('outdir',without('--outdir')+['--outdir','r/nosuch',g]),('lens',without('--lensmodel')+['--lensmodel','LENSMODEL_XX',g])):
        refuse(ctx,'calib/refuse-'+nm,cli.run('mrcal-calibrate-cameras',*a,timeout=100),[('r/camera-0.cameramodel',None)])
