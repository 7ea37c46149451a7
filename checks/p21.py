'''Other camera-model formats'''
import re, os
TITLE = 'conversions to and from the CAHVOR(E), Kalibr, and ROS/OpenCV formats'
RULE  = ('An execution is one model written to, or read from, a foreign format, by the library or by a command-line tool, or one input that must be refused. The text is produced and interpreted by a separate implementation of each format, written from its definition (the CAHVOR vectors project points by the JPL formulas; the Kalibr chain and the ROS rectification matrices are composed as 4x4 matrices). '
         'Oracle: random points in the reference coordinate system project to the same pixels through the original and through the converted camera; region and imager size survive; what cannot be represented is refused, and existing files are then left alone; files are overwritten only on request. Non-trivial: distinct format, direction, lens model, spelling and options.')
ASSUMPTIONS = ['.cahvor text has 10 decimals, the region 2','a CAHVOR model with R=0 may become the identical pinhole model','the tools run in a child forked from the test process']
MIN_EVALUATIONS = 500
FLOORS = {'cahvor-write':60,'cahvor-read':60,'kalibr-write':20,'kalibr-read':25,'kalibr-roundtrip':10,'ros':60,'refuse':35,'files':12,'transforms':10}

def jobs(tier,seed):
    return [dict(name='cahvor_0'),dict(name='cahvor_1'),dict(name='kalibr'),dict(name='kalibr_1'),dict(name='ros'),dict(name='tools'),dict(name='transforms')]

def run(ctx,job):
    global np,mrcal,vlib,ref,gen,cli,cahvor
    import numpy as np, mrcal, vlib, ref, gen, cli
    import mrcal.cahvor as cahvor
    np.seterr(all='ignore')
    os.makedirs('w_'+job['name']); os.chdir('w_'+job['name'])
    globals()['j_'+job['name'].split('_')[0]](ctx,ctx.rng)

CONV=('LENSMODEL_PINHOLE','LENSMODEL_OPENCV4','LENSMODEL_OPENCV5','LENSMODEL_OPENCV8','LENSMODEL_OPENCV12','LENSMODEL_CAHVOR')
def a_model(rng,lm=None,region=False):
    if lm is None: lm=str(rng.choice(CONV+('E','E')))
    if lm=='E': lm='LENSMODEL_CAHVORE_linearity=%s'%rng.choice(('0.00','1.00','0.37','-0.4','-1','0.123456789','1e-05',repr(float(rng.uniform(-1,1)))))
    W,H=int(rng.integers(100,6000)),int(rng.integers(100,5000))
    i=gen.intrinsics(rng,lm,strength=.5,imagersize=(W,H))
    if rng.uniform()<.1: i[4+int(rng.integers(max(1,len(i)-4))):][:1]=0 if len(i)>4 else i[4:5]
    if rng.uniform()<.1 and len(i)>4: i[4:]*=1e-5
    if rng.uniform()<.15: i[:4]=np.round(i[:4])
    if rng.uniform()<.1: i[2+int(rng.integers(2))]=0
    rt=gen.rt(rng,str(rng.choice(('any','small','zero','axis'))),tscale=10**rng.uniform(-1,3))
    if rng.uniform()<.15: rt[3:]=0
    if rng.uniform()<.15: rt=np.round(rt,1)
    m=mrcal.cameramodel(intrinsics=(lm,i),imagersize=(W,H),rt_cam_ref=rt)
    if region and rng.uniform()<.5:
        k=int(rng.integers(3,9)); r=np.stack((rng.uniform(0,W,k),rng.uniform(0,H,k)),-1); m.valid_intrinsics_region(np.vstack((r,r[:1])))
    return m
def T_of(m): return ref.T_from_rt(m.rt_cam_ref())
def pts(rng,m,n=30):
    '''points in the reference coordinate system, and their pixels'''
    lm,i=m.intrinsics(); p=gen.points(rng,lm,n,theta=.6,range_=(1,20))
    T=ref.inv_T(T_of(m)); return p@T[:3,:3].T+T[:3,3],ref.project(p,lm,i)
def same_camera(ctx,rng,a,b,mech,Ta=None,tmax=0,**kw):
    '''model b sees what model a does. Ta: a's pose, if not the one it has. tmax: the biggest intermediate translation'''
    lm,i=a.intrinsics(); p=gen.points(rng,lm,30,theta=.6,range_=(1,20)); Ta=T_of(a) if Ta is None else Ta; T=ref.inv_T(Ta)
    pr=p@T[:3,:3].T+T[:3,3]; T=T_of(b)
    same_pose(ctx,pr@T[:3,:3].T+T[:3,3],p,(Ta,T),mech,tmax,lensmodel=lm,**kw)
    ctx.close(ref.project(p,*b.intrinsics()),ref.project(p,lm,i),mech+'/projection',atol=1e-4,rtol=0,lensmodel=lm,became=b.intrinsics()[0],**kw)
    ctx.ok(tuple(a.imagersize())==tuple(b.imagersize()),mech+'-imagersize','')
def same_pose(ctx,p,want,Ts,mech,tmax=0,**kw):
    '''the points in camera coordinates, to the precision of the files'''
    for T in Ts: tmax=max(tmax,np.abs(T[:3,3]).max(),np.abs(ref.inv_T(T)[:3,3]).max())
    ctx.close(p,want,mech+'/pose',atol=3e-8*(20+tmax),rtol=0,**kw)
def same_region(ctx,a,b,mech):
    x,y=a.valid_intrinsics_region(),b.valid_intrinsics_region()
    if x is None or y is None: ctx.ok(x is None and y is None,mech,f'{x} became {y}')
    else: ctx.close(y,x,mech,atol=.00501,rtol=0)
def lin(lm): m=re.search('linearity=(.*)',lm); return float(m.group(1)) if m else None

# ------------------------------------------------------- .cahvor
def parse_cahvor(text):
    out={}; lines=text.splitlines(); k=0
    for l in lines:
        if l.startswith('#') or '=' not in l: continue
        key,v=l.split('=',1); key=key.strip(); v=v.strip()
        try: out[key]=np.array([float(x) for x in v.split()]) if v else v
        except ValueError: out[key]=v
    return out
def project_cahvor(P,d,lm,distortion=None):
    '''The JPL definition, in world coordinates'''
    A,H,V=d['A'],d['H'],d['V']; p=P-d['C']
    if 'O' in d:
        O=d['O']/np.linalg.norm(d['O']); R=d['R']
        w=p@O; l=p-w[:,None]*O; 
        if 'E' not in d:
            tau=(l*l).sum(-1)/w**2; mu=R[0]+tau*(R[1]+tau*R[2]); p=p+mu[:,None]*l
        else:
            # to the coordinate system of the camera, where I have this
            Rc=axes(d); pc=p@Rc.T; o=Rc@O; a,b=np.arctan2(o[0],o[2]),np.arcsin(o[1])
            p=ref.cahvore_distort(pc,np.concatenate(((a,b),R,d['E'])),lin(lm))@Rc
    elif distortion is not None:
        Rc=axes(d); pc=p@Rc.T; pc=pc/pc[:,2:]; xy=ref.opencv_distort(pc,distortion)[...,:2]; p=np.concatenate((xy,np.ones((len(xy),1))),-1)@Rc
    return np.stack((p@H,p@V),-1)/(p@A)[:,None]
def axes(d):
    A=d['A']/np.linalg.norm(d['A']); h=d['H']-(d['H']@A)*A; h/=np.linalg.norm(h); return np.stack((h,np.cross(A,h),A))
def vectors(m):
    lm,i=m.intrinsics(); T=ref.inv_T(T_of(m)); R=T[:3,:3]; d=dict(C=T[:3,3],A=R[:,2],H=i[0]*R[:,0]+i[2]*R[:,2],V=i[1]*R[:,1]+i[3]*R[:,2])
    if 'CAHVOR' in lm:
        a,b=i[4:6]; d['O']=R@np.array((np.sin(a)*np.cos(b),np.sin(b),np.cos(a)*np.cos(b))); d['R']=i[6:9]
        if 'CAHVORE' in lm: d['E']=i[9:]
    return d

def j_cahvor(ctx,rng):
    import io
    for it in range(ctx.n(60,1000)):
        m=a_model(rng,region=True); lm,i=m.intrinsics()
        how=('write','cameramodel','file')[it%3]; note=[None,None,'hello\nthere = 5'][int(rng.integers(3))]
        ctx.case('cahvor-write',key=(gen.family(lm),how,note is None,lin(lm)),lensmodel=lm,how=how,note=note,intrinsics=i,rt=m.rt_cam_ref())
        fn=f'm{it}.cahvor'
        with ctx.guard('cahvor-write'):
            i0=i.copy()
            if   how=='write': cahvor.write(fn,m,note)
            elif how=='cameramodel': m.write(fn,note=note)
            else:
                with open(fn,'w') as f: m.write(f,note=note,cahvor=True)
            ctx.same(m.intrinsics()[1],i0,'cahvor-write/modified')
            t=open(fn).read(); d=parse_cahvor(t)
            if note: ctx.ok('# hello\n# there = 5\n' in t,'cahvor-write/note','the note is missing')
            P,q=pts(rng,m)
            dist=d.get(lm) if 'OPENCV' in lm else None
            s=max(1,np.abs(d['C']).max()/100)
            ctx.close(project_cahvor(P,d,lm if 'CAHVORE' in lm else '',dist),q,'cahvor-write/projection',atol=1e-4*s,msg=f'{lm}: what was written projects elsewhere')
            ctx.ok(d['Dimensions'].tolist()==list(m.imagersize()),'cahvor-write/dimensions','')
            for k,v in zip(('Hs','Vs','Hc','Vc'),i[:4]): ctx.close(d[k],[v],f'cahvor-write/{k}',atol=1e-9,rtol=1e-12)
            M=d['Model']; M=M if isinstance(M,str) else ''
            ctx.ok(('CAHVORE3,' in M)==('CAHVORE' in lm) and (M.startswith('CAHVOR'))==('CAHVOR' in lm),'cahvor-write/Model',f'{M} for {lm}')
            if 'CAHVORE' in lm: ctx.close(float(M.split(',')[1].split()[0]),lin(lm),'cahvor-write/linearity',rtol=1e-12)
            r=m.valid_intrinsics_region()
            ctx.ok(('VALID_INTRINSICS_REGION' in d)==(r is not None),'cahvor-write/region','')
            if r is not None: ctx.close(d['VALID_INTRINSICS_REGION'],r.ravel(),'cahvor-write/region',atol=.00501,rtol=0)
            # and back
            for nm,f in dict(read=lambda: cahvor.read(fn),file=lambda: cahvor.read(open(fn)),string=lambda: cahvor.read_from_string(t),cameramodel=lambda: mrcal.cameramodel(fn)).items():
                if rng.uniform()<.6: continue
                ctx.case('cahvor-read',key=(nm,gen.family(lm),'own'),how=nm,lensmodel=lm)
                with ctx.guard(f'cahvor-read/{nm}'):
                    b=f(); same_camera(ctx,rng,m,b,'cahvor-roundtrip'); same_region(ctx,m,b,'cahvor-roundtrip/region')
                    if 'CAHVORE' in lm: ctx.close(lin(b.intrinsics()[0]),lin(lm),'cahvor-roundtrip/linearity')
                    if not 'CAHVOR' in lm: ctx.ok(b.intrinsics()[0]==lm,'cahvor-roundtrip/lensmodel',f'{lm} became {b.intrinsics()[0]}')
        # somebody else's file
        m=a_model(rng,region=True); lm,i=m.intrinsics(); d=vectors(m)
        integers=rng.uniform()<.15
        if integers: # a camera at integer coordinates, with the axes aligned
            m=mrcal.cameramodel(intrinsics=(lm,np.concatenate((np.round(i[:4]),i[4:]))),imagersize=m.imagersize(),rt_cam_ref=np.concatenate(((0,0,0),np.round(rng.normal(size=3)*5)))); lm,i=m.intrinsics(); d=vectors(m)
        fmt=(lambda v: '%d'%v if v==round(v) else repr(float(v))) if integers else [lambda v: repr(float(v)),lambda v: '%.14e'%v,lambda v:'%+.15g'%v][it%3]
        sep=str(rng.choice((' ','   ','\t')))
        if rng.uniform()<.3 and not integers: d['A']=d['A']*(1+rng.uniform(-1,1)*1e-8)
        L=[]
        L.append('Dimensions = %d %d'%tuple(m.imagersize()))
        if 'CAHVORE' in lm:
            x=lin(lm); ty=3
            if x==1 and rng.uniform()<.7: L.append('Model = CAHVORE1'+str(rng.choice((' = perspective','',',1.0'))))
            elif x==0 and rng.uniform()<.7: L.append('Model = CAHVORE2'+str(rng.choice((' = fisheye','',', 0'))))
            else: L.append('Model = CAHVORE3,%s = general'%(repr(x)))
        elif rng.uniform()<.8: L.append('Model = '+('CAHVOR = perspective, distortion' if 'CAHVOR' in lm else 'CAHV = perspective, linear'))
        nodist=lm=='LENSMODEL_PINHOLE'
        for k,v in d.items(): L.append(f'{k} = '+sep.join(fmt(x) for x in v))
        if 'OPENCV' in lm: L.append((lm if rng.uniform()<.7 else lm.replace('LENSMODEL','DISTORTION'))+' = '+sep.join(fmt(x) for x in i[4:]))
        if nodist and rng.uniform()<.3: L+=['O = '+sep.join(fmt(x) for x in d['A']),'R = 0.0 0.0 0.0']
        L+=['S =']+[' 0.0'*12]*12+['Hs    = 5.0','Theta = -1.57 (-90.0 deg)','S internal =']+[' 0.0'*5]*5
        if rng.uniform()<.5: a=L[:12]; a=[a[j] for j in rng.permutation(len(a))] if len([x for x in L if x=='S ='])and L.index('S =')>=12 else a; L=a+L[12:]
        if rng.uniform()<.3: L.insert(0,'# a comment = 5'); L.insert(2,'')
        t='\n'.join(L)+'\n'
        ctx.case('cahvor-read',key=(gen.family(lm),integers,lin(lm),it%3,sep),lensmodel=lm,text=t)
        with ctx.guard('cahvor-read'):
            b=cahvor.read_from_string(t) if it%2 else None
            if b is None: open('o.cahvor','w').write(t); b=mrcal.cameramodel('o.cahvor')
            P,q=pts(rng,m)
            T=T_of(b); Tm=T_of(m); p=P@Tm[:3,:3].T+Tm[:3,3]; same_pose(ctx,P@T[:3,:3].T+T[:3,3],p,(T,Tm),'cahvor-read',text=t); ctx.close(ref.project(p,*b.intrinsics()),q,'cahvor-read/projection',atol=1e-4,rtol=0,text=t)
            ctx.ok(tuple(b.imagersize())==tuple(m.imagersize()),'cahvor-read/imagersize','')
    if ctx.job['name'].endswith('0'):
        for lm in ('LENSMODEL_STEREOGRAPHIC','LENSMODEL_LONLAT','LENSMODEL_LATLON',gen.splined(rng)):
            m=a_model(rng,lm)
            open('keep.cahvor','w').write('precious')
            for nm,f in dict(write=lambda: cahvor.write('keep.cahvor',m),cm=lambda: m.write('keep.cahvor'),new=lambda: m.write('new.cahvor'),fp=lambda: m.write(io.StringIO(),cahvor=True)).items():
                ctx.case('refuse',key=(nm,gen.family(lm)),lensmodel=lm,what=nm); ctx.raises(f,'refuse/cahvor-write')
                ctx.ok(open('keep.cahvor').read()=='precious','refuse/cahvor-clobbered','an existing file was overwritten by a refused write'); ctx.ok(not os.path.exists('new.cahvor'),'refuse/cahvor-empty','a useless file was left')
        m=a_model(rng,'LENSMODEL_CAHVORE_linearity=0.4'); cahvor.write('e.cahvor',m); t=open('e.cahvor').read(); sub=lambda a,b: re.sub(a,b,t,flags=re.M)
        for nm,x in dict(noC=sub('^C .*\n',''),noA=sub('^A .*\n',''),noH=sub('^H .*\n',''),noV=sub('^V .*\n',''),nodim=sub('^Dim.*\n',''),noE=sub('^E .*\n',''),type4=sub('CAHVORE3,','CAHVORE4,'),nolin=sub('CAHVORE3,0.4','CAHVORE3'),lin1=sub('CAHVORE3,0.4','CAHVORE1,0.4'),lin2=sub('CAHVORE3,0.4','CAHVORE2,0.4'),
                         E_in_cahvor=sub('^Model.*$','Model = CAHVOR'),shortA=sub('^A .*$','A = 0.0 1.0'),text=sub('^C .*$','C = here there 5'),empty='').items():
            ctx.case('refuse',key=('cahvor',nm),what=nm); ctx.raises(lambda: cahvor.read_from_string(x),f'refuse/cahvor-{nm}')

# ------------------------------------------------------- kalibr
KAL=('LENSMODEL_PINHOLE','LENSMODEL_OPENCV4','LENSMODEL_OPENCV4','LENSMODEL_CAHVOR','E')
def kalibr_cam(d,ctx,mech):
    '''lens model, intrinsics from the yaml'''
    i=np.array(d['intrinsics'],dtype=float)
    if d['camera_model']=='pinhole':
        dc=np.array(d['distortion_coeffs'],dtype=float) if d['distortion_model']!='none' else np.zeros(0)
        ctx.ok(d['distortion_model']=='none' or len(dc)==4,mech+'/distortions',f'{d}')
        if d['distortion_model']=='none': ctx.ok(d.get('distortion_coeffs') in (None,[],[0]*4),mech+'/no-distortions',f'{d}')
        return dict(none='LENSMODEL_PINHOLE',radtan='LENSMODEL_OPENCV4')[d['distortion_model']],np.concatenate((i,dc)),None
    v=dict(zip('CAHVORE',i.reshape(-1,3))); return ('LENSMODEL_CAHVORE_linearity=%r'%float(d['cahvore_linearity']) if d['camera_model']=='cahvore' else 'LENSMODEL_CAHVOR'),None,v
def j_kalibr(ctx,rng):
    import yaml
    for it in range(ctx.n(22,260)):
        N=int(rng.integers(1,5)); ms=[a_model(rng,str(rng.choice(KAL))) for _ in range(N)]
        if rng.uniform()<.4: ms[0].rt_cam_ref(np.zeros(6))
        if rng.uniform()<.3 and N>1: ms[1].rt_cam_ref(ms[0].rt_cam_ref())
        fs=[]
        for k,m in enumerate(ms): fs.append(f'k{it}-{k}.cameramodel'); m.write(fs[-1])
        ms=[mrcal.cameramodel(f) for f in fs]  # as written
        at0=rng.uniform()<.4; stdin=N==1 and rng.uniform()<.5
        ctx.case('kalibr-write',key=(N,at0,stdin,tuple(sorted(gen.family(m.intrinsics()[0]) for m in ms))),N=N,at0=at0,lensmodels=[m.intrinsics()[0] for m in ms],rt=[m.rt_cam_ref().tolist() for m in ms])
        with ctx.guard('kalibr-write'):
            o=['--cam0-at-reference'] if at0 else []
            r=cli.run('mrcal-to-kalibr',*o,*([] if stdin else fs),stdin=open(fs[0]).read() if stdin else None)
            if not ctx.ok(r.rc==0 and not r.err,'kalibr-write/rc',f'{r}'): continue
            D=yaml.safe_load(r.out)
            if not ctx.ok(list(D)==[f'cam{k}' for k in range(N)],'kalibr-write/cameras',f'{list(D)}'): continue
            want=[T_of(m) for m in ms]
            if at0: T0=ref.inv_T(want[0]); want=[T@T0 for T in want]
            T=np.eye(4); tmax=max(np.abs(ref.inv_T(T_of(m))[:3,3]).max() for m in ms)*2
            for k,(m,d) in enumerate(zip(ms,D.values())):
                X=np.array(d['T_cn_cnm1'],dtype=float) if 'T_cn_cnm1' in d else np.eye(4)
                ctx.ok(X.shape==(4,4) and (X[3]==(0,0,0,1)).all() and np.abs(X[:3,:3]@X[:3,:3].T-np.eye(3)).max()<1e-9,'kalibr-write/T','')
                T=X@T; s=max(1,np.abs(want[k][:3,3]).max())
                ctx.close(T,want[k],'kalibr-write/pose',atol=1e-9*s,msg=f'camera {k} of {N}')
                ctx.ok(list(d['resolution'])==list(m.imagersize()),'kalibr-write/resolution','')
                lm,i,v=kalibr_cam(d,ctx,'kalibr-write'); wl,wi=m.intrinsics(); p=gen.points(rng,wl,20,theta=.6)
                q=ref.project(p,lm,i) if v is None else project_cahvor(p,v,lm)
                ctx.close(q,ref.project(p,wl,wi),'kalibr-write/projection',atol=1e-6,msg=f'{wl}')
                if 'CAHVORE' in wl: ctx.close(lin(lm),lin(wl),'kalibr-write/linearity')
            # and back
            ctx.case('kalibr-roundtrip',key=(N,at0,'rt'),N=N)
            os.makedirs(f'd{it}'); fn=f'd{it}/x.yaml'; open(fn,'w').write(r.out)
            at1=rng.uniform()<.3
            r=cli.run('mrcal-from-kalibr',*(['--cam0-at-reference'] if at1 else []),fn)
            if not ctx.ok(r.rc==0 and sorted(os.listdir(f'd{it}'))==sorted([f'x-cam{k}.cameramodel' for k in range(N)]+['x.yaml']),'kalibr-roundtrip/files',f'{r} {os.listdir(f"d{it}")}'): continue
            if at1:
                T0=ref.inv_T(want[0]); want=[T@T0 for T in want]
            for k,m in enumerate(ms): same_camera(ctx,rng,m,mrcal.cameramodel(f'd{it}/x-cam{k}.cameramodel'),'kalibr-roundtrip',Ta=want[k],tmax=tmax,N=N,k=k)
    for it in range(ctx.n(22,260)):
        N=int(rng.integers(1,5)); ms=[a_model(rng,str(rng.choice(KAL))) for _ in range(N)]; first=rng.uniform()<.4
        inline=N==1 and rng.uniform()<.5
        names=[str(x) for x in rng.choice(('left','right','cam0','cam1','z','a b'),N,replace=False)]
        J={}
        Tp=np.eye(4); want=[]
        for k,(m,n) in enumerate(zip(ms,names)):
            lm,i=m.intrinsics(); d={}
            if 'CAHVOR' in lm:
                z=mrcal.cameramodel(m); z.rt_cam_ref(np.zeros(6)); v=vectors(z); d['camera_model']='cahvore' if 'E' in v else 'cahvor'; d['intrinsics']=np.concatenate([v[c] for c in 'CAHVORE' if c in v]).tolist()
                if 'E' in v: d['cahvore_linearity']=float(lin(lm))
            else: d.update(camera_model='pinhole',intrinsics=i[:4].tolist(),distortion_model='radtan' if len(i)>4 else 'none',distortion_coeffs=i[4:].tolist())
            T=T_of(m)
            if rng.uniform()<.3: T=np.eye(4); T[:3,3]=np.round(rng.normal(size=3)*3)
            d['T_cn_cnm1']=T.tolist()
            if (T==np.eye(4)).all() or (k==0 and first): d.pop('T_cn_cnm1'); T=np.eye(4)
            Tp=T@Tp; want.append(Tp)
            d['resolution']=[int(x) for x in m.imagersize()]
            if rng.uniform()<.5: d={k:d[k] for k in map(str,rng.permutation(list(d)))}
            J[n]=d
        if inline: J=J[names[0]]
        style=int(rng.integers(3))
        def flow(d):  # 1e-05 isn't a float in yaml, as python writes it
            return ''.join(f'{k}:\n'+''.join(f'  {a}: {b if not isinstance(b,str) else b}\n' for a,b in v.items()) if isinstance(v,dict) else f'{k}: {v}\n' for k,v in d.items())
        t=yaml.dump(J,sort_keys=False) if style==0 else yaml.dump(J,default_flow_style=True,sort_keys=False) if style==1 else flow(J)
        at0=rng.uniform()<.3; pick=int(rng.integers(N)) if not inline and rng.uniform()<.3 else None; stdin=(N==1 or pick is not None) and rng.uniform()<.5
        ctx.case('kalibr-read',key=(N,inline,style,at0,pick is not None,stdin),N=N,text=t,inline=inline,pick=pick,stdin=stdin,at0=at0)
        with ctx.guard('kalibr-read'):
            o=(['--cam0-at-reference'] if at0 else [])+(['--camera',names[pick]] if pick is not None else [])
            os.makedirs(f'e{it}'); fn=f'e{it}/y.yaml'; open(fn,'w').write(t)
            outd=[]
            if not stdin and rng.uniform()<.3: os.makedirs(f'o{it}'); outd=['--outdir',f'o{it}']
            r=cli.run('mrcal-from-kalibr',*o,*outd,*([] if stdin else [fn]),stdin=t if stdin else None)
            if not ctx.ok(r.rc==0,'kalibr-read/rc',f'{r}',text=t): continue
            sel=range(N) if pick is None else [pick]
            dd=outd[1] if outd else f'e{it}'
            out={}
            if stdin:
                import io; out[sel[0]]=mrcal.cameramodel(io.StringIO(r.out))
            else:
                f={k:(f'{dd}/y.cameramodel' if inline else f'{dd}/y-{names[k]}.cameramodel') for k in sel}
                ctx.ok(sorted(x for x in os.listdir(dd) if x!='y.yaml')==sorted(os.path.basename(x) for x in f.values()),'kalibr-read/files',f'{os.listdir(dd)}')
                for k in f: out[k]=mrcal.cameramodel(f[k])
            w=want; tmax=2*max(np.abs(X[:3,3]).max() for T in want for X in (T,ref.inv_T(T)))
            if at0: T0=ref.inv_T(want[0]); w=[T@T0 for T in want]
            for k,b in out.items(): same_camera(ctx,rng,ms[k],b,'kalibr-read',Ta=w[k],tmax=tmax,N=N,k=k)
    if ctx.job['name']!='kalibr': return
    for lm in ('LENSMODEL_STEREOGRAPHIC','LENSMODEL_LONLAT','LENSMODEL_OPENCV5','LENSMODEL_OPENCV8','LENSMODEL_OPENCV12',gen.splined(rng)):
        m=a_model(rng,lm); m.write('bad.cameramodel'); ctx.case('refuse',key=('to-kalibr',gen.family(lm)),lensmodel=lm)
        r=cli.run('mrcal-to-kalibr','bad.cameramodel'); ctx.ok(r.rc not in (0,None) and r.rc>0 and not r.out.strip(),'refuse/to-kalibr',f'{lm}: {r}')
    good='''cam0:
  camera_model: pinhole
  intrinsics: [500,501,320,240]
  distortion_model: radtan
  distortion_coeffs: [0.1,0.2,0.001,0.002]
  T_cn_cnm1:
  - [1,0,0,.1]
  - [0,1,0,.2]
  - [0,0,1,.3]
  - [0,0,0,1]
  resolution: [640,480]
'''
    open('g.yaml','w').write(good); r=cli.run('mrcal-from-kalibr','-f','g.yaml'); ctx.case('kalibr-read',key='good',text=good); ctx.ok(r.rc==0,'kalibr-read/good',f'{r}')
    for nm,t in dict(model=good.replace('pinhole','omni'),dist=good.replace('radtan','equidistant'),rot=good.replace('[1,0,0,.1]','[1.1,0,0,.1]'),last=good.replace('[0,0,0,1]','[0,0,.1,1]'),shape=good.replace('  - [0,0,0,1]\n',''),nores=re.sub('  resolution.*\n','',good),noint=re.sub('  intrinsics.*\n','',good),few=good.replace('0.1,0.2,','0.1,'),
                     cahvor_dist=good.replace('pinhole','cahvor'),notyaml='a: [',empty='',many=good+good.replace('cam0','cam1')).items():
        if nm=='many': r=cli.run('mrcal-from-kalibr',stdin=t)
        else: open(f'bad_{nm}.yaml','w').write(t); r=cli.run('mrcal-from-kalibr',f'bad_{nm}.yaml')
        ctx.case('refuse',key=('from-kalibr',nm),what=nm)
        ctx.ok(r.rc not in (0,None) and r.rc>0 and not [x for x in os.listdir('.') if x.startswith(f'bad_{nm}-')] and 'lensmodel' not in r.out,f'refuse/from-kalibr-{nm}',f'{r}')
    r=cli.run('mrcal-from-kalibr','--camera','nosuch','g.yaml'); ctx.case('refuse',key=('from-kalibr','camera')); ctx.ok(r.rc not in (0,None),'refuse/from-kalibr-camera',f'{r}')

# ------------------------------------------------------- ros
def j_ros(ctx,rng):
    import json, yaml, io
    for it in range(ctx.n(110,1500)):
        lm=('LENSMODEL_OPENCV5','LENSMODEL_OPENCV8')[it%2]; m=a_model(rng,lm); i=m.intrinsics()[1]; W,H=map(int,m.imagersize())
        R=ref.R_from_r(gen.r(rng,str(rng.choice(('any','small','zero','axis')))))  # rect <- cam
        norot=rng.uniform()<.2
        fP=float(rng.uniform(300,3000)); t=float(rng.choice((0,rng.normal())))       # t_rightrect_leftrect
        P=np.array(((fP,0,W/2,t*fP),(0,fP,H/2,0),(0,0,1,0.)))
        zP=rng.uniform()<.1; zR=rng.uniform()<.1
        T=np.eye(4)                                        # ref (the left rectified system) <- cam
        if not (norot or zR): T[:3,:3]=R
        if not zP: T[0,3]=-t
        wrap=lambda a: (lambda k: a.ravel().tolist() if k==0 else a.tolist() if k==1 else dict(rows=a.shape[0],cols=a.shape[-1],data=a.ravel().tolist()))(int(rng.integers(3)))
        K=np.array(((i[0],0,i[2]),(0,i[1],i[3]),(0,0,1.)))
        d={}
        kind=('calib','info')[int(rng.integers(2))]
        if kind=='calib':
            d.update(image_width=W,image_height=H,camera_name='x',camera_matrix=wrap(K),distortion_model={5:'plumb_bob',8:'rational_polynomial'}[len(i)-4],distortion_coefficients=(lambda k: i[4:].tolist() if k else dict(rows=1,cols=len(i)-4,data=i[4:].tolist()))(int(rng.integers(2))))
            if not norot: d[str(rng.choice(('rectification_matrix','rectification_matrix','rotation')))]=wrap(np.zeros((3,3)) if zR else R)
            d['projection_matrix']=wrap(np.zeros((3,4)) if zP else P)
        else:
            d.update(height=H,width=W,distortion_model={5:'plumb_bob',8:'rational_polynomial'}[len(i)-4],D=i[4:].tolist(),K=K.ravel().tolist(),P=(np.zeros((3,4)) if zP else P).ravel().tolist())
            if not norot: d['R']=(np.zeros((3,3)) if zR else R).ravel().tolist()
            d['header']=dict(seq=5,stamp=dict(secs=1,nsecs=2),frame_id='x'); d['roi']=dict(width=0,height=0,x_offset=0)
        if rng.uniform()<.5: d={k:d[k] for k in map(str,rng.permutation(list(d)))}
        style=int(rng.integers(4))
        tx=yaml.dump(d,sort_keys=False) if style==0 else yaml.dump(d,default_flow_style=True,sort_keys=False) if style==1 else json.dumps(d) if style==2 else ''.join(f'{k}: {json.dumps(v)}\n' for k,v in d.items())
        ctx.case('ros',key=(lm,kind,norot,zP,zR,style,t==0),lensmodel=lm,text=tx[:1500])
        with ctx.guard('ros'):
            how=int(rng.integers(3))
            if how==0: b=mrcal.cameramodel(io.StringIO(tx))
            elif how==1: open(f'r{it}.yaml','w').write(tx); b=mrcal.cameramodel(f'r{it}.yaml')
            elif it%4: b=mrcal.cameramodel(io.StringIO(tx))
            else:
                r=cli.run('mrcal-from-ros',stdin=tx)
                if not ctx.ok(r.rc==0,'ros/tool',f'{r}'): continue
                b=mrcal.cameramodel(io.StringIO(r.out))
            ctx.ok(b.intrinsics()[0]==lm,'ros/lensmodel',''); ctx.close(b.intrinsics()[1],i,'ros/intrinsics',rtol=1e-9)
            same_camera(ctx,rng,m,b,'ros/camera',Ta=ref.inv_T(T),text=tx[:1500])
    d0=dict(image_width=640,image_height=480,camera_matrix=[500.,0,320,0,501,240,0,0,1],distortion_model='plumb_bob',distortion_coefficients=[.1,.2,.001,.002,.003],rectification_matrix=[1.,0,0,0,1,0,0,0,1],projection_matrix=[500.,0,320,0,0,500,240,0,0,0,1,0])
    ctx.case('ros',key='base'); 
    with ctx.guard('ros/base'): mrcal.cameramodel(io.StringIO(yaml.dump(d0)))
    def ch(**kw): d=dict(d0); d.update(kw); return {k:v for k,v in d.items() if v is not None}
    for nm,d in dict(equidistant=ch(distortion_model='equidistant'),unknown=ch(distortion_model='x'),nomodel=ch(distortion_model=None),skew=ch(camera_matrix=[500.,1,320,0,501,240,0,0,1]),bottom=ch(camera_matrix=[500.,0,320,0,501,240,0,0,2]),Kshape=ch(camera_matrix=[500.,0,320]),Ktext=ch(camera_matrix=['a']*9),nK=ch(camera_matrix=None),
                     nP=ch(projection_matrix=None),Pty=ch(projection_matrix=[500.,0,320,0,0,500,240,5,0,0,1,0]),Ptz=ch(projection_matrix=[500.,0,320,0,0,500,240,0,0,0,1,5]),rot=ch(rectification_matrix=[1.,0,0,0,1,0,0,0,1.1]),rotshape=ch(rectification_matrix=[1.,0,0,0,1,0]),rottext=ch(rectification_matrix=['x']*9),D4=ch(distortion_coefficients=[.1,.2,.3,.4]),D6=ch(distortion_coefficients=[.1]*6),nD=ch(distortion_coefficients=None),
                     nw=ch(image_width=None),nh=ch(image_height=None),both=ch(K=d0['camera_matrix']),both2=ch(width=640),list_=[1,2]).items():
        ctx.case('refuse',key=('ros',nm),what=nm); ctx.raises(lambda: mrcal.cameramodel(io.StringIO(yaml.dump(d))),f'refuse/ros-{nm}')

# ------------------------------------------------------- the file handling
def j_tools(ctx,rng):
    import io, yaml
    for it in range(ctx.n(14,150)):
        os.makedirs(f't{it}/o'); D=f't{it}'
        tool=('mrcal-to-cahvor','mrcal-from-cahvor','mrcal-from-ros')[it%3]
        N=int(rng.integers(1,4)); ms=[a_model(rng,None if it%3<2 else 'LENSMODEL_OPENCV5',region=it%3<2) for _ in range(N)]
        ein,eout={'mrcal-to-cahvor':('.cameramodel','.cahvor'),'mrcal-from-cahvor':('.cahvor','.cameramodel'),'mrcal-from-ros':('.yaml','.cameramodel')}[tool]
        fs=[]
        for k,m in enumerate(ms):
            f=f'{D}/m.{k}{ein}'; fs.append(f)
            if ein=='.yaml':
                m.rt_cam_ref(np.zeros(6)); i=m.intrinsics()[1]; open(f,'w').write(yaml.dump(dict(width=int(m.imagersize()[0]),height=int(m.imagersize()[1]),K=[float(x) for x in (i[0],0,i[2],0,i[1],i[3],0,0,1)],D=i[4:].tolist(),distortion_model='plumb_bob',P=[1.,0,0,0,0,1,0,0,0,0,1,0])))
            else: m.write(f)
        outdir=rng.uniform()<.4; force=rng.uniform()<.4; exists=rng.uniform()<.5; already=rng.uniform()<.3; stdin=N==1 and rng.uniform()<.4
        dst=[(f'{D}/o' if outdir else D)+f'/m.{k}{eout}' for k in range(N)]
        if exists: open(dst[-1],'w').write('precious')
        args=(['--outdir',f'{D}/o'] if outdir else [])+(['--force'] if force else [])
        extra=[]
        if already: open(f'{D}/done{eout}','w').write('as is'); extra=[f'{D}/done{eout}']
        ctx.case('files',key=(tool,N,outdir,force,exists,already,stdin),tool=tool,N=N,outdir=outdir,force=force,exists=exists,already=already,stdin=stdin)
        with ctx.guard('files'):
            if stdin:
                r=cli.run(tool,*(['-'] if rng.uniform()<.5 else []),stdin=open(fs[0]).read())
                if ctx.ok(r.rc==0,'files/stdin',f'{r}'):
                    b=mrcal.cameramodel(io.StringIO(r.out)); same_camera(ctx,rng,ms[0],b,'files/stdin-camera')
                    ctx.ok(('lensmodel' in r.out)==(eout=='.cameramodel'),'files/stdin-format','')
                continue
            r=cli.run(tool,*args,*extra,*fs)
            if not ctx.ok(r.rc==0,'files/rc',f'{r}'): continue
            if already: ctx.ok(open(extra[0]).read()=='as is','files/already','')
            for k,(f,m) in enumerate(zip(dst,ms)):
                if k==N-1 and exists and not force: ctx.ok(open(f).read()=='precious','files/overwritten','an existing file was overwritten without --force'); continue
                if not ctx.ok(os.path.exists(f),'files/missing',f'{f} was not written; {r}'): continue
                same_camera(ctx,rng,m,mrcal.cameramodel(f),f'files/{tool}'); 
                if ein!='.yaml': same_region(ctx,m,mrcal.cameramodel(f),'files/region')
            want=set(os.path.basename(f) for f in fs+dst)|{'o'}|({f'done{eout}'} if already else set())
            have=set(os.listdir(D))|set(os.listdir(f'{D}/o'))
            ctx.ok(have<=want,'files/unexpected',f'{have-want}')
    # refused
    m=a_model(rng,gen.splined(rng)); m.write('s.cameramodel'); open('s.cahvor','w').write('precious')
    for a in (('s.cameramodel',),('--force','s.cameramodel')):
        ctx.case('refuse',key=('tool',len(a)),args=a); r=cli.run('mrcal-to-cahvor',*a); ctx.ok((r.rc not in (0,None) or len(a)==1) and open('s.cahvor').read()=='precious','refuse/to-cahvor',f'{r}')
    for tool in ('mrcal-to-cahvor','mrcal-from-cahvor','mrcal-from-ros','mrcal-from-kalibr','mrcal-to-kalibr'):
        for nm,a in dict(nosuch=('nosuch.xxx',),two=('-','-'),outdir=('--outdir','nosuch','s.cameramodel'),option=('--bogus',)).items():
            ctx.case('refuse',key=(tool,nm),tool=tool,what=nm); r=cli.run(tool,*a,stdin='garbage'); ctx.ok(r.rc not in (0,None) and r.rc>0 and not r.hung,f'refuse/{tool}-{nm}',f'{r}')
        ctx.case('refuse',key=(tool,'garbage'),tool=tool); r=cli.run(tool,stdin='garbage = 5'); ctx.ok(r.rc not in (0,None) and r.rc>0,f'refuse/{tool}-garbage',f'{r}')

def j_transforms(ctx,rng):
    import io
    for it in range(ctx.n(25,300)):
        def qt():
            q=rng.normal(size=4); q/=np.linalg.norm(q); return q,rng.normal(size=3)*5
        v=qt(); n=int(rng.integers(0,5)); ids=rng.choice(20,n,replace=False); c={int(i):qt() for i in ids}
        f=lambda a: '('+' '.join('%.12f'%x if it%2 else '%.15e'%x for x in a)+')'
        L=[f'ins2veh = {f(v[1])} {f(v[0])}']+[f'cam2ins[{i}] = {f(x[1])} {f(x[0])}' for i,x in c.items()]
        if it%3==0: L=[L[j] for j in rng.permutation(len(L))]
        if it%4==0: L.insert(0,'# comment'); L.append('')
        t='\n'.join(L)+'\n'
        ctx.case('transforms',key=(n,it%12),text=t)
        with ctx.guard('transforms'):
            open('t.txt','w').write(t); x=cahvor.read_transforms('t.txt' if it%2 else io.StringIO(t))
            def Rt(a): return np.vstack((ref.R_from_q(a[0]),a[1]))
            ctx.close(x['veh_from_ins'],Rt(v),'transforms/ins2veh',atol=1e-9)
            if ctx.ok(set(x['ins_from_camera'])==set(c),'transforms/cameras',''):
                for i in c: ctx.close(x['ins_from_camera'][i],Rt(c[i]),'transforms/cam2ins',atol=1e-9)
    ok='ins2veh = (1 2 3) (1 0 0 0)\n'
    for nm,t in dict(missing='cam2ins[0] = (1 2 3) (1 0 0 0)\n',twice=ok+ok,cam_twice=ok+'cam2ins[0] = (1 2 3) (1 0 0 0)\n'*2,other=ok+'foo = 5\n',short='ins2veh = (1 2) (1 0 0 0)\n').items():
        ctx.case('refuse',key=('transforms',nm),what=nm); ctx.raises(lambda: cahvor.read_transforms(io.StringIO(t)),f'refuse/transforms-{nm}')
