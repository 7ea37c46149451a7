'''Image transformations, and synthetic data'''
import re
TITLE = 'image transformation maps, and synthetic data'
RULE  = ('An execution is one call of image_transformation_map(), transform_image(), pinhole_model_for_reprojection(), scale_focal__best_pinhole_fit(), ref_calibration_object(), synthesize_board_observations(), make_perfect_observations() or make_tracks() with random models (each lens family), poses, planes, boards and options. '
         'Oracle: the map must take each pixel to the independent projection of the point that pixel sees (at infinity, on a sphere, on a plane); images are resampled by a separate bilinear sampler, and a rendered analytic scene must look the same through either camera; '
         'the pinhole model contains each requested point, and nothing longer does; synthetic observations are the independent projections of the poses that are reported, which are where, as visible and as oblique as was asked; perfect observations produce no residuals, and the requested noise. Inputs are left alone. Non-trivial: distinct functions, modes, options and lens models.')
ASSUMPTIONS = ['maps are judged where the ray lies in the range of angles the source model supports, and where it hits the plane in front of the camera',
               'cv2.remap() quantizes the map to 1/32 pixel','a board of a single row or column cannot be warped']
MIN_EVALUATIONS = 800
FLOORS = {'map':150,'plane':30,'mask':10,'transform':40,'scene':10,'fit':100,'scale':60,'refuse':10,'board':100,'synth':25,'perfect':40,'noise':15,'tracks':3}

def jobs(tier,seed):
    return [dict(name='map_0',weight=2),dict(name='map_1',weight=2),dict(name='transform'),dict(name='pinhole'),dict(name='board'),dict(name='synth',weight=2),dict(name='perfect'),dict(name='tracks')]

def run(ctx,job):
    global np,mrcal,vlib,ref,gen,prob
    import numpy as np, mrcal, vlib, ref, gen, prob
    np.seterr(all='ignore')
    globals()['j_'+job['name'].split('_')[0]](ctx,ctx.rng)

def unit(v): return v/np.linalg.norm(v,axis=-1,keepdims=True)
def proj(p,lm,i):
    s=p.shape
    return ref.project(p.reshape(-1,3),lm,i).reshape(s[:-1]+(2,))
def model(rng,lm,size,pose=True,fmin=.75):
    W,H=size
    i=gen.intrinsics(rng,lm,strength=.5,imagersize=size,central=True)
    k=ref.config(lm)['kind']
    if k=='SPLINED':
        lm=re.sub('fov_x_deg=.*','fov_x_deg=%d'%rng.choice((140,140,110)),lm); i[4:]*=.15; i[:2]=W*.5*rng.uniform(.9,1.1)
    elif k in ('OPENCV','CAHVOR','CAHVORE','PINHOLE'): i[:2]=W*rng.uniform(fmin,1.2)*np.array((1,rng.uniform(.97,1.03)))
    return mrcal.cameramodel(intrinsics=(lm,i),imagersize=size,rt_cam_ref=gen.small_pose(rng,.15,.3) if pose else np.zeros(6))
def snap(m): return (m.intrinsics()[0],m.intrinsics()[1].copy(),m.imagersize().copy() if hasattr(m.imagersize(),'copy') else tuple(m.imagersize()),m.rt_cam_ref().copy())
def unchanged(ctx,m,s,mech):
    t=snap(m); ctx.ok(t[0]==s[0] and all(np.array_equal(a,b) for a,b in zip(t[1:],s[1:])),f'{mech}/modified-model','the model was modified')
def judge_q(ctx,a,b,ok,m,mech,atol=1e-3,**kw):
    fam=gen.family(m.intrinsics()[0])
    d=a-b
    if fam in ('LONLAT','LATLON'): per=2*np.pi*m.intrinsics()[1][:2]; d=d-np.round(d/per)*per
    d=np.where(ok[...,None],d,0); lim=atol+np.abs(np.where(ok[...,None],b,0)).max()*3e-7
    e=np.abs(d).max() if d.size else 0.
    ctx.maxerr[mech]=max(ctx.maxerr.get(mech,0),float(e/lim)) if np.isfinite(e) else 1e99
    ctx.counts['judgements']=ctx.counts.get('judgements',0)+1
    if not e<=lim:
        j=np.unravel_index(np.nanargmax(np.abs(d)),d.shape)
        ctx.violate(mech,f'pixel {j[:2]}: {a[j[:-1]]} should be {b[j[:-1]]}',**kw)
def supported(v,m):
    u=unit(v); lm=m.intrinsics()[0]; fam=gen.family(lm)
    ok=np.isfinite(u).all(-1)
    if fam in ('LONLAT','LATLON'): return ok&(np.abs(u[...,1 if fam=='LONLAT' else 0])<.97)
    return ok&(np.arccos(np.clip(u[...,2],-1,1))<min(gen.max_theta(lm),1.45 if fam.startswith('SPL') else 9))

def matplotlib_standin():
    '''The masking uses matplotlib only to find the points inside of a polygon. Where it
    isn't installed, I do that'''
    import sys,types
    try: import matplotlib.path; return
    except ImportError: pass
    class Path:
        def __init__(s,vertices): s.v=np.array(vertices,dtype=float); assert s.v.ndim==2 and s.v.shape[1]==2
        def contains_points(s,q):
            q=np.asarray(q,dtype=float); assert q.ndim==2 and q.shape[1]==2
            v=np.vstack((s.v,s.v[:1])); return inside(q,v)
    a=types.ModuleType('matplotlib'); b=types.ModuleType('matplotlib.path'); a.path=b; b.Path=Path
    sys.modules['matplotlib']=a; sys.modules['matplotlib.path']=b

def j_map(ctx,rng):
    matplotlib_standin()
    kinds=gen.lensmodels(rng,1,1)
    for it in range(ctx.n(150,2500)):
        a=kinds[int(rng.integers(len(kinds)))]; b=kinds[int(rng.integers(len(kinds)))]
        if rng.uniform()<.3: a=str(rng.choice(gen.OPENCV)); b='LENSMODEL_PINHOLE'
        mf=model(rng,a,(int(rng.integers(30,90)),int(rng.integers(30,80)))); mt=model(rng,b,(int(rng.integers(8,45)),int(rng.integers(8,40))))
        if rng.uniform()<.1: mt.rt_cam_ref(mf.rt_cam_ref())
        a=mf.intrinsics()[0]; b=mt.intrinsics()[0]
        mode=('infinity','infinity','distance','intrinsics','plane')[int(rng.integers(5))]
        kw={}
        T=ref.T_from_rt(mf.rt_cam_ref())@ref.inv_T(ref.T_from_rt(mt.rt_cam_ref())) # from <- to
        W,H=mt.imagersize()
        q=np.stack(np.meshgrid(np.arange(W)*1.,np.arange(H)*1.),axis=-1)
        v=mrcal.unproject(q,*mt.intrinsics()); v=unit(v)
        # this is the ray of this pixel. I don't take the library's word for it
        okv=supported(v,mt)
        if gen.family(b) in ('LONLAT','LATLON'): okv=okv&(np.abs((q-mt.intrinsics()[1][2:4])/mt.intrinsics()[1][:2])[...,1 if gen.family(b)=='LONLAT' else 0]<1.5) # beyond the poles a direction has several pixels
        judge_q(ctx,proj(np.where(okv[...,None],v,(0,0,1)),*mt.intrinsics()),q,okv,mt,'map/unprojection',atol=.02,v=v,i=mt.intrinsics()[1].tolist(),size=(W,H),to=b)
        ok=okv
        if mode=='intrinsics': kw['intrinsics_only']=True; p=v
        elif mode=='infinity': p=v@T[:3,:3].T
        elif mode=='distance':
            d=float(10**rng.uniform(-.3,3)); kw['distance']=d; p=(v*d)@T[:3,:3].T+T[:3,3]
        else:
            # n.x=d, in the "from" coordinates
            n=rng.normal(size=3); n[2]+=1.5*np.sign(n[2]); n*=rng.uniform(.2,3); z=rng.uniform(1,20)*rng.choice((1,1,1,-1))
            d=n@np.array((0,0,z))
            kw['plane_n']=n if rng.uniform()<.7 else list(n); kw['plane_d']=float(d)
            u=v@T[:3,:3].T; lam=(d-n@T[:3,3])/(u@n)
            p=u*lam[...,None]+T[:3,3]
            ok=ok&(lam>.05)&(lam<1e4)
            # behind or at the camera. A line of sight crosses the plane nearby
        ok=ok&supported(p,mf)&(np.linalg.norm(p,axis=-1)>1e-3)
        mask=rng.uniform()<.15
        kind='plane' if mode=='plane' else 'map'
        special='LENSMODEL_OPENCV' in a and 'PINHOLE' in b and mode in ('infinity','intrinsics') and not mask
        ctx.case(kind,key=(gen.family(a),gen.family(b),mode,mask,special),**{'from':a,'to':b},mode=mode,kw={k:str(x) for k,x in kw.items()},rt=T[:3].tolist() if it%20==0 else None)
        ctx.counts['special']=ctx.counts.get('special',0)+special
        if special: ok=ok&(p[...,2]>.2)
        sf,st=snap(mf),snap(mt)
        if mask:
            Wf,Hf=mf.imagersize(); c=np.array((Wf,Hf))*rng.uniform(.3,.7,2); ph=np.sort(rng.uniform(0,2*np.pi,7)); r=rng.uniform(.2,.6,7)*min(Wf,Hf)
            reg=c+np.stack((np.cos(ph),np.sin(ph)),-1)*r[:,None]; reg=np.vstack((reg,reg[:1]))
            mf.valid_intrinsics_region(reg); kw['mask_valid_intrinsics_region_from']=True
        with ctx.guard(f'{kind}/{mode}'):
            m=mrcal.image_transformation_map(mf,mt,**kw)
            if not ctx.ok(m.shape==(H,W,2) and m.dtype==np.float32,f'{kind}/shape',f'{m.shape} {m.dtype}'): continue
            unchanged(ctx,mf,sf,kind); unchanged(ctx,mt,st,kind)
            if mode=='plane': ctx.same(np.array(kw['plane_n']),n,'plane/modified')
            want=proj(np.where(ok[...,None],p,(0,0,1)),*mf.intrinsics())
            if mask:
                ctx.case('mask',key=(gen.family(a),mode),kinda=a)
                ins=inside(want,reg); near=edge_distance(want,reg)<.05
                if gen.family(a) in ('LONLAT','LATLON'):
                    per=2*np.pi*mf.intrinsics()[1][:2]; near=near|(np.abs(want-mf.intrinsics()[1][2:4])>.45*per).any(-1)
                out=(m==-1).all(-1)
                ctx.ok((out==~ins)[ok&~near].all(),'mask/region','the masked-out pixels are not those outside of the region',n=int((out!=~ins)[ok&~near].sum()))
                if (ok&~near).any(): ctx.counts['mask-in']=ctx.counts.get('mask-in',0)+int(ins[ok&~near].sum()); ctx.counts['mask-out']=ctx.counts.get('mask-out',0)+int((~ins)[ok&~near].sum())
                ok=ok&~near&ins
            if ok.any():
                ctx.counts['pixels-judged']=ctx.counts.get('pixels-judged',0)+int(ok.sum())
                judge_q(ctx,m.astype(float),want,ok,mf,f'{kind}/{mode}'+('-special' if special else ''),atol=2e-4)
            # the same plane, otherwise
            if mode=='plane':
                s=float(rng.choice((-1,-2.5,.1,7)))
                o=mrcal.image_transformation_map(mf,mt,**{**kw,'plane_n':n*s,'plane_d':d*s})
                if not mask: judge_q(ctx,o.astype(float),want,ok,mf,'plane/scaled',atol=1e-3)
            # the general path
            if special and it%2:
                mf2=mrcal.cameramodel(mf); Wf,Hf=mf.imagersize(); mf2.valid_intrinsics_region(np.array(((-1e9,-1e9),(1e9,-1e9),(1e9,1e9),(-1e9,1e9),(-1e9,-1e9))))
                o=mrcal.image_transformation_map(mf2,mt,**kw,mask_valid_intrinsics_region_from=True)
                judge_q(ctx,o.astype(float),m.astype(float),ok,mf,'map/paths-differ',atol=1e-3)
            # to itself
            if it%6==0:
                o=mrcal.image_transformation_map(mt,mt,**({'intrinsics_only':True} if it%12 else {}))
                judge_q(ctx,o.astype(float),q,okv,mt,'map/identity',atol=.02)
    if ctx.job['name'].endswith('0'):
        mf=model(rng,'LENSMODEL_OPENCV4',(40,30)); mt=model(rng,'LENSMODEL_PINHOLE',(20,10)); n=np.array((0,0,1.)); T=mrcal.image_transformation_map
        for nm,f in dict(n_only=lambda:T(mf,mt,plane_n=n), d_only=lambda:T(mf,mt,plane_d=1.), plane_intrinsics=lambda:T(mf,mt,plane_n=n,plane_d=2.,intrinsics_only=True),
                         distance_intrinsics=lambda:T(mf,mt,distance=3.,intrinsics_only=True),distance_plane=lambda:T(mf,mt,distance=3.,plane_n=n,plane_d=2.)).items():
            ctx.case('refuse',key=nm,what=nm); ctx.raises(f,f'refuse/{nm}')

def inside(q,poly):
    '''even-odd rule'''
    x,y=q[...,0],q[...,1]; c=np.zeros(x.shape,bool)
    for (x0,y0),(x1,y1) in zip(poly[:-1],poly[1:]):
        if y0==y1: continue
        c ^= ((y0>y)!=(y1>y)) & (x < (x1-x0)*(y-y0)/(y1-y0)+x0)
    return c
def edge_distance(q,poly):
    d=np.full(q.shape[:-1],np.inf)
    for a,b in zip(poly[:-1],poly[1:]):
        e=b-a; n=e@e
        t=np.clip(((q-a)@e)/n,0,1) if n>0 else np.zeros(q.shape[:-1])
        d=np.minimum(d,np.linalg.norm(q-(a+t[...,None]*e),axis=-1))
    return d

def bilinear(im,q,border):
    H,W=im.shape[:2]
    x0=np.floor(q[...,0]).astype(int); y0=np.floor(q[...,1]).astype(int); fx=q[...,0]-x0; fy=q[...,1]-y0
    def at(y,x):
        g=(x>=0)&(x<W)&(y>=0)&(y<H)
        o=im[np.clip(y,0,H-1),np.clip(x,0,W-1)].astype(float)
        g=g.reshape(g.shape+(1,)*(im.ndim-2))
        return np.where(g,o,border)
    if im.ndim==3: fx=fx[...,None]; fy=fy[...,None]
    return at(y0,x0)*(1-fx)*(1-fy)+at(y0,x0+1)*fx*(1-fy)+at(y0+1,x0)*(1-fx)*fy+at(y0+1,x0+1)*fx*fy

def j_transform(ctx,rng):
    import cv2
    for it in range(ctx.n(60,800)):
        H,W=int(rng.integers(5,60)),int(rng.integers(5,60)); h,w=int(rng.integers(1,50)),int(rng.integers(1,50))
        rgb=rng.uniform()<.4; dt=(np.uint8,np.uint16,np.float32)[int(rng.integers(3))]
        top={np.uint8:255,np.uint16:65535,np.float32:1}[dt]
        yy,xx=np.mgrid[:H,:W]; k=rng.uniform(-.1,.1,(3,2))
        im=np.stack([(.5+.45*np.sin(xx*a+yy*b+1)) for a,b in k],-1)*top
        if not rgb: im=im[...,0]
        im=im.astype(dt)
        m=np.stack((rng.uniform(-3,W+2,(h,w)),rng.uniform(-3,H+2,(h,w))),-1).astype(np.float32)
        m[rng.uniform(size=(h,w))<.2]=-1e4
        if rng.uniform()<.3: m=np.round(m)
        bv=0 if rng.uniform()<.6 else float(rng.uniform(0,1)*top) if not rgb else 0
        if dt!=np.float32: bv=int(bv)
        use_out=rng.uniform()<.3; im0,m0=im.copy(),m.copy()
        kw=dict(borderValue=bv) if bv else {}
        out=np.full((h,w)+im.shape[2:],7,dtype=dt) if use_out else None
        nearest=rng.uniform()<.15 
        if nearest: kw['interpolation']=cv2.INTER_NEAREST
        ctx.case('transform',key=(rgb,dt.__name__,use_out,nearest,bv!=0),shape=(H,W),out=(h,w),rgb=rgb,dtype=dt.__name__,border=bv)
        with ctx.guard('transform'):
            r=mrcal.transform_image(im,m,**kw,**({'out':out} if use_out else {}))
            if not ctx.ok(r.shape==(h,w)+im.shape[2:] and r.dtype==dt,'transform/shape',f'{r.shape} {r.dtype}'): continue
            if use_out: ctx.same(out,r,'transform/out',msg='the given array must receive the image')
            ctx.same(im,im0,'transform/modified'); ctx.same(m,m0,'transform/modified-map')
            # cv2.remap() resamples the map at 1/32 pixel
            if nearest:
                fr=np.abs(m-np.floor(m)-.5); g=(fr>.05).all(-1)
                want=bilinear(im,np.round(m).astype(float),bv); tol=np.ones_like(want)*(.51 if dt!=np.float32 else 1e-5)
            else:
                want=bilinear(im,m.astype(float),bv); g=np.ones((h,w),bool)
                lo=np.full(want.shape,np.inf); hi=np.full(want.shape,-np.inf)
                for dx in (-1/32,0,1/32):
                    for dy in (-1/32,0,1/32):
                        o=bilinear(im,m.astype(float)+(dx,dy),bv); lo=np.minimum(lo,o); hi=np.maximum(hi,o)
                tol=(hi-lo)+top*(.006 if dt==np.uint8 else 1e-4)
            bad=(np.abs(r.astype(float)-want)>tol)&(g if not rgb else g[...,None])
            ctx.ok(not bad.any(),'transform/value','the image was not resampled correctly',n=int(bad.sum()),where=np.argwhere(bad)[:3].tolist())
            if rng.uniform()<.3:
                # a map produced by whatever layout
                ms=gen.strided(rng,m) 
                try: r2=mrcal.transform_image(im,ms,**kw)
                except Exception: r2=None
                if r2 is not None: ctx.same(r2,r,'transform/layout')
    for it in range(ctx.n(12,120)):
        # an analytic scene, seen by both
        lf=str(rng.choice(('LENSMODEL_PINHOLE','LENSMODEL_OPENCV8','LENSMODEL_STEREOGRAPHIC','LENSMODEL_CAHVOR','LENSMODEL_LATLON'))); lt=str(rng.choice(('LENSMODEL_PINHOLE','LENSMODEL_OPENCV5','LENSMODEL_STEREOGRAPHIC')))
        mf=model(rng,lf,(400,300)); mt=model(rng,lt,(160,120))
        i=mt.intrinsics()[1].copy(); i[:2]*=1.3; mt.intrinsics(intrinsics=(lt,i))
        i=mf.intrinsics()[1].copy(); i[:2]*=.8; mf.intrinsics(intrinsics=(lf,i))
        k=rng.uniform(-9,9,(3,3))
        def render(m):
            W,H=m.imagersize()
            v=unit(mrcal.unproject(np.stack(np.meshgrid(np.arange(W)*1.,np.arange(H)*1.),axis=-1),*m.intrinsics()))@ref.R_from_r(m.rt_cam_ref()[:3])
            return np.stack([.5+.45*np.sin(v@x) for x in k],-1).astype(np.float32)
        ctx.case('scene',key=(gen.family(lf),gen.family(lt)),**{'from':lf,'to':lt})
        with ctx.guard('scene'):
            mp=mrcal.image_transformation_map(mf,mt); a=mrcal.transform_image(render(mf),mp); b=render(mt)
            g=((mp>=0)&(mp<=np.array(mf.imagersize())-1)).all(-1)
            W,H=mt.imagersize(); v=unit(mrcal.unproject(np.stack(np.meshgrid(np.arange(W)*1.,np.arange(H)*1.),axis=-1),*mt.intrinsics())); g&=supported(v,mt)&supported(v@(ref.R_from_r(mf.rt_cam_ref()[:3])@ref.R_from_r(mt.rt_cam_ref()[:3]).T).T,mf)
            # a folded lens shows the same scene several times
            if ctx.ok(g.any(),'scene/overlap',''):
                e=np.abs(a-b)[g].max(); ctx.maxerr['scene']=max(ctx.maxerr.get('scene',0),float(e/.01)); ctx.ok(e<.01,'scene/value',f'a scene transformed to the other camera is off by {e:g} of 1')
    im=np.zeros((9,9),np.uint8)
    for nm,f in dict(noimage=lambda: mrcal.transform_image(None,np.zeros((3,3,2),np.float32)),nomap=lambda: mrcal.transform_image(im,None),listmap=lambda: mrcal.transform_image(im,[[[1.,1.]]]),badmap=lambda: mrcal.transform_image(im,np.zeros((3,3,3),np.float32))).items():
        ctx.case('refuse',key=nm,what=nm); ctx.raises(f,f'refuse/{nm}')

def j_pinhole(ctx,rng):
    kinds=gen.lensmodels(rng,1,1)
    nfit=0
    for it in range(ctx.n(220,4000)):
        lm=kinds[it%len(kinds)]
        W,H=int(rng.integers(100,4000)),int(rng.integers(100,3000))
        m=model(rng,lm,(W,H)); lm=m.intrinsics()[0]
        i=m.intrinsics()[1].copy()
        wide=rng.uniform()<.25
        if gen.family(lm) in ('STEREOGRAPHIC','LONLAT','LATLON') and not wide: i[:2]=W*rng.uniform(.6,1.2)
        if rng.uniform()<.25: i[2:4]=(W-1)/2,(H-1)/2
        if rng.uniform()<.05: i[2+int(rng.integers(2))]=0.
        m.intrinsics(intrinsics=(lm,i)); s=snap(m)
        cx,cy=i[2:4]
        fit=('corners','centers-horizontal','centers-vertical','array','none','scale_focal')[it//len(kinds)%6]
        kw={}; Q=None
        if fit=='corners': Q=np.array(((0,0),(0,H-1),(W-1,0),(W-1,H-1.)))
        elif fit=='centers-horizontal': Q=np.array(((0,(H-1)/2),(W-1.,(H-1)/2)))
        elif fit=='centers-vertical': Q=np.array((((W-1)/2,0),((W-1)/2,H-1.)))
        elif fit=='array':
            sh=((3,),(1,),(),(2,3))[int(rng.integers(4))]
            Q=np.stack((rng.uniform(0,W-1,sh),rng.uniform(0,H-1,sh)),-1)
        if Q is not None: kw['fit']=Q if fit=='array' else fit; Q0=Q.copy(); Q=Q.reshape(-1,2)
        k=1.
        if fit=='scale_focal': k=float(rng.uniform(.3,3)); kw['scale_focal']=k
        ks=None
        if rng.uniform()<.5: ks=float(rng.choice((.5,2.,rng.uniform(.1,3)))); kw['scale_image']=ks
        if Q is not None:
            v=mrcal.unproject(Q,lm,i)
            if not np.isfinite(v).all() or (np.linalg.norm(v,axis=-1)==0).any() or (unit(v)[...,2]<1e-6).any():
                ctx.case('refuse',key=(fit,gen.family(lm)),lensmodel=lm,fit=fit,intrinsics=i)
                ctx.raises(lambda: mrcal.pinhole_model_for_reprojection(m,**kw),'refuse/behind','points a pinhole model cannot see'); continue
            if not (supported(v,m)&(unit(v)[...,2]>.02)).all(): continue
        ctx.case('fit',key=(gen.family(lm),fit,ks is None),lensmodel=lm,fit=fit,scale_image=ks,imagersize=(W,H),core=i[:4])
        if ks: ctx.case('scale',key=(gen.family(lm),fit,round(ks,1)),scale_image=ks)
        centered=((i[2:4]>0)&(i[2:4]<np.array((W,H))-1.)).all()
        with ctx.guard(f'fit/{fit}',allow=() if centered or Q is None else (Exception,)):
            o=mrcal.pinhole_model_for_reprojection(m,**kw)
            unchanged(ctx,m,s,'fit')
            if fit=='array': ctx.same(kw['fit'],Q0,'fit/modified')
            ol,oi=o.intrinsics()
            if not ctx.ok(ol=='LENSMODEL_PINHOLE' and oi.shape==(4,) and np.isfinite(oi).all(),'fit/model',f'{ol} {oi}'): continue
            ctx.close(o.rt_cam_ref(),m.rt_cam_ref(),'fit/extrinsics',atol=1e-12)
            s1=ks or 1.
            ctx.ok(tuple(o.imagersize())==(round(W*s1),round(H*s1)),'fit/imagersize',f'{o.imagersize()}')
            # In pixels of the unscaled image: (q+1/2) scales
            c1=(oi[2:4]+.5)/s1-.5; f1=oi[:2]/s1
            ctx.close(c1,i[2:4],'fit/center',atol=1e-9,rtol=1e-10,msg='the pixel where the optical axis is')
            ctx.close(f1[0]/f1[1],i[0]/i[1],'fit/aspect',rtol=1e-10)
            kk=f1[0]/i[0]
            if Q is None: ctx.close(kk,k,'fit/focal',rtol=1e-10)
            else:
                kf=mrcal.scale_focal__best_pinhole_fit(m,kw['fit'] if fit!='array' else Q)
                ctx.close(kf,kk,'fit/scale_focal__best_pinhole_fit',rtol=1e-10)
                q=f1*v[...,:2]/v[...,2:]+c1
                hi=np.array((W,H))-1.
                ctx.ok(((q>-1e-6*W)&(q<hi+1e-6*W)).all(),'fit/outside','requested points are not inside of the image of the pinhole model',q=q)
                ins=((i[2:4]>=0)&(i[2:4]<=hi)).all()
                d=np.minimum(q,hi-q).min()
                if ins and kk<1e5: ctx.ok(abs(d)<1e-6*W,'fit/not-tight',f'the requested points are all at least {d:g} pixels inside',q=q)
    m=model(rng,'LENSMODEL_OPENCV4',(400,300)); F=mrcal.pinhole_model_for_reprojection; S=mrcal.scale_focal__best_pinhole_fit
    for nm,f in dict(both=lambda: F(m,'corners',scale_focal=2.),name=lambda: F(m,'bogus'),name2=lambda: S(m,'bogus'),shape=lambda: F(m,np.zeros((3,3))),type_=lambda: S(m,7)).items():
        ctx.case('refuse',key=nm,what=nm); ctx.raises(f,f'refuse/{nm}')
    ctx.case('fit',key='None',what='scale_focal__best_pinhole_fit(None)'); ctx.ok(S(m,None)==1,'fit/none','')

def board_at(xs,ys,W,H,sp,warp):
    x,y=np.meshgrid(xs,ys); o=np.zeros(x.shape+(3,)); o[...,0]=x*sp[0]; o[...,1]=y*sp[1]
    if warp is not None:
        a=2*x/(W-1)-1; b=2*y/(H-1)-1; o[...,2]=warp[0]*(1-a*a)+warp[1]*(1-b*b)
    return o
def j_board(ctx,rng):
    for it in range(ctx.n(150,2500)):
        W,H=int(rng.integers(2,20)),int(rng.integers(2,20))
        kind=('plain','plain','xy','broadcast','inputs')[it%5]
        sp=float(rng.uniform(.01,2)); warp=rng.uniform(-.1,.1,2) if rng.uniform()<.7 else None
        kw={}; xs,ys=np.arange(W)*1.,np.arange(H)*1.; spl=()
        S=(sp,sp); arg=sp
        if rng.uniform()<.4: arg=rng.uniform(.01,1,2); S=arg
        if kind=='xy':
            if rng.uniform()<.8: kw.update(x_corner0=float(rng.uniform(-3,3)),x_corner1=float(rng.uniform(-3,20)),Nx=int(rng.integers(1,15))); xs=np.linspace(kw['x_corner0'],kw['x_corner1'],kw['Nx'])
            if rng.uniform()<.3: kw.pop('x_corner1',0); 
            if 'x_corner0' in kw: xs=np.linspace(kw['x_corner0'],kw.get('x_corner1',W-1),kw['Nx'])
            if rng.uniform()<.8: kw.update(y_corner0=float(rng.uniform(-3,3)),y_corner1=float(rng.uniform(-3,20)),Ny=int(rng.integers(1,15)))
            if rng.uniform()<.3: kw.pop('Ny',0)
            if 'y_corner0' in kw: ys=np.linspace(kw['y_corner0'],kw['y_corner1'],kw.get('Ny',H))
        ctx.case('board',key=(kind,W,H,np.ndim(arg),warp is None),W=W,H=H,object_spacing=arg,warp=warp,kw=kw)
        with ctx.guard(f'board/{kind}'):
            if kind=='inputs':
                oi=dict(observations_board=np.zeros((2,H,W,3)),calibration_object_spacing=sp,calobject_warp=warp)
                b=mrcal.ref_calibration_object(optimization_inputs=oi); S=(sp,sp)
            elif kind=='broadcast':
                A=rng.uniform(.01,1,((3,1,2),(4,2),(2,))[int(rng.integers(3))]); B=rng.uniform(-.1,.1,((4,2),(3,4,2),(2,))[int(rng.integers(3))])
                try: sh=np.broadcast_shapes(A.shape[:-1],B.shape[:-1])
                except Exception: continue
                B0,A0=B.copy(),A.copy()
                b=mrcal.ref_calibration_object(W,H,A,calobject_warp=B)
                ctx.same(A,A0,'board/modified'); ctx.same(B,B0,'board/modified')
                if not ctx.ok(b.shape==sh+(H,W,3),'board/broadcast-shape',f'{b.shape}; should be {sh}+({H},{W},3)'): continue
                AA=np.broadcast_to(A,sh+(2,)); BB=np.broadcast_to(B,sh+(2,))
                for j in np.ndindex(*sh): ctx.close(b[j],board_at(xs,ys,W,H,AA[j],BB[j]),'board/broadcast',atol=1e-12)
                continue
            else: b=mrcal.ref_calibration_object(W,H,arg,calobject_warp=warp,**kw)
            ctx.close(b,board_at(xs,ys,W,H,S,warp),f'board/{kind}',atol=1e-12,rtol=1e-12)
            # what the solver uses
            if kind=='plain' and np.ndim(arg)==0:
                f=gen.rt(rng); f[5]+=50; oi=dict(lensmodel='LENSMODEL_PINHOLE',intrinsics=np.array(((1000.,1000,500,500),)),imagersizes=np.array(((1000,1000),),dtype=np.int32),rt_cam_ref=np.zeros((0,6)),rt_ref_frame=f[None],points=None,
                    observations_board=np.concatenate((rng.uniform(0,99,(1,H,W,2)),np.ones((1,H,W,1))),-1),indices_frame_camintrinsics_camextrinsics=np.array(((0,0,-1),),dtype=np.int32),calobject_warp=warp,calibration_object_spacing=sp)
                x=mrcal.optimizer_callback(**oi,do_apply_regularization=False,do_optimize_calobject_warp=warp is not None,no_jacobian=True,no_factorization=True)[1]
                q=oi['observations_board'][0,...,:2]+x[:2*W*H].reshape(H,W,2)
                ctx.close(q,proj(b@ref.R_from_r(f[:3]).T+f[3:],'LENSMODEL_PINHOLE',oi['intrinsics'][0]),'board/solver',atol=1e-6,msg='the solver looks at a different board')
                p=mrcal.hypothesis_board_corner_positions(**oi)[0]
                ctx.close(p[0],b@ref.R_from_r(f[:3]).T+f[3:],'board/hypothesis',atol=1e-9)
    R=mrcal.ref_calibration_object; oi=dict(observations_board=np.zeros((1,3,4,3)),calibration_object_spacing=1.,calobject_warp=None)
    for nm,f in dict(none=lambda:R(),some=lambda:R(3,4),both=lambda:R(3,4,1.,optimization_inputs=oi),some2=lambda: R(object_spacing=1.)).items():
        ctx.case('refuse',key=nm,what=nm); ctx.raises(f,f'refuse/board-{nm}')

def j_synth(ctx,rng):
    kinds=gen.lensmodels(rng,1,1)
    WHICH=('all-cameras-must-see-full-board','some-cameras-must-see-full-board','all-cameras-must-see-half-board','some-cameras-must-see-half-board')
    for it in range(ctx.n(44,500)):
        N=int(rng.integers(1,4)); lm=kinds[it%len(kinds)]
        W,H=int(rng.integers(500,3000)),int(rng.integers(400,2500))
        ms=[]
        for k in range(N):
            m=model(rng,lm,(W,H)); r=m.rt_cam_ref(); r[:3]*=.5; m.rt_cam_ref(r); ms.append(m)
        lm=ms[0].intrinsics()[0]
        bw,bh=int(rng.integers(2,12)),int(rng.integers(2,12)); sp=.1; size=sp*max(bw,bh)
        warp=rng.uniform(-.01,.01,2) if rng.uniform()<.6 else None
        z=size*rng.uniform(2.,4)
        nom=np.concatenate((rng.uniform(-.2,.2,3),(0,0,z))); rad=np.concatenate((rng.uniform(0,.5,3),rng.uniform(.1,.45,2)*z,(rng.uniform(0,.25)*z,)))
        if rng.uniform()<.2: nom[int(rng.integers(2))]+=np.pi*.9; 
        if rng.uniform()<.1: rad[:3]=0
        which=WHICH[it%4]; F=int(rng.integers(1,40)); kw={}
        if rng.uniform()<.4: kw['max_oblique_angle_deg']=float(rng.uniform(25,60)); nom[:2]=rng.uniform(-.2,.2,2)
        pc=np.zeros(3)
        if kw and rng.uniform()<.4: pc=rng.uniform(-.1,.1,3)*z; kw['pcamera_nominal_ref']=pc
        if 'all' in which and N>1 and rng.uniform()<.5: rad=rad*.4
        if rng.uniform()<.6 or it>3: kw['which']=which
        else: which=WHICH[0]
        seed=int(rng.integers(1<<30)); np.random.seed(seed)
        ctx.case('synth',key=(gen.family(lm),N,which,'max_oblique_angle_deg' in kw,warp is None),lensmodel=lm,N=N,F=F,board=(bw,bh),kw={k:str(v) for k,v in kw.items()},nominal=nom,radius=rad)
        s=[snap(m) for m in ms]; nom0,rad0=nom.copy(),rad.copy()
        A=dict(object_width_n=bw,object_height_n=bh,object_spacing=sp,calobject_warp=warp,rt_ref_boardcenter=nom,rt_ref_boardcenter__noiseradius=rad,Nframes=F,**kw)
        with ctx.guard('synth'):
            q=None
            with possible(8): q,Rt=mrcal.synthesize_board_observations(ms,**A)
            if q is None: ctx.counts['synth-unlikely']=ctx.counts.get('synth-unlikely',0)+1; continue
            for m,x in zip(ms,s): unchanged(ctx,m,x,'synth')
            ctx.same(nom,nom0,'synth/modified'); ctx.same(rad,rad0,'synth/modified')
            if not ctx.ok(q.shape==(F,N,bh,bw,2) and Rt.shape==(F,4,3),'synth/shape',f'{q.shape} {Rt.shape}'): continue
            b=board_at(np.arange(bw),np.arange(bh),bw,bh,(sp,sp),warp); c=np.array(((bw-1)*sp/2,(bh-1)*sp/2,0))
            for f in range(F):
                R,t=Rt[f,:3],Rt[f,3]
                ctx.ok(np.abs(R@R.T-np.eye(3)).max()<1e-9 and np.linalg.det(R)>0,'synth/pose','not a rotation')
                # about the center of the board
                tc=t+R@c; r=mrcal.r_from_R(R)
                rr=[r+2*np.pi*k*unit(r) if np.linalg.norm(r)>0 else r for k in (-1,0,1)]
                ctx.ok(any((np.abs(x-nom[:3])<=rad[:3]+1e-7).all() for x in rr) and (np.abs(tc-nom[3:])<=rad[3:]+1e-9).all(),'synth/radius','the pose is farther from nominal than was asked for',r=r,t=tc)
                p=b@R.T+t
                nvis=[]
                for k,m in enumerate(ms):
                    pk=p@ref.R_from_r(m.rt_cam_ref()[:3]).T+m.rt_cam_ref()[3:]
                    ok=supported(pk,m)
                    judge_q(ctx,q[f,k],proj(pk,*m.intrinsics()),ok,m,'synth/projection',atol=1e-6)
                    nvis.append(int(((q[f,k]>=0).all(-1)&(q[f,k,...,0]<=W-1)&(q[f,k,...,1]<=H-1)).sum()))
                nvis=np.array(nvis)
                ok=(nvis==bw*bh) if 'full' in which else nvis*2>=bw*bh
                ctx.ok((ok.all() if which.startswith('all') else ok.any()),f'synth/visibility-{which}',f'{nvis} of {bw*bh} corners are visible')
                if 'max_oblique_angle_deg' in kw:
                    u=unit(tc-pc); th=np.degrees(np.arccos(np.clip(abs(u@R[:,2]),-1,1)))
                    ctx.ok(th<=kw['max_oblique_angle_deg']+1e-6,'synth/oblique',f'{th} degrees')
            # repeatable from the seed
            np.random.seed(seed)
            q2,Rt2=mrcal.synthesize_board_observations(ms,**A)
            ctx.close(q2,q,'synth/repeat',atol=1e-9,equal_nan=True); ctx.close(Rt2,Rt,'synth/repeat',atol=1e-12)
    # uniform, when all is visible
    for it in range(ctx.n(3,20)):
        m=mrcal.cameramodel(intrinsics=('LENSMODEL_PINHOLE',np.array((500.,500,1000,1000))),imagersize=(2001,2001))
        nom=np.array((.1,-.1,.2,0,0,4.)); rad=np.array((.1,.2,.3,.2,.3,.4)); F=600
        ctx.case('synth',key=('uniform',it),F=F,what='uniform')
        with ctx.guard('synth/uniform'):
            q,Rt=mrcal.synthesize_board_observations([m],object_width_n=3,object_height_n=4,object_spacing=.1,calobject_warp=None,rt_ref_boardcenter=nom,rt_ref_boardcenter__noiseradius=rad,Nframes=F)
            x=np.array([np.concatenate((mrcal.r_from_R(R[:3]),R[3]+R[:3]@(.1,.15,0))) for R in Rt]); u=(x-nom)/rad
            ctx.ok((np.abs(u.mean(0))<5/np.sqrt(3*F)).all() and (np.abs((u**2).mean(0)-1/3)<5*.3/np.sqrt(F)).all() and (np.abs(u).max(0)>.95).all() and np.abs(np.corrcoef(u.T)-np.eye(6)).max()<5.5/np.sqrt(F),'synth/uniform','the poses are not distributed uniformly',mean=u.mean(0),var=(u**2).mean(0))
    ctx.case('refuse',key='which',what='which'); ctx.raises(lambda: mrcal.synthesize_board_observations(ms,**{**A,'which':'all'}),'refuse/which')

class Unlikely(BaseException): pass
import contextlib
@contextlib.contextmanager
def possible(sec):
    '''Views are drawn until enough satisfy the request. Mine might ask for something that nearly never happens'''
    import signal
    def h(*a): raise Unlikely()
    o=signal.signal(signal.SIGALRM,h); signal.alarm(sec)
    try: yield
    except Unlikely: pass
    finally: signal.alarm(0); signal.signal(signal.SIGALRM,o)

def j_perfect(ctx,rng):
    kinds=gen.lensmodels(rng,1,1)
    for it in range(ctx.n(66,800)):
        lm=kinds[it%len(kinds)]
        pts=int(rng.choice((0,0,5,20))); fr=int(rng.choice((0,2,4))) if pts else int(rng.integers(1,5))
        Ncam=int(rng.integers(2 if not fr else 1,4))
        oi=prob.make(rng,lm,Ncam=Ncam,Nframes=fr,Npoints=pts,Npoints_fixed=int(rng.integers(0,3)) if pts else 0,WH=(int(rng.integers(2,8)),int(rng.integers(2,8))),noise=.5,outliers=.15,strength=.3,cameras=str(rng.choice(('cam0-ref','all','moving','mixed'))),central=True,jitter=0,outlier_kind=str(rng.choice(('mixed','minus1'))))
        if lm.startswith('LENSMODEL_SPL'): pass
        if mrcal.num_states(**oi)==0: continue # refused: nothing to optimize
        before={k:(np.array(v) if isinstance(v,np.ndarray) else v) for k,v in oi.items()}
        mode=('none','given')[it%2]
        ctx.case('perfect',key=(gen.family(lm),bool(fr),bool(pts),mode,Ncam),lensmodel=lm,frames=fr,points=pts,mode=mode)
        sig=0. if mode=='none' else float(10**rng.uniform(-3,0))
        with ctx.guard('perfect'):
            np.random.seed(int(rng.integers(1<<30)))
            r=mrcal.make_perfect_observations(oi,observed_pixel_uncertainty=sig)
            ctx.ok(r is None,'perfect/result','')
            others_untouched(ctx,oi,before)
            P=prob.Ref(before)
            judge_perfect(ctx,oi,before,sig,P,lm)
    # larger ones, for the statistics
    for it in range(ctx.n(20,120)):
        lm=('LENSMODEL_PINHOLE','LENSMODEL_OPENCV4','LENSMODEL_STEREOGRAPHIC')[it%3]; pts=int(rng.choice((0,300)))
        oi=prob.make(rng,lm,Ncam=2,Nframes=3 if it%4 else 0,Npoints=pts if it%4 else 500,WH=(14,12),noise=float(10**rng.uniform(-2,0)),outliers=.1,strength=.3,jitter=0,visible=1.,
                     select=dict(do_optimize_intrinsics_core=True,do_optimize_intrinsics_distortions=False,do_optimize_extrinsics=True,do_optimize_frames=bool(it%3) ,do_optimize_calobject_warp=False,do_apply_regularization=False))
        before={k:(np.array(v) if isinstance(v,np.ndarray) else v) for k,v in oi.items()}
        x0=mrcal.optimizer_callback(**oi,no_jacobian=True,no_factorization=True)[1]
        P=prob.Ref(before); inl=np.concatenate([np.repeat(before[k][...,2].ravel()>0,2) for k in ('observations_board','observations_point') if before[k] is not None])
        nin=int(inl.sum()); nst=mrcal.num_states(**oi)
        if nst>nin*.8: continue
        sig=None if it%2 else float(10**rng.uniform(-3,0))
        want=sig if sig is not None else np.sqrt((x0[:inl.size][inl]**2).sum()/nin)/np.sqrt(1-nst/nin)
        ctx.case('noise',key=(lm,sig is None,bool(pts),it%4==0),lensmodel=lm,sigma=sig,want=want,N=nin)
        with ctx.guard('noise'):
            seed=int(rng.integers(1<<30)); np.random.seed(seed)
            mrcal.make_perfect_observations(oi,**({} if sig is None else dict(observed_pixel_uncertainty=sig)))
            others_untouched(ctx,oi,before)
            n=judge_perfect(ctx,oi,before,want,P,lm)
            k=len(n); n=n/want
            ctx.ok(abs(n.std()-1)<5/np.sqrt(2*k) and abs(n.mean())<5/np.sqrt(k) and np.abs(n).max()<6.5 and abs(np.mean(n**4)-3)<5*np.sqrt(96/k)+.2,'noise/statistics',f'the noise, relative to what it should be: mean {n.mean():g} std {n.std():g} kurtosis {np.mean(n**4):g} max {np.abs(n).max():g}; N={k}')
            nn=n[:k//2*2].reshape(-1,2); ctx.ok(abs((nn[:,0]*nn[:,1]).mean())<5/np.sqrt(k/2) and abs((nn[1:]*nn[:-1]).mean())<5/np.sqrt(k),'noise/correlated','the noise in each measurement must be independent')

def others_untouched(ctx,oi,before):
    ctx.ok(set(oi)==set(before),'perfect/keys','')
    for k,v in before.items():
        if k in ('observations_board','observations_point'):
            if v is not None: ctx.same(oi[k][...,2],v[...,2],'perfect/weights',msg='the weights, with the outliers, must be preserved')
        elif isinstance(v,np.ndarray): ctx.same(oi[k],v,'perfect/modified',msg=k)

def judge_perfect(ctx,oi,before,sig,P,lm):
    '''returns the noise, scaled by the weights'''
    out=[]
    rc=before['rt_cam_ref']; intr=before['intrinsics']
    def cam(p,ie): return p if ie<0 else p@ref.R_from_r(rc[ie,:3]).T+rc[ie,3:]
    def one(p,ii,ob,what):
        q=ref.project(p.reshape(-1,3),lm,intr[ii]).reshape(p.shape[:-1]+(2,))
        w=np.where(ob[...,2:]<=0,1,ob[...,2:]); e=(ob[...,:2]-q)*w
        if not sig: ctx.close(e,np.zeros_like(e),f'perfect/{what}',atol=1e-6,scale=0,msg='perfect observations must be the projections')
        else: ctx.ok(np.abs(e).max()<7.5*sig+1e-6,f'perfect/{what}-noise',f'the noise is {np.abs(e).max()/sig:g} sigma')
        g=ob[...,2]>0; out.append(e[g].ravel())
    if before['observations_board'] is not None:
        b=prob.board(P.W,P.H,before['calibration_object_spacing'],before['calobject_warp'])
        for (f,ii,ie),ob in zip(before['indices_frame_camintrinsics_camextrinsics'],oi['observations_board']):
            t=before['rt_ref_frame'][f]; one(cam(b@ref.R_from_r(t[:3]).T+t[3:],ie),ii,ob,'board')
    if before['observations_point'] is not None:
        for (j,ii,ie),ob in zip(before['indices_point_camintrinsics_camextrinsics'],oi['observations_point']): one(cam(before['points'][j],ie),ii,ob,'point')
    if not sig:
        x=mrcal.optimizer_callback(**oi,no_jacobian=True,no_factorization=True)[1]; n=P.m_board+P.m_point
        ctx.close(x[:n],np.zeros(n),'perfect/residuals',atol=1e-6,scale=0)
    return np.concatenate(out)

def j_tracks(ctx,rng):
    for it in range(ctx.n(6,60)):
        lm=('LENSMODEL_PINHOLE','LENSMODEL_OPENCV4','LENSMODEL_STEREOGRAPHIC','LENSMODEL_CAHVOR')[it%4]; W,H=1600,1200
        m=model(rng,lm,(W,H)); s=snap(m)
        Rt0=np.vstack((ref.R_from_r(rng.uniform(-.1,.1,3)),(0,0,-rng.uniform(3,8))))
        R=ref.R_from_r(np.array((0,0,rng.uniform(-.1,.1)))); t=np.array((rng.uniform(-.2,.2),.2,0))
        n,tl,ni,gn,pmin,cmin=int(rng.integers(300,1200)),int(rng.integers(5,12)),int(rng.integers(40,100)),int(rng.integers(1,6)),int(rng.integers(2,5)),int(rng.integers(2,6))
        a=[x.copy() for x in (Rt0,R,t)]
        ctx.case('tracks',key=(lm,gn,it),lensmodel=lm,N=n,track_length=tl,gridn=gn,min_=(pmin,cmin))
        np.random.seed(int(rng.integers(1<<30)))
        with ctx.guard('tracks'):
            idx,p,rt,ob=mrcal.make_tracks(m,Rt_NED_cam0=Rt0,R_cam_camnext=R,t_cam_camnext__world=t,Nobservations_total=n,track_length=tl,Nobservations_image=ni,gridn=gn,Npoint_observations_min=pmin,Ncam_observing_min=cmin)
            unchanged(ctx,m,s,'tracks')
            for x,y in zip((Rt0,R,t),a): ctx.same(x,y,'tracks/modified')
            N=len(idx)
            if not ctx.ok(idx.shape==(N,3) and ob.shape==(N,3) and p.shape[1:]==(3,) and rt.shape[1:]==(6,) and 0<N<=n,'tracks/shape',f'{idx.shape} {p.shape} {rt.shape} {ob.shape}'): continue
            ctx.ok((ob[:,2]==1).all() and (idx[:,1]==0).all(),'tracks/columns','')
            ctx.ok(set(idx[:,0])==set(range(len(p))) and set(idx[:,2])==set(range(len(rt))),'tracks/sequential','each point and each camera pose must be used')
            ctx.ok(len(set(map(tuple,idx)))==N,'tracks/duplicate','a camera observes a point twice')
            npt=np.bincount(idx[:,0]); nc=np.bincount(idx[:,2])
            ctx.ok(npt.min()>=pmin and npt.max()<=tl and nc.min()>=cmin,'tracks/counts',f'points {npt.min()}..{npt.max()} cameras {nc.min()}..')
            ctx.ok(np.abs(p[:,2]).max()<1e-9,'tracks/ground','the points must lie on the ground')
            ctx.ok(((ob[:,:2]>=0)&(ob[:,:2]<=np.array((W,H))-.5)).all(),'tracks/in-view','')
            T=[ref.T_from_rt(x) for x in rt]
            pc=np.array([T[c][:3,:3]@p[j]+T[c][:3,3] for j,_,c in idx])
            ctx.close(ob[:,:2],ref.project(pc,*m.intrinsics()),'tracks/projection',atol=1e-3)
            ctx.ok((np.diff(idx[:,2])>=0).all(),'tracks/time','')
            # the path
            Ti=[ref.inv_T(x) for x in T]
            c=np.array([x[:3,3] for x in Ti]); k=((c-Rt0[3])@t)/(t@t)
            ctx.ok(np.abs(k-np.round(k)).max()<1e-6 and (np.diff(k)>.5).all() and np.abs(c-Rt0[3]-np.round(k)[:,None]*t).max()<1e-6,'tracks/path','',k=k)
            for x,j in zip(Ti,np.round(k).astype(int)): ctx.close(x[:3,:3],Rt0[:3]@np.linalg.matrix_power(R,max(int(j),0)),'tracks/orientation',atol=1e-8)
