'''Projection differencing'''
import re
TITLE = 'projection_diff(), stereo_pair_diff(), implied_Rt10__from_unprojections()'
RULE  = ('An execution is one call of projection_diff(), stereo_pair_diff() or implied_Rt10__from_unprojections() with random models (each lens family), poses, grids, distances, focus regions and options. Oracle: the difference is recomputed pixel by pixel, by an independent projection of the point that pixel sees through the reported transform (or through the poses of the models, or through none, as was asked for); '
         'a fitted transform is compared to the known truth where the data has one, and must otherwise not be beaten by no transform at all, nor by nearby or independently optimized ones; data that was excluded (by the focus region, by a weight of 0, by not being finite) has no effect at all; inputs and the global random state are not touched, and the results repeat. Non-trivial: distinct function, options and lens models.')
ASSUMPTIONS = ['the fit resolves angles down to about (1e-15/N)^(1/3) rad: it terminates on the gradient of a quartic',
               'the true rotation is below 20 degrees when the fit must find it','models see the compared region in front of them']
MIN_EVALUATIONS = 1000
FLOORS = {'fit':200,'excluded':60,'diff':150,'multi':20,'stereo':40,'same':30,'uncertainty':4,'refuse':8}

def jobs(tier,seed):
    return [dict(name='fit',weight=2),dict(name='excluded'),dict(name='diff_0',weight=3),dict(name='diff_1',weight=3),dict(name='multi'),dict(name='stereo'),dict(name='uncertainty',weight=3)]

def unit(v): return v/np.linalg.norm(v,axis=-1,keepdims=True)
def rot_angle(R): return np.arccos(np.clip((np.trace(R)-1)/2,-1,1))
def dR(Ra,Rb):
    '''angle between two rotations; good for small ones'''
    return np.linalg.norm(Ra-Rb)/np.sqrt(2)
def valid_Rt(ctx,Rt,mech):
    ctx.ok(Rt.shape==(4,3) and np.isfinite(Rt).all() and np.abs(Rt[:3]@Rt[:3].T-np.eye(3)).max()<1e-9 and np.linalg.det(Rt[:3])>0,f'{mech}/valid-Rt','not a valid transformation',Rt=Rt)
def xf(Rt,p): return p@Rt[:3].T+Rt[3]
def th_tol(N,w=1.): return 60*(3e-16/max(N,1)/w**2)**(1/3)

class Unchanged:
    def __init__(s,ctx,mech,*a): s.ctx=ctx; s.mech=mech; s.a=a
    def __enter__(s): s.b=[np.array(x) if x is not None else None for x in s.a]; s.st=np.random.get_state()[1].copy(); s.pos=np.random.get_state()[2]
    def __exit__(s,*_):
        for x,y in zip(s.a,s.b):
            if x is not None: s.ctx.same(np.asarray(x),y,f'{s.mech}/modified-input')
        s.ctx.ok((np.random.get_state()[1]==s.st).all() and np.random.get_state()[2]==s.pos,f'{s.mech}/random-state','the global random state was used')

def grid_vectors(rng,Nh,Nw,fov):
    W,H=1000.,1000*Nh/Nw
    q=np.stack(np.meshgrid(np.linspace(0,W-1,Nw),np.linspace(0,H-1,Nh)),axis=-1)
    f=W/2/np.tan(fov/2)
    v=unit(np.concatenate(((q-np.array((W,H))/2)/f,np.ones((Nh,Nw,1))),axis=-1))
    return q,v

def j_fit(ctx,rng):
    for it in range(ctx.n(150,2500)):
        Nh,Nw=int(rng.integers(4,20)),int(rng.integers(4,25))
        q,v=grid_vectors(rng,Nh,Nw,rng.uniform(.5,1.8))
        big=rng.uniform()<.3
        r=gen.r(rng,'any'); r*=(rng.uniform(.05,.35) if big else 10**rng.uniform(-5,-1.3))/max(np.linalg.norm(r),1e-9)
        R=ref.R_from_r(r)
        atinf=rng.uniform()<.5
        w=None; lead=()
        if rng.uniform()<.6: w=rng.uniform(.2,2,(Nh,Nw))
        if atinf: p0=v; Rt=np.vstack((R,np.zeros(3)))
        else:
            lead=((),(2,),(3,),(2,2))[int(rng.integers(4))]
            d=rng.uniform(1.,4,lead+(1,1,1))*(1+.5*rng.uniform(size=(Nh,Nw,1)))  # a non-spherical surface
            p0=v*d
            t=rng.normal(size=3)*rng.choice((0,.01,.1)); Rt=np.vstack((R,t))
            if lead and w is not None: w=w*rng.uniform(.5,1.5,lead+(1,1))
        # a fit to several distances can be exact only if nothing moves
        exact = atinf or not lead
        if lead: Rt[3]=0; exact=True
        v1=unit(xf(Rt,p0)) if not lead else unit(v@R.T)
        ctx.case('fit',key=(it,atinf,lead,w is not None),atinfinity=atinf,lead=lead,weights=w is not None,Rt=Rt,grid=(Nh,Nw))
        with ctx.guard('fit'), Unchanged(ctx,'fit',q,p0,v1,w):
            kw=dict(weights=w,atinfinity=atinf)
            got=mrcal.implied_Rt10__from_unprojections(q,p0,v1,**kw)
            valid_Rt(ctx,got,'fit')
            if atinf: ctx.ok((got[3]==0).all(),'fit/t-at-infinity','a translation, at infinity',t=got[3])
            # do not judge the transform, which might be weakly constrained: judge where points go
            e=np.arccos(np.clip((unit(xf(got,p0.reshape(-1,Nh*Nw,3) if lead else p0.reshape(-1,3)))*v1.reshape(-1,3)).sum(-1),-1,1))
            rms=np.sqrt((e**2).mean())
            ctx.ok(rms<th_tol(Nh*Nw)+1e-7,'fit/truth',f'the exact transform was not found: {rms:g} rad rms, allowed {th_tol(Nh*Nw):g}',got=got)
            ctx.maxerr['fit/truth']=max(ctx.maxerr.get('fit/truth',0),rms/th_tol(Nh*Nw))
            if atinf: ctx.ok(dR(got[:3],R)<4*th_tol(Nh*Nw)+1e-6,'fit/truth-R',f'the rotation is off by {dR(got[:3],R):g} rad')
            ctx.same(got,mrcal.implied_Rt10__from_unprojections(q.copy(),p0.copy(),v1.copy(),**{k:(x.copy() if isinstance(x,np.ndarray) else x) for k,x in kw.items()}),'fit/repeat')
        # with noise: not worse than alternatives
        n=v1+rng.normal(size=v1.shape)*10**rng.uniform(-4,-2); n=unit(n)
        # a smooth distortion, too
        if rng.uniform()<.5: n=unit(n*np.array((1+rng.uniform(-.02,.02),1,1)))
        ctx.case('fit',key=(it,'noise'),atinfinity=atinf,lead=lead)
        with ctx.guard('fit-noise'):
            got=mrcal.implied_Rt10__from_unprojections(q,p0,n,**kw)
            valid_Rt(ctx,got,'fit-noise')
            P=p0 if not lead else p0
            W_=np.ones(P.shape[:-1]) if w is None else np.broadcast_to(w,P.shape[:-1])
            def cost(Rt):
                th2=2*(1-(unit(xf(Rt,P))*n).sum(-1))
                return np.sum(W_**2*th2**2), th2.max()
            c,m=cost(got)
            if m*2<np.radians(5)**2:
                c0,_=cost(np.vstack((np.eye(3),np.zeros(3))))
                ctx.ok(c<=c0*1.001+1e-12,'fit-noise/identity',f'the cost {c:g} is worse than without a transform {c0:g}')
                ct,_=cost(Rt); ctx.ok(c<=ct*1.001+1e-12,'fit-noise/truth',f'the cost {c:g} is worse than at the true transform {ct:g}')
                for s in (1e-4,1e-3,1e-2):
                    dr=rng.normal(size=3)*s; dt=np.zeros(3) if atinf else rng.normal(size=3)*s
                    cp,_=cost(np.vstack((ref.R_from_r(dr)@got[:3],ref.R_from_r(dr)@got[3]+dt)))
                    ctx.ok(c<=cp*1.001+1e-12,'fit-noise/local','a nearby transform fits better',c=c,cp=cp,dr=dr,dt=dt)

def j_excluded(ctx,rng):
    for it in range(ctx.n(45,400)):
        Nh,Nw=int(rng.integers(8,16)),int(rng.integers(8,16))
        q,v=grid_vectors(rng,Nh,Nw,1.2)
        atinf=rng.uniform()<.5
        lead=() if atinf or rng.uniform()<.5 else (2,)
        p0=v if atinf else v*rng.uniform(1,3,lead+(Nh,Nw,1))
        v1=unit((v+rng.normal(size=v.shape)*.002)@ref.R_from_r(rng.normal(size=3)*.02).T)
        w=rng.uniform(.2,2,lead+(Nh,Nw))
        junk=rng.uniform(size=(Nh,Nw))<.3
        f=mrcal.implied_Rt10__from_unprojections
        # what is excluded has no effect: the value there doesn't matter
        w0=w.copy(); w0[...,junk]=0
        with ctx.guard('excluded'):
            want=f(q,p0,v1,weights=w0,atinfinity=atinf)
            for how in ('v1-junk','p0-junk','v1-zero','p0-zero','v1-nan','p0-nan','v1-inf','w-nan','w-inf','p0-partial'):
                a,b,c=p0.copy(),v1.copy(),w0.copy()
                J=rng.normal(size=(junk.sum(),3))
                if how=='v1-junk': b[junk]=unit(J)
                elif how=='p0-junk': a[...,junk,:]=J if not atinf else unit(J)
                elif how in ('v1-nan','v1-inf'):
                    c=w.copy(); b[junk]=np.nan if how=='v1-nan' else np.inf
                elif how=='v1-zero': c=w.copy(); b[junk]=0
                elif how=='p0-zero': c=w.copy(); a[...,junk,:]=0
                elif how=='p0-nan': c=w.copy(); a[...,junk,:]=np.nan
                elif how=='p0-partial': c=w.copy(); a[...,junk,int(rng.integers(3))]=np.inf
                elif how=='w-nan': c[...,junk]=np.nan
                elif how=='w-inf': c[...,junk]=np.inf
                ctx.case('excluded',key=(it,how),how=how,atinfinity=atinf,lead=lead)
                with np.errstate(all='ignore'): got=f(q,a,b,weights=c,atinfinity=atinf)
                e=np.abs(got-want).max()
                ctx.ok(e<2e-6,f'excluded/{how}',f'excluded data changed the result by {e:g}',got=got,want=want)
            # no weights given, and not-finite vectors
            b=v1.copy(); b[junk]=np.nan; c=np.ones_like(w); c[...,junk]=0
            ctx.case('excluded',key=(it,'noweights'),how='noweights')
            e=np.abs(f(q,p0,b,atinfinity=atinf)-f(q,p0,v1,weights=c,atinfinity=atinf)).max()
            ctx.ok(e<2e-6,'excluded/no-weights',f'changed by {e:g}')
            # the focus region
            c0=rng.uniform(.3,.7,2)*q[-1,-1]; rad=rng.uniform(.25,.5)*q.max()
            out=np.linalg.norm(q-c0,axis=-1)>=rad
            if (~out).sum()>12 and out.any():
                ctx.case('excluded',key=(it,'focus'),how='focus',center=c0,radius=rad)
                A=f(q,p0,v1,atinfinity=atinf,focus_center=c0,focus_radius=rad)
                b=v1.copy(); b[out]=unit(rng.normal(size=(out.sum(),3)))
                ctx.same(A,f(q,p0,b,atinfinity=atinf,focus_center=c0,focus_radius=rad),'excluded/focus',msg='data outside of the focus region has an effect')
                ww=np.ones(lead+(Nh,Nw)); ww[...,out]=0
                e=np.abs(A-f(q,p0,v1,weights=ww,atinfinity=atinf)).max()
                ctx.ok(e<2e-6,'excluded/focus-inside',f'data inside of the focus region is missing: changed by {e:g}')
        ctx.case('refuse',key=(it,),nontrivial=it<3)
        ctx.raises(lambda: f(q,p0,v1,atinfinity=atinf,focus_center=np.array((-1e6,0)),focus_radius=10.),'refuse/empty-focus')

def models(rng,lensmodel,n=2,same_lens=False,delta=.03,fmin=.4):
    W,H=int(rng.integers(600,4000)),int(rng.integers(500,3000))
    out=[]
    i0=gen.intrinsics(rng,lensmodel,strength=.5,imagersize=(W,H),central=True)
    if ref.config(lensmodel)['kind']=='SPLINED':
        lensmodel=re.sub('fov_x_deg=.*','fov_x_deg=%d'%rng.choice((140,140,90,70)),lensmodel); i0[4:]*=.15; i0[:2]=W*.5*rng.uniform(.9,1.1)
    elif ref.config(lensmodel)['kind'] in ('OPENCV','CAHVOR','CAHVORE','PINHOLE'): i0[:2]=W*rng.uniform(.75,1.2)*np.array((1,rng.uniform(.97,1.03)))
    for k in range(n):
        i=i0.copy()
        if k and not same_lens:
            i[:4]*=1+rng.uniform(-1,1,4)*delta
            i[4:]*=1+rng.uniform(-1,1,len(i)-4)*delta*3
        out.append(mrcal.cameramodel(intrinsics=(lensmodel,i),imagersize=(W,H),rt_cam_ref=gen.small_pose(rng,.05,.1)))
    return out

def rays(m,q):
    return mrcal.unproject(q,*m.intrinsics(),normalize=True)
def reproject(m1,p):
    s=p.shape
    return ref.project(p.reshape(-1,3),*m1.intrinsics()).reshape(s[:-1]+(2,))

def j_diff(ctx,rng):
    kinds=[k for k in gen.lensmodels(rng,1,1)]
    for it in range(ctx.n(100,1500)):
        lm=kinds[it%len(kinds)]
        mode=str(rng.choice(('fit','intrinsics_only','extrinsics','given')))
        same=rng.uniform()<.35
        m=models(rng,lm,same_lens=same)
        if rng.uniform()<.2 and lm!='LENSMODEL_PINHOLE':  # different families
            o=models(rng,'LENSMODEL_OPENCV8' if 'LONLAT' not in lm and 'LATLON' not in lm else lm)[0]
            if ref.config(lm)['kind'] in ('OPENCV','CAHVOR','CAHVORE') : m[1]=mrcal.cameramodel(intrinsics=o.intrinsics(),imagersize=m[0].imagersize(),rt_cam_ref=m[1].rt_cam_ref()); i=m[1].intrinsics()[1]; i[:4]=m[0].intrinsics()[1][:4]; m[1].intrinsics(intrinsics=(m[1].intrinsics()[0],i)); same=False
        W,H=m[0].imagersize()
        dist=[None,float(rng.uniform(.5,20)),[2.],[1.,5.,30.],np.array((3.,10.)),int(rng.integers(1,9))][int(rng.integers(6))]
        gw=int(rng.integers(8,25)); gh=None if rng.uniform()<.5 else int(rng.integers(6,20))
        kw=dict(gridn_width=gw,gridn_height=gh,distance=dist,use_uncertainties=False)
        if mode=='intrinsics_only': kw['intrinsics_only']=True
        if mode=='extrinsics': kw['focus_radius']=0
        given=None
        if mode=='given': kw['implied_Rt10']=given=mrcal.Rt_from_rt(gen.small_pose(rng,.05,.1))
        if mode=='fit':
            u=rng.uniform()
            if u<.3: kw['focus_radius']=float(rng.uniform(.3,2)*W)
            elif u<.6: kw['focus_radius']=float(rng.uniform(.25,.5)*W); kw['focus_center']=np.array((rng.uniform(.3,.7)*W,rng.uniform(.3,.7)*H))
        ctx.case('diff',key=(gen.family(lm),mode,same,dist is None,np.shape(dist),gh is None),lensmodel=lm,mode=mode,same=same,**{k:v for k,v in kw.items() if k!='implied_Rt10'})
        b4=[str(mm.intrinsics())+str(mm.rt_cam_ref()) for mm in m]
        if mode=='fit':
            g=np.stack(np.meshgrid(np.linspace(0,W-1,gw),np.linspace(0,H-1,gh or max(2,int(gw*H/W)))),axis=-1)
            if (np.linalg.norm(g-kw.get('focus_center',((W-1)/2,(H-1)/2)),axis=-1)<kw.get('focus_radius',min(W,H)/6)).sum()<9: kw['focus_radius']=.5*W
        with ctx.guard(f'diff/{mode}'), Unchanged(ctx,'diff',given):
            difflen,diff,q0,Rt10=mrcal.projection_diff(m,**kw)
            fam=gen.family(lm)
            ctx.ok(b4==[str(mm.intrinsics())+str(mm.rt_cam_ref()) for mm in m],'diff/models-modified','')
            if gh is None: ctx.ok(abs(q0.shape[0]/gw-H/W)<=1./gw,'diff/grid-height',f'{q0.shape} for {W}x{H}')
            G=(q0.shape[0],gw) if gh is None else (gh,gw)
            ctx.ok(q0.shape==G+(2,),'diff/grid-shape','')
            ctx.close(q0,np.stack(np.meshgrid(np.linspace(0,W-1,gw),np.linspace(0,H-1,G[0])),axis=-1),'diff/grid',msg='the grid must cover the imager, to its corners')
            lead=np.shape(dist) if dist is not None else ()
            if not ctx.ok(diff.shape==lead+G+(2,) and difflen.shape==lead+G,'diff/shape',f'{diff.shape} {difflen.shape} for distance {dist}'): continue
            valid_Rt(ctx,Rt10,'diff')
            atinf = dist is None
            if mode=='intrinsics_only': ctx.close(Rt10,np.vstack((np.eye(3),np.zeros(3))),'diff/identity',atol=1e-12)
            if mode in ('extrinsics','given'):
                T=ref.T_from_rt(m[1].rt_cam_ref())@ref.inv_T(ref.T_from_rt(m[0].rt_cam_ref())) if mode=='extrinsics' else ref.T_from_Rt(given)
                want=ref.Rt_from_T(T)
                ctx.close(Rt10[:3],want[:3],f'diff/{mode}-R',atol=1e-9)
                if not atinf: ctx.close(Rt10[3],want[3],f'diff/{mode}-t',atol=1e-9)
            else: want=Rt10
            want=want.copy()
            if atinf:
                want[3]=0; ctx.ok(mode=='given' or (Rt10[3]==0).all(),'diff/t-at-infinity','')
            v=rays(m[0],q0)
            ok=np.isfinite(v).all(-1)&(np.linalg.norm(v,axis=-1)>0)
            ctx.ok(np.isnan(np.broadcast_to(difflen,lead+G)[...,~ok]).all(),'diff/not-unprojectable','a difference where nothing could be unprojected')
            if not ok.all(): ctx.counts['diff-partial']=ctx.counts.get('diff-partial',0)+1
            D=np.ones(lead+(1,1,1)) if atinf else np.asarray(dist,float).reshape(lead+(1,1,1))
            p=xf(want,v*D)
            q1=reproject(m[1],p); e=q1-q0
            # what lies behind, or too far off, isn't comparable
            front=ok&(np.arccos(np.clip(unit(p)[...,2],-1,1))<gen.max_theta(lm)*1.05) if fam not in ('LONLAT','LATLON') else ok&(np.abs(unit(p)[...,1 if fam=='LONLAT' else 0])<.95)
            front=np.broadcast_to(front,lead+G)
            if front.any():
                fx=m[1].intrinsics()[1][0]
                if fam in ('LONLAT','LATLON'):
                    per=2*np.pi*np.array(m[1].intrinsics()[1][:2]); 
                    dd=diff-e; dd-=np.round(dd/per)*per
                    ctx.close(dd[front],np.zeros_like(dd[front]),'diff/value',atol=1e-4,msg=f'{fam}')
                else: ctx.close(diff[front],e[front],'diff/value',atol=2e-4,rtol=1e-7,msg=f'{lm} {mode}')
                ctx.close(difflen[front],np.linalg.norm(diff[front],axis=-1),'diff/length',atol=1e-9)
            # identical lenses
            if same:
                ctx.case('same',key=(fam,mode,dist is None),lensmodel=lm,mode=mode)
                rr=kw.get('focus_radius',min(W,H)/6); cc=kw.get('focus_center',((W-1)/2,(H-1)/2))
                infoc=(np.linalg.norm(q0-cc,axis=-1)<rr)&ok&(front.all(axis=0) if lead else front)
                # beyond the poles a direction has several pixels
                if fam in ('LONLAT','LATLON'): i=m[0].intrinsics()[1]; infoc&=(np.abs((q0-i[2:4])/i[:2])[...,1 if fam=='LONLAT' else 0]<1.5)
                if mode=='intrinsics_only' and front.any() and fam not in ('LONLAT','LATLON'): ctx.ok(np.nanmax(difflen[front])<1e-3,'same/intrinsics-only',f'identical lenses differ by {np.nanmax(difflen[front]):g} pixels')
                if mode=='fit' and infoc.sum()>10:
                    ee=diff[...,infoc,:]
                    if fam in ('LONLAT','LATLON'): per=2*np.pi*np.array(m[1].intrinsics()[1][:2]); ee=ee-np.round(ee/per)*per
                    x=np.linalg.norm(ee,axis=-1).max(); tol=th_tol(infoc.sum())*fx*3
                    ctx.maxerr['same/fit']=max(ctx.maxerr.get('same/fit',0),x/tol)
                    ctx.ok(x<tol,'same/fit',f'identical lenses differ by {x:g} pixels, after a fit; allowed: {tol:g}',Rt10=Rt10)
            # the fit is not worse than nothing, where it was asked to look
            if mode=='fit':
                rr=kw.get('focus_radius',min(W,H)/6); cc=kw.get('focus_center',((W-1)/2,(H-1)/2))
                v1=rays(m[1],q0); ok1=np.isfinite(v1).all(-1)&(np.linalg.norm(v1,axis=-1)>0)
                infoc=(np.linalg.norm(q0-cc,axis=-1)<rr)&ok&ok1
                if infoc.sum()>10:
                    def cost(Rt):
                        th2=((unit(xf(Rt,v*D))-v1)**2).sum(-1)[...,infoc]; return (th2**2).sum(),th2.max()
                    c,mx=cost(want)
                    if mx<np.radians(5)**2:
                        ref_=cost(np.vstack((np.eye(3),np.zeros(3))))[0]
                        ctx.ok(c<=ref_*1.001+1e-13,'diff/worse-than-nothing',f'{c:g} > {ref_:g}')
                        for s in (1e-4,1e-3):
                            dr=rng.normal(size=3)*s; dt=np.zeros(3) if atinf else rng.normal(size=3)*s
                            x=cost(np.vstack((ref.R_from_r(dr)@want[:3],want[3]+dt)))[0]
                            ctx.ok(c<=x*1.001+1e-13,'diff/not-optimal','a nearby transform fits the focus region better',c=c,cp=x)
            # repeatable
            if it%5==0:
                o=mrcal.projection_diff(m,**kw)
                for a,b in zip((difflen,diff,q0,Rt10),o): ctx.close(a,b,'diff/repeat',atol=1e-6,equal_nan=True)
        # a rotation about the axis of a panorama is a shift of the image
        if fam in ('LONLAT','LATLON') and mode=='fit':
            i=m[0].intrinsics()[1]; d=rng.uniform(-.1,.1); i1=i.copy(); ax=0 if fam=='LONLAT' else 1; i1[2+ax]+=i[ax]*d
            a=mrcal.cameramodel(intrinsics=(lm,i1),imagersize=(W,H))
            ctx.case('diff',key=(fam,'panorama'),lensmodel=lm,yaw=d)
            with ctx.guard('diff/panorama'):
                dl,_,_,Rt=mrcal.projection_diff([m[0],a],use_uncertainties=False,gridn_width=15,focus_radius=float(W)*.4)
                ctx.ok(abs(rot_angle(Rt[:3])-abs(d))<1.5e-3,'diff/panorama',f'rotated by {rot_angle(Rt[:3]):g}; should be {abs(d):g}')
                s=np.sin(-d); 
                want=np.array(((np.cos(d),0,-np.sin(d)),(0,1,0),(np.sin(d),0,np.cos(d)))) if ax==0 else np.array(((1,0,0),(0,np.cos(d),-np.sin(d)),(0,np.sin(d),np.cos(d))))
                ctx.close(Rt[:3],want,'diff/panorama-R',atol=1.5e-3)
    if ctx.job['name'].endswith('0'):
        a,b=models(rng,'LENSMODEL_OPENCV4'); c,d=models(rng,'LENSMODEL_OPENCV4')
        I=mrcal.identity_Rt()
        for nm,f in dict(one=lambda: mrcal.projection_diff([a]),none=lambda: mrcal.projection_diff([]),sizes=lambda: mrcal.projection_diff([a,c],use_uncertainties=False),three=lambda: mrcal.projection_diff([a,b,a],implied_Rt10=I,use_uncertainties=False),
                         focus=lambda: mrcal.projection_diff([a,b],use_uncertainties=False,focus_center=(-1e5,-1e5),focus_radius=3.),
                         three_sizes=lambda: mrcal.projection_diff([a,b,c],use_uncertainties=False)).items():
            ctx.case('refuse',key=nm,what=nm); ctx.raises(f,f'refuse/{nm}')
        # not central
        i=gen.intrinsics(rng,'LENSMODEL_CAHVORE_linearity=0.37',strength=.5,imagersize=(1000,800)); i[:2]=900
        e=mrcal.cameramodel(intrinsics=('LENSMODEL_CAHVORE_linearity=0.37',i),imagersize=(1000,800)); j=i.copy(); j[-3:]=0
        z=mrcal.cameramodel(intrinsics=('LENSMODEL_CAHVORE_linearity=0.37',j),imagersize=(1000,800))
        ctx.case('refuse',key='noncentral',what='noncentral'); ctx.raises(lambda: mrcal.projection_diff([e,z],use_uncertainties=False,distance=3.),'refuse/noncentral-finite')
        ctx.case('diff',key='noncentral',what='noncentral at infinity')
        with ctx.guard('diff/noncentral'):
            dl=mrcal.projection_diff([e,z],use_uncertainties=False,intrinsics_only=True,gridn_width=12)[0]
            ctx.ok(dl.max()<1e-3,'diff/noncentral','at infinity, the entrance pupil must not matter',dl=dl.max()); ctx.same(e.intrinsics()[1],i,'diff/noncentral-modified')

def j_multi(ctx,rng):
    kinds=[k for k in gen.lensmodels(rng,1,1) if 'LONLAT' not in k and 'LATLON' not in k]
    for it in range(ctx.n(26,300)):
        lm=kinds[it%len(kinds)]; N=int(rng.integers(3,6))
        m=models(rng,lm,n=N,delta=.01)
        W,H=m[0].imagersize()
        mode=str(rng.choice(('fit','intrinsics_only','extrinsics')))
        dist=[None,4.,[2.,9.]][int(rng.integers(3))]
        kw=dict(gridn_width=12,distance=dist,use_uncertainties=False)
        if mode=='intrinsics_only': kw['intrinsics_only']=True
        if mode=='extrinsics': kw['focus_radius']=0
        elif mode=='fit': kw['focus_radius']=.4*W
        ctx.case('multi',key=(gen.family(lm),mode,N,np.shape(dist),dist is None),lensmodel=lm,N=N,mode=mode,distance=dist)
        with ctx.guard(f'multi/{mode}'):
            dl,diff,q0,Rt10=mrcal.projection_diff(m,**kw)
            ctx.ok(diff is None,'multi/diff','')
            if not ctx.ok(Rt10.shape==(N-1,4,3),'multi/Rt10-shape',f'{Rt10.shape}'): continue
            pair=[mrcal.projection_diff([m[0],m[i]],**kw) for i in range(1,N)]
            ctx.close(q0,pair[0][2],'multi/q0')
            for i in range(N-1): ctx.close(Rt10[i],pair[i][3],'multi/Rt10',atol=1e-5,msg=f'camera {i+1}')
            want=np.sqrt(np.mean([p[0]**2 for p in pair],axis=0))
            ctx.ok(dl.shape==want.shape,'multi/shape','')
            g=np.isfinite(want)&(want<W)
            ctx.close(dl[g],want[g],'multi/value',atol=1e-2,rtol=1e-5,msg='the RMS of the differences to model 0')
            # order doesn't matter, beyond who is first
            p=1+rng.permutation(N-1)
            o=mrcal.projection_diff([m[0]]+[m[i] for i in p],**kw)
            ctx.close(o[0][g],dl[g],'multi/order',atol=1e-2,rtol=1e-5)
            for a,b in zip(o[3],p): ctx.close(a,Rt10[b-1],'multi/order-Rt10',atol=1e-5)
            # N copies
            o=mrcal.projection_diff([m[0]]*3,gridn_width=10,use_uncertainties=False,intrinsics_only=True)
            g=np.isfinite(o[0]); ctx.ok(o[0][g].max()<1e-3,'multi/same','')

def j_stereo(ctx,rng):
    kinds=[k for k in gen.lensmodels(rng,1,1) if 'LONLAT' not in k and 'LATLON' not in k]
    for it in range(ctx.n(60,800)):
        lm=kinds[it%len(kinds)]; lmb=kinds[int(rng.integers(len(kinds)))]
        A=models(rng,lm,n=2,delta=.01); B=models(rng,lmb,n=2,delta=.01)
        same=rng.uniform()<.2
        if same: A[1]=A[0]; B[1]=B[0]
        dist=None if rng.uniform()<.4 else float(rng.uniform(2,20))
        E={}
        for x in (A,B):
            if 'CAHVORE' in x[0].intrinsics()[0] and dist is None and rng.uniform()<.7:
                for mm in x:
                    l,i=mm.intrinsics(); i[-3:]=rng.uniform(-.02,.02,3); mm.intrinsics(intrinsics=(l,i))
        pairs=[[A[0],B[0]],[A[1],B[1]]]
        ctx.case('stereo',key=(gen.family(lm),gen.family(lmb),dist is None,same),lensmodels=(lm,lmb),distance=dist,same=same)
        b4=[str(mm.intrinsics())+str(mm.rt_cam_ref()) for p in pairs for mm in p]
        gh=None if rng.uniform()<.5 else 9
        with ctx.guard('stereo'):
            dl,diff,q0,f=mrcal.stereo_pair_diff(pairs if rng.uniform()<.5 else tuple(tuple(p) for p in pairs),distance=dist,gridn_width=13,gridn_height=gh)
            ctx.ok(b4==[str(mm.intrinsics())+str(mm.rt_cam_ref()) for p in pairs for mm in p],'stereo/models-modified','')
            W,H=A[0].imagersize()
            ctx.close(q0,np.stack(np.meshgrid(np.linspace(0,W-1,13),np.linspace(0,H-1,q0.shape[0])),axis=-1),'stereo/grid')
            if gh: ctx.ok(q0.shape[0]==gh,'stereo/grid-height','')
            q1=[]; good=np.ones(q0.shape[:2],bool)
            def central(mm):
                l,i=mm.intrinsics()
                if 'CAHVORE' in l: i[-3:]=0
                return l,i
            for p in pairs:
                T=ref.T_from_rt(p[1].rt_cam_ref())@ref.inv_T(ref.T_from_rt(p[0].rt_cam_ref()))
                Rt=ref.Rt_from_T(T)
                if dist is None: Rt[3]=0
                v=mrcal.unproject(q0,*central(p[0]),normalize=True); P=xf(Rt,v*(1 if dist is None else dist))
                good&=np.isfinite(v).all(-1)&(np.linalg.norm(v,axis=-1)>0); P[~good]=(0,0,1)
                good&=np.arccos(np.clip(unit(P)[...,2],-1,1))<gen.max_theta(lmb)
                s=P.shape; q1.append(ref.project(P.reshape(-1,3),*central(p[1])).reshape(s[:-1]+(2,)))
            bad=np.any([np.linalg.norm(mrcal.unproject(q0,*central(p[0]),normalize=True),axis=-1)==0 for p in pairs],axis=0)
            ctx.ok(np.isnan(dl[bad]).all(),'stereo/not-unprojectable','a difference where nothing could be unprojected')
            if good.any():
                ctx.close(diff[good],(q1[1]-q1[0])[good],'stereo/value',atol=3e-4,rtol=1e-7)
                ctx.close(dl[good],np.linalg.norm(diff[good],axis=-1),'stereo/length')
                if same: ctx.ok(dl[good].max()==0,'stereo/same','identical pairs differ')
                for k in (0,1):
                    ctx.close(f(q0,k,0)[good],q1[k][good],'stereo/reproject',atol=3e-4,rtol=1e-7)
                    # back, where that is the same distance: at infinity
                    if dist is None and 'SPLINED' not in lm: # these might fold, and have several solutions
                        inside=good&((q1[k]>0)&(q1[k]<np.array(B[0].imagersize()))).all(-1)
                        if inside.any():
                            back=f(q1[k],k,1)
                            g=inside&np.isfinite(back).all(-1)
                            if g.any(): ctx.close(back[g],q0[g],'stereo/roundtrip',atol=1e-2)
            # swapping the pairs flips the difference
            o=mrcal.stereo_pair_diff(pairs[::-1],distance=dist,gridn_width=13,gridn_height=gh)
            ctx.close(o[1][good],-diff[good],'stereo/swap',atol=1e-6)
    a,b=models(rng,'LENSMODEL_OPENCV4'); c,d=models(rng,'LENSMODEL_OPENCV4')
    i=gen.intrinsics(rng,'LENSMODEL_CAHVORE_linearity=0.37',imagersize=(1000,800)); e=mrcal.cameramodel(intrinsics=('LENSMODEL_CAHVORE_linearity=0.37',i),imagersize=(1000,800))
    for nm,f in dict(one=lambda: mrcal.stereo_pair_diff([[a,b]]),three=lambda: mrcal.stereo_pair_diff([[a,b]]*3),size0=lambda: mrcal.stereo_pair_diff([[a,b],[c,b]]),size1=lambda: mrcal.stereo_pair_diff([[a,b],[a,c]]),noncentral=lambda: mrcal.stereo_pair_diff([[e,e],[e,e]],distance=3.)).items():
        ctx.case('refuse',key='stereo'+nm,what=nm); ctx.raises(f,f'refuse/stereo-{nm}')

def j_uncertainty(ctx,rng):
    '''models from a solve, where the boards cover only part of the imager'''
    for it in range(ctx.n(5,40)):
        order=int(rng.choice((2,3)))
        lm=f'LENSMODEL_SPLINED_STEREOGRAPHIC_order={order}_Nx=9_Ny=8_fov_x_deg=140'
        W,H=2000,1600; f=900.
        intr=np.concatenate(((f,f,W/2,H/2),rng.uniform(-1,1,2*9*8)*.003))
        bw,bh,sp=8,7,.1
        board=mrcal.ref_calibration_object(bw,bh,sp)
        N=14; frames=[]; obs=[]
        while len(frames)<N:
            # in the left half of the imager
            z=rng.uniform(1.2,2.2); c=np.array((rng.uniform(-.75,-.15)*z,rng.uniform(-.5,.5)*z,z)); R=ref.R_from_r(rng.uniform(-.5,.5,3)); t=c-R@board.reshape(-1,3).mean(0)
            q=ref.project(board.reshape(-1,3)@R.T+t,lm,intr).reshape(bh,bw,2)
            if (q[...,0]<0).any() or (q[...,0]>W*.55).any() or (q[...,1]<0).any() or (q[...,1]>H-1).any(): continue
            frames.append(np.concatenate((mrcal.r_from_R(R),t))); obs.append(np.concatenate((q+rng.normal(size=q.shape)*.1,np.ones(q.shape[:2]+(1,))),axis=-1))
        oi=dict(lensmodel=lm,intrinsics=intr[None],rt_cam_ref=np.zeros((0,6)),rt_ref_frame=np.array(frames),points=None,observations_board=np.array(obs),indices_frame_camintrinsics_camextrinsics=np.array([(i,0,-1) for i in range(N)],dtype=np.int32),observations_point=None,indices_point_camintrinsics_camextrinsics=None,
                imagersizes=np.array(((W,H),),dtype=np.int32),calibration_object_spacing=sp,calobject_warp=np.zeros(2),do_optimize_intrinsics_core=True,do_optimize_intrinsics_distortions=True,do_optimize_extrinsics=True,do_optimize_frames=True,do_optimize_calobject_warp=True,do_apply_regularization=True,do_apply_outlier_rejection=False,verbose=False)
        # the core is not free with a splined model, in practice
        oi['do_optimize_intrinsics_core']=False
        o1={k:(v.copy() if isinstance(v,np.ndarray) else v) for k,v in oi.items()}
        # the other lens differs only where there is no data, at the right
        ux=(lambda k: k[0])(mrcal.knots_for_splined_models(lm))
        d=np.zeros((8,9,2)); right=np.where(ux>.25)[0]
        d[:,right]=np.array((.03,.02))*rng.choice((-1,1),2)*(1+.3*rng.uniform(-1,1,(8,len(right),2)))
        o1['intrinsics'][0,4:]+=d.ravel()
        with ctx.guard('uncertainty'), vlib.quiet_fds():
            mrcal.optimize(**oi); o1['rt_ref_frame']=oi['rt_ref_frame'].copy(); o1['intrinsics'][0]=oi['intrinsics'][0]; o1['intrinsics'][0,4:]+=d.ravel(); o1['calobject_warp']=oi['calobject_warp'].copy()
            m=[mrcal.cameramodel(optimization_inputs=o,icam_intrinsics=0) for o in (oi,o1)]
            for dist in (None,2.,[1.5,4.]):
                ctx.case('uncertainty',key=(order,np.shape(dist),dist is None),lensmodel=lm,distance=dist)
                dl,diff,q0,Rt=mrcal.projection_diff(m,gridn_width=18,distance=dist)
                dl2,_,_,Rt2=mrcal.projection_diff(m,gridn_width=18,distance=dist,use_uncertainties=False,focus_radius=1e6)
                left=(q0[...,0]<W*.4)&(q0[...,0]>W*.05)&(q0[...,1]>H*.1)&(q0[...,1]<H*.9)
                left&=np.isfinite(rays(m[0],q0)).all(-1)&(np.linalg.norm(rays(m[0],q0),axis=-1)>0)
                a,b=np.median(dl[...,left]),np.median(dl2[...,left])
                ctx.maxerr[f'uncertainty/{dist}']=max(ctx.maxerr.get(f'uncertainty/{dist}',0),a/b)
                ctx.ok(a<.5*b,'uncertainty/emphasis',f'the fit is not guided by the uncertainty: differences of {a:g} pixels where the lenses are the same and well known; {b:g} if fit to the whole imager')
                v=rays(m[0],q0); D=np.ones(np.shape(dist)+(1,1,1)) if dist is None else np.asarray(dist,float).reshape(np.shape(dist)+(1,1,1))
                g=np.broadcast_to(np.linalg.norm(v,axis=-1)>0,dl.shape)
                ctx.close(diff[g],(reproject(m[1],xf(Rt,v*D))-q0)[g],'uncertainty/value',atol=2e-4)
                ctx.ok(np.isnan(dl[~g]).all(),'uncertainty/not-unprojectable','a difference where nothing could be unprojected')
            # the same model
            dl,_,q0,Rt=mrcal.projection_diff([m[0],m[0]],gridn_width=14)
            ctx.case('same',key=('uncertainty',order)); left=(q0[...,0]<W*.5)
            left&=np.isfinite(dl); ctx.ok(dl[left].max()<.05,'uncertainty/same',f'a model differs from itself by {dl[left].max():g} pixels')
            # without uncertainties available: falls back on the focus region
            z=mrcal.cameramodel(intrinsics=m[1].intrinsics(),imagersize=m[1].imagersize())
            a=mrcal.projection_diff([m[0],z],gridn_width=14); b=mrcal.projection_diff([m[0],z],gridn_width=14,use_uncertainties=False)
            ctx.close(a[1],b[1],'uncertainty/fallback',atol=1e-9,equal_nan=True)

def run(ctx,job):
    global np,mrcal,vlib,ref,gen
    import numpy as np, mrcal, vlib, ref, gen
    np.seterr(all='ignore')
    globals()['j_'+job['name'].split('_')[0]](ctx,ctx.rng)
