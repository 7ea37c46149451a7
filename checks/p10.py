'''Triangulation'''
import numpy as np, warnings
TITLE = 'triangulation'
RULE  = ('An execution is one pair of rays (or pixels and camera models) given to every triangulation method. Oracles: the point the rays were constructed from; direct minimization of each '
         'documented criterion over all points; independent implementations of the closed forms; central differences; dense linear propagation of noise. Non-trivial: distinct geometry.')
ASSUMPTIONS = ['rays closer to parallel than 1e-4 rad may be reported as unusable',
               'triangulate_lindstrom() minimizes a pinhole error, so it is judged for points in front of both local image planes only',
               'the optimality of triangulate_lindstrom() is judged for moderate noise: it does a fixed number of iterations']
MIN_EVALUATIONS = 2000
FLOORS = {'exact':1000,'criterion':300,'divergent':300,'gradient':200,'error function':200,'pixels':20,'uncertainty':6}
TIMEOUT = dict(quick=500,thorough=7200)

def jobs(tier,seed):
    return [dict(name='exact'),dict(name='criterion'),dict(name='gradients'),dict(name='api'),dict(name='error'),dict(name='pixels'),dict(name='uncertainty0'),dict(name='uncertainty1')]

def run(ctx,job):
    global mrcal,ref,gen,prob,vlib,METHODS,ANG
    import mrcal,ref,gen,prob,vlib
    warnings.simplefilter('ignore')
    METHODS = {n:getattr(mrcal,'triangulate_'+n) for n in ('geometric','leecivera_l1','leecivera_linf','leecivera_mid2','leecivera_wmid2','lindstrom')}
    ANG=[n for n in METHODS if n!='lindstrom']
    n=job['name']
    if n.startswith('uncertainty'): uncertainty(ctx)
    else: globals()[n](ctx)

norm=np.linalg.norm
unit=lambda v: v/norm(v)
def angle(a,b): return np.arctan2(norm(np.cross(a,b)),a@b)

def geometry(rng,zfront=False):
    '''-> Rt01, p0, p1 (local). A well-conditioned pair of cameras looking at a point'''
    while True:
        s = 10**rng.uniform(-2,3)
        R = ref.R_from_r(gen.r(rng,'any' if rng.uniform()<.5 else 'small'))
        t = rng.normal(size=3)*s
        kind = rng.integers(4)
        if   kind==0: p = rng.normal(size=3)*s*10**rng.uniform(-1,2)
        elif kind==1: p = np.array((rng.normal(),rng.normal(),3*abs(rng.normal())+.1))*s*10**rng.uniform(0,2)
        elif kind==2:  # sideways, in the z=0 plane
            p = np.array((rng.normal(),rng.normal(),0))*s*3
            if rng.uniform()<.5: t[2]=0
        else:
            p = np.zeros(3); p[rng.integers(3)] = s*rng.choice((-1,1))*rng.uniform(1,10)
        p1 = R.T@(p-t)
        if zfront and (p[2]<.05*norm(p) or p1[2]<.05*norm(p1)): continue
        par = angle(p,p-t)
        if 1e-3<par<np.pi-1e-2 and norm(p)>1e-3*s and norm(p-t)>1e-3*s: return np.vstack((R,t)),p,p1,par

def exact(ctx):
    rng=ctx.rng
    for rep in range(ctx.n(1500,20000)):
        zf = rep%2==0
        Rt01,p,p1,par = geometry(rng,zf)
        k0,k1 = 10**rng.uniform(-5,5,2) if rng.uniform()<.5 else (1/norm(p),1/norm(p1))
        v0,v1l = p*k0,p1*k1; R,t=Rt01[:3],Rt01[3]; v1=R@v1l
        D=dict(v0=v0,v1=v1,t=t,p=p,par=par,Rt01=Rt01)
        ctx.case('exact',key=rep,**D)
        tol = dict(atol=(1e-11+1e-15/par**3)*max(norm(p),norm(t)),rtol=0)
        for n,f in METHODS.items():
            if n=='lindstrom' and not zf: continue
            m = f(v0,v1l,Rt01=Rt01,v_are_local=True)
            ctx.close(m,p,f'exact/{n}',msg='the rays intersect, and that is not the point reported',**tol,**D)
            if n!='lindstrom': ctx.close(f(v0,v1,t),p,f'exact/{n}/t01',msg='the rays intersect, and that is not the point reported',**tol,**D)
        # rays that intersect behind a camera
        for (s0,s1) in ((1,-1),(-1,1),(-1,-1)):
            if rep%3: break
            ctx.case('divergent',key=(rep,s0,s1),**D)
            for n,f in METHODS.items():
                if n=='lindstrom': continue
                m = f(v0*s0,v1*s1,t)
                # mid2 and wmid2 ask whether the sign flip makes a better fit; that is only clear if the point isn't equally far both ways
                if 'mid2' in n and not mid_decided(n,v0*s0,v1*s1,t): continue
                ctx.same(m,np.zeros(3),f'divergent/{n}',msg='the rays meet behind a camera, and a point was reported',s=(s0,s1),**D)
        if zf and rep%3==0:
            # away from each other: the intersection is behind both cameras, though each ray has z>0
            u0,u1 = v0*np.array((1,1,1.)),v1l*1.
            q = -p; R2=Rt01[:3]; t2 = q - R2@(-p1)   # -p seen at -p1: same directions
            m = mrcal.triangulate_lindstrom(u0,u1,Rt01=np.vstack((R2,t2)),v_are_local=True)
            ctx.case('divergent',key=(rep,'lindstrom'),**D)
            ctx.same(m,np.zeros(3),'divergent/lindstrom',**D)
        # parallel rays: nowhere
        if rep%5==0:
            ctx.case('divergent',key=(rep,'par'),**D)
            for n in ANG:
                m=METHODS[n](unit(v0),unit(v0),t)
                ctx.ok((m==0).all() or norm(m)>1e6*norm(t),f'parallel/{n}','parallel rays, and a nearby point was reported',m=m,**D)
    # random pairs: each method against the exact verdict of its own geometry
    for rep in range(ctx.n(600,10000)):
        t=rng.normal(size=3); v0,v1 = rng.normal(size=3),rng.normal(size=3)
        if rng.uniform()<.5: v1 = v0/norm(v0)*rng.uniform(.5,2)+rng.normal(size=3)*10**rng.uniform(-3,-.5)
        if angle(v0,v1)<1e-3: continue
        ctx.case('divergent',key=('random',rep),v0=v0,v1=v1,t=t)
        for n in ANG:
            w,margin = reference(n,v0,v1,t)
            if margin<1e-9: continue
            m=METHODS[n](v0,v1,t)
            ctx.counts['random '+('usable' if w is not None else 'unusable')]=ctx.counts.get('random '+('usable' if w is not None else 'unusable'),0)+1
            if w is None: ctx.same(m,np.zeros(3),f'verdict/{n}',msg='divergent rays, and a point was reported',v0=v0,v1=v1,t=t)
            else:
                ctx.ok((m!=0).any(),f'verdict/{n}','rays converge, and no point was reported',v0=v0,v1=v1,t=t,want=w)
                ctx.close(m,w,f'value/{n}',atol=(1e-12+1e-15/angle(v0,v1)**3)*(norm(w)+norm(t)),rtol=1e-9,v0=v0,v1=v1,t=t)

def depths(v0,v1,t):
    '''k0,k1 of the closest approach of the rays k0 v0, t+k1 v1'''
    k = np.linalg.lstsq(np.stack((v0,-v1),axis=-1),t,rcond=None)[0]
    return k
def mid_decided(n,v0,v1,t): return reference(n,v0,v1,t)[1]>1e-9
def reference(n,v0,v1,t):
    '''-> the point (None if divergent), and how clear-cut the verdict is'''
    u0,u1=unit(v0),unit(v1)
    if n=='geometric':
        k=depths(u0,u1,t)
        return (None if k.min()<=0 else (k[0]*u0+t+k[1]*u1)/2), np.abs(k).min()/norm(t)
    if n in ('leecivera_mid2','leecivera_wmid2'):
        # a point on each ray at the distances given by the sine law
        s=norm(np.cross(u0,u1)); l0=norm(np.cross(u1,t))/s; l1=norm(np.cross(u0,t))/s
        e={(a,b):norm(t+b*l1*u1-a*l0*u0)**2 for a in (1,-1) for b in (1,-1)}
        w=min(e[k]-e[1,1] for k in e if k!=(1,1))
        a,b=l0*u0,t+l1*u1
        m=(a+b)/2 if n=='leecivera_mid2' else (a/l0+b/l1)/(1/l0+1/l1)
        return (m if w>0 else None), abs(w)/(l0*l0+l1*l1+t@t)
    # the best epipolar plane
    nb,margin=best_plane(n,u0,u1,t)
    w0,w1=u0-nb*(u0@nb),u1-nb*(u1@nb)
    k=depths(w0,w1,t)
    return (None if k.min()<=0 else k[0]*w0), min(margin,np.abs(k).min()/norm(t),angle(w0,w1),np.pi-angle(w0,w1))
def best_plane(n,u0,u1,t):
    '''Normal of the plane through the baseline that minimizes the angles to the rays. And how clear-cut that is'''
    tu=unit(t); a=unit(np.cross(tu,(1,0,0) if abs(tu[0])<.6 else (0,1,0))); b=np.cross(tu,a)
    def cost(f):
        nn=np.cos(f)[...,None]*a+np.sin(f)[...,None]*b
        e=np.abs(np.arcsin(np.clip(np.stack((nn@u0,nn@u1)),-1,1)))
        return e.sum(0) if n=='leecivera_l1' else e.max(0)
    # candidates: L1 has its minima at the kinks; Linf where the two agree
    f0,f1=[np.arctan2(-(u@a),u@b) for u in (u0,u1)]
    if n=='leecivera_l1': c=np.array((f0,f1))
    else:
        # n.(u0+u1)=0 or n.(u0-u1)=0
        c=np.array([np.arctan2(-(u@a),u@b) for u in (u0+u1,u0-u1)])
    C=cost(c); i=C.argmin()
    f=c[i]
    return np.cos(f)*a+np.sin(f)*b, abs(C[0]-C[1])

def criterion(ctx):
    '''No other point is better, by the criterion the method is documented to minimize'''
    import scipy.optimize
    rng=ctx.rng
    for rep in range(ctx.n(400,5000)):
        Rt01,p,p1,par = geometry(rng,True)
        if par<.01: continue
        R,t=Rt01[:3],Rt01[3]
        noise=par*10**rng.uniform(-3,-.7)
        v0=unit(unit(p)+rng.normal(size=3)*noise); v1l=unit(unit(p1)+rng.normal(size=3)*noise)
        v1=R@v1l
        D=dict(v0=v0,v1=v1,t=t,Rt01=Rt01,noise=noise,par=par)
        ctx.case('criterion',key=rep,**D)
        k0,k1=10**rng.uniform(-2,2,2)
        crit=dict(geometric    =lambda m: dist(m,v0,0*t)**2+dist(m,v1,t)**2,
                  leecivera_l1 =lambda m: angle(v0,m)+angle(v1,m-t),
                  leecivera_linf=lambda m: max(angle(v0,m),angle(v1,m-t)),
                  lindstrom    =lambda m: norm(v0[:2]/v0[2]-m[:2]/m[2])**2+norm(v1l[:2]/v1l[2]-((m-t)@R)[:2]/((m-t)@R)[2])**2)
        for n,c in crit.items():
            m=METHODS[n](v0*k0,v1l*k1,Rt01=Rt01,v_are_local=True)
            if (m==0).all(): ctx.counts['criterion: none']=ctx.counts.get('criterion: none',0)+1; continue
            C=c(m)
            # scan the epipolar planes, and all of space
            worse=0
            if n in ('leecivera_l1','leecivera_linf'):
                tu=unit(t); base=unit(np.cross(tu,m))
                for d in np.concatenate((np.linspace(-.5,.5,41)*np.pi,np.linspace(-3,3,21)*noise)):
                    nn=base*np.cos(d)+np.cross(tu,base)*np.sin(d)
                    e=np.abs(np.arcsin(np.array((nn@v0,nn@v1)))); e=e.sum() if n=='leecivera_l1' else e.max()
                    worse=max(worse,C-e)
                ctx.ok(worse<1e-10,f'criterion/{n}','another epipolar plane is better',better=worse,C=C,**D)
            h=10**rng.uniform(-6,-1,60)*norm(m)
            for hh in h:
                m2=m+rng.normal(size=3)*hh
                if n=='lindstrom' and (m2[2]<=0 or ((m2-t)@R)[2]<=0): continue
                worse=max(worse,(C-c(m2))/(1e-300+(C if n!="lindstrom" else C+1e-3*norm(m-m2)**2/norm(m)**2+1e-13)))
            tol = 1e-3 if n=='lindstrom' else 1e-7
            if n=='lindstrom' and (noise>.005*par or par<.05 or min(v0[2],v1l[2])<.4): continue
            ctx.ok(worse<tol,f'criterion/{n}','a nearby point is better',better=worse,C=C,m=m,**D)
            if n=='lindstrom':
                ctx.counts['lindstrom optimal']=ctx.counts.get('lindstrom optimal',0)+1
                def res(x):
                    y=(x-t)@R
                    return np.concatenate((x[:2]/x[2]-v0[:2]/v0[2],y[:2]/y[2]-v1l[:2]/v1l[2]))
                s=scipy.optimize.least_squares(lambda x: res(x*norm(m))*1e3/noise,m/norm(m),xtol=1e-14,ftol=1e-14,gtol=1e-14)
                ctx.ok(norm(s.x*norm(m)-m)<5e-2*noise/par*norm(m)+1e-8*norm(m),'criterion/lindstrom/min','not the minimum of the pinhole reprojection error',m=m,best=s.x*norm(m),**D)
def dist(m,v,o): return norm(np.cross(m-o,v))/norm(v)

def gradients(ctx):
    rng=ctx.rng
    for rep in range(ctx.n(450,4000)):
        Rt01,p,p1,par=geometry(rng,True)
        if not .05<par<2.5: continue
        R,t=Rt01[:3],Rt01[3]; S=norm(t)
        noise=rng.choice((0,.01,.001))
        v0=unit(p)*rng.uniform(.3,3)+rng.normal(size=3)*noise; v1l=unit(p1)*rng.uniform(.3,3)+rng.normal(size=3)*noise; v1=R@v1l
        D=dict(v0=v0,v1=v1,t=t,par=par,noise=noise)
        ctx.case('gradient',key=rep,**D)
        for n in ANG:
            f=METHODS[n]
            m,d0,d1,dt=f(v0,v1,t,get_gradients=True)
            m0=f(v0,v1,t)
            ctx.close(m,m0,f'gradient/{n}/value',atol=1e-13*norm(m0),rtol=1e-13,**D)
            if (m0==0).all(): continue
            if n in ('leecivera_l1','leecivera_linf'):
                w,margin=reference(n,v0,v1,t)
                if w is None or margin<.01*0+1e-4: continue   # a kink nearby
            for nm,g,fn,x,h in (('v0',d0,lambda x: f(x,v1,t),v0,1e-5),('v1',d1,lambda x: f(v0,x,t),v1,1e-5),('t01',dt,lambda x: f(v0,v1,x),t,1e-5*S)):
                G=ref.numgrad(fn,x,h)
                ctx.close(g,G,f'gradient/{n}/{nm}',atol=2e-7*max(np.abs(G).max(),1e-9)/min(1,par)+1e-12,rtol=0,msg='the reported gradient is not the derivative',**D)
        # lindstrom
        if v0[2]<.1*norm(v0) or v1l[2]<.1*norm(v1l): continue
        f=lambda a,b,c,**k: mrcal.triangulate_lindstrom(a,b,c,**k)
        m,d0,d1,dR=f(v0,v1l,Rt01,get_gradients=True)
        m0=f(v0,v1l,Rt01)
        ctx.close(m,m0,'gradient/lindstrom/value',atol=1e-13*norm(m0),rtol=1e-13,**D)
        if (m0!=0).any():
            ctx.counts['gradient lindstrom']=ctx.counts.get('gradient lindstrom',0)+1
            ctx.ok(dR.shape==(3,4,3),'gradient/lindstrom/shape',str(dR.shape))
            for nm,g,fn,x,h in (('v0',d0,lambda x: f(x,v1l,Rt01),v0,1e-5),('v1',d1,lambda x: f(v0,x,Rt01),v1l,1e-5)):
                G=ref.numgrad(fn,x,h)
                ctx.close(g,G,f'gradient/lindstrom/{nm}',atol=1e-6*max(np.abs(G).max(),1e-9)/min(1,par),rtol=0,msg='the reported gradient is not the derivative',**D)
            # scaled, so that R and t are alike
            sc=np.concatenate((np.ones(9),np.ones(3)*S))
            G=ref.numgrad(lambda x: f(v0,v1l,(x*sc).reshape(4,3)),Rt01.ravel()/sc,1e-5)/sc
            ctx.close(dR.reshape(3,12)*sc,G*sc,'gradient/lindstrom/Rt01',atol=1e-6*np.abs(G*sc).max()/min(1,par),rtol=0,msg='the reported gradient is not the derivative',**D)

def api(ctx):
    rng=ctx.rng
    for rep in range(ctx.n(60,500)):
        N=int(rng.integers(1,5))
        G=[geometry(rng,True) for _ in range(N)]
        Rt=np.array([g[0] for g in G]); p=np.array([g[1] for g in G]); p1=np.array([g[2] for g in G])
        v1=np.array([Rt[i,:3]@p1[i] for i in range(N)])
        ctx.case('api',key=rep,N=N)
        for n,f in METHODS.items():
            if n=='lindstrom':
                a=f(p,p1,Rt01=Rt,v_are_local=True)
                forms=[f(p,p1,Rt),f(p,p1,Rt01=Rt)]
                forms.append(f(p,p1,Rt,out=np.zeros((N,3))))
            else:
                a=f(p,p1,Rt01=Rt,v_are_local=True)
                forms=[f(p,v1,Rt[:,3]),f(p,v1,Rt01=Rt),f(p,v1,t01=Rt[:,3],out=np.zeros((N,3)))]
                g=f(p,v1,Rt[:,3],get_gradients=True); forms.append(g[0])
            for i,b in enumerate(forms):
                for k in range(N): ctx.close(b[k],a[k],f'forms/{n}/{i}',atol=1e-8*norm(p[k]),rtol=0,msg='different ways to ask for the same thing give different answers')
            for i in range(N):
                ctx.close(f(p[i],p1[i],Rt01=Rt[i],v_are_local=True),a[i],f'broadcast/{n}',atol=1e-9*norm(p[i]),rtol=0)
            g=f(p[0],v1[:1],Rt[:,3],get_gradients=True) if n!='lindstrom' else f(p[0],p1[:1],Rt,get_gradients=True)
            w=(N,) if N>1 else (1,)
            ctx.ok(g[0].shape==w+(3,) and g[1].shape==w+(3,3) and g[3].shape==(w+(3,3) if n!='lindstrom' else w+(3,4,3)),f'shapes/{n}',str([x.shape for x in g]))
            if n!='lindstrom':
                ctx.raises(lambda: f(p,v1),f'args/{n}/none')
                ctx.raises(lambda: f(p,v1,Rt[:,3],Rt01=Rt),f'args/{n}/both')
                ctx.raises(lambda: f(p,p1,Rt[:,3],v_are_local=True),f'args/{n}/local-t01')
                ctx.raises(lambda: f(p,p1,Rt01=Rt,v_are_local=True,get_gradients=True),f'args/{n}/local-gradients')
            ctx.raises(lambda: f(p[...,:2],v1,Rt[:,3] if n!='lindstrom' else Rt),f'args/{n}/shape')

def sigmoid(x,k=3.):
    x=np.clip(x/k,0,1); return 2*x*x if x<.5 else 1-2*(1-x)**2
def error(ctx):
    '''The error function used in the solves'''
    rng=ctx.rng; f=mrcal.triangulation._triangulated_error
    for rep in range(ctx.n(600,8000)):
        Rt01,p,p1,par=geometry(rng,True)
        if not .01<par<2.5: continue
        R,t=Rt01[:3],Rt01[3]; S=norm(t)
        noise=10**rng.uniform(-3.5,-1)*min(1,par)
        v0=unit(p)*rng.uniform(.3,3)+rng.normal(size=3)*noise; v1=R@(unit(p1)*rng.uniform(.3,3)+rng.normal(size=3)*noise)
        if rng.uniform()<.3: v1=unit(v0)+rng.normal(size=3)*.3*rng.uniform()  # may diverge
        if angle(v0,v1)<1e-3: continue
        D=dict(v0=v0,v1=v1,t=t)
        ctx.case('error function',key=rep,**D)
        u0,u1=v0,v1
        s=norm(np.cross(u0,u1)); l0=norm(np.cross(u1,t))/s; l1=norm(np.cross(u0,t))/s
        w=[norm(t+b*l1*u1-a*l0*u0)**2-norm(t+l1*u1-l0*u0)**2 for a,b in ((-1,1),(1,-1),(-1,-1))]
        want=prob.tri_error(v0,v1,t)
        conv=min(w)>0
        if not conv:
            # chord between the directions, the way all the angles here are
            c=abs(unit(v0)@unit(v1)); want=want+np.sqrt(2-2*c)*sum(sigmoid(-x) for x in w)
            ctx.counts['error: divergent']=ctx.counts.get('error: divergent',0)+1
        e=f(v0,v1,t)
        if np.abs(w).min()<1e-9*(l0*l0+l1*l1+S*S): continue
        at=1e-12+3e-15/max(want,1e-9)+1e-9*want
        ctx.close(e,want,'error/value',atol=at,rtol=1e-6,**D)
        ctx.close(f(v0*3.7,v1,t) if conv else e,e,'error/scale of v0',atol=at,rtol=1e-6,**D)
        e2,d1,dt=f(v0,v1,t,get_gradients=True)
        ctx.close(e2,e,'error/value with gradients',atol=1e-15,rtol=1e-12,**D)
        # derivatives, where the function is smooth and not at its noise floor
        if e<1e-4 or abs(unit(v0)@unit(v1))<.05: continue
        if not conv and min(abs(-x-k) for x in w for k in (0,1.5,3))<.05: continue
        if conv and min(w)<1e-3*(l0*l0+l1*l1+S*S): continue
        for nm,g,fn,x,h in (('v1',d1,lambda x: f(v0,x,t),v1,2e-4*min(1,par)),('t01',dt,lambda x: f(v0,v1,x),t,2e-4*S*min(1,par))):
            G=ref.numgrad(lambda x: np.atleast_1d(fn(x)),x,h).ravel()
            G2=ref.numgrad(lambda x: np.atleast_1d(fn(x)),x,h/3).ravel()
            est=np.abs(G-G2).max()
            if est>1e-3*np.abs(G).max()+1e-6/(S if nm=='t01' else 1): ctx.counts['error: gradient unclear']=ctx.counts.get('error: gradient unclear',0)+1; continue
            ctx.counts['error gradients']=ctx.counts.get('error gradients',0)+1
            ctx.close(g,G2,f'error/gradient/{nm}',atol=10*est+1e-5*np.abs(G).max(),rtol=0,msg='the reported gradient is not the derivative',**D)

LM=('LENSMODEL_PINHOLE','LENSMODEL_OPENCV8','LENSMODEL_STEREOGRAPHIC','LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=8_Ny=6_fov_x_deg=120','LENSMODEL_CAHVOR','LENSMODEL_OPENCV4')
def models(rng,lm,n=2,baseline=1.):
    out=[]
    for i in range(n):
        intr=gen.intrinsics(rng,lm,strength=.4)
        out.append(mrcal.cameramodel(intrinsics=(lm,intr),imagersize=(4000,3000),rt_cam_ref=np.concatenate((rng.uniform(-.1,.1,3),(-i*baseline+rng.uniform(-.2,.2),rng.uniform(-.2,.2),rng.uniform(-.2,.2))))))
    return out
def pixels(ctx):
    rng=ctx.rng
    for rep in range(ctx.n(36,300)):
        lm=LM[rep%len(LM)]
        mm=models(rng,lm); N=3
        z=rng.uniform(5,40,N)
        p=np.stack((rng.uniform(-.3,.3,N)*z,rng.uniform(-.2,.2,N)*z,z),axis=-1)
        Rt01=mrcal.compose_Rt(mm[0].Rt_cam_ref(),mm[1].Rt_ref_cam())
        q=np.stack((mrcal.project(p,*mm[0].intrinsics()),mrcal.project(mrcal.transform_point_Rt(mrcal.invert_Rt(Rt01),p),*mm[1].intrinsics())),axis=1)
        D=dict(lm=lm,p=p,q=q)
        ctx.case('pixels',key=rep,**D)
        for n,f in METHODS.items():
            got=mrcal.triangulate(q,mm,method=f)
            ctx.close(got,p,f'pixels/{n}',atol=3e-5*z.max(),rtol=1e-5,msg='pixels of a known point do not triangulate to it',**D)
        qn=q+rng.normal(size=q.shape)*.5
        v0,v1=[mrcal.unproject(qn[:,i],*mm[i].intrinsics()) for i in (0,1)]
        for n,f in METHODS.items():
            a=mrcal.triangulate(qn,mm,method=f)
            ctx.close(a,f(v0,v1,Rt01=Rt01,v_are_local=True),f'pixels/{n}/rays',atol=1e-7*z.max(),rtol=0,msg='the pixel-level function differs from the ray-level function',**D)
        # default method
        a=mrcal.triangulate(qn,mm)
        ctx.close(a,mrcal.triangulate(qn,mm,method=mrcal.triangulate_leecivera_mid2),'pixels/default',atol=0,rtol=0,**D)
        ctx.close(mrcal.triangulate(qn[1],mm),a[1],'pixels/broadcast',atol=1e-9,rtol=1e-9,**D)
        # several models
        mo=np.array([[mm[0],mm[1]],[mm[1],mm[0]]],dtype=object)
        b=mrcal.triangulate(np.stack((qn[0],qn[0][::-1])),mo)
        ctx.close(b[0],a[0],'pixels/models',atol=1e-9,rtol=1e-9,**D)
        ctx.close(mrcal.transform_point_Rt(Rt01,b[1]),a[0],'pixels/swapped',atol=1e-6*z.max(),rtol=0,msg='swapping the cameras gives a different point',**D)
        # observation noise
        s=float(rng.uniform(.1,2)); c=float(rng.choice((0,.3,.9,1.)))
        for n in ANG:
            f=METHODS[n]
            for qsel,msel in ((qn,mm),(qn[1],mm)):
                P,V=mrcal.triangulate(qsel,mm,q_observation_stdev=s,q_observation_stdev_correlation=c,method=f)
                ctx.close(P,mrcal.triangulate(qsel,mm,method=f),f'noise/{n}/p',atol=1e-9,rtol=1e-9,**D)
                ctx.ok(V.shape==P.shape+(3,),f'noise/{n}/shape',str(V.shape))
                V=V.reshape(-1,3,3); qq=qsel.reshape(-1,2,2)
                for i in range(len(V)):
                    if n in ('leecivera_l1','leecivera_linf'):
                        u=[mrcal.unproject(qq[i,k],*mm[k].intrinsics()) for k in (0,1)]
                        if reference(n,u[0],Rt01[:3]@u[1],Rt01[3])[1]<1e-4: continue
                    G=ref.numgrad(lambda x: mrcal.triangulate(x.reshape(2,2),mm,method=f),qq[i].ravel(),.05)
                    Vq=np.eye(4)*s*s; cc=(s*c)**2
                    for a_,b_ in ((0,2),(1,3)): Vq[a_,b_]=Vq[b_,a_]=cc
                    W=G@Vq@G.T
                    ctx.counts['noise']=ctx.counts.get('noise',0)+1
                    ctx.close(V[i],W,f'noise/{n}',atol=1e-3*np.abs(G@G.T*s*s).max(),rtol=0,msg='the reported covariance is not the propagated noise',s=s,c=c,**D)
                    ctx.close(V[i],V[i].T,f'noise/{n}/symmetric',atol=1e-10*np.abs(V[i]).max(),rtol=0,**D)
        r=mrcal.triangulate(qn,mm,q_calibration_stdev=0,q_observation_stdev=0)
        ctx.ok(len(r)==4 and r[1].shape==(N,3,N,3) and r[2].shape==(N,3,3) and r[3].shape==(N,3,N,3) and not any(np.any(x) for x in r[1:]),'noise/zero','zero noise',**D)
        r=mrcal.triangulate(qn,mm,q_observation_stdev=0)
        ctx.ok(len(r)==2 and r[1].shape==(N,3,3) and not r[1].any(),'noise/zero-observation','',**D)
        r=mrcal.triangulate(qn,mm,q_calibration_stdev=0)
        ctx.ok(len(r)==2 and r[1].shape==(N,3,N,3) and not r[1].any(),'noise/zero-calibration','',**D)
        ctx.raises(lambda: mrcal.triangulate(qn,mm,q_observation_stdev=-1),'noise/negative')
        ctx.raises(lambda: mrcal.triangulate(qn,mm,q_calibration_stdev=1),'noise/no-optimization-inputs')
        ctx.raises(lambda: mrcal.triangulate(qn,mm,q_observation_stdev=1,method=mrcal.triangulate_lindstrom),'noise/lindstrom')

def uncertainty(ctx):
    '''Calibration-time noise, against dense propagation through numerical gradients'''
    rng=ctx.rng
    for rep in range(ctx.n(6,40)):
        lm=('LENSMODEL_PINHOLE','LENSMODEL_OPENCV4','LENSMODEL_STEREOGRAPHIC')[rep%3]
        sel=dict(prob.ALL,do_apply_regularization=bool(rep%2),do_apply_regularization_unity_cam01=False)
        if rep%4==3: sel['do_optimize_intrinsics_core']=False
        if rep%5==4: sel['do_optimize_frames']=False
        cams='all' if rep%5==4 else 'cam0-ref'
        Ncam=int(rng.integers(2,4))
        oi=prob.make(rng,lensmodel=lm,Ncam=Ncam,Nframes=6,WH=(6,5),noise=.3,outliers=0,cameras=cams,jitter=.003,strength=.2,visible=1.,select=sel,warp=bool(rep%3))
        if oi['calobject_warp'] is None: oi['do_optimize_calobject_warp']=False
        oi['do_apply_outlier_rejection']=False
        with vlib.quiet_fds(): stats=mrcal.optimize(**oi)
        R=prob.Ref(oi)
        ie=lambda i: i if cams=='all' else i-1
        def cam(o,i):
            rt=np.zeros(6) if ie(i)<0 else o['rt_cam_ref'][ie(i)]
            return mrcal.cameramodel(intrinsics=(lm,o['intrinsics'][i]),imagersize=o['imagersizes'][i],rt_cam_ref=rt)
        M=[mrcal.cameramodel(optimization_inputs=oi,icam_intrinsics=i) for i in range(Ncam)]
        pairs=[(0,1),(Ncam-1,0)]
        N=2
        q=[]; mo=np.empty((N,2),dtype=object)
        for k,(a,b) in enumerate(pairs):
            mo[k]=M[a],M[b]
            z=rng.uniform(2,5); p=np.array((rng.uniform(-.2,.2)*z,rng.uniform(-.2,.2)*z,z))
            R01=mrcal.compose_Rt(M[a].Rt_cam_ref(),M[b].Rt_ref_cam())
            q.append(np.stack((mrcal.project(p,*M[a].intrinsics()),mrcal.project(mrcal.transform_point_Rt(mrcal.invert_Rt(R01),p),*M[b].intrinsics()))))
        q=np.array(q)+rng.normal(size=(N,2,2))*.1
        D=dict(lm=lm,sel=sel,oi=oi,q=q)
        # dense
        b0,x0,J,_=mrcal.optimizer_callback(**{k:v for k,v in oi.items() if k!='do_apply_outlier_rejection'},no_factorization=True)
        J=J.toarray(); nobs=R.m_board+R.m_point
        iJ=np.linalg.pinv(J); K=iJ[:,:nobs]; Vb=K@K.T
        p0=mrcal.triangulate(q,mo)
        def P(bp,stable):
            o=R.with_state(bp*R.scale); out=[]
            for k,(a,b) in enumerate(pairs):
                m=mrcal.triangulate(q[k],(cam(o,a),cam(o,b)))
                if stable:
                    pr=mrcal.transform_point_Rt(cam(o,a).Rt_ref_cam(),m)
                    if sel['do_optimize_frames']:
                        l=[]
                        for f1,f0 in zip(o['rt_ref_frame'],oi['rt_ref_frame']):
                            l.append(mrcal.transform_point_rt(f0,mrcal.transform_point_rt(mrcal.invert_rt(f1),pr)))
                        pr=np.mean(l,axis=0)
                    m=mrcal.transform_point_Rt(M[a].Rt_cam_ref(),pr)
                out.append(m)
            return np.array(out).ravel()
        for stable in (True,False):
            ctx.case('uncertainty',key=(rep,stable,ctx.job['name']),stable=stable,**D)
            G=ref.numgrad(lambda b: P(b,stable),b0,1e-4)
            W=G@Vb@G.T
            for s in (.4,-1):
                ss=s
                if s<0: ss=float(np.sqrt(np.sum(x0[:R.m_board]**2)/(R.m_board-0))) if False else mrcal.model_analysis._observed_pixel_uncertainty_from_inputs(oi)
                so=float(rng.uniform(.1,1))
                a=mrcal.triangulate(q,mo,q_calibration_stdev=s,q_observation_stdev=so,q_observation_stdev_correlation=.3,stabilize_coords=stable)
                ctx.ok(len(a)==4 and a[1].shape==(N,3,N,3) and a[2].shape==(N,3,3) and a[3].shape==(N,3,N,3),'uncertainty/shape',str([x.shape for x in a]),**D)
                ctx.close(a[0],p0,'uncertainty/p',atol=1e-9,rtol=1e-9,**D)
                ctx.close(a[1].reshape(6,6),W*ss*ss,'uncertainty/calibration',atol=2e-4*np.abs(W).max()*ss*ss,rtol=0,msg='Var_p_calibration is not the linear propagation of the calibration-time noise',stable=stable,**D)
                j=a[1].copy()
                for i in range(N): j[i,:,i,:]+=a[2][i]
                ctx.close(a[3],j,'uncertainty/joint',atol=1e-12*np.abs(j).max(),rtol=1e-12,**D)
                o=mrcal.triangulate(q,mo,q_observation_stdev=so,q_observation_stdev_correlation=.3)[1]
                ctx.close(a[2],o,'uncertainty/observation',atol=1e-9*np.abs(o).max(),rtol=0,**D)
                c=mrcal.triangulate(q,mo,q_calibration_stdev=s,stabilize_coords=stable)
                ctx.ok(len(c)==2,'uncertainty/calibration-only/n',str(len(c)))
                ctx.close(c[1],a[1],'uncertainty/calibration-only',atol=1e-12*np.abs(W).max()*ss*ss,rtol=0,**D)
                e=mrcal.triangulate(q,mo,q_calibration_stdev=s,q_observation_stdev=0,stabilize_coords=stable)
                ctx.ok(len(e)==4 and not e[2].any(),'uncertainty/observation-zero','')
                ctx.close(e[3],a[1],'uncertainty/observation-zero/joint',atol=1e-12*np.abs(W).max()*ss*ss,rtol=0,**D)
                one=mrcal.triangulate(q[1],mo[1],q_calibration_stdev=s,stabilize_coords=stable)[1]
                ctx.close(one,a[1][1,:,1,:],'uncertainty/one',atol=1e-8*np.abs(W).max()*ss*ss,rtol=0,**D)
        # a camera that was moved since
        mv=mrcal.cameramodel(M[1]); mv.rt_cam_ref(mv.rt_cam_ref()+.1)
        ctx.raises(lambda: mrcal.triangulate(q[0],(M[0],mv),q_calibration_stdev=1.),'uncertainty/moved')
