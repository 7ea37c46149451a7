'''Pose representations and rigid-motion algebra'''
import numpy as np
TITLE = 'poses'
RULE  = ('An execution is one set of random poses, from every special regime (zero, tiny, near pi, past pi, axis-aligned), sent through every conversion, composition, inversion and '
         'point transformation of the Python API and (strided, in-place, with every subset of outputs) of the C API. The oracle is 4x4 matrix algebra with a long-double matrix exponential, and central differences. '
         'Non-trivial: the poses are random and distinct.')
ASSUMPTIONS = ['rotations by tiny angles are evaluated by the library with a series good to 1e-10; tolerances allow for that',
               'gradients are compared only where the function is differentiable (not where the Rodrigues vector wraps at pi)']
MIN_EVALUATIONS = 300
FLOORS = {'value':500,'gradient':300,'inplace':200,'capi':200}

def jobs(tier,seed):
    return [dict(name=f'values{k}') for k in range(2)]+[dict(name=f'gradients{k}') for k in range(2)]+[dict(name='capi'),dict(name='capi2'),dict(name='quat')]

def run(ctx,job):
    global mrcal,ref,gen,capi
    import mrcal,ref,gen,capi
    n=job['name']
    if n.startswith('values'): values(ctx)
    if n.startswith('gradients'): gradients(ctx)
    if n.startswith('capi'): c_api(ctx)
    if n=='quat': quat(ctx)

def count(ctx,k,n=1): ctx.counts[k]=ctx.counts.get(k,0)+n
def Tr(r): T=np.eye(4); T[:3,:3]=ref.R_from_r(r); return T
def ap(T,x): return x@T[:3,:3].T+T[:3,3]
TOL=2e-9

def values(ctx):
    rng=ctx.rng
    for rep in range(ctx.n(400,5000)):
        s = 10**rng.uniform(-2,3)
        a,b,c,d = [gen.rt(rng,tscale=s) for _ in range(4)]
        Ta,Tb,Tc,Td = [ref.T_from_rt(v) for v in (a,b,c,d)]
        A,B,C,Dd = [ref.Rt_from_T(T) for T in (Ta,Tb,Tc,Td)]
        x = rng.normal(size=(5,3))*s
        ctx.case('value',key=rep,a=a,b=b,c=c,x=x)
        at = dict(atol=TOL*max(1,s),rtol=0)
        # conversions
        ctx.close(mrcal.R_from_r(a[:3]),Ta[:3,:3],'R_from_r',atol=TOL,rtol=0)
        ctx.close(mrcal.Rt_from_rt(a),A,'Rt_from_rt',atol=TOL,rtol=1e-15)
        r = mrcal.r_from_R(A[:3])
        ctx.close(ref.R_from_r(r),A[:3],'r_from_R',atol=1e-7,rtol=0,msg='r_from_R() is a different rotation',r=r,R=A[:3])
        ctx.ok(np.linalg.norm(r)<np.pi+1e-6,'r_from_R/range','|r|>pi',r=r)
        rt = mrcal.rt_from_Rt(A)
        ctx.close(ref.Rt_from_T(ref.T_from_rt(rt)),A,'rt_from_Rt',atol=1e-7,rtol=1e-15)
        ctx.same(rt[3:],A[3],'rt_from_Rt/t')
        if np.linalg.norm(a[:3])<np.pi-1e-2: ctx.close(r,a[:3],'r_from_R/roundtrip',atol=1e-8,rtol=0)
        # inversion
        ctx.close(mrcal.invert_R(A[:3]),A[:3].T,'invert_R',atol=0,rtol=0)
        ctx.close(mrcal.invert_Rt(A),ref.Rt_from_T(ref.inv_T(Ta)),'invert_Rt',**at)
        ctx.close(ref.T_from_rt(mrcal.invert_rt(a)),ref.inv_T(Ta),'invert_rt',**at)
        ctx.close(mrcal.invert_rt(a)[:3],-a[:3],'invert_rt/r',atol=0,rtol=0)
        ctx.close(mrcal.invert_rt(mrcal.invert_rt(a)),a,'invert_rt/twice',**at)
        # points
        for inv in (False,True):
            T = ref.inv_T(Ta) if inv else Ta
            t = f',inverted={inv}'
            ctx.close(mrcal.transform_point_rt(a,x,inverted=inv),ap(T,x),'transform_point_rt'+t,**at)
            ctx.close(mrcal.transform_point_Rt(A,x,inverted=inv),ap(T,x),'transform_point_Rt'+t,**at)
            ctx.close(mrcal.rotate_point_r(a[:3],x,inverted=inv),x@T[:3,:3].T,'rotate_point_r'+t,**at)
            ctx.close(mrcal.rotate_point_R(A[:3],x,inverted=inv),x@T[:3,:3].T,'rotate_point_R'+t,**at)
            # with gradients: the same values
            ctx.close(mrcal.transform_point_rt(a,x,inverted=inv,get_gradients=True)[0],ap(T,x),'transform_point_rt/g'+t,**at)
            ctx.close(mrcal.transform_point_Rt(A,x,inverted=inv,get_gradients=True)[0],ap(T,x),'transform_point_Rt/g'+t,**at)
            ctx.close(mrcal.rotate_point_r(a[:3],x,inverted=inv,get_gradients=True)[0],x@T[:3,:3].T,'rotate_point_r/g'+t,**at)
            ctx.close(mrcal.rotate_point_R(A[:3],x,inverted=inv,get_gradients=True)[0],x@T[:3,:3].T,'rotate_point_R/g'+t,**at)
        # composition
        for i0 in (False,True):
            for i1 in (False,True):
                T = (ref.inv_T(Ta) if i0 else Ta) @ (ref.inv_T(Tb) if i1 else Tb)
                kw=dict(inverted0=i0,inverted1=i1); t=f',{int(i0)}{int(i1)}'
                ctx.close(mrcal.compose_Rt(A,B,**kw),ref.Rt_from_T(T),'compose_Rt'+t,**at)
                o = mrcal.compose_rt(a,b,**kw)
                ctx.close(ref.T_from_rt(o),T,'compose_rt'+t,atol=2e-8*max(1,s),rtol=0,r0=a,r1=b)
                ctx.close(mrcal.compose_rt(a,b,get_gradients=True,**kw)[0],o,'compose_rt/g'+t,atol=1e-12,rtol=1e-12)
                o = mrcal.compose_r(a[:3],b[:3],**kw)
                ctx.close(ref.R_from_r(o),T[:3,:3],'compose_r'+t,atol=2e-8,rtol=0,r0=a,r1=b)
                ctx.close(mrcal.compose_r(a[:3],b[:3],get_gradients=True,**kw)[0],o,'compose_r/g'+t,atol=1e-12,rtol=1e-12)
        n3=Ta@Tb@Tc; n4=n3@Td
        ctx.close(mrcal.compose_Rt(A,B,C),ref.Rt_from_T(n3),'compose_Rt/chain',**at)
        ctx.close(mrcal.compose_Rt(A,B,C,Dd),ref.Rt_from_T(n4),'compose_Rt/chain4',**at)
        ctx.close(ref.T_from_rt(mrcal.compose_rt(a,b,c)),n3,'compose_rt/chain',atol=5e-8*max(1,s),rtol=0)
        ctx.close(ref.T_from_rt(mrcal.compose_rt(a,b,c,d)),n4,'compose_rt/chain4',atol=5e-8*max(1,s),rtol=0)
        ctx.close(ref.R_from_r(mrcal.compose_r(a[:3],b[:3],c[:3],d[:3])),n4[:3,:3],'compose_r/chain4',atol=5e-8,rtol=0)
        # inverses cancel
        ctx.close(mrcal.compose_rt(a,a,inverted1=True)[:3],np.zeros(3),'compose_rt/cancels',atol=1e-7,rtol=0)
        if np.linalg.norm(a[:3])<np.pi-1e-6:
            ctx.close(mrcal.compose_rt(a,np.zeros(6)),a,'compose_rt/identity1',atol=1e-7*max(1,s)); ctx.close(mrcal.compose_rt(np.zeros(6),a),a,'compose_rt/identity0',atol=1e-7*max(1,s))
        # in place
        for f,args in ((mrcal.compose_rt,(a,b)),(mrcal.compose_Rt,(A,B)),(mrcal.compose_r,(a[:3],b[:3])),(mrcal.compose_rt,(a,b,c)),(mrcal.compose_Rt,(A,B,C)),
                       (mrcal.invert_rt,(a,)),(mrcal.invert_Rt,(A,)),(mrcal.invert_R,(A[:3],)),
                       (mrcal.rotate_point_r,(a[:3],x[0])),(mrcal.rotate_point_R,(A[:3],x[0])),(mrcal.transform_point_rt,(a,x[0])),(mrcal.transform_point_Rt,(A,x[0])),
                       (mrcal.transform_point_rt,(a,x)),(mrcal.transform_point_Rt,(A,x)),(mrcal.rotate_point_r,(a[:3],x)),(mrcal.rotate_point_R,(A[:3],x))):
            want = f(*args)
            for i in range(len(args)):
                if args[i].shape!=want.shape: continue
                if i==0 and f in (mrcal.rotate_point_r,) and x.ndim==2 and args[1].ndim==2: continue
                l = [np.array(v) for v in args]; o=l[i]
                f(*l,out=o)
                ctx.close(o,want,f'inplace/{f.__name__}/{i}of{len(args)}',atol=1e-12*max(1,s),rtol=1e-12)
                count(ctx,'inplace')
            if f in (mrcal.compose_rt,mrcal.compose_Rt,mrcal.compose_r) and len(args)==2:
                for i0,i1 in ((0,1),(1,0),(1,1)):
                    kw=dict(inverted0=bool(i0),inverted1=bool(i1)); want=f(*args,**kw)
                    for i in range(2):
                        l=[np.array(v) for v in args]; f(*l,out=l[i],**kw)
                        ctx.close(l[i],want,f'inplace/{f.__name__}/{i}inv{i0}{i1}',atol=1e-12*max(1,s),rtol=1e-12)
        # out= of anything
        o=np.full((4,3),np.nan); mrcal.Rt_from_rt(a,out=o); ctx.close(o,mrcal.Rt_from_rt(a),'Rt_from_rt/out',atol=0,rtol=0)
        o=np.full(6,np.nan); mrcal.rt_from_Rt(A,out=o); ctx.close(o,rt,'rt_from_Rt/out',atol=0,rtol=0)
    ctx.same(mrcal.identity_R(),np.eye(3),'identity_R'); ctx.same(mrcal.identity_r(),np.zeros(3),'identity_r')
    ctx.same(mrcal.identity_Rt(),np.vstack((np.eye(3),np.zeros(3))),'identity_Rt'); ctx.same(mrcal.identity_rt(),np.zeros(6),'identity_rt')
    v=rng.normal(size=3); ctx.close(mrcal.skew_symmetric(v),ref.skew(v),'skew_symmetric',atol=0,rtol=0)
    for f in (mrcal.compose_rt,mrcal.compose_Rt,mrcal.compose_r):
        z = {mrcal.compose_rt:np.zeros(6),mrcal.compose_Rt:mrcal.identity_Rt(),mrcal.compose_r:np.zeros(3)}[f]
        ctx.raises(lambda: f(z,z,z,inverted0=True),f'{f.__name__}/accepts inverted chain')

def nearest(r,base):
    '''The equivalent of Rodrigues vector r closest to base'''
    th=np.linalg.norm(r)
    if th<1: return r
    return min((r,r*(1-2*np.pi/th)),key=lambda v: np.linalg.norm(v-base))
def nrt(v,base): v=np.array(v); v[:3]=nearest(v[:3],base[:3]); return v

def gradients(ctx):
    rng=ctx.rng; H=2e-3; G=dict(atol=3e-7,rtol=3e-7)
    P = lambda f,x: ref.numgrad(f,x,H)
    for rep in range(ctx.n(150,2500)):
        kinds = ('any','small','tiny','zero','axis','big','pi-')
        s = 10**rng.uniform(-1,1.5)
        ka,kb = rng.choice(kinds),rng.choice(kinds)
        a,b = gen.rt(rng,ka,s),gen.rt(rng,kb,s)
        A,B = [ref.Rt_from_T(ref.T_from_rt(v)) for v in (a,b)]
        x = rng.normal(size=3)*s
        if rep%10==0: x[:]=0
        ctx.case('gradient',key=rep,a=a,b=b,x=x)
        # a series good to first order is used for th<1e-5
        tiny = any(0<np.linalg.norm(v[:3])<2e-5 for v in (a,b))
        G=dict(atol=(3e-5 if tiny else 3e-7)*max(1,s,np.linalg.norm(a[3:])),rtol=3e-7)
        for inv in (False,True):
            t=f',inverted={inv}'
            y,gr,gx = mrcal.rotate_point_r(a[:3],x,get_gradients=True,inverted=inv)
            ctx.close(gr,P(lambda v: (ref.R_from_r(v).T if inv else ref.R_from_r(v))@x,a[:3]),'rotate_point_r/dr'+t,**G)
            ctx.close(gx,ref.R_from_r(a[:3]).T if inv else ref.R_from_r(a[:3]),'rotate_point_r/dx'+t,**G)
            y,gr,gx = mrcal.transform_point_rt(a,x,get_gradients=True,inverted=inv)
            f = lambda v,X=x: ap(ref.inv_T(ref.T_from_rt(v)) if inv else ref.T_from_rt(v),X)
            ctx.close(gr,P(f,a),'transform_point_rt/drt'+t,**G)
            ctx.close(gx,P(lambda X: f(a,X),x),'transform_point_rt/dx'+t,**G)
            y,gR,gx = mrcal.rotate_point_R(A[:3],x,get_gradients=True,inverted=inv)
            f = lambda R,X=x: (R.reshape(3,3).T if inv else R.reshape(3,3))@X
            ctx.close(gR.reshape(3,9),P(f,A[:3].ravel()),'rotate_point_R/dR'+t,**G); ctx.close(gx,P(lambda X: f(A[:3],X),x),'rotate_point_R/dx'+t,**G)
            y,gR,gx = mrcal.transform_point_Rt(A,x,get_gradients=True,inverted=inv)
            f = lambda R,X=x: (R.reshape(4,3)[:3].T@(X-R.reshape(4,3)[3]) if inv else R.reshape(4,3)[:3]@X+R.reshape(4,3)[3])
            ctx.close(gR.reshape(3,12),P(f,A.ravel()),'transform_point_Rt/dRt'+t,**G); ctx.close(gx,P(lambda X: f(A,X),x),'transform_point_Rt/dx'+t,**G)
        R,g = mrcal.R_from_r(a[:3],get_gradients=True)
        ctx.close(R,A[:3],'R_from_r/g',atol=1e-9,rtol=0)
        ctx.close(g.reshape(9,3),P(lambda v: ref.R_from_r(v).ravel(),a[:3]),'R_from_r/dr',**G)
        Rt,g = mrcal.Rt_from_rt(a,get_gradients=True)
        ctx.close(Rt,A,'Rt_from_rt/g',atol=1e-9,rtol=1e-12)
        ctx.close(g.reshape(9,3),P(lambda v: ref.R_from_r(v).ravel(),a[:3]),'Rt_from_rt/dr',**G)
        o,g = mrcal.invert_rt(a,get_gradients=True)
        def finv(v): return np.concatenate((-v[:3],-ref.R_from_r(v[:3]).T@v[3:]))
        ctx.close(o,finv(a),'invert_rt/g',atol=1e-9*max(1,s)); ctx.close(g,P(finv,a),'invert_rt/drt',**G)
        # r_from_R: only along valid rotations
        th=np.linalg.norm(a[:3])
        rr,g = mrcal.r_from_R(A[:3],get_gradients=True)
        ctx.close(rr,mrcal.r_from_R(A[:3]),'r_from_R/g',atol=1e-9,rtol=0)
        rrt,gt = mrcal.rt_from_Rt(A,get_gradients=True)
        ctx.close(rrt,np.concatenate((rr,A[3])),'rt_from_Rt/g',atol=1e-9,rtol=1e-12); ctx.close(gt,g,'rt_from_Rt/dR',atol=1e-9,rtol=1e-9)
        if np.linalg.norm(rr)<np.pi-.05:
            # d r / dw at R exp(w): independent of how the library evaluates r. dr/dw = inverse right Jacobian
            num = ref.numgrad(lambda w: logm(A[:3]@ref.R_from_r(w),rr),np.zeros(3),H)
            an  = np.stack([np.einsum('ijk,jk->i',g,A[:3]@ref.skew(e)) for e in np.eye(3)],axis=-1)
            ctx.close(an,num,'r_from_R/dR',atol=2e-6,rtol=1e-6,r=rr)
        # composition
        for i0 in (False,True):
            for i1 in (False,True):
                kw=dict(inverted0=i0,inverted1=i1); t=f',{int(i0)}{int(i1)}'
                def f(u,v):
                    T=(ref.inv_T(ref.T_from_rt(u)) if i0 else ref.T_from_rt(u))@(ref.inv_T(ref.T_from_rt(v)) if i1 else ref.T_from_rt(v))
                    return T
                o,g0,g1 = mrcal.compose_rt(a,b,get_gradients=True,**kw)
                if np.linalg.norm(o[:3])>np.pi-.05: continue
                F = lambda u,v: (lambda T: np.concatenate((logm(T[:3,:3],o[:3]),T[:3,3])))(f(u,v))
                # the library uses quaternions: fine at any angle but for inputs near 2pi
                if max(np.linalg.norm(a[:3]),np.linalg.norm(b[:3]))>6: continue
                GG=dict(atol=(3e-5 if tiny else 5e-6)*max(1,s),rtol=2e-6)
                ctx.close(g0,P(lambda u: F(u,b),a),'compose_rt/drt0'+t,r0=a,r1=b,**GG)
                ctx.close(g1,P(lambda v: F(a,v),b),'compose_rt/drt1'+t,r0=a,r1=b,**GG)
                or_,h0,h1 = mrcal.compose_r(a[:3],b[:3],get_gradients=True,**kw)
                ctx.close(h0,g0[:3,:3],'compose_r/dr0'+t,atol=1e-9,rtol=1e-9); ctx.close(h1,g1[:3,:3],'compose_r/dr1'+t,atol=1e-9,rtol=1e-9)
                # in place with gradients
                for i in range(2):
                    l=[a.copy(),b.copy()]; q0=np.full((6,6),np.nan); q1=np.full((6,6),np.nan)
                    mrcal.compose_rt(*l,get_gradients=True,out=(l[i],q0,q1),**kw)
                    ctx.close(l[i],o,'compose_rt/inplace'+t,atol=1e-12*max(1,s)); ctx.close(q0,g0,'compose_rt/inplace-g0'+t,atol=1e-12); ctx.close(q1,g1,'compose_rt/inplace-g1'+t,atol=1e-12)
        # tiny special cases
        if np.linalg.norm(a[:3])<np.pi-.05:
            # r1 given, r0=0 and the reverse. logm() is independent of the code
            T0=ref.T_from_rt(a)
            F0=lambda u: (lambda T: np.concatenate((logm(T[:3,:3],a[:3]),T[:3,3])))(ref.T_from_rt(u)@T0)
            F1=lambda u: (lambda T: np.concatenate((logm(T[:3,:3],a[:3]),T[:3,3])))(T0@ref.T_from_rt(u))
            n0,n1=P(F0,np.zeros(6)),P(F1,np.zeros(6)); GG=dict(atol=(3e-5 if tiny else 5e-6)*max(1,s),rtol=2e-6)
            ctx.close(mrcal.compose_rt_tinyrt0_gradientrt0(a),n0,'compose_rt_tinyrt0',r0=a,**GG); ctx.close(mrcal.compose_rt_tinyrt1_gradientrt1(a),n1,'compose_rt_tinyrt1',r0=a,**GG)
            ctx.close(mrcal.compose_r_tinyr0_gradientr0(a[:3]),n0[:3,:3],'compose_r_tinyr0',r0=a,**GG); ctx.close(mrcal.compose_r_tinyr1_gradientr1(a[:3]),n1[:3,:3],'compose_r_tinyr1',r0=a,**GG)
            st=np.stack((a,b*.1)); ctx.close(mrcal.compose_rt_tinyrt0_gradientrt0(st)[0],mrcal.compose_rt_tinyrt0_gradientrt0(a),'compose_rt_tinyrt0/stack',atol=1e-12); ctx.close(mrcal.compose_rt_tinyrt1_gradientrt1(st)[0],mrcal.compose_rt_tinyrt1_gradientrt1(a),'compose_rt_tinyrt1/stack',atol=1e-12)
            o=np.full((6,6),np.nan); mrcal.compose_rt_tinyrt0_gradientrt0(a,out=o); ctx.close(o,mrcal.compose_rt_tinyrt0_gradientrt0(a),'compose_rt_tinyrt0/out',atol=0)

def logm(R,base):
    '''Rodrigues vector of R closest to base. Via the quaternion, well-conditioned everywhere'''
    K=np.array(((R[0,0]-R[1,1]-R[2,2],0,0,0),(R[0,1]+R[1,0],R[1,1]-R[0,0]-R[2,2],0,0),(R[0,2]+R[2,0],R[1,2]+R[2,1],R[2,2]-R[0,0]-R[1,1],0),
                (R[2,1]-R[1,2],R[0,2]-R[2,0],R[1,0]-R[0,1],np.trace(R))))/3
    w,V=np.linalg.eigh(K); q=V[:,-1]   # x y z w
    if q[3]<0: q=-q
    n=np.linalg.norm(q[:3])
    if n<1e-3:
        # asin series
        r = 2*q[:3]*(1+n*n/6+3*n**4/40)/1.
    else: r=q[:3]/n*2*np.arctan2(n,q[3])
    return nearest(r,base)

def quat(ctx):
    rng=ctx.rng
    for rep in range(ctx.n(300,4000)):
        a=gen.rt(rng); T=ref.T_from_rt(a); A=ref.Rt_from_T(T)
        q=rng.normal(size=4); q/=np.linalg.norm(q)
        if rep%5==0: q=np.zeros(4); q[rng.integers(4)]=1
        ctx.case('quat',key=rep,a=a,q=q)
        ctx.close(mrcal.R_from_quat(q),ref.R_from_q(q),'R_from_quat',atol=1e-12)
        qq=mrcal.quat_from_R(A[:3])
        ctx.close(np.linalg.norm(qq),1.,'quat_from_R/unit',atol=1e-9); ctx.close(ref.R_from_q(qq),A[:3],'quat_from_R',atol=1e-9)
        ctx.close(mrcal.R_from_quat(mrcal.quat_from_R(ref.R_from_q(q))),ref.R_from_q(q),'quat/roundtrip',atol=1e-9)
        qt=mrcal.qt_from_Rt(A); ctx.close(ref.R_from_q(qt[:4]),A[:3],'qt_from_Rt',atol=1e-9); ctx.close(qt[4:],A[3],'qt_from_Rt/t',atol=0)
        Rt=mrcal.Rt_from_qt(np.concatenate((q,a[3:]))); ctx.close(Rt[:3],ref.R_from_q(q),'Rt_from_qt',atol=1e-12); ctx.close(Rt[3],a[3:],'Rt_from_qt/t',atol=0)
        if rep%7==0:
            S=np.stack([ref.Rt_from_T(ref.T_from_rt(gen.rt(rng))) for _ in range(6)]).reshape(2,3,4,3)
            qt=mrcal.qt_from_Rt(S)
            for i in range(2):
                for j in range(3):
                    ctx.close(mrcal.qt_from_Rt(S[i,j]),qt[i,j],'qt_from_Rt/stack',atol=1e-12)
            ctx.close(mrcal.Rt_from_qt(qt),S,'qt/roundtrip',atol=1e-9,rtol=0)
            o=np.zeros((2,3,7)); mrcal.qt_from_Rt(S,out=o); ctx.close(o,qt,'qt_from_Rt/out',atol=0)

def pos_strided(rng,shape,val=None):
    '''An array of this shape in a bigger buffer of canaries, with positive strides. Returns array, buffer'''
    k=rng.integers(4)
    nd=len(shape)
    perm=list(range(nd))
    if k>=2: perm=list(rng.permutation(nd))
    pads=[int(rng.integers(1,4)) if k in (1,3) else 1 for _ in shape]
    bshape=[shape[perm[i]]*pads[i]+(2 if k else 0) for i in range(nd)]
    buf=np.full(bshape,-1234.5)
    v=buf[tuple(slice(1 if k else 0,(1 if k else 0)+shape[perm[i]]*pads[i],pads[i]) for i in range(nd))]
    inv=np.argsort(perm); v=np.transpose(v,inv)
    assert v.shape==tuple(shape)
    if val is not None: v[...]=val
    return v,buf

def c_api(ctx):
    rng=ctx.rng
    F = dict(
      rotate_point_R=dict(outs=[(3,),(3,3,3),(3,3)],ins=['R','x'],nflags=1,alias=[(0,1)]),
      rotate_point_r=dict(outs=[(3,),(3,3),(3,3)],ins=['r','x'],nflags=1,alias=[(0,1),(0,0)]),
      transform_point_Rt=dict(outs=[(3,),(3,4,3),(3,3)],ins=['Rt','x'],nflags=1,alias=[(0,1),(0,0,'t')]),
      transform_point_rt=dict(outs=[(3,),(3,6),(3,3)],ins=['rt','x'],nflags=1,alias=[(0,1),(0,0,'t'),(0,0,'r')]),
      r_from_R=dict(outs=[(3,),(3,3,3)],ins=['R'],nflags=0,alias=[]),
      R_from_r=dict(outs=[(3,3),(3,3,3)],ins=['r'],nflags=0,alias=[]),
      invert_R=dict(outs=[(3,3)],ins=['R'],nflags=0,alias=[(0,0)]),
      rt_from_Rt=dict(outs=[(6,),(3,3,3)],ins=['Rt'],nflags=0,alias=[]),
      Rt_from_rt=dict(outs=[(4,3),(3,3,3)],ins=['rt'],nflags=0,alias=[]),
      invert_Rt=dict(outs=[(4,3)],ins=['Rt'],nflags=0,alias=[(0,0)]),
      invert_rt=dict(outs=[(6,),(3,3),(3,3)],ins=['rt'],nflags=0,alias=[(0,0)]),
      compose_Rt=dict(outs=[(4,3)],ins=['Rt','Rt'],nflags=2,alias=[(0,0),(0,1)]),
      compose_rt=dict(outs=[(6,)]+[(3,3)]*6,ins=['rt','rt'],nflags=2,alias=[(0,0),(0,1)]),
      compose_r=dict(outs=[(3,),(3,3),(3,3)],ins=['r','r'],nflags=2,alias=[(0,0),(0,1)]),
      compose_r_tinyr0_gradientr0=dict(outs=[(3,3)],ins=['r'],nflags=0,alias=[]),
      compose_r_tinyr1_gradientr1=dict(outs=[(3,3)],ins=['r'],nflags=0,alias=[]),
      identity_R=dict(outs=[(3,3)],ins=[],nflags=0,alias=[]),identity_r=dict(outs=[(3,)],ins=[],nflags=0,alias=[]),
      identity_Rt=dict(outs=[(4,3)],ins=[],nflags=0,alias=[]),identity_rt=dict(outs=[(6,)],ins=[],nflags=0,alias=[]))
    PY = {'rotate_point_R':lambda i,f: mrcal.rotate_point_R(*i,get_gradients=True,inverted=f[0]),
          'rotate_point_r':lambda i,f: mrcal.rotate_point_r(*i,get_gradients=True,inverted=f[0]),
          'transform_point_Rt':lambda i,f: mrcal.transform_point_Rt(*i,get_gradients=True,inverted=f[0]),
          'transform_point_rt':lambda i,f: mrcal.transform_point_rt(*i,get_gradients=True,inverted=f[0]),
          'r_from_R':lambda i,f: mrcal.r_from_R(*i,get_gradients=True),'R_from_r':lambda i,f: mrcal.R_from_r(*i,get_gradients=True),
          'invert_R':lambda i,f:(mrcal.invert_R(*i),),'rt_from_Rt':lambda i,f:mrcal.rt_from_Rt(*i,get_gradients=True),'Rt_from_rt':lambda i,f:mrcal.Rt_from_rt(*i,get_gradients=True),
          'invert_Rt':lambda i,f:(mrcal.invert_Rt(*i),),
          'invert_rt':lambda i,f:(lambda o,g:(o,g[3:,:3],g[3:,3:]))(*mrcal.invert_rt(*i,get_gradients=True)),
          'compose_Rt':lambda i,f:(mrcal.compose_Rt(*i,inverted0=f[0],inverted1=f[1]),),
          'compose_rt':lambda i,f:(lambda o,a,b:(o,a[:3,:3],b[:3,:3],a[3:,:3],b[3:,:3],a[3:,3:],b[3:,3:]))(*mrcal.compose_rt(*i,get_gradients=True,inverted0=f[0],inverted1=f[1])),
          'compose_r':lambda i,f:mrcal.compose_r(*i,get_gradients=True,inverted0=f[0],inverted1=f[1]),
          'compose_r_tinyr0_gradientr0':lambda i,f:(mrcal.compose_r_tinyr0_gradientr0(*i),),'compose_r_tinyr1_gradientr1':lambda i,f:(mrcal.compose_r_tinyr1_gradientr1(*i),),
          'identity_R':lambda i,f:(np.eye(3),),'identity_r':lambda i,f:(np.zeros(3),),'identity_Rt':lambda i,f:(np.eye(4,3)*(np.arange(4)<3)[:,None],),'identity_rt':lambda i,f:(np.zeros(6),)}
    def make(kind):
        rt=gen.rt(rng)
        return dict(r=rt[:3],rt=rt,R=ref.R_from_r(rt[:3]),Rt=ref.Rt_from_T(ref.T_from_rt(rt)),x=rng.normal(size=3))[kind].copy()
    for rep in range(ctx.n(60,800)):
        for fn,d in F.items():
            ins=[make(k) for k in d['ins']]; flags=[bool(rng.integers(2)) for _ in range(d['nflags'])]
            ctx.case('capi',key=(fn,rep),fn=fn,ins=ins,flags=flags)
            want=PY[fn](ins,flags)
            for mode in ('contiguous','strided')+tuple(d['alias']):
                # some optional outputs are left out
                sel=[True]+[bool(rng.integers(3)) for _ in d['outs'][1:]]
                zero = mode=='contiguous'
                arrs=[]; bufs=[]
                ii=[]
                for v in ins:
                    if zero: ii.append((np.array(v,order='C'),None))
                    else: ii.append(pos_strided(rng,v.shape,v))
                for n,sh in enumerate(d['outs']):
                    if not sel[n]: arrs.append(None); bufs.append(None); continue
                    if n==0 and isinstance(mode,tuple):
                        al=ii[mode[1]][0]
                        # in place into only a part of the input
                        if len(mode)==3: al = (al[3] if al.ndim==2 else al[3:]) if mode[2]=='t' else al[:3]
                        arrs.append(al); bufs.append(None); continue
                    if zero: a,b=np.full(sh,-7.),None
                    else: a,b=pos_strided(rng,sh,-7.)
                    arrs.append(a); bufs.append(b)
                capi.pose(fn,[(a,len(s)) for a,s in zip(arrs,d['outs'])]+[(a,a.ndim) for a,_ in ii],flags,zero)
                m = mode if isinstance(mode,str) else 'inplace'+''.join(str(_) for _ in mode[1:])
                for n,a in enumerate(arrs):
                    if a is None: continue
                    ctx.close(a,want[n],f'C/{fn}/{m}/out{n}',atol=1e-10,rtol=1e-10,flags=flags,ins=ins,sel=sel)
                    if bufs[n] is not None:
                        b=bufs[n]; tot=np.count_nonzero(b==-1234.5); ctx.ok(tot==b.size-a.size,f'C/{fn}/{m}/spill','wrote outside of the elements of the output array')
                for n,(a,b) in enumerate(ii):
                    if isinstance(mode,tuple) and mode[1]==n: continue
                    ctx.same(a,ins[n],f'C/{fn}/{m}/input-modified')
                if isinstance(mode,tuple): ctx.counts['inplace']=ctx.counts.get('inplace',0)+1
