'''Independent reference implementations, written from the documentation (and the
papers it cites), not from the code. Plain numpy, no mrcal'''
import numpy as np, re
from scipy.interpolate import BSpline

def config(lensmodel):
    m = re.fullmatch(r'LENSMODEL_SPLINED_STEREOGRAPHIC_order=(\d+)_Nx=(\d+)_Ny=(\d+)_fov_x_deg=(\d+)',lensmodel)
    if m: return dict(kind='SPLINED',order=int(m[1]),Nx=int(m[2]),Ny=int(m[3]),fov=int(m[4]))
    m = re.fullmatch(r'LENSMODEL_CAHVORE_linearity=(.*)',lensmodel)
    if m: return dict(kind='CAHVORE',linearity=float(m[1]))
    m = re.fullmatch(r'LENSMODEL_OPENCV(\d+)',lensmodel)
    if m: return dict(kind='OPENCV',n=int(m[1]))
    return dict(kind=lensmodel[len('LENSMODEL_'):])

def num_params(lensmodel):
    c = config(lensmodel)
    return 4 + dict(OPENCV=c.get('n'),CAHVOR=5,CAHVORE=8,SPLINED=2*c.get('Nx',0)*c.get('Ny',0)).get(c['kind'],0)

def u_stereographic(p):
    x,y,z = np.moveaxis(p,-1,0)
    th = np.arctan2(np.hypot(x,y),z)
    # xy/|xy| 2 tan(th/2); the limit at the optical axis
    m  = np.hypot(x,y)
    with np.errstate(all='ignore'):
        s = np.where(m>1e-150, 2*np.tan(th/2)/m, 1./np.where(z==0,1,z))
    return np.stack((x*s,y*s),axis=-1)

def spline_grid(c):
    margin = {2:1,3:2}[c['order']]
    edge = 2*np.tan(np.radians(c['fov']/2)/2)
    return (c['Nx']-1-margin)/(2*edge)   # segments per u

def spline_knots(c):
    s = spline_grid(c)
    return (np.arange(c['Nx'])-(c['Nx']-1)/2)/s, (np.arange(c['Ny'])-(c['Ny']-1)/2)/s

def bspline_eval(order, ix, N):
    '''Design matrix (len(ix),N): uniform B-spline basis centered at 0..N-1, extrapolated'''
    t = (np.arange(N+order+1) - (order+1)/2.)
    A = np.zeros(ix.shape+(N,))
    B = BSpline(t, np.eye(N), order, extrapolate=True)
    return B(ix)

def splined_deltau(u, lensmodel, intrinsics):
    c = config(lensmodel)
    s = spline_grid(c)
    ix = u[...,0]*s + (c['Nx']-1)/2
    iy = u[...,1]*s + (c['Ny']-1)/2
    cp = intrinsics[4:].reshape(c['Ny'],c['Nx'],2)
    Ax = bspline_eval(c['order'],ix,c['Nx'])
    Ay = bspline_eval(c['order'],iy,c['Ny'])
    return np.einsum('...i,...j,ijk->...k',Ay,Ax,cp)

def opencv_distort(P, k):
    k = np.concatenate((k,np.zeros(12)))[:12]
    x,y = P[...,0],P[...,1]
    r2 = x*x+y*y
    rad = (1+r2*(k[0]+r2*(k[1]+r2*k[4]))) / (1+r2*(k[5]+r2*(k[6]+r2*k[7])))
    dx = x*rad + 2*k[2]*x*y + k[3]*(r2+2*x*x) + k[8]*r2  + k[9]*r2*r2
    dy = y*rad + 2*k[3]*x*y + k[2]*(r2+2*y*y) + k[10]*r2 + k[11]*r2*r2
    return np.stack((dx,dy),axis=-1)

def axis_o(alpha,beta):
    return np.array((np.sin(alpha)*np.cos(beta),np.sin(beta),np.cos(alpha)*np.cos(beta)))

def cahvor_distort(p, d):
    o = axis_o(d[0],d[1])
    zeta = p @ o
    lam  = p - zeta[...,None]*o
    tau  = np.sum(lam*lam,axis=-1)/zeta**2
    mu   = d[2]+tau*(d[3]+tau*d[4])
    return p + mu[...,None]*lam

def cahvore_theta(zeta,l,e):
    f  = lambda th: zeta*np.sin(th)-l*np.cos(th)-(th-np.sin(th))*(e[0]+e[1]*th**2+e[2]*th**4)
    th = np.arctan2(l,zeta)
    ep = 1e-6
    for _ in range(60):
        th = th - f(th)/((f(th+ep)-f(th-ep))/(2*ep))
    return th, np.abs(f(th))

def cahvore_distort(p, d, L):
    o = axis_o(d[0],d[1])
    zeta = p @ o
    lam  = p - zeta[...,None]*o
    l    = np.linalg.norm(lam,axis=-1)
    th,_ = cahvore_theta(zeta,l,d[5:8])
    if   L>1e-15:  chi = np.tan(L*th)/L
    elif L<-1e-15: chi = np.sin(L*th)/L
    else:          chi = th
    mu   = d[2]+chi**2*(d[3]+chi**2*d[4])
    with np.errstate(all='ignore'):
        zetap = np.where(th>1e-7, l/chi, zeta)
    return zetap[...,None]*o + (1+mu)[...,None]*lam

def project(p, lensmodel, i):
    c = config(lensmodel); k=c['kind']
    f,cc = i[:2],i[2:4]
    x,y,z = np.moveaxis(p,-1,0)
    n = np.sqrt(x*x+y*y+z*z)
    with np.errstate(all='ignore'):
        if k=='PINHOLE':       u = p[...,:2]/p[...,2:]
        elif k=='STEREOGRAPHIC': u = u_stereographic(p)
        elif k=='LONLAT':      u = np.stack((np.arctan2(x,z), np.arcsin(y/n)),axis=-1)
        elif k=='LATLON':      u = np.stack((np.arcsin(x/n), np.arctan2(y,z)),axis=-1)
        elif k=='OPENCV':      u = opencv_distort(p[...,:2]/p[...,2:],i[4:])
        elif k=='CAHVOR':
            d = cahvor_distort(p,i[4:]);  u = d[...,:2]/d[...,2:]
        elif k=='CAHVORE':
            d = cahvore_distort(p,i[4:],c['linearity']);  u = d[...,:2]/d[...,2:]
        elif k=='SPLINED':
            u = u_stereographic(p); u = u + splined_deltau(u,lensmodel,i)
        else: raise Exception(k)
    return u*f+cc

# ---- rigid motions
def skew(w):
    return np.array(((0,-w[2],w[1]),(w[2],0,-w[0]),(-w[1],w[0],0)))
def R_from_r(r):
    '''matrix exponential, by the series if needed'''
    r = np.asarray(r,dtype=np.longdouble); th2 = r@r
    K = skew(r).astype(np.longdouble)
    th = np.sqrt(th2)
    if th<1e-4: a,b = 1-th2/6+th2*th2/120, .5-th2/24+th2*th2/720
    else:       a,b = np.sin(th)/th, 2*np.sin(th/2)**2/th2
    return (np.eye(3,dtype=np.longdouble)+a*K+b*(K@K)).astype(float)
def T_from_rt(rt):
    T = np.eye(4); T[:3,:3]=R_from_r(rt[:3]); T[:3,3]=rt[3:]; return T
def T_from_Rt(Rt):
    T = np.eye(4); T[:3,:3]=Rt[:3]; T[:3,3]=Rt[3]; return T
def Rt_from_T(T): return np.vstack((T[:3,:3],T[:3,3]))
def inv_T(T):
    R = T[:3,:3].T; o=np.eye(4); o[:3,:3]=R; o[:3,3]=-R@T[:3,3]; return o
def R_from_q(q):
    u,x,y,z = q/np.linalg.norm(q)
    return np.array(((1-2*(y*y+z*z),2*(x*y-u*z),2*(x*z+u*y)),(2*(x*y+u*z),1-2*(x*x+z*z),2*(y*z-u*x)),(2*(x*z-u*y),2*(y*z+u*x),1-2*(x*x+y*y))))

# ---- numerical differentiation
def numgrad(f, x, h, order=6):
    '''d f / d x, f: R^n -> array; x: (n,), h: (n,) or scalar steps. Central differences'''
    C = {2:((1,.5),), 4:((1,2/3),(2,-1/12)), 6:((1,3/4),(2,-3/20),(3,1/60)), 8:((1,4/5),(2,-1/5),(3,4/105),(4,-1/280))}[order]
    x = np.asarray(x,dtype=float); h = np.broadcast_to(h,x.shape)
    out = []
    for i in range(x.size):
        g = 0
        for k,w in C:
            a = x.copy(); a[i]+=k*h[i]; b=x.copy(); b[i]-=k*h[i]
            g = g + w*(np.asarray(f(a))-np.asarray(f(b)))
        out.append(g/h[i])
    return np.stack(out,axis=-1)
