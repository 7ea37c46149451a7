'''Workload generators: lens models, intrinsics, points, poses, calibration problems'''
import numpy as np
import ref

SIMPLE = ('LENSMODEL_PINHOLE','LENSMODEL_STEREOGRAPHIC','LENSMODEL_LONLAT','LENSMODEL_LATLON')
OPENCV = ('LENSMODEL_OPENCV4','LENSMODEL_OPENCV5','LENSMODEL_OPENCV8','LENSMODEL_OPENCV12')

def lensmodels(rng, nspline=2, ncahvore=2):
    '''Every family; the configurable ones with random and with special configurations'''
    l = list(SIMPLE+OPENCV)+['LENSMODEL_CAHVOR']
    lin = [0.,1.,0.37,-0.4,-1.]
    l += [f'LENSMODEL_CAHVORE_linearity={x:.2f}' for x in lin[:ncahvore] ]
    l += [f'LENSMODEL_CAHVORE_linearity={rng.uniform(-1,1):.2f}' for _ in range(ncahvore)]
    for o in (2,3):
        for _ in range(nspline):
            l.append(splined(rng,o))
    return l

def splined(rng, order=None, maxn=14):
    if order is None: order = int(rng.choice((2,3)))
    Nx = int(rng.integers(order+1,maxn)); Ny=int(rng.integers(order+1,maxn))
    return f'LENSMODEL_SPLINED_STEREOGRAPHIC_order={order}_Nx={Nx}_Ny={Ny}_fov_x_deg={int(rng.integers(40,220))}'

def family(lensmodel):
    k = ref.config(lensmodel)['kind']
    if k=='OPENCV': return lensmodel[len('LENSMODEL_'):]
    if k=='SPLINED': return f"SPLINED{ref.config(lensmodel)['order']}"
    return k

def intrinsics(rng, lensmodel, strength=1., imagersize=(4000,3000), central=False):
    '''Random intrinsics, with every parameter having a visible effect'''
    c = ref.config(lensmodel); k=c['kind']
    W,H = imagersize
    f = W*rng.uniform(.3,.9); fx = f*rng.uniform(.9,1.1)
    if k in ('LONLAT','LATLON'): f*=.5; fx*=.5
    core = np.array((fx,f,(W-1)/2*rng.uniform(.9,1.1),(H-1)/2*rng.uniform(.9,1.1)))
    if   k=='OPENCV':
        # k0 k1 p1 p2 k2 | k3 k4 k5 | thin prism
        s = np.array((.05,.02,.003,.003,.004,.04,.015,.003,.004,.002,.004,.002))[:c['n']]
        d = rng.uniform(-1,1,c['n'])*s*strength
    elif k=='CAHVOR':
        d = rng.uniform(-1,1,5)*np.array((.1,.1,.08,.05,.02))*strength
    elif k=='CAHVORE':
        d = rng.uniform(-1,1,8)*np.array((.1,.1,.08,.05,.02,.03,.02,.01))*strength
        if central: d[5:]=0
    elif k=='SPLINED':
        d = rng.uniform(-1,1,2*c['Nx']*c['Ny'])*.08*strength
    else: d = np.zeros(0)
    return np.concatenate((core,d))

def max_theta(lensmodel, intr=None):
    '''How far off-axis this model can be expected to behave, in radians'''
    k = ref.config(lensmodel)['kind']
    if k in ('PINHOLE',): return 1.4
    if k=='OPENCV': return .75
    if k=='CAHVOR': return .8
    if k=='CAHVORE': return .9
    if k=='STEREOGRAPHIC': return 3.0
    if k in ('LONLAT','LATLON'): return 3.1
    if k=='SPLINED': return 2.6

def points(rng, lensmodel, n, theta=None, near_axis=.1, range_=(.1,100)):
    '''n points, spread over the angles the model supports; some near the axis'''
    tm = theta if theta is not None else max_theta(lensmodel)
    th = tm*np.sqrt(rng.uniform(0,1,n))
    na = rng.uniform(0,1,n)<near_axis
    th[na] = 10**rng.uniform(-7,-2,na.sum())
    ph = rng.uniform(-np.pi,np.pi,n)
    r  = np.exp(rng.uniform(np.log(range_[0]),np.log(range_[1]),n))
    p = np.stack((np.sin(th)*np.cos(ph),np.sin(th)*np.sin(ph),np.cos(th)),axis=-1)*r[:,None]
    k = ref.config(lensmodel)['kind']
    if k in ('LONLAT','LATLON'):
        # stay away from the poles
        ip = 1 if k=='LONLAT' else 0
        bad = np.abs(p[:,ip])/r > .98
        p[bad,ip] *= .5
    return p

def r(rng, kind=None):
    '''Rodrigues vector; kind selects the special regimes'''
    if kind is None: kind = rng.choice(('any','any','small','tiny','zero','pi-','axis','big','pi'))
    ax = rng.normal(size=3); ax/=np.linalg.norm(ax)
    if kind=='any':   return ax*rng.uniform(0,np.pi)
    if kind=='small': return ax*10**rng.uniform(-4,-1)
    if kind=='tiny':  return ax*10**rng.uniform(-12,-4)
    if kind=='zero':  return np.zeros(3)
    if kind=='pi-':   return ax*(np.pi-10**rng.uniform(-6,-1))
    if kind=='pi':    return ax*np.pi
    if kind=='big':   return ax*rng.uniform(np.pi,2*np.pi-.05)
    if kind=='axis':
        e = np.zeros(3); e[rng.integers(3)] = rng.choice((-1,1)); return e*rng.choice((np.pi/2,rng.uniform(0,3.1)))
    raise Exception(kind)

def rt(rng, kind=None, tscale=1.):
    return np.concatenate((r(rng,kind),rng.normal(size=3)*tscale))

def small_pose(rng, rot=.1, trans=.5):
    return np.concatenate((rng.uniform(-rot,rot,3),rng.uniform(-trans,trans,3)))

def strided(rng, a):
    '''The same numbers as a, in some awkward memory layout. Same dtype'''
    a = np.asarray(a)
    kind = rng.integers(5)
    if kind==0 or a.ndim==0: return np.array(a)
    if kind==1:  # embedded in a bigger array along the last axis
        b = np.full(a.shape[:-1]+(a.shape[-1]*2+3,),-77,dtype=a.dtype); v=b[...,1:1+2*a.shape[-1]:2]; v[...]=a; return v
    if kind==2:  # transposed
        b = np.array(np.transpose(a),order='C'); return np.transpose(b)
    if kind==3:  # negative strides
        ax = int(rng.integers(a.ndim)); b = np.array(np.flip(a,ax)); return np.flip(b,ax)
    if kind==4:  # first axis padded
        b = np.full((a.shape[0]*3+1,)+a.shape[1:],-78,dtype=a.dtype); v=b[1:1+3*a.shape[0]:3]; v[...]=a; return v
