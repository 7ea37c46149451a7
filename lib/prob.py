'''Optimization problems: generation, and an independent reference of the state
layout, the measurement layout and the measurements, written from the
documentation of the formulation'''
import numpy as np
import ref, gen

# ---------------------------------------------------------------- generation
def make(rng, lensmodel='LENSMODEL_OPENCV4', Ncam=2, Nframes=3, WH=(5,4), Npoints=0, Npoints_fixed=0, Ntri=0,
         cameras='cam0-ref', noise=0.3, outliers=.1, spacing=.1, warp=True, strength=.5, imagersize=(4000,3000),
         select=None, outlier_kind='mixed', jitter=.01, visible=.85, central=False, obs_per_point=2, intr_same=False):
    '''A calibration problem, at some state near the truth.

    cameras: 'cam0-ref': camera 0 at the reference; 'all': every camera has extrinsics;
             'moving': one camera, in Ncam poses; 'mixed': arbitrary pairing
    '''
    W,H = WH
    imagersizes = []
    if cameras=='moving': Ni,Ne = 1,Ncam-1
    elif cameras=='all':  Ni,Ne = Ncam,Ncam
    elif cameras=='mixed':Ni,Ne = max(1,Ncam//2),Ncam-1
    else:                 Ni,Ne = Ncam,Ncam-1
    def icam(i):
        '''the i-th camera pose -> (icam_intrinsics, icam_extrinsics)'''
        if cameras=='moving': return 0,i-1
        if cameras=='all':    return i,i
        if cameras=='mixed':  return min(i*Ni//Ncam,Ni-1),i-1
        return i,i-1
    sz = [tuple(int(x*rng.uniform(.8,1.2)) for x in imagersize) for _ in range(Ni)]
    intr = np.array([gen.intrinsics(rng,lensmodel,strength=strength,imagersize=s,central=central) for s in sz]).reshape(Ni,-1)
    k = ref.config(lensmodel)['kind']
    if k=='SPLINED': intr[:,4:] *= .1
    rt_cr = np.array([np.concatenate((rng.uniform(-.1,.1,3),rng.uniform(-.3,.3,3))) for _ in range(Ne)]).reshape(Ne,6)
    bw = max(W,H)*spacing
    rt_rf = np.array([np.concatenate((rng.uniform(-.4,.4,3),
                                      np.array((-(W-1)/2*spacing,-(H-1)/2*spacing,0))+np.array((rng.uniform(-.5,.5)*bw,rng.uniform(-.5,.5)*bw,rng.uniform(1.5,3.)*bw+.8))))
                      for _ in range(Nframes)]).reshape(Nframes,6)
    # rotate each board about its own center
    for f in rt_rf:
        c = np.array(((W-1)/2*spacing,(H-1)/2*spacing,0)); f[3:] += c - ref.R_from_r(f[:3])@c
    z = rng.uniform(3,10,Npoints)
    pts = np.stack((rng.uniform(-.4,.4,Npoints)*z,rng.uniform(-.3,.3,Npoints)*z,z),axis=-1)
    cw = rng.uniform(-.01,.01,2) if warp else None
    def proj(p,ii,ie):
        pc = p if ie<0 else p@ref.R_from_r(rt_cr[ie,:3]).T + rt_cr[ie,3:]
        return ref.project(pc,lensmodel,intr[ii])
    def weights(shape):
        w = rng.choice((1.,.5,.25,.73),shape)
        o = rng.uniform(size=shape)<outliers
        if outlier_kind=='mixed': w[o] *= -1
        elif outlier_kind=='minus1': w[o] = -1
        return w
    idx,obs = [],[]
    for f in range(Nframes):
        cams = [i for i in range(Ncam) if rng.uniform()<visible] or [int(rng.integers(Ncam))]
        for i in cams:
            ii,ie = icam(i)
            idx.append((f,ii,ie))
            p = board(W,H,spacing,cw)@ref.R_from_r(rt_rf[f,:3]).T+rt_rf[f,3:]
            q = proj(p,ii,ie)+rng.normal(size=(H,W,2))*noise
            obs.append(np.concatenate((q,weights((H,W))[...,None]),axis=-1))
    idx = np.array(idx,dtype=np.int32).reshape(-1,3); obs=np.array(obs).reshape(-1,H,W,3)
    # frames are ordered, and so are the cameras in each frame
    idp,obp = [],[]
    seen = -1
    order = []
    for j in range(Npoints):
        n = min(Ncam,obs_per_point)
        for i in sorted(rng.choice(Ncam,n,replace=False)): order.append((j,int(i)))
    # the point order needn't be monotonic, as long as new points appear in order
    if Npoints>2 and rng.uniform()<.5:
        e = [order.pop() ] ; order.append((0,e[0][1])) if False else order.extend(e)
        order.append((int(rng.integers(Npoints-1)),int(rng.integers(Ncam))))
    for j,i in order:
        ii,ie = icam(i); idp.append((j,ii,ie))
        obp.append(np.concatenate((proj(pts[j],ii,ie)+rng.normal(size=2)*noise,weights((1,)))))
    idp = np.array(idp,dtype=np.int32).reshape(-1,3); obp=np.array(obp).reshape(-1,3)
    idt,obt = [],[]
    for j in range(Ntri):
        zz = rng.uniform(3,10); p = np.array((rng.uniform(-.3,.3)*zz,rng.uniform(-.25,.25)*zz,zz))
        for i in sorted(rng.choice(Ncam,int(rng.integers(2,Ncam+1)),replace=False)):
            ii,ie = icam(int(i)); idt.append((j,ii,ie)); obt.append(np.concatenate((proj(p,ii,ie)+rng.normal(size=2)*noise,weights((1,)))))
    # start near, not at, the truth
    rt_cr = rt_cr + rng.normal(size=rt_cr.shape)*jitter*.1
    rt_rf = rt_rf + rng.normal(size=rt_rf.shape)*jitter
    ptsj  = pts + rng.normal(size=pts.shape)*jitter
    if Npoints_fixed: ptsj[-Npoints_fixed:] = pts[-Npoints_fixed:]
    oi = dict(lensmodel=lensmodel, intrinsics=intr*1., imagersizes=np.array(sz,dtype=np.int32).reshape(Ni,2),
              rt_cam_ref=rt_cr, rt_ref_frame=rt_rf if Nframes else None, points=ptsj if Npoints else None,
              observations_board=obs if len(obs) else None, indices_frame_camintrinsics_camextrinsics=idx if len(obs) else None,
              observations_point=obp if len(obp) else None, indices_point_camintrinsics_camextrinsics=idp if len(obp) else None,
              calobject_warp=cw, Npoints_fixed=Npoints_fixed, calibration_object_spacing=spacing, verbose=False)
    if Ntri:
        oi['observations_point_triangulated']=np.array(obt)
        oi['indices_point_triangulated_camintrinsics_camextrinsics']=np.array(idt,dtype=np.int32)
    oi.update(select or selections(rng,oi))
    return oi

SEL = ('do_optimize_intrinsics_core','do_optimize_intrinsics_distortions','do_optimize_extrinsics','do_optimize_frames','do_optimize_calobject_warp')
def selections(rng, oi, p=.7):
    s = {k:bool(rng.uniform()<p) for k in SEL}
    s['do_apply_regularization'] = bool(rng.uniform()<.7)
    s['do_apply_regularization_unity_cam01'] = bool(rng.uniform()<.3)
    if oi.get('observations_point_triangulated') is not None:
        s.update(do_optimize_intrinsics_core=False,do_optimize_intrinsics_distortions=False,do_optimize_extrinsics=True)
    if oi.get('calobject_warp') is None: s['do_optimize_calobject_warp']=False
    if not any(s[k] for k in SEL): s['do_optimize_extrinsics']=True
    return s
ALL = {k:True for k in SEL}

def board(W,H,spacing,warp):
    x,y = np.meshgrid(np.arange(W)*1.,np.arange(H)*1.)
    b = np.zeros((H,W,3)); b[...,0]=x*spacing; b[...,1]=y*spacing
    if warp is not None:
        xr = x/(W-1)*2-1; yr = y/(H-1)*2-1
        b[...,2] = (1-xr*xr)*warp[0] + (1-yr*yr)*warp[1]
    return b

# ---------------------------------------------------------------- reference
class Ref:
    def __init__(s, oi):
        s.oi = oi
        n = lambda k: 0 if oi.get(k) is None else len(oi[k])
        s.lm = oi['lensmodel']; s.c = ref.config(s.lm)
        s.Ni,s.Ne = n('intrinsics'),n('rt_cam_ref')
        s.Nf,s.Np = n('rt_ref_frame'),n('points')
        s.Nb,s.No = n('observations_board'),n('observations_point')
        s.Nt = n('observations_point_triangulated')
        s.Nfixed = oi.get('Npoints_fixed',0)
        default = dict(do_optimize_intrinsics_core=s.Ni>0,do_optimize_intrinsics_distortions=s.Ni>0,do_optimize_extrinsics=s.Ne>0,
                       do_optimize_frames=s.Nf>0,do_optimize_calobject_warp=s.Nb>0,do_apply_regularization=True,do_apply_regularization_unity_cam01=False)
        s.sel = {k:(bool(oi[k]) if oi.get(k) is not None else d) for k,d in default.items()}
        s.Nparam = ref.num_params(s.lm)
        # ---- state: list of (name, index, length, scales)
        s.blocks = []; i=0
        def add(name,j,scales):
            nonlocal i
            s.blocks.append((name,j,i,np.array(scales,dtype=float))); i+=len(scales)
        if s.sel['do_optimize_intrinsics_core'] or s.sel['do_optimize_intrinsics_distortions']:
            sc = ([500,500,20,20] if s.sel['do_optimize_intrinsics_core'] else []) + ([1.]*(s.Nparam-4) if s.sel['do_optimize_intrinsics_distortions'] else [])
            for j in range(s.Ni):
                if sc: add('intrinsics',j,sc)
        d=np.pi/180
        if s.sel['do_optimize_extrinsics']:
            for j in range(s.Ne): add('extrinsics',j,[.1*d]*3+[1]*3)
        if s.sel['do_optimize_frames']:
            for j in range(s.Nf): add('frames',j,[15*d]*3+[1]*3)
            for j in range(s.Np-s.Nfixed): add('points',j,[1]*3)
        if s.sel['do_optimize_calobject_warp'] and s.Nb: add('calobject_warp',0,[.01]*2)
        s.Nstate = i
        s.scale = np.concatenate([b[3] for b in s.blocks]) if s.blocks else np.zeros(0)
        # ---- measurements
        if s.Nb: s.H,s.W = oi['observations_board'].shape[1:3]
        s.m_board = 2*s.Nb*(s.H*s.W) if s.Nb else 0
        s.m_point = 2*s.No
        s.pairs=[]
        if s.Nt:
            j = oi['indices_point_triangulated_camintrinsics_camextrinsics'][:,0]
            s.pairs = [(a,b) for a in range(s.Nt) for b in range(a+1,s.Nt) if j[a]==j[b]]
        s.m_tri = len(s.pairs)
        s.m_reg = 0
        if s.sel['do_apply_regularization']:
            if s.sel['do_optimize_intrinsics_distortions']: s.m_reg += s.Ni*(s.Nparam-4)
            if s.sel['do_optimize_intrinsics_core']:        s.m_reg += s.Ni*2
        if s.sel['do_apply_regularization_unity_cam01'] and s.sel['do_optimize_extrinsics'] and s.Ne>0: s.m_reg += 1
        s.m = s.m_board+s.m_point+s.m_tri+s.m_reg
    def index(s,name,j):
        for n,k,i,sc in s.blocks:
            if n==name and k==j: return i
        return None
    def count(s,name): return sum(len(b[3]) for b in s.blocks if b[0]==name)
    def pack(s):
        '''The state in oi, in full units'''
        b = np.zeros(s.Nstate)
        for n,k,i,sc in s.blocks:
            b[i:i+len(sc)] = s._get(n,k)
        return b
    def _slice(s,n):
        if n=='intrinsics':
            return slice(0 if s.sel['do_optimize_intrinsics_core'] else 4, s.Nparam if s.sel['do_optimize_intrinsics_distortions'] else 4)
        return slice(None)
    KEY = dict(intrinsics='intrinsics',extrinsics='rt_cam_ref',frames='rt_ref_frame',points='points')
    def _get(s,n,k):
        if n=='calobject_warp': return s.oi['calobject_warp']
        return s.oi[s.KEY[n]][k][s._slice(n)]
    def with_state(s,b):
        '''A copy of oi, with the given full-units state'''
        o = dict(s.oi)
        for k in ('intrinsics','rt_cam_ref','rt_ref_frame','points','calobject_warp'):
            if o.get(k) is not None: o[k] = np.array(o[k])
        for n,k,i,sc in s.blocks:
            v = b[i:i+len(sc)]
            if n=='calobject_warp': o['calobject_warp'][:] = v
            else: o[s.KEY[n]][k][s._slice(n)] = v
        return o
    def measure(s,o=None):
        '''x, from the definitions'''
        if o is None: o = s.oi
        out = []
        intr,rc,rf,pts = o['intrinsics'],o['rt_cam_ref'],o['rt_ref_frame'],o['points']
        Rc = [ref.R_from_r(t[:3]) for t in rc] if rc is not None else []
        def cam(p,ie): return p if ie<0 else p@Rc[ie].T + rc[ie,3:]
        if s.Nb:
            bd = board(s.W,s.H,o['calibration_object_spacing'],o.get('calobject_warp'))
            Rf = [ref.R_from_r(t[:3]) for t in rf]
            for (f,ii,ie),ob in zip(o['indices_frame_camintrinsics_camextrinsics'],o['observations_board']):
                q = ref.project(cam(bd@Rf[f].T+rf[f,3:],ie),s.lm,intr[ii])
                w = ob[...,2:]
                out.append(np.where(w<0,0,(q-ob[...,:2])*w).ravel())
        if s.No:
            for (j,ii,ie),ob in zip(o['indices_point_camintrinsics_camextrinsics'],o['observations_point']):
                q = ref.project(cam(pts[j],ie),s.lm,intr[ii])
                out.append((q-ob[:2])*ob[2] if ob[2]>0 else np.zeros(2))
        if s.Nt:
            idx,ob = o['indices_point_triangulated_camintrinsics_camextrinsics'],o['observations_point_triangulated']
            if not hasattr(s,'vtri'): s.vtri=None
            v = s.vtri
            for a,b in s.pairs:
                if ob[a,2]<=0 or ob[b,2]<=0: out.append(np.zeros(1)); continue
                Ta,Tb = [np.eye(4) if idx[k,2]<0 else ref.T_from_rt(rc[idx[k,2]]) for k in (a,b)]
                Tba = Tb@ref.inv_T(Ta)
                out.append(np.array([tri_error(v[b],Tba[:3,:3]@v[a],Tba[:3,3])]))
        if s.m_reg: out.append(s.regularization(o))
        return np.concatenate(out) if out else np.zeros(0)
    def regularization(s,o):
        l=[]
        intr = o['intrinsics']
        if s.sel['do_apply_regularization']:
            if s.sel['do_optimize_intrinsics_distortions']:
                for i in intr:
                    d = i[4:]
                    if s.c['kind']=='SPLINED':
                        Nx,Ny = s.c['Nx'],s.c['Ny']
                        dd = d.reshape(Ny,Nx,2)
                        for iy in range(Ny):
                            for ix in range(Nx):
                                u = np.array((2*ix-Nx+1,2*iy-Ny+1),dtype=float); n=np.linalg.norm(u)
                                if n>0: u/=n; kt=10
                                else: u=np.array((1.,0)); kt=1
                                dx,dy = dd[iy,ix]
                                l += [.01*(dx*u[0]+dy*u[1]), .01*kt*(dx*u[1]-dy*u[0])]
                    else:
                        for j,x in enumerate(d):
                            k = .1
                            if s.c['kind']=='OPENCV' and s.c['n']>=8 and 5<=j<8: k*=5
                            l.append(k*x)
            if s.sel['do_optimize_intrinsics_core']:
                for j,i in enumerate(intr):
                    W,H = o['imagersizes'][j]
                    sc = .1/(o['imagersizes'][0][0]*.1)
                    l += [sc*(i[2]-(W-1)/2.), sc*(i[3]-(H-1)/2.)]
        if s.sel['do_apply_regularization_unity_cam01'] and s.sel['do_optimize_extrinsics'] and s.Ne>0:
            t = o['rt_cam_ref'][0,3:]
            l.append(10*(t@t-1))
        return np.array(l)

def tri_error(v0,v1,t01):
    '''Twice the angle between a ray and the Lee-Civera mid2 midpoint'''
    pn = np.linalg.norm(np.cross(v0,v1))
    l0 = np.linalg.norm(np.cross(v1,t01))/pn; l1 = np.linalg.norm(np.cross(v0,t01))/pn
    m = (v0*l0+t01+v1*l1)/2
    c = abs(v0@m)/np.linalg.norm(v0)/np.linalg.norm(m)
    th = np.sqrt(max(0,2*(1-c)))
    # more accurately
    s = np.linalg.norm(np.cross(v0/np.linalg.norm(v0),m/np.linalg.norm(m)))
    th = 2*np.sin(np.arctan2(s,c)/2)
    return 2*th
def tri_convergent(v0,v1,t01):
    pn = np.linalg.norm(np.cross(v0,v1))
    l0 = np.linalg.norm(np.cross(v1,t01))/pn; l1 = np.linalg.norm(np.cross(v0,t01))/pn
    f = lambda a,b: np.linalg.norm(t01+b*v1-a*v0)
    return f(l0,l1)<min(f(-l0,l1),f(l0,-l1),f(-l0,-l1))
