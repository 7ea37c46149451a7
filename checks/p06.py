'''State and measurement layouts; packing'''
import numpy as np
TITLE = 'state and measurement layouts'
RULE  = ('An execution is one generated optimization problem (counts, incl. 0, x lens model x selections, explicit or defaulted x boards/points/fixed/triangulated) whose '
         'layout queries, pack_state/unpack_state, ingest_packed_state and optimizer_callback() outputs are compared to each other and to an independent layout. '
         'Non-trivial: distinct problem, Nstate>0.')
ASSUMPTIONS = []
MIN_EVALUATIONS = 300
FLOORS = {'perturbed blocks':400,'out of range':1000,'ingest':100,'explicit':200,'corresponding':40,'decode':40}

def jobs(tier,seed):
    return [dict(name=f'random{k}',k=k) for k in range(6)] + [dict(name='explicit'),dict(name='cameras')]

def run(ctx,job):
    global mrcal,ref,gen,prob
    import mrcal,ref,gen,prob
    if job['name']=='explicit': return explicit(ctx)
    if job['name']=='cameras':  return cameras(ctx)
    rng = ctx.rng
    for rep in range(ctx.n(30,250)):
        for n,lm in enumerate(models(rng)):
            if (n+rep)%6 != job['k']: continue
            one(ctx,problem(rng,lm),(lm,rep,job['k']))

def models(rng):
    return gen.lensmodels(rng,nspline=2,ncahvore=1) + [gen.splined(rng,o,maxn=8) for o in (2,3)]

def problem(rng,lm):
    Ncam = int(rng.integers(1,5)); Nf=int(rng.integers(0,4)); Np=int(rng.integers(0,6)) if Nf else int(rng.integers(1,6))
    Nt = int(rng.integers(1,4)) if Ncam>1 and rng.uniform()<.2 else 0
    if Nt and ref.config(lm)['kind'] in ('CAHVORE',): Nt=0
    oi = prob.make(rng,lensmodel=lm,Ncam=Ncam,Nframes=Nf,WH=(int(rng.integers(2,6)),int(rng.integers(2,6))),
                   Npoints=Np,Npoints_fixed=int(rng.integers(0,Np+1)) if rng.uniform()<.6 else 0,Ntri=Nt,
                   cameras=str(rng.choice(('cam0-ref','all') if Nt else ('cam0-ref','all','moving','mixed'))),outliers=.1,warp=bool(rng.uniform()<.8),strength=.3,
                   obs_per_point=int(rng.integers(1,4)))
    # defaulted selections
    if rng.uniform()<.3:
        for k in prob.SEL:
            if rng.uniform()<.5 and not(k.startswith('do_optimize_intrinsics') and Nt): oi.pop(k)
        if oi['calobject_warp'] is None: oi['do_optimize_calobject_warp']=False
        if not Nf: oi['do_optimize_frames']=bool(rng.uniform()<.8)   # the default depends on which function is asked
    return oi

QS = ('intrinsics','extrinsics','frames','points','calobject_warp')

def one(ctx,oi,key):
    rng = ctx.rng
    R = prob.Ref(oi)
    ctx.case('problem',key=key,nontrivial=R.Nstate>0,lensmodel=R.lm,Nstate=R.Nstate,m=R.m,counts=(R.Ni,R.Ne,R.Nf,R.Np,R.Nfixed,R.Nb,R.No,R.Nt),sel=R.sel,oi=oi)
    D = dict(oi=oi)
    # ---- the state layout
    ctx.ok(mrcal.num_states(**oi)==R.Nstate,'num_states',f'{mrcal.num_states(**oi)} vs {R.Nstate}',**D)
    Nopt = (4 if R.sel['do_optimize_intrinsics_core'] else 0)+(R.Nparam-4 if R.sel['do_optimize_intrinsics_distortions'] else 0)
    if R.Ni: ctx.ok(mrcal.num_intrinsics_optimization_params(**oi)==Nopt,'num_intrinsics_optimization_params',f'{mrcal.num_intrinsics_optimization_params(**oi)} vs {Nopt}',**D)
    tot=0
    N = dict(intrinsics=R.Ni,extrinsics=R.Ne,frames=R.Nf,points=R.Np)
    for q in QS:
        n = getattr(mrcal,'num_states_'+q)(**oi); tot += n
        ctx.ok(n==R.count(q),f'num_states_{q}',f'{n} vs {R.count(q)}',**D)
        f = getattr(mrcal,'state_index_'+q)
        if q=='calobject_warp':
            ctx.ok(f(**oi)==R.index(q,0),f'state_index_{q}',f'{f(**oi)} vs {R.index(q,0)}',**D); continue
        for j in list(range(-3,N[q]+4)) + [-(1<<31),(1<<31)-1,100000]:
            got = f(j,**oi)
            ctx.ok(got==R.index(q,j),f'state_index_{q}',f'{q} {j}: {got} vs {R.index(q,j)}',**D)
            if not 0<=j<N[q]: ctx.counts['out of range']=ctx.counts.get('out of range',0)+1
    ctx.ok(tot==R.Nstate,'states-tile',f'the blocks have {tot} variables; there are {R.Nstate}',**D)
    # ---- the measurement layout
    got = (mrcal.num_measurements_boards(**oi),mrcal.num_measurements_points(**oi),mrcal.num_measurements_points_triangulated(**oi),mrcal.num_measurements_regularization(**oi),mrcal.num_measurements(**oi))
    want= (R.m_board,R.m_point,R.m_tri,R.m_reg,R.m)
    ctx.ok(got==want,'num_measurements',f'boards,points,triangulated,regularization,all: {got} vs {want}',**D)
    for i in range(R.Nb): ctx.ok(mrcal.measurement_index_boards(i,**oi)==2*R.H*R.W*i,'measurement_index_boards','',i=i,**D)
    for i in range(R.No): ctx.ok(mrcal.measurement_index_points(i,**oi)==R.m_board+2*i,'measurement_index_points','',i=i,**D)
    if not R.Nb: ctx.ok(mrcal.measurement_index_boards(0,**oi) is None,'measurement_index_boards/none','no boards',**D)
    if not R.No: ctx.ok(mrcal.measurement_index_points(0,**oi) is None,'measurement_index_points/none','no points',**D)
    if R.Nt:
        j = oi['indices_point_triangulated_camintrinsics_camextrinsics'][:,0]
        for k in range(j.max()+1):
            i0 = R.m_board+R.m_point+sum(1 for a,b in R.pairs if j[a]<k)
            ctx.ok(mrcal.measurement_index_points_triangulated(k,**oi)==i0,'measurement_index_points_triangulated',f'{k}: {mrcal.measurement_index_points_triangulated(k,**oi)} vs {i0}',**D)
        # decoding enumerates the pairs, in order
        for k,(a,b) in enumerate(R.pairs):
            d = mrcal.decode_observation_indices_points_triangulated(k,**oi)
            ctx.counts['decode']=ctx.counts.get('decode',0)+1
            n = int((j==j[a]).sum())
            w = dict(iobservation0=a,iobservation1=b,iobservation_point0=int(np.nonzero(j==j[a])[0][0]),Nobservations_this_point=n,Nmeasurements_this_point=n*(n-1)//2,ipoint=int(j[a]))
            ctx.ok(d==w,'decode_triangulated',f'measurement {k}: {d} vs {w}',**D)
        ctx.raises(lambda: mrcal.decode_observation_indices_points_triangulated(len(R.pairs),**oi),'decode_triangulated/range','past the end')
    else:
        ctx.ok(mrcal.measurement_index_points_triangulated(0,**oi) is None,'measurement_index_points_triangulated/none','',**D)
    ir = mrcal.measurement_index_regularization(**oi)
    ctx.ok(ir==(R.m-R.m_reg if R.m_reg else None),'measurement_index_regularization',f'{ir} vs {R.m-R.m_reg if R.m_reg else None}',**D)
    # ---- pack/unpack
    if R.Nstate==0: return
    s = np.ones(R.Nstate); mrcal.unpack_state(s,**oi)
    ctx.ok((s>0).all() and np.isfinite(s).all(),'scales','not all positive',s=s,**D)
    p1 = np.ones(R.Nstate); mrcal.pack_state(p1,**oi)
    ctx.close(p1*s,np.ones(R.Nstate),'pack/inverse-scales',atol=1e-14,rtol=0,**D)
    # one scale for each kind of variable
    for n,k,i,sc in R.blocks:
        b0 = next(b for b in R.blocks if b[0]==n)
        ctx.same(s[i:i+len(sc)],s[b0[2]:b0[2]+len(sc)],f'scales/{n}','the scale depends on which object this is',**D)
    for shape in ((),(1,),(3,),(2,0),(2,1,4),(0,)):
        z = rng.normal(size=shape+(R.Nstate,))*np.exp(rng.uniform(-3,3)); z0=z.copy()
        r = mrcal.unpack_state(z,**oi)
        ctx.close(z,z0*s,'unpack/linear',atol=0,rtol=4e-16,scale=None if z.size else 1,msg=f'shape {shape}',**D)
        if z.size: ctx.ok((np.abs(z-z0*s)<=1e-15*np.abs(z)).all(),'unpack/linear-relative','',**D)
        mrcal.pack_state(z,**oi)
        if z.size: ctx.ok((np.abs(z-z0)<=1e-15*np.abs(z0)).all(),'pack-unpack/inverse',f'max {np.abs(z-z0).max()}, shape {shape}',**D)
        ctx.counts['pack']=ctx.counts.get('pack',0)+1
    for bad in (np.zeros(R.Nstate+1),np.zeros(R.Nstate-1),np.zeros(R.Nstate*2),np.zeros((R.Nstate,R.Nstate+1)),np.zeros(R.Nstate,dtype=np.float32),np.zeros((R.Nstate*2))[::2] if R.Nstate>1 else np.zeros(3),np.zeros(())):
        ctx.raises(lambda: mrcal.pack_state(bad,**oi),'pack/refuse',f'shape {bad.shape} dtype {bad.dtype} strides {bad.strides}')
        ctx.raises(lambda: mrcal.unpack_state(bad,**oi),'unpack/refuse',f'shape {bad.shape} dtype {bad.dtype} strides {bad.strides}')
    # ---- the layout is that of the optimizer
    cb = lambda o: mrcal.optimizer_callback(**o,no_jacobian=True,no_factorization=True)[:2]
    b,x = cb(oi)
    ctx.ok(len(b)==R.Nstate and len(x)==R.m,'callback/sizes',f'{len(b)} {len(x)} vs {R.Nstate} {R.m}',**D)
    ctx.close(b*s,R.pack(),'callback/b_packed',atol=1e-12,rtol=1e-12,**D)
    # change each object: only its own variables, and only the measurements that use it
    blocks = list(R.blocks)
    if len(blocks)>6 and not ctx.thorough: blocks=[blocks[i] for i in sorted(rng.choice(len(blocks),6,replace=False))]
    for n,k,i,sc in blocks:
        v = R.pack(); L=len(sc)
        v[i:i+L] += rng.normal(size=L)*1e-4
        bb,xx = cb(R.with_state(v))
        ctx.counts['perturbed blocks']=ctx.counts.get('perturbed blocks',0)+1
        other = np.ones(R.Nstate,bool); other[i:i+L]=False
        ctx.ok((bb[other]==b[other]).all() and (bb[~other]!=b[~other]).all(),f'callback/b-block/{n}',f'{n} {k} is not at {i}:{i+L}',**D)
        if R.Nt and n=='extrinsics': continue
        dep = depends(R,n,k)
        ctx.ok((xx[~dep]==x[~dep]).all(),f'callback/x-block/{n}',f'{n} {k} affects measurements it should not',where=np.nonzero((xx!=x)&~dep)[0][:20],**D)
    # ---- ingest_packed_state
    v = R.pack() + rng.normal(size=R.Nstate)*1e-3*s
    o = R.with_state(R.pack())
    v0 = v/s; vv=v0.copy()
    want = R.with_state(v)
    mrcal.ingest_packed_state(vv,**o)
    ctx.counts['ingest']=ctx.counts.get('ingest',0)+1
    ctx.same(vv,v0,'ingest/input','b_packed was modified',**D)
    for q in ('intrinsics','rt_cam_ref','rt_ref_frame','points','calobject_warp'):
        if o.get(q) is not None:
            ctx.close(o[q],want[q],f'ingest/{q}',atol=1e-14,rtol=1e-14,**D)
    for q in oi:
        if q not in ('intrinsics','rt_cam_ref','rt_ref_frame','points','calobject_warp') and isinstance(oi[q],np.ndarray):
            ctx.ok(o[q] is oi[q],'ingest/identity','',**D)
    ctx.close(cb(o)[0],v0,'ingest/roundtrip',atol=1e-14,rtol=1e-13,**D)
    ctx.raises(lambda: mrcal.ingest_packed_state(np.zeros(R.Nstate+3),**o),'ingest/refuse','wrong size')

def depends(R,n,k):
    '''Which measurements may depend on this block'''
    d = np.zeros(R.m,bool); oi=R.oi
    col = dict(frames=0,points=0,intrinsics=1,extrinsics=2)
    if R.Nb and n!='points':
        ix = oi['indices_frame_camintrinsics_camextrinsics']
        sel = np.ones(len(ix),bool) if n=='calobject_warp' else ix[:,col[n]]==k
        d[:R.m_board] = np.repeat(sel,2*R.H*R.W)
    if R.No and n not in('frames','calobject_warp'):
        ix = oi['indices_point_camintrinsics_camextrinsics']
        d[R.m_board:R.m_board+R.m_point] = np.repeat(ix[:,col[n]]==k,2)
    i = R.m_board+R.m_point+R.m_tri
    if R.sel['do_apply_regularization']:
        nd = (R.Nparam-4) if R.sel['do_optimize_intrinsics_distortions'] else 0
        if n=='intrinsics': d[i+nd*k:i+nd*(k+1)] = True
        i += nd*R.Ni
        if R.sel['do_optimize_intrinsics_core']:
            if n=='intrinsics': d[i+2*k:i+2*k+2]=True
            i += 2*R.Ni
    if i<R.m and n=='extrinsics' and k==0: d[i:]=True
    return d

def explicit(ctx):
    '''Only dimensions, and no arrays'''
    rng = ctx.rng
    for rep in range(ctx.n(60,600)):
        for lm in models(rng)[:12] if not ctx.thorough else models(rng):
            K = dict(Ncameras_intrinsics=int(rng.integers(0,5)),Ncameras_extrinsics=int(rng.integers(0,5)),Nframes=int(rng.integers(0,30)),
                     Npoints=int(rng.integers(0,9)),Nobservations_board=int(rng.integers(0,50)),Nobservations_point=int(rng.integers(0,50)))
            kw = dict(K); kw['Npoints_fixed']=int(rng.integers(0,K['Npoints']+1))
            for k in prob.SEL+('do_apply_regularization',):
                kw[k]=bool(rng.uniform()<.7)
            ctx.case('explicit',key=(rep,lm),lensmodel=lm,kw=kw)
            L = dict(lensmodel=lm)
            nc,nd = 4,ref.num_params(lm)-4
            ni = K['Ncameras_intrinsics']*((nc if kw['do_optimize_intrinsics_core'] else 0)+(nd if kw['do_optimize_intrinsics_distortions'] else 0))
            ne = 6*K['Ncameras_extrinsics'] if kw['do_optimize_extrinsics'] else 0
            nf = 6*K['Nframes'] if kw['do_optimize_frames'] else 0
            np_= 3*(K['Npoints']-kw['Npoints_fixed']) if kw['do_optimize_frames'] else 0
            nw = 2 if kw['do_optimize_calobject_warp'] and K['Nobservations_board'] else 0
            got = (mrcal.num_states_intrinsics(**kw,**L),mrcal.num_states_extrinsics(**kw,**L),mrcal.num_states_frames(**kw,**L),mrcal.num_states_points(**kw,**L),mrcal.num_states_calobject_warp(**kw,**L),mrcal.num_states(**kw,**L))
            ctx.ok(got==(ni,ne,nf,np_,nw,ni+ne+nf+np_+nw),'explicit/num_states',f'{got} vs {(ni,ne,nf,np_,nw)}',kw=kw)
            for q,base,step,n in (('intrinsics',0,ni//max(1,K['Ncameras_intrinsics']),K['Ncameras_intrinsics']),('extrinsics',ni,6,K['Ncameras_extrinsics'] if ne else 0),
                                  ('frames',ni+ne,6,K['Nframes'] if nf else 0),('points',ni+ne+nf,3,np_//3)):
                if step==0: n=0
                for j in (-1,0,n-1,n,int(rng.integers(0,max(n,1)))):
                    want = base+step*j if 0<=j<n else None
                    g = getattr(mrcal,'state_index_'+q)(j,**kw,**L)
                    ctx.ok(g==want,f'explicit/state_index_{q}',f'{j}: {g} vs {want}',kw=kw)
            g = mrcal.state_index_calobject_warp(**kw,**L); want = ni+ne+nf+np_ if nw else None
            ctx.ok(g==want,'explicit/state_index_calobject_warp',f'{g} vs {want}',kw=kw)
            W,H = int(rng.integers(1,20)),int(rng.integers(1,20))
            dim = dict(calibration_object_width_n=W,calibration_object_height_n=H)
            mb = 2*W*H*K['Nobservations_board']; mp=2*K['Nobservations_point']
            g = mrcal.num_measurements_boards(**kw,**L,**dim),mrcal.num_measurements_points(**kw,**L)
            ctx.ok(g==(mb,mp),'explicit/num_measurements',f'{g} vs {(mb,mp)}',kw=kw)
            if K['Nobservations_point']:
                j=int(rng.integers(K['Nobservations_point'])); g=mrcal.measurement_index_points(j,**kw,**L,**dim)
                ctx.ok(g==mb+2*j,'explicit/measurement_index_points',f'{j}: {g}',kw=kw)
            if K['Nobservations_board']:
                j=int(rng.integers(K['Nobservations_board'])); g=mrcal.measurement_index_boards(j,**kw,**L,**dim)
                ctx.ok(g==2*W*H*j,'explicit/measurement_index_boards',f'{j}: {g}',kw=kw)
            mr = 0
            if kw['do_apply_regularization']: mr = K['Ncameras_intrinsics']*((nd if kw['do_optimize_intrinsics_distortions'] else 0)+(2 if kw['do_optimize_intrinsics_core'] else 0))
            g = mrcal.num_measurements_regularization(**kw,**L),mrcal.num_measurements(**kw,**L,**dim)
            ctx.ok(g==(mr,mb+mp+mr),'explicit/num_measurements_regularization',f'{g} vs {(mr,mb+mp+mr)}',kw=kw)
            Ns = ni+ne+nf+np_+nw
            z=rng.normal(size=(2,Ns)); z0=z.copy(); mrcal.pack_state(z,**kw,**L); mrcal.unpack_state(z,**kw,**L)
            ctx.close(z,z0,'explicit/pack',atol=1e-15,rtol=1e-14,kw=kw)
            # an explicit dimension takes precedence over the array
            if K['Ncameras_intrinsics']>0 and ni:
                a = np.zeros((K['Ncameras_intrinsics']+2,ref.num_params(lm)))
                ctx.ok(mrcal.num_states(**kw,**L,intrinsics=a)==Ns,'explicit/precedence','explicit arguments must take precedence',kw=kw)

def cameras(ctx):
    '''corresponding_icam_extrinsics()'''
    rng=ctx.rng
    import vlib
    for rep in range(ctx.n(300,3000)):
        Ncam=int(rng.integers(1,5)); kind=str(rng.choice(('cam0-ref','all','moving','mixed')))
        oi=prob.make(rng,Ncam=Ncam,Nframes=int(rng.integers(1,3)),WH=(2,2),Npoints=int(rng.integers(0,3)),cameras=kind,visible=.7)
        if rng.uniform()<.5: # shuffle the extrinsics: the reference camera needn't be the first one
            Ne=len(oi['rt_cam_ref']); Ni=len(oi['intrinsics'])
            if kind=='cam0-ref':
                perm = rng.permutation(Ne+1)-1
                for k in ('indices_frame_camintrinsics_camextrinsics','indices_point_camintrinsics_camextrinsics'):
                    if oi[k] is not None:
                        oi[k]=oi[k].copy(); oi[k][:,2]=perm[oi[k][:,1]]
        seen={}
        bad = not len(oi['intrinsics'])-len(oi['rt_cam_ref']) in (0,1)
        for k in ('indices_frame_camintrinsics_camextrinsics','indices_point_camintrinsics_camextrinsics'):
            if oi[k] is not None:
                for _,ii,ie in oi[k]: seen.setdefault(int(ii),set()).add(int(ie))
        inv={}
        for ii,s in seen.items():
            for ie in s: inv.setdefault(ie,set()).add(ii)
        stationary = all(len(s)==1 for s in seen.values()) and all(len(s)==1 for s in inv.values())
        ctx.case('corresponding',key=rep,kind_=kind,Ncam=Ncam,seen={k:sorted(v) for k,v in seen.items()})
        with vlib.quiet_fds():
            for ii in range(-1,len(oi['intrinsics'])+1):
                try: r = mrcal.corresponding_icam_extrinsics(ii,**oi)
                except Exception: r='refused'
                if not 0<=ii<len(oi['intrinsics']) or bad or not stationary: want=('refused',)
                elif ii in seen: want = (next(iter(seen[ii])),)
                else: want = ('refused',) if len(oi['rt_cam_ref']) else ('refused',-1)
                ctx.ok(r in want,'corresponding_icam_extrinsics',f'camera {ii}: {r}, expected {want}; observed {seen}',oi=oi)
            # indices that don't exist
            o=dict(oi); k='indices_frame_camintrinsics_camextrinsics'; o[k]=o[k].copy(); o[k][int(rng.integers(len(o[k]))),int(rng.integers(1,3))]=int(rng.choice((1000,77,1<<20)))
            ctx.raises(lambda: mrcal.corresponding_icam_extrinsics(0,**o),'corresponding_icam_extrinsics/range','out-of-bounds camera index')
