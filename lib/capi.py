'''ctypes access to the C API through the shim'''
import ctypes, os
import numpy as np
lib = ctypes.CDLL(os.path.join(os.environ['VERIF_BUILDDIR'],'libvshim.so'))
D = ctypes.c_double
def ptr(a):
    if a is None: return None
    assert a.flags['C_CONTIGUOUS']
    return a.ctypes.data_as(ctypes.c_void_p)
def vstr(s): return s.encode() if isinstance(s,str) else s

def project(p, name, i, dp=True, di=True, fill=-777.):
    p = np.ascontiguousarray(p,dtype=float); i=np.ascontiguousarray(i,dtype=float); N=len(p)
    q = np.full((N,2),fill); a = np.full((N,2,3),fill) if dp else None; b=np.full((N,2,len(i)),fill) if di else None
    rc = lib.v_project(vstr(name),ptr(p),N,ptr(i),ptr(q),ptr(a),ptr(b))
    return rc,q,a,b
def unproject(q, name, i, fill=-777.):
    q = np.ascontiguousarray(q,dtype=float); i=np.ascontiguousarray(i,dtype=float); N=len(q)
    v = np.full((N,3),fill)
    rc = lib.v_unproject(vstr(name),ptr(q),N,ptr(i),ptr(v))
    return rc,v
SIMPLE = dict(pinhole=0,stereographic=1,lonlat=2,latlon=3)
def project_simple(which, v, f, grad=True):
    v = np.ascontiguousarray(v,dtype=float); f=np.ascontiguousarray(f,dtype=float); N=len(v)
    q = np.full((N,2),-777.); g = np.full((N,2,3),-777.) if grad else None
    lib.v_project_simple(SIMPLE[which],ptr(v),N,ptr(f),ptr(q),ptr(g))
    return q,g
def unproject_simple(which, q, f, grad=True):
    q = np.ascontiguousarray(q,dtype=float); f=np.ascontiguousarray(f,dtype=float); N=len(q)
    v = np.full((N,3),-777.); g = np.full((N,3,2),-777.) if grad else None
    lib.v_unproject_simple(SIMPLE[which],ptr(q),N,ptr(f),ptr(v),ptr(g))
    return v,g

# ---- the pose functions of the C API, called directly, with arbitrary positive strides
libmrcal = ctypes.CDLL(os.path.join(os.environ['VERIF_BUILDDIR'],'libmrcal.so.5') if os.path.exists(os.path.join(os.environ['VERIF_BUILDDIR'],'libmrcal.so.5')) else 'libmrcal.so.5')
def sarg(a, ndim, contiguous_as_zero=False):
    '''pointer and strides arguments of an array, as the _full() functions want them'''
    if a is None: return [None]+[0]*ndim
    assert a.ndim==ndim and a.dtype==float and all(s>0 for s in a.strides)
    if contiguous_as_zero and a.flags['C_CONTIGUOUS']: return [ctypes.c_void_p(a.ctypes.data)]+[0]*ndim
    return [ctypes.c_void_p(a.ctypes.data)]+[int(s) for s in a.strides]
def pose(fname, arrays, flags=(), zero=False):
    '''arrays: list of (array or None, ndim)'''
    args = []
    for a,nd in arrays: args += sarg(a,nd,zero)
    f = getattr(libmrcal,f'mrcal_{fname}_full'); f.restype=None
    f(*args,*[ctypes.c_bool(bool(x)) for x in flags])

# ---- camera models
def _model_out(): return ctypes.create_string_buffer(1024), np.full(20000,np.nan), np.full(6,np.nan), np.zeros(2,dtype=np.uint32)
def _model(rc,o):
    if rc<0: return rc,None
    return rc,dict(lensmodel=o[0].value.decode(),intrinsics=o[1][:rc].copy(),rt_cam_ref=o[2].copy(),imagersize=o[3].astype(int))
def read_string(s, explicit_len=False):
    '''(rc,model). s: bytes. With explicit_len, the string isn't 0-terminated'''
    o=_model_out()
    if explicit_len:
        b=np.frombuffer(s,dtype=np.uint8).copy()  # exactly this many bytes
        return _model(lib.v_read_string(ptr(b),len(s),o[0],1024,ptr(o[1]),20000,ptr(o[2]),ptr(o[3])),o)
    return _model(lib.v_read_string(ctypes.c_char_p(s),0,o[0],1024,ptr(o[1]),20000,ptr(o[2]),ptr(o[3])),o)
def read_file(f):
    o=_model_out()
    return _model(lib.v_read_file(vstr(f),o[0],1024,ptr(o[1]),20000,ptr(o[2]),ptr(o[3])),o)
def read_into(s, N, isfile=False):
    '''(rc, reported N, model)'''
    o=_model_out(); n=ctypes.c_int(N)
    rc=lib.v_read_into(int(isfile),ctypes.c_char_p(vstr(s)),0,ctypes.byref(n),o[0],1024,ptr(o[1]),20000,ptr(o[2]),ptr(o[3]))
    return (rc,n.value,_model(rc,o)[1])
def write_model(f, lensmodel, intrinsics, rt, imagersize):
    i=np.ascontiguousarray(intrinsics,dtype=float); r=np.ascontiguousarray(rt,dtype=float); w=np.array(imagersize,dtype=np.uint32)
    return lib.v_write_model(vstr(f),vstr(lensmodel),ptr(i),ptr(r),ptr(w))

# ---- images
IMKIND = dict(uint8=0,uint16=1,bgr=2,any=3)
def vptr(a): return ctypes.c_void_p(a.ctypes.data)
def image_save(kind, f, a):
    return lib.v_image_save(IMKIND[kind],vstr(f),int(a.shape[1]),int(a.shape[0]),int(a.strides[0]),vptr(a))
def image_load(kind, f, size=4000000):
    w,h,b,c=[ctypes.c_int(0) for _ in range(4)]; out=np.zeros(size,np.uint8)
    rc=lib.v_image_load(IMKIND[kind],vstr(f),*[ctypes.byref(x) for x in (w,h,b,c)],vptr(out),size)
    if rc<=0: return rc,None
    w,h,b,c=w.value,h.value,b.value,c.value
    if b==24: return rc,out[:w*h*3].reshape(h,w,3).copy()
    if b==16: return rc,out[:w*h*2].view(np.uint16).reshape(h,w).copy()
    return rc,out[:w*h].reshape(h,w).copy()
def image_at(tname, size, w, h, stride, x, y, x0, y0):
    buf=np.zeros(size,np.uint8); out=np.zeros(6,np.int64)
    getattr(lib,'v_image_at_'+tname)(vptr(buf),w,h,stride,x,y,x0,y0,vptr(out)); return out
def colormap(out, a, amin=None, amax=None, functions=None):
    n={'float32':'float','float64':'double'}.get(a.dtype.name,a.dtype.name)
    f=functions or (0,0,0)
    return getattr(lib,'v_colormap_'+n)(vptr(out),int(out.strides[0]),vptr(a),int(a.strides[0]),int(a.shape[1]),int(a.shape[0]),int(amin is None),int(amax is None),int(functions is None),
                                        D(amin or 0),D(amax or 0),*[int(x) for x in f])
