// Flat wrappers around mrcal's public C API, to be called with ctypes. Compiled
// against the headers of the tree being checked, so structure layout never matters
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdbool.h>
#include <stdint.h>
#include "mrcal.h"

#define LM(name) mrcal_lensmodel_t lm; if(!mrcal_lensmodel_from_name(&lm,name)) return -100

int v_num_params(const char* name) { LM(name); return mrcal_lensmodel_num_params(&lm); }

// 0: refused
int v_lensmodel_from_name(const char* name, int* type)
{
    mrcal_lensmodel_t lm; bool ok = mrcal_lensmodel_from_name(&lm,name);
    *type = (int)lm.type;
    return ok;
}
int v_lensmodel_type_from_name(const char* name) { return (int)mrcal_lensmodel_type_from_name(name); }
int v_lensmodel_name(const char* name, char* out, int size) { LM(name); return mrcal_lensmodel_name(out,size,&lm) ? 1 : 0; }
const char* v_lensmodel_name_unconfigured(const char* name)
{
    mrcal_lensmodel_t lm; if(!mrcal_lensmodel_from_name(&lm,name)) return NULL;
    return mrcal_lensmodel_name_unconfigured(&lm);
}
int v_metadata(const char* name, int* m)
{
    LM(name);
    mrcal_lensmodel_metadata_t meta = mrcal_lensmodel_metadata(&lm);
    m[0]=meta.has_core; m[1]=meta.can_project_behind_camera; m[2]=meta.has_gradients; m[3]=meta.noncentral;
    return 1;
}
int v_supported(char* out, int size)
{
    const char*const* l = mrcal_supported_lensmodel_names(); int n=0; *out=0;
    for(; *l; l++,n++) { strncat(out,*l,size-strlen(out)-2); strcat(out,"\n"); }
    return n;
}
int v_knots(const char* name, double* ux, double* uy) { LM(name); return mrcal_knots_for_splined_models(ux,uy,&lm); }

int v_project(const char* name, const double* p, int N, const double* intrinsics, double* q, double* dq_dp, double* dq_di)
{
    LM(name);
    return mrcal_project((mrcal_point2_t*)q,(mrcal_point3_t*)dq_dp,dq_di,(const mrcal_point3_t*)p,N,&lm,intrinsics);
}
int v_unproject(const char* name, const double* q, int N, const double* intrinsics, double* v)
{
    LM(name);
    return mrcal_unproject((mrcal_point3_t*)v,(const mrcal_point2_t*)q,N,&lm,intrinsics);
}
// 0 pinhole 1 stereographic 2 lonlat 3 latlon
int v_project_simple(int which, const double* v, int N, const double* fxycxy, double* q, double* dq_dv)
{
    typedef void (*f_t)(mrcal_point2_t*,mrcal_point3_t*,const mrcal_point3_t*,int,const double*);
    f_t f[] = {&mrcal_project_pinhole,&mrcal_project_stereographic,&mrcal_project_lonlat,&mrcal_project_latlon};
    f[which]((mrcal_point2_t*)q,(mrcal_point3_t*)dq_dv,(const mrcal_point3_t*)v,N,fxycxy);
    return 1;
}
int v_unproject_simple(int which, const double* q, int N, const double* fxycxy, double* v, double* dv_dq)
{
    typedef void (*f_t)(mrcal_point3_t*,mrcal_point2_t*,const mrcal_point2_t*,int,const double*);
    f_t f[] = {&mrcal_unproject_pinhole,&mrcal_unproject_stereographic,&mrcal_unproject_lonlat,&mrcal_unproject_latlon};
    f[which]((mrcal_point3_t*)v,(mrcal_point2_t*)dv_dq,(const mrcal_point2_t*)q,N,fxycxy);
    return 1;
}

// ---- camera models
static int v_unpack(const mrcal_cameramodel_VOID_t* m, char* name, int namesize, double* intrinsics, int Nmax, double* rt, unsigned int* imagersize)
{
    int N = mrcal_lensmodel_num_params(&m->lensmodel);
    if(!mrcal_lensmodel_name(name,namesize,&m->lensmodel)) return -2;
    if(N > Nmax) return -3;
    memcpy(intrinsics,m->intrinsics,N*sizeof(double));
    memcpy(rt,m->rt_cam_ref,6*sizeof(double));
    imagersize[0]=m->imagersize[0]; imagersize[1]=m->imagersize[1];
    return N;
}
// The number of intrinsics; -1 if refused
int v_read_string(const char* s, int len, char* name, int namesize, double* intrinsics, int Nmax, double* rt, unsigned int* imagersize)
{
    mrcal_cameramodel_VOID_t* m = mrcal_read_cameramodel_string(s,len);
    if(m==NULL) return -1;
    int rc = v_unpack(m,name,namesize,intrinsics,Nmax,rt,imagersize);
    mrcal_free_cameramodel(&m);
    if(m!=NULL) return -4;
    return rc;
}
int v_read_file(const char* s, char* name, int namesize, double* intrinsics, int Nmax, double* rt, unsigned int* imagersize)
{
    mrcal_cameramodel_VOID_t* m = mrcal_read_cameramodel_file(s);
    if(m==NULL) return -1;
    int rc = v_unpack(m,name,namesize,intrinsics,Nmax,rt,imagersize);
    mrcal_free_cameramodel(&m);
    return rc;
}
// Into a buffer with room for exactly *N intrinsics. On the heap, so that ASan sees overruns
int v_read_into(int isfile, const char* s, int len, int* N, char* name, int namesize, double* intrinsics, int Nmax, double* rt, unsigned int* imagersize)
{
    size_t sz = sizeof(mrcal_cameramodel_VOID_t) + (*N)*sizeof(double);
    char* buf = malloc(sz+64);
    memset(buf,0x5c,sz+64);
    mrcal_cameramodel_VOID_t* m = (mrcal_cameramodel_VOID_t*)buf;
    int r = isfile ? mrcal_read_cameramodel_file_into(m,N,s) : mrcal_read_cameramodel_string_into(m,N,s,len);
    int rc = -1;
    for(int i=0;i<64;i++) if(buf[sz+i]!=0x5c) { free(buf); return -9; }
    if(r) rc = v_unpack(m,name,namesize,intrinsics,Nmax,rt,imagersize);
    free(buf);
    return rc;
}
int v_write_model(const char* filename, const char* name, const double* intrinsics, const double* rt, const unsigned int* imagersize)
{
    LM(name);
    int N = mrcal_lensmodel_num_params(&lm);
    mrcal_cameramodel_VOID_t* m = malloc(sizeof(*m) + N*sizeof(double));
    memset(m,0,sizeof(*m));
    m->lensmodel = lm; memcpy(m->intrinsics,intrinsics,N*sizeof(double)); memcpy(m->rt_cam_ref,rt,6*sizeof(double));
    m->imagersize[0]=imagersize[0]; m->imagersize[1]=imagersize[1];
    bool r = mrcal_write_cameramodel_file(filename,m);
    free(m);
    return r;
}

// ---- images. kind: 0 uint8, 1 uint16, 2 bgr
int v_image_save(int kind, const char* f, int w, int h, int stride, void* data)
{
    if(kind==0) { mrcal_image_uint8_t  i={.w=w,.h=h,.stride=stride,.data=(uint8_t*)data};    return mrcal_image_uint8_save (f,&i); }
    if(kind==1) { mrcal_image_uint16_t i={.w=w,.h=h,.stride=stride,.data=(uint16_t*)data};   return mrcal_image_uint16_save(f,&i); }
    mrcal_image_bgr_t i={.w=w,.h=h,.stride=stride,.data=(mrcal_bgr_t*)data}; return mrcal_image_bgr_save(f,&i);
}
// kind 3: any type. out: densely-stored pixels
int v_image_load(int kind, const char* f, int* w, int* h, int* bpp, int* channels, uint8_t* out, int size)
{
    mrcal_image_void_t im = {}; bool ok; *bpp=-1; *channels=-1;
    if(kind==0) { mrcal_image_uint8_t  i={}; ok=mrcal_image_uint8_load (&i,f); im=(mrcal_image_void_t){.w=i.w,.h=i.h,.stride=i.stride,.data=i.data}; *bpp=8; }
    else if(kind==1) { mrcal_image_uint16_t i={}; ok=mrcal_image_uint16_load(&i,f); im=(mrcal_image_void_t){.w=i.w,.h=i.h,.stride=i.stride,.data=i.data}; *bpp=16; }
    else if(kind==2) { mrcal_image_bgr_t i={}; ok=mrcal_image_bgr_load(&i,f); im=(mrcal_image_void_t){.w=i.w,.h=i.h,.stride=i.stride,.data=i.data}; *bpp=24; }
    else ok=mrcal_image_anytype_load(&im,bpp,channels,f);
    if(!ok) return 0;
    *w=im.w; *h=im.h;
    int row = im.w*(*bpp/8);
    if((long)row*im.h > size) { free(im.data); return -1; }
    for(int i=0;i<im.h;i++) memcpy(&out[(long)i*row],&((uint8_t*)im.data)[(long)i*im.stride],row);
    free(im.data);
    return 1;
}
#define V_IMAGE_TYPES(_) _(uint8_t,uint8) _(uint16_t,uint16) _(uint32_t,uint32) _(uint64_t,uint64) _(int8_t,int8) _(int16_t,int16) _(int32_t,int32) _(int64_t,int64) _(float,float) _(double,double) _(mrcal_bgr_t,bgr)
#define V_IMAGE_AT(T,Tname)                                             \
    /* byte offset of a pixel, and of a pixel inside a crop */          \
    int v_image_at_##Tname(uint8_t* data, int w, int h, int stride, int x, int y, int x0, int y0, long* out) \
    {                                                                   \
        mrcal_image_##Tname##_t i={.w=w,.h=h,.stride=stride,.data=(T*)data}; \
        out[0] = (long)((uint8_t*)mrcal_image_##Tname##_at(&i,x,y) - data);     \
        out[1] = (long)((const uint8_t*)mrcal_image_##Tname##_at_const(&i,x,y) - data); \
        mrcal_image_##Tname##_t c = mrcal_image_##Tname##_crop(&i,x0,y0,w-x0,h-y0); \
        out[2] = (long)((uint8_t*)mrcal_image_##Tname##_at(&c,x-x0,y-y0) - data); \
        out[3] = c.w; out[4] = c.h; out[5] = c.stride;                  \
        return 1;                                                       \
    }
V_IMAGE_TYPES(V_IMAGE_AT)
#define V_COLORMAP(T,Tname)                                             \
    int v_colormap_##Tname(uint8_t* out, int ostride, const T* in, int istride, int w, int h, int amin, int amax, int af, double lo, double hi, int r, int g, int b) \
    {                                                                   \
        mrcal_image_bgr_t o={.w=w,.h=h,.stride=ostride,.data=(mrcal_bgr_t*)out}; \
        mrcal_image_##Tname##_t i={.w=w,.h=h,.stride=istride,.data=(T*)in}; \
        return mrcal_apply_color_map_##Tname(&o,&i,amin,amax,af,amin?0:(T)lo,amax?0:(T)hi,r,g,b); \
    }
V_COLORMAP(uint8_t,uint8) V_COLORMAP(uint16_t,uint16) V_COLORMAP(uint32_t,uint32) V_COLORMAP(uint64_t,uint64)
V_COLORMAP(int8_t,int8) V_COLORMAP(int16_t,int16) V_COLORMAP(int32_t,int32) V_COLORMAP(int64_t,int64) V_COLORMAP(float,float) V_COLORMAP(double,double)
