// A ThreadSanitizer workload: Nthreads threads call the library at once, on
// separate outputs and shared (constant) inputs. Each result is compared,
// bitwise, to what the same call gave in the main thread before any threads
// were started. Output: one "OP name calls overlapped" line per operation, and
// "DIFF name" lines. The races themselves are reported by the sanitizer
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <math.h>
#include <pthread.h>
#include <unistd.h>
#include <sched.h>
#include <fcntl.h>
#include "mrcal.h"
#include "stereo.h"
#include "image.h"
#include "triangulation.h"
#include "heap.h"
#include <suitesparse/cholmod.h>

typedef struct { uint8_t* p; size_t n,cap; } out_t;
static void put(out_t* o, const void* p, size_t n)
{
    if(o->n+n>o->cap) { o->cap=2*(o->n+n); o->p=realloc(o->p,o->cap); }
    memcpy(o->p+o->n,p,n); o->n+=n;
}
#define PUT(x) put(o,&(x),sizeof(x))
typedef uint64_t rng_t;
static uint64_t rnd(rng_t* r) { *r^=*r<<13; *r^=*r>>7; *r^=*r<<17; return *r*2685821657736338717ULL; }
static double u(rng_t* r) { return (double)(rnd(r)>>11)/9007199254740992.0; }
static double n(rng_t* r) { return u(r)+u(r)+u(r)+u(r)-2.; }
static rng_t seeded(unsigned v) { rng_t r=88172645463325252ULL ^ ((uint64_t)(v+1)*0x9E3779B97F4A7C15ULL); for(int i=0;i<5;i++) rnd(&r); return r; }

static const char* dir;
static unsigned baseseed;

// ------------------------------------------------------------------ the models
static const char* names[] = {"LENSMODEL_PINHOLE","LENSMODEL_STEREOGRAPHIC","LENSMODEL_LONLAT","LENSMODEL_LATLON","LENSMODEL_OPENCV4","LENSMODEL_OPENCV5","LENSMODEL_OPENCV8","LENSMODEL_OPENCV12","LENSMODEL_CAHVOR",
  "LENSMODEL_CAHVORE_linearity=0.37","LENSMODEL_SPLINED_STEREOGRAPHIC_order=2_Nx=6_Ny=5_fov_x_deg=100","LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=6_Ny=5_fov_x_deg=100"};
#define NM ((int)(sizeof(names)/sizeof(names[0])))
static mrcal_lensmodel_t lms[NM];
static double intr[NM][200];
static char modelstring[NM][20000], modelfile[NM][512];
static void init_models(void)
{
    rng_t r=seeded(baseseed);
    for(int i=0;i<NM;i++)
    {
        if(!mrcal_lensmodel_from_name(&lms[i],names[i])) { printf("BAD %s\n",names[i]); exit(5); }
        int N=mrcal_lensmodel_num_params(&lms[i]);
        intr[i][0]=600; intr[i][1]=610; intr[i][2]=320; intr[i][3]=240;
        for(int j=4;j<N;j++) intr[i][j]=n(&r)*.01;
        if(lms[i].type==MRCAL_LENSMODEL_CAHVORE) for(int j=4;j<N;j++) intr[i][j]*=.1;
        int k=snprintf(modelstring[i],sizeof(modelstring[i]),"{ 'lensmodel': '%s',\n 'extrinsics':[0.1,0.2,0.3,1.,2.,3.],\n 'intrinsics':[",names[i]);
        for(int j=0;j<N;j++) k+=snprintf(modelstring[i]+k,sizeof(modelstring[i])-k,"%.17g,",intr[i][j]);
        snprintf(modelstring[i]+k,sizeof(modelstring[i])-k,"],\n 'imagersize': [640,480] }\n");
        snprintf(modelfile[i],sizeof(modelfile[i]),"%s/m%d.cameramodel",dir,i);
        FILE* fp=fopen(modelfile[i],"w"); fputs(modelstring[i],fp); fclose(fp);
    }
}
// ------------------------------------------------------------------ operations
static void op_project(unsigned v, out_t* o)
{
    rng_t r=seeded(v); int i=v%NM; int N=mrcal_lensmodel_num_params(&lms[i]);
    mrcal_point3_t p[7]; for(int j=0;j<7;j++) p[j]=(mrcal_point3_t){.x=n(&r),.y=n(&r),.z=1.5+n(&r)};
    mrcal_point2_t q[7]; mrcal_point3_t dp[14]; double* di=calloc(14*N,sizeof(double));
    memset(q,0,sizeof(q)); memset(dp,0,sizeof(dp));
    bool g = lms[i].type!=MRCAL_LENSMODEL_CAHVORE;
    bool ok=mrcal_project(q,g?dp:NULL,g?di:NULL,p,7,&lms[i],intr[i]);
    PUT(ok); PUT(q); PUT(dp); put(o,di,14*N*sizeof(double)); free(di);
}
static void op_unproject(unsigned v, out_t* o)
{
    rng_t r=seeded(v); int i=v%NM; if(lms[i].type==MRCAL_LENSMODEL_CAHVORE) i=4;
    mrcal_point2_t q[4]; for(int j=0;j<4;j++) q[j]=(mrcal_point2_t){.x=320+300*n(&r),.y=240+200*n(&r)};
    if(v%5==0) q[0].x=NAN;
    mrcal_point3_t p[4]; bool ok=mrcal_unproject(p,q,4,&lms[i],intr[i]); PUT(ok); PUT(p);
}
static void op_simple(unsigned v, out_t* o)
{
    rng_t r=seeded(v); mrcal_point3_t p={.x=n(&r),.y=n(&r),.z=1+n(&r)},dq[2],w; mrcal_point2_t q,dv[3];
#define S(x) mrcal_project_##x(&q,dq,&p,1,intr[0]); PUT(q); PUT(dq); mrcal_unproject_##x(&w,dv,&q,1,intr[0]); PUT(w); PUT(dv);
    S(pinhole) S(stereographic) S(lonlat) S(latlon)
}
static void op_lensmodel(unsigned v, out_t* o)
{
    int i=v%NM; mrcal_lensmodel_t lm; memset(&lm,0,sizeof(lm)); char s[1024]={}; bool ok=mrcal_lensmodel_from_name(&lm,names[i]); PUT(ok); int N=mrcal_lensmodel_num_params(&lm); PUT(N);
    mrcal_lensmodel_name(s,sizeof(s),&lm); PUT(s); put(o,mrcal_lensmodel_name_unconfigured(&lm),10);
    mrcal_lensmodel_t bad; ok=mrcal_lensmodel_from_name(&bad,"LENSMODEL_NOPE"); PUT(ok); PUT(bad.type);
    mrcal_lensmodel_metadata_t m=mrcal_lensmodel_metadata(&lm); int mm[4]={m.has_core,m.can_project_behind_camera,m.has_gradients,m.noncentral}; PUT(mm);
    const char* const* l=mrcal_supported_lensmodel_names(); for(;*l;l++) put(o,*l,strlen(*l));
    double ux[10]={},uy[10]={}; ok=mrcal_knots_for_splined_models(ux,uy,&lm); PUT(ok); if(ok) { PUT(ux); PUT(uy); }
}
static void op_pose(unsigned v, out_t* o)
{
    rng_t r=seeded(v); double a[6],b[6],c[6],d1[36],d2[36],d3[36],R[9],Rt[12],Rt2[12],x[3]={1,2,3},y[3];
    memset(d1,0,sizeof(d1)); memset(d2,0,sizeof(d2)); memset(d3,0,sizeof(d3));
    double s = v%7==0?1e-9:1.; for(int i=0;i<6;i++) { a[i]=n(&r)*s; b[i]=n(&r); }
    if(v%11==0) a[0]=a[1]=a[2]=0;
    mrcal_compose_rt(c,d1,d2,d3,d1+18,a,b); 
    // unused entries of the gradient arrays aren't compared
    PUT(c); put(o,d1,9*8); put(o,d2,9*8); put(o,d3,9*8);
    mrcal_invert_rt(c,d1,d2,a); PUT(c); put(o,d1,72); put(o,d2,72);
    mrcal_R_from_r(R,d1,a); PUT(R); put(o,d1,27*8); mrcal_r_from_R(c,d1,R); put(o,c,24); put(o,d1,27*8);
    mrcal_Rt_from_rt(Rt,d1,a); PUT(Rt); put(o,d1,27*8); mrcal_rt_from_Rt(c,d1,Rt); PUT(c); put(o,d1,27*8); mrcal_invert_Rt(Rt2,Rt); PUT(Rt2); mrcal_compose_Rt(Rt2,Rt,Rt); PUT(Rt2);
    mrcal_transform_point_rt(y,d1,d2,a,x); PUT(y); put(o,d1,18*8); put(o,d2,72); mrcal_rotate_point_r(y,d1,d2,a,x); PUT(y); put(o,d1,72); put(o,d2,72);
    mrcal_rotate_point_R(y,d1,d2,R,x); PUT(y); put(o,d1,27*8); mrcal_transform_point_Rt(y,d1,d2,Rt,x); PUT(y); put(o,d1,36*8);
    mrcal_compose_r(y,d1,d2,a,b); PUT(y); put(o,d1,72); put(o,d2,72); mrcal_compose_r_tinyr0_gradientr0(d1,a); put(o,d1,72); mrcal_compose_r_tinyr1_gradientr1(d1,b); put(o,d1,72);
    mrcal_R_aligned_to_vector(R,b); PUT(R);
    double P[24],Q[24],W[8]; for(int i=0;i<24;i++) { P[i]=n(&r); } for(int i=0;i<8;i++) { mrcal_transform_point_Rt(Q+3*i,NULL,NULL,Rt,P+3*i); W[i]=u(&r)+.1; }
    memset(R,0,sizeof(R)); memset(Rt2,0,sizeof(Rt2)); bool ok=mrcal_align_procrustes_points_Rt01(Rt2,8,Q,P,v&1?W:NULL); PUT(ok); PUT(Rt2); ok=mrcal_align_procrustes_vectors_R01(R,8,Q,P,v&1?W:NULL); PUT(ok); PUT(R);
}
static void op_triangulate(unsigned v, out_t* o)
{
    rng_t r=seeded(v); mrcal_point3_t a={.x=n(&r)*.2,.y=n(&r)*.2,.z=1},b={.x=a.x-.1,.y=a.y+.001*n(&r),.z=1},t={.x=1,.y=.1,.z=.05},d0[3],d1[3],d2[12],m; mrcal_point3_t Rt[4]={{.x=1},{.y=1},{.z=1},t};
    if(v%3==0) b.x=-b.x;
#define T(x) memset(d0,0,sizeof(d0)); memset(d1,0,sizeof(d1)); memset(d2,0,sizeof(d2)); m=mrcal_triangulate_##x(d0,d1,d2,&a,&b,&t); PUT(m); PUT(d0); PUT(d1); put(o,d2,72);
    T(geometric) T(leecivera_l1) T(leecivera_linf) T(leecivera_mid2) T(leecivera_wmid2)
    memset(d2,0,sizeof(d2)); m=mrcal_triangulate_lindstrom(d0,d1,d2,&a,&b,Rt); PUT(m); PUT(d0); PUT(d1); PUT(d2);
    double e=_mrcal_triangulated_error(d0,d1,&a,&b,&t); PUT(e); put(o,d0,24); put(o,d1,24);
}
static void putmodel(out_t* o, const mrcal_cameramodel_VOID_t* m)
{
    if(!m) { put(o,"NULL",4); return; }
    int N=mrcal_lensmodel_num_params(&m->lensmodel); PUT(N); put(o,m->intrinsics,N*sizeof(double)); put(o,m->rt_cam_ref,6*sizeof(double)); put(o,m->imagersize,2*sizeof(unsigned));
}
static __thread int mytid;
static void op_model(unsigned v, out_t* o)
{
    int i=v%NM; mrcal_cameramodel_VOID_t* m=NULL;
    switch((v/NM)%5)
    {
    case 0: m=mrcal_read_cameramodel_string(modelstring[i],0); break;
    case 1: m=mrcal_read_cameramodel_string(modelstring[i],strlen(modelstring[i])); break;
    case 2: m=mrcal_read_cameramodel_file(modelfile[i]); break;
    case 3: m=mrcal_read_cameramodel_string(modelstring[i],strlen(modelstring[i])/2); break;
    case 4: { m=mrcal_read_cameramodel_string(modelstring[i],0); if(!m) break; char f[600]; snprintf(f,sizeof(f),"%s/w%d",dir,mytid); bool ok=mrcal_write_cameramodel_file(f,m); PUT(ok); mrcal_free_cameramodel(&m); m=mrcal_read_cameramodel_file(f); } break;
    }
    putmodel(o,m); if(m) mrcal_free_cameramodel(&m);
}
static bool link_cb(const uint16_t to, const uint16_t from, void* c) { out_t* o=(out_t*)c; PUT(to); PUT(from); return true; }
static bool link_cb_fail(const uint16_t to, const uint16_t from, void* c) { return false; }
static void op_links(unsigned v, out_t* o)
{
    rng_t r=seeded(v); int N=2+rnd(&r)%12; uint16_t* m=calloc(N*N,sizeof(uint16_t)); for(int i=0;i<N;i++) for(int j=0;j<i;j++) m[i*N+j]=m[j*N+i]=(i-j==1||rnd(&r)%3==0)?1+rnd(&r)%50:0;
    bool ok=mrcal_traverse_sensor_links(N,m,v%5?link_cb:link_cb_fail,o); PUT(ok); free(m);
}
static void op_stereo(unsigned v, out_t* o)
{
    int i=v%9; if(lms[i].type==MRCAL_LENSMODEL_LONLAT||lms[i].type==MRCAL_LENSMODEL_LATLON) i=4; mrcal_lensmodel_type_t t=v&1?MRCAL_LENSMODEL_LATLON:MRCAL_LENSMODEL_PINHOLE;
    unsigned sz[2]={0,0}; double f[4]={},rt[6]={},b=0,az=-.1,el=-.1; mrcal_point2_t fov={.x=20,.y=15},c0={.x=0,.y=0}; double p0[6]={.01,.02,.01,0,0,0},p1[6]={0,.01,.01,-1,.01,0};
    bool ok=mrcal_rectified_system(sz,f,rt,&b,&az,&el,&fov,&c0,&lms[i],intr[i],p0,p1,t,true,true,false,false);
    PUT(ok); PUT(sz); PUT(f); PUT(rt); PUT(b); PUT(az); PUT(el); PUT(fov); PUT(c0);
    if(!ok || sz[0]*sz[1]>100000) return;
    float* map=calloc(2*sz[0]*sz[1]*2,sizeof(float)); ok=mrcal_rectification_maps(map,&lms[i],intr[i],p0,&lms[i],intr[i],p1,t,f,sz,rt); PUT(ok); put(o,map,2*sz[0]*sz[1]*2*sizeof(float)); free(map);
    double d[3]={1,2,0},rg[3]={}; mrcal_point2_t q[3]={{.x=1,.y=1},{.x=3,.y=2},{.x=5,.y=4}}; ok=mrcal_stereo_range_sparse(rg,d,q,3,0,100,t,f,b); PUT(ok); PUT(rg);
}
static void op_image(unsigned v, out_t* o)
{
    rng_t r=seeded(v); char f[600]; bool ok; int W=20+v%7,H=10+v%3;
    static __thread uint8_t buf[100*100*3]; for(size_t i=0;i<sizeof(buf);i++) buf[i]=rnd(&r);
    if(v%3==0)
    { mrcal_image_uint8_t a={.width=W,.height=H,.stride=W,.data=buf},b; memset(&b,0,sizeof(b)); snprintf(f,sizeof(f),"%s/i%d.%s",dir,mytid,v&1?"png":"jpg"); ok=mrcal_image_uint8_save(f,&a); PUT(ok); ok=mrcal_image_uint8_load(&b,f); PUT(ok); PUT(b.width); PUT(b.height); if(ok) { for(int y=0;y<b.height;y++) put(o,(uint8_t*)b.data+y*b.stride,b.width); free(b.data); }
      mrcal_image_bgr_t c={.width=W,.height=H,.stride=W*3,.data=malloc(W*H*3)}; ok=mrcal_apply_color_map_uint8(&c,&a,true,true,true,0,0,0,0,0); PUT(ok); put(o,c.data,W*H*3); free(c.data); }
    else if(v%3==1)
    { mrcal_image_bgr_t a={.width=W,.height=H,.stride=3*W,.data=(mrcal_bgr_t*)buf},b; memset(&b,0,sizeof(b)); snprintf(f,sizeof(f),"%s/i%d.%s",dir,mytid,v&1?"png":"jpg"); ok=mrcal_image_bgr_save(f,&a); PUT(ok); ok=mrcal_image_bgr_load(&b,f); PUT(ok); PUT(b.width); PUT(b.height); if(ok) { for(int y=0;y<b.height;y++) put(o,(uint8_t*)b.data+y*b.stride,b.width*3); free(b.data); } }
    else
    { mrcal_image_uint16_t a={.width=W,.height=H,.stride=2*W,.data=(uint16_t*)buf},b; memset(&b,0,sizeof(b)); snprintf(f,sizeof(f),"%s/i%d.png",dir,mytid); ok=mrcal_image_uint16_save(f,&a); PUT(ok); ok=mrcal_image_uint16_load(&b,f); PUT(ok); PUT(b.width); PUT(b.height); if(ok) { for(int y=0;y<b.height;y++) put(o,(uint8_t*)b.data+y*b.stride,b.width*2); free(b.data); }
      mrcal_image_bgr_t c; ok=mrcal_image_bgr_load(&c,"/nonexistent/x.png"); PUT(ok); }
}
// a small calibration problem
#define NC 2
#define NF 4
#define BW 4
#define BH 3
#define NP 2
typedef struct { double intrinsics[NC*200]; mrcal_pose_t ext[NC-1],fr[NF]; mrcal_point3_t pts[NP]; mrcal_calobject_warp_t warp; mrcal_observation_board_t ob[NC*NF]; mrcal_point3_t pool[NC*NF*BW*BH]; mrcal_observation_point_t op[NP*NC]; mrcal_point3_t poolp[NP*NC]; int sizes[NC*2]; int N; int i; } prob_t;
static void mk(prob_t* P, unsigned v)
{
    rng_t r=seeded(v%24); static const int which[]={0,4,6,8,10,11}; int i=which[v%6]; memset(P,0,sizeof(*P)); P->i=i; int N=P->N=mrcal_lensmodel_num_params(&lms[i]);
    for(int c=0;c<NC;c++) { memcpy(&P->intrinsics[c*N],intr[i],N*sizeof(double)); P->sizes[2*c]=640; P->sizes[2*c+1]=480; }
    P->ext[0]=(mrcal_pose_t){.r={.x=.01,.y=.02,.z=-.01},.t={.x=-.2,.y=.01,.z=.02}};
    for(int f=0;f<NF;f++) P->fr[f]=(mrcal_pose_t){.r={.x=.3*n(&r),.y=.3*n(&r),.z=.3*n(&r)},.t={.x=-.2+.2*n(&r),.y=-.1+.2*n(&r),.z=1.3+.3*u(&r)}};
    for(int p=0;p<NP;p++) P->pts[p]=(mrcal_point3_t){.x=.4*n(&r),.y=.4*n(&r),.z=2+u(&r)};
    P->warp.x2=.001; P->warp.y2=-.001;
    for(int f=0;f<NF;f++) for(int c=0;c<NC;c++)
    {
        int k=f*NC+c; P->ob[k]=(mrcal_observation_board_t){.icam={.intrinsics=c,.extrinsics=c-1},.iframe=f};
        for(int y=0;y<BH;y++) for(int x=0;x<BW;x++)
        { double b[3]={x*.1,y*.1,0},a[3],z[3]; mrcal_transform_point_rt(a,NULL,NULL,(double*)&P->fr[f],b); if(c) mrcal_transform_point_rt(z,NULL,NULL,(double*)&P->ext[0],a); else memcpy(z,a,sizeof(a));
          mrcal_point2_t q; mrcal_project(&q,NULL,NULL,(mrcal_point3_t*)z,1,&lms[i],intr[i]); P->pool[(k*BH+y)*BW+x]=(mrcal_point3_t){.x=q.x+.1*n(&r)+(v%4==3&&x==1&&y==1&&f==0?30:0),.y=q.y+.1*n(&r),.z=1.}; }
    }
    for(int p=0;p<NP;p++) for(int c=0;c<NC;c++)
    { int k=p*NC+c; P->op[k]=(mrcal_observation_point_t){.icam={.intrinsics=c,.extrinsics=c-1},.i_point=p}; double z[3]; if(c) mrcal_transform_point_rt(z,NULL,NULL,(double*)&P->ext[0],P->pts[p].xyz); else memcpy(z,P->pts[p].xyz,24);
      mrcal_point2_t q; mrcal_project(&q,NULL,NULL,(mrcal_point3_t*)z,1,&lms[i],intr[i]); P->poolp[k]=(mrcal_point3_t){.x=q.x+.1*n(&r),.y=q.y,.z=1}; }
}
static const mrcal_problem_constants_t pc={};
static mrcal_problem_selections_t selections(unsigned v) { return (mrcal_problem_selections_t){.do_optimize_intrinsics_core=true,.do_optimize_intrinsics_distortions=v%6<4,.do_optimize_extrinsics=true,.do_optimize_frames=true,.do_optimize_calobject_warp=(v/6)&1,.do_apply_regularization=true,.do_apply_outlier_rejection=v%4==3}; }
#define ARGS P->ext,P->fr,P->pts,&P->warp,NC,NC-1,NF,NP,0,P->ob,P->op,NC*NF,NP*NC,NULL,0,P->pool,P->poolp,&lms[P->i],P->sizes,s,&pc,.1,BW,BH,false
static void op_callback(unsigned v, out_t* o)
{
    prob_t* P=malloc(sizeof(*P)); mk(P,v); mrcal_problem_selections_t s=selections(v);
    int Ns=mrcal_num_states(NC,NC-1,NF,NP,0,NC*NF,s,&lms[P->i]),Nm=mrcal_num_measurements(NC*NF,NP*NC,NULL,0,BW,BH,NC,NC-1,NF,NP,0,s,&lms[P->i]),Nj=_mrcal_num_j_nonzero(NC*NF,NP*NC,NULL,0,BW,BH,NC,NC-1,NF,NP,0,P->ob,P->op,s,&lms[P->i]);
    PUT(Ns); PUT(Nm); PUT(Nj); double *b=calloc(Ns,8),*x=calloc(Nm,8),*J=calloc(Nj,8); int *jp=calloc(Nm+1,4),*ji=calloc(Nj,4);
    cholmod_sparse Jt={.nrow=Ns,.ncol=Nm,.nzmax=Nj,.p=jp,.i=ji,.x=J,.stype=0,.itype=CHOLMOD_INT,.xtype=CHOLMOD_REAL,.dtype=CHOLMOD_DOUBLE,.sorted=1,.packed=1};
    bool ok=mrcal_optimizer_callback(b,Ns*8,x,Nm*8,&Jt,P->intrinsics,ARGS);
    PUT(ok); put(o,b,Ns*8); put(o,x,Nm*8); put(o,J,Nj*8); put(o,jp,(Nm+1)*4); put(o,ji,Nj*4);
    free(b); free(x); free(J); free(jp); free(ji); free(P);
}
static void op_optimize(unsigned v, out_t* o)
{
    prob_t* P=malloc(sizeof(*P)); mk(P,v); mrcal_problem_selections_t s=selections(v); s.do_optimize_intrinsics_core=s.do_optimize_intrinsics_distortions=v%12>=6;
    int Ns=mrcal_num_states(NC,NC-1,NF,NP,0,NC*NF,s,&lms[P->i]),Nm=mrcal_num_measurements(NC*NF,NP*NC,NULL,0,BW,BH,NC,NC-1,NF,NP,0,s,&lms[P->i]);
    double *b=calloc(Ns,8),*x=calloc(Nm,8); P->fr[0].t.z+=.01;
    mrcal_stats_t st=mrcal_optimize(b,Ns*8,x,Nm*8,P->intrinsics,ARGS,false);
    PUT(st.rms_reproj_error__pixels); PUT(st.Noutliers_board); put(o,b,Ns*8); put(o,x,Nm*8); put(o,P,sizeof(*P));
    free(b); free(x); free(P);
}
static const struct { const char* name; void(*f)(unsigned,out_t*); int weight,nv; } ops[]={
    {"project",op_project,8,60},{"unproject",op_unproject,8,60},{"simple",op_simple,4,30},{"lensmodel",op_lensmodel,4,24},{"pose",op_pose,8,80},{"triangulate",op_triangulate,6,40},{"model",op_model,6,120},{"links",op_links,4,40},{"stereo",op_stereo,2,18},{"image",op_image,4,42},{"callback",op_callback,4,24},{"optimize",op_optimize,2,24}};
#define NO ((int)(sizeof(ops)/sizeof(ops[0])))
static out_t base[NO][128];
static int calls[NO], active[NO], overlapped[NO], diffs[NO];
static int Nreps, mode; // mode: -1: all the operations mixed. Else all the threads do this one
static pthread_barrier_t bar;
static void* thread(void* c)
{
    mytid=1+(int)(intptr_t)c; rng_t r=seeded(baseseed*1000+mytid); out_t o={};
    pthread_barrier_wait(&bar);
    for(int k=0;k<Nreps;k++)
    {
        int i=mode; if(i<0) { int w=rnd(&r)%60; for(i=0;i<NO-1;i++) { w-=ops[i].weight; if(w<0) break; } }
        unsigned v=rnd(&r)%ops[i].nv; o.n=0;
        if(rnd(&r)%16==0) sched_yield(); else if(rnd(&r)%64==0) usleep(rnd(&r)%50);
        // relaxed: this mustn't order anything that the sanitizer looks at
        if(__atomic_fetch_add(&active[i],1,__ATOMIC_RELAXED)>0) __atomic_fetch_add(&overlapped[i],1,__ATOMIC_RELAXED);
        ops[i].f(v,&o);
        __atomic_fetch_sub(&active[i],1,__ATOMIC_RELAXED); __atomic_fetch_add(&calls[i],1,__ATOMIC_RELAXED);
        if(o.n!=base[i][v].n || memcmp(o.p,base[i][v].p,o.n)) __atomic_fetch_add(&diffs[i],1,__ATOMIC_RELAXED);
    }
    free(o.p); return NULL;
}
int main(int argc, char** argv)
{
    if(argc<5) return 5;
    int Nt=atoi(argv[1]); Nreps=atoi(argv[2]); baseseed=atoi(argv[3]); dir=argv[4];
    int fd=open("/dev/null",O_WRONLY); fflush(stderr); dup2(fd,2); // the library's diagnostics
    init_models();
    // Cold: the very first calls are made by threads, all at once. Nothing is
    // compared until later: the results go into arrays
    for(int i=0;i<NO;i++) for(int v=0;v<ops[i].nv;v++) { if(argc>5) break; ops[i].f(v,&base[i][v]); }
    if(argc<=5) for(int i=0;i<NO;i++) for(int v=ops[i].nv-1;v>=0;v--)
    { out_t o={}; ops[i].f(v,&o); if(o.n!=base[i][v].n || memcmp(o.p,base[i][v].p,o.n)) printf("HISTORY %s\n",ops[i].name); free(o.p); }
    pthread_barrier_init(&bar,NULL,Nt);
    pthread_t t[64];
    for(mode=-1;mode<NO;mode++)
    {
        for(int i=0;i<Nt;i++) pthread_create(&t[i],NULL,thread,(void*)(intptr_t)i);
        for(int i=0;i<Nt;i++) pthread_join(t[i],NULL);
    }
    for(int i=0;i<NO;i++) { if(argc<=5 && diffs[i]) printf("DIFF %s %d\n",ops[i].name,diffs[i]); printf("OP %s %d %d\n",ops[i].name,calls[i],overlapped[i]); }
    printf("DONE\n"); return 0;
}
