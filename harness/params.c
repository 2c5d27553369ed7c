/* Parameters. LIB 3/2/1. OP 0: integer keys, 1: real keys, 2: defaults, 3: unknown keys. */
#include "vf.h"
#include <math.h>
#if LIB==3
#include "libmmg3d.h"
#include "libmmg3d_private.h"
#define F(x) MMG3D_##x
int MMG3D_memOption(MMG5_pMesh mesh); int MMG3D_skipIso(MMG5_pMesh mesh);
#elif LIB==2
#include "libmmg2d.h"
#include "libmmg2d_private.h"
#define F(x) MMG2D_##x
#else
#include "libmmgs.h"
#include "libmmgs_private.h"
#define F(x) MMGS_##x
#endif
static MMG5_Mesh M; static MMG5_Sol S; static int memret, memcalls;
#ifndef VF_REPLAY
/* the memory sizing itself is decided by M01; the mathematical functions are arbitrary functions */
int F(memOption)(MMG5_pMesh mesh){ (void)mesh; memcalls++; return memret; }
double __CPROVER_uninterpreted_cos(double); double __CPROVER_uninterpreted_log(double);
double cos(double x){ return __CPROVER_uninterpreted_cos(x); }
double log(double x){ return __CPROVER_uninterpreted_log(x); }
#endif
#define DBL(X) X(dhd)X(hmin)X(hmax)X(hsiz)X(hgrad)X(hgradreq)X(hausd)X(min[0])X(min[1])X(min[2])X(max[0])X(max[1])X(max[2])X(delta)X(ls)X(lxreg)X(rmc)
#define INT(X) X(isoref)X(nsd)X(mem)X(npar)X(npari)X(nbr)X(nbri)X(opnbdy)X(renum)X(PROctree)X(nmati)X(nmat)X(imprim)
#define I8(X) X(nreg)X(xreg)X(ddebug)X(badkal)X(iso)X(isosurf)X(setfem)X(fem)X(lag)X(parTyp)X(sethmin)X(sethmax)
#define U8(X) X(ani)X(optim)X(optimLES)X(noinsert)X(noswap)X(nomove)X(nosurf)X(nosizreq)X(metRidTyp)
static void init(void){
#define X(f) M.info.f=vf_num();
  DBL(X)
#undef X
#define X(f) M.info.f=vf_i32();
  INT(X)
#undef X
#define X(f) M.info.f=(int8_t)vf_i32();
  I8(X)
#undef X
#define X(f) M.info.f=(uint8_t)vf_i32();
  U8(X)
#undef X
}
static void same(const MMG5_Info *e){
  const MMG5_Info *i=&M.info;
#define X(f) V_ASSERT(i->f==e->f,"real parameter " #f);
  DBL(X)
#undef X
#define X(f) V_ASSERT(i->f==e->f,"integer parameter " #f);
  INT(X) I8(X) U8(X)
#undef X
  V_ASSERT(i->par==e->par && i->br==e->br && i->mat==e->mat && i->fparam==e->fparam && i->invmat.lookup==e->invmat.lookup &&
           i->invmat.size==e->invmat.size && i->invmat.offset==e->invmat.offset,"parameter tables");
}
static void mesh_same(const MMG5_Mesh *m){
  V_ASSERT(M.np==m->np && M.ne==m->ne && M.nt==m->nt && M.na==m->na && M.npi==m->npi && M.nti==m->nti && M.nai==m->nai && M.nei==m->nei &&
           M.nprism==m->nprism && M.nquad==m->nquad && M.ver==m->ver && M.dim==m->dim && M.mark==m->mark && M.base==m->base && M.memCur==m->memCur && M.memMax==m->memMax,"mesh unchanged");
  V_ASSERT(S.np==0 && S.m==0 && S.size==1 && S.type==1,"solution unchanged");
}
#if LIB==2
#define RD 0  /* the 2D library has no reader for integer parameters */
#define MMG2D_Get_iparameter(m,k) 0
#else
#define RD 1
#endif
/* keys whose value is stored as such: key, field, lowest, highest value of the documented domain, readable */
#define KI_COMMON(X) X(verbose,imprim,-1,127,RD)X(debug,ddebug,0,127,RD)X(isoref,isoref,INT32_MIN,INT32_MAX,0)X(isosurf,isosurf,0,127,0)\
  X(numsubdomain,nsd,0,INT32_MAX,0)X(optim,optim,0,127,0)X(noinsert,noinsert,0,127,RD)X(noswap,noswap,0,127,RD)X(nomove,nomove,0,127,RD)X(nreg,nreg,0,127,RD)\
  X(xreg,xreg,0,127,RD)X(nosizreq,nosizreq,0,127,0)X(anisosize,ani,0,127,0)
#if LIB==3
#define KI(X) KI_COMMON(X) X(octree,PROctree,INT32_MIN,INT32_MAX,RD) X(opnbdy,opnbdy,0,INT32_MAX,0) X(iso,iso,0,127,RD) X(optimLES,optimLES,0,127,0) X(nosurf,nosurf,0,127,RD) X(renum,renum,0,INT32_MAX,RD)
#elif LIB==2
#define KI(X) KI_COMMON(X) X(opnbdy,opnbdy,0,INT32_MAX,0) X(iso,iso,0,127,RD) X(3dMedit,renum,0,INT32_MAX,0) X(nosurf,nosurf,0,127,RD)
#else
#define KI(X) KI_COMMON(X) X(renum,renum,0,INT32_MAX,RD)
#endif
#define GETI(k) F(Get_iparameter)(&M,k)
#define SETI(k,v) F(Set_iparameter)(&M,sol,k,v)
#define SETD(k,v) F(Set_dparameter)(&M,sol,k,v)
/* each key starts from an independent arbitrary state */
static void fresh(MMG5_Info *e,MMG5_Mesh *m){
  init(); memcalls=0;
  *e=M.info; *m=M;
}
int main(void){
  MMG5_Info e; MMG5_Mesh m; int r; MMG5_int v; double d;
  MMG5_pSol sol = vf_bool()? &S : NULL;
  S.size=1; S.type=1;
  M.np=vf_range(0,1000); M.ne=vf_range(0,1000); M.nt=0; M.na=0; M.ver=2; M.dim=3; M.memCur=100; M.memMax=100000;
  M.npi=vf_range(0,1000); M.nti=0; M.nai=0; M.nei=vf_range(0,1000); M.mark=vf_i32(); M.base=vf_i32();
  memret=vf_bool();
#ifdef VF_REPLAY
  M.memMax=100000; 
#endif
#if OP==0
#define X(key,field,lo,hi,get) fresh(&e,&m); v=vf_i32(); V_ASSUME(v>=lo && v<=hi); e.field=v; r=SETI(F(IPARAM_##key),v); \
  V_ASSERT(r==1,"setting integer parameter " #key " succeeds"); same(&e); mesh_same(&m); if(get) V_ASSERT(GETI(F(IPARAM_##key))==v,"reading integer parameter " #key);
  KI(X)
#undef X
  /* derived settings */
  fresh(&e,&m); v=vf_i32(); e.dhd= v? MMG5_ANGEDG : -1.; r=SETI(F(IPARAM_angle),v); V_ASSERT(r==1,"angle detection switch"); same(&e); mesh_same(&m);
  V_ASSERT(!RD || GETI(F(IPARAM_angle))==(v!=0),"reading the angle detection switch");
#if LIB!=1
  fresh(&e,&m); v=vf_i32(); e.setfem=(v!=1); r=SETI(F(IPARAM_nofem),v); V_ASSERT(r==1,"finite element switch"); same(&e); mesh_same(&m);
  fresh(&e,&m); v=vf_i32(); r=SETI(F(IPARAM_lag),v); V_ASSERT(r==0,"lagrangian motion is refused when not built in"); same(&e); mesh_same(&m);
#else
  /* level-set mode: not changed once active; reference preservation is mode 2 and excludes material rules */
  fresh(&e,&m); v=vf_range(0,127); if(!e.iso) e.iso=v; r=SETI(F(IPARAM_iso),v); V_ASSERT(r==1,"level-set switch"); same(&e); mesh_same(&m);
  fresh(&e,&m); v=vf_i32(); if(!e.nmat && v) e.iso=2; r=SETI(F(IPARAM_keepRef),v); V_ASSERT(r==1,"reference preservation switch"); same(&e); mesh_same(&m);
#endif
#ifndef VF_REPLAY
  fresh(&e,&m); v=vf_i32(); if(v>0) e.mem=v; r=SETI(F(IPARAM_mem),v); V_ASSERT(r==memret && memcalls==1,"memory sizing is redone and its failure reported"); same(&e); mesh_same(&m);
  V_ASSERT(!RD || v<=0 || GETI(F(IPARAM_mem))==v,"reading the memory limit");
#endif
#elif OP==1
#define PLAIN(key,field) fresh(&e,&m); d=vf_num(); e.field=d; r=SETD(F(DPARAM_##key),d); V_ASSERT(r==1,"setting real parameter " #key); same(&e); mesh_same(&m);
  PLAIN(hsiz,hsiz) PLAIN(ls,ls)
#define LOG(key,field) fresh(&e,&m); d=vf_num(); if(d<=0.0) e.field=-1.; else e.field=log(d); r=SETD(F(DPARAM_##key),d); \
  V_ASSERT(r==1,"setting gradation " #key); V_ASSUME(e.field==e.field); same(&e); mesh_same(&m);
  LOG(hgrad,hgrad) LOG(hgradreq,hgradreq)
  fresh(&e,&m); d=vf_num(); if(d>0) e.hausd=d; r=SETD(F(DPARAM_hausd),d); V_ASSERT(r==(d>0),"Hausdorff distance must be positive"); same(&e); mesh_same(&m);
  fresh(&e,&m); d=vf_num(); if(!(d<0.||d>1.)) e.lxreg=d; r=SETD(F(DPARAM_xreg),d); V_ASSERT(r==!(d<0.||d>1.),"relaxation parameter must be in [0,1]"); same(&e); mesh_same(&m);
  fresh(&e,&m); d=vf_num(); e.rmc= d? d : 1.e-5; r=SETD(F(DPARAM_rmc),d); V_ASSERT(r==1,"setting the volume fraction"); same(&e); mesh_same(&m);
#define H(key,field,flag,other,oflag,bad) fresh(&e,&m); d=vf_num(); e.field=d; e.flag=1; r=SETD(F(DPARAM_##key),d); \
  if ( LIB==2 && ((oflag && (bad)) || d<=0.) ) { V_ASSERT(r==0,"inadmissible " #key " is refused"); e.field=M.info.field; e.flag=M.info.flag; } \
  else V_ASSERT(r==1,"setting " #key); same(&e); mesh_same(&m);
  H(hmin,hmin,sethmin,hmax,m.info.sethmax,d>=m.info.hmax)
  H(hmax,hmax,sethmax,hmin,m.info.sethmin,m.info.hmin>=d)
#elif OP==2
  init(); S.m=0;
  M.info.par=0;
  F(Init_parameters)(&M);
  memset(&e,0,sizeof(e));
  e.imprim=1; e.isoref=10; e.mem=-1; e.rmc=-1; e.dhd=MMG5_ANGEDG; e.hmin=e.hmax=e.hsiz=-1; e.hausd=0.01;
  e.hgrad=M.info.hgrad; V_ASSERT(e.hgrad>0.262364 && e.hgrad<0.262365,"default gradation is log(1.3)");
  e.hgradreq=M.info.hgradreq; V_ASSERT(e.hgradreq>0.832909 && e.hgradreq<0.832910,"default required gradation is log(2.3)");
  e.lxreg=0.4; e.lag=-1;
#if LIB==3
  e.renum=1; e.PROctree=32; e.setfem=1;
#elif LIB==2
  e.setfem=1;
#endif
  same(&e);
#elif OP==3
  fresh(&e,&m); v=vf_i32(); r=vf_i32();
#if LIB==3
  V_ASSUME(r<0 || r>=MMG3D_DPARAM_angleDetection);
#elif LIB==2
  V_ASSUME(r<0 || (r>=MMG2D_DPARAM_angleDetection && r!=MMG2D_IPARAM_nofem && r!=MMG2D_IPARAM_isoref));
#else
  V_ASSUME(r<0 || r>=MMGS_DPARAM_angleDetection);
#endif
  V_ASSERT(SETI(r,v)==0,"unknown integer parameter is refused"); same(&e); mesh_same(&m);
  fresh(&e,&m); d=vf_num(); r=vf_i32();
  V_ASSUME(r<F(DPARAM_angleDetection) || r>F(DPARAM_rmc));
  V_ASSERT(SETD(r,d)==0,"unknown real parameter is refused"); same(&e); mesh_same(&m);
#elif OP==4
  fresh(&e,&m); d=vf_num();
#if SIDE==0
  for(int k=0;k<=180;k++){ d=(double)k; e.dhd=cos(d*M_PI/180.0); V_ASSUME(e.dhd==e.dhd); r=SETD(F(DPARAM_angleDetection),d); V_ASSERT(r==1,"setting the detection angle"); V_ASSERT(M.info.dhd==e.dhd,"cosine of the detection angle"); }
  double x=180.;
#elif SIDE==1
  V_ASSUME(d>180.); double x=180.;
#else
  V_ASSUME(d<0.); double x=0.;
#endif
  e.dhd=cos(x*M_PI/180.0); V_ASSUME(e.dhd==e.dhd);
  r=SETD(F(DPARAM_angleDetection),d); V_ASSERT(r==1,"setting the detection angle"); same(&e); mesh_same(&m);
#endif
  V_WITNESS();
  return 0;
}
