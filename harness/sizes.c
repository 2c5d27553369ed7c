/* Size prescriptions. LIB 3/2/1. OP 0 truncation of a scalar metric, 1 scaling of a scalar metric, 2 constant size,
 * 3 mean edge length (optim), 4 user sizes, hmin/hmax and local parameters of the volume/planar libraries, 5 scaling and unscaling of the mesh. */
#include "vf.h"
#if LIB==3
#include "libmmg3d.h"
#include "libmmg3d_private.h"
#include "mmg3dexterns_private.h"
#define F(x) MMG3D_##x
#elif LIB==2
#include "libmmg2d.h"
#include "libmmg2d_private.h"
#include "mmg2dexterns_private.h"
#define F(x) MMG2D_##x
#else
#include "libmmgs.h"
#include "libmmgs_private.h"
#include "mmgsexterns_private.h"
#define F(x) MMGS_##x
#endif
static MMG5_Mesh M; static MMG5_Sol S,L;
#ifndef VF_REPLAY
double sqrt(double x){ double r=x>1?x:1; int i; for(i=0;i<40;i++) r=0.5*(r+x/r); return x>0?r:0; } /* only called with constants here */
int F(Set_inputSolName)(MMG5_pMesh m,MMG5_pSol s,const char *n){ (void)m;(void)s;(void)n; return 1; }
int F(Set_outputSolName)(MMG5_pMesh m,MMG5_pSol s,const char *n){ (void)m;(void)s;(void)n; return 1; }
#endif
#define NP 5
static void alloc(int ne,int nt){
  M.memMax=10000000; M.memCur=1000; M.info.imprim=-1; M.gap=0.2; M.dim=LIB==2?2:3; M.ver=2; M.np=NP; M.npmax=NP+1; M.base=3; M.info.lag=-1; M.info.hsiz=-1.; M.ne=ne; M.nemax=ne+1; M.nt=nt; M.ntmax=nt+1;
#ifdef VF_REPLAY
  MMG5_SAFE_CALLOC(M.point,NP+2,MMG5_Point,return); if(ne){ MMG5_SAFE_CALLOC(M.tetra,ne+2,MMG5_Tetra,return); MMG5_SAFE_CALLOC(M.adja,4*ne+9,MMG5_int,return); } if(nt) MMG5_SAFE_CALLOC(M.tria,nt+2,MMG5_Tria,return);
#else
  M.point=__CPROVER_allocate((NP+2)*sizeof(MMG5_Point),1); if(ne){ M.tetra=__CPROVER_allocate((ne+2)*sizeof(MMG5_Tetra),1); M.adja=__CPROVER_allocate((4*ne+9)*sizeof(MMG5_int),1); } if(nt) M.tria=__CPROVER_allocate((nt+2)*sizeof(MMG5_Tria),1);
#endif
}
static void allocsol(MMG5_pSol s,int size){ s->size=size; s->type=size==1?MMG5_Scalar:size==M.dim?MMG5_Vector:MMG5_Tensor; s->dim=M.dim; s->np=NP; s->npmax=NP+1; s->entities=MMG5_Vertex; s->ver=2;
#ifdef VF_REPLAY
  MMG5_SAFE_CALLOC(s->m,size*(NP+2),double,return);
#else
  s->m=__CPROVER_allocate(size*(NP+2)*sizeof(double),1);
#endif
}
#ifdef GRID /* 64 sizes spread over 16 powers of two: more than the values compared in one run, so every order of them occurs */
static double pos(void){ union {uint64_t u; double d;} c; uint16_t x=vf_u16(); c.u=0x3f80000000000000ull+((uint64_t)(x&0x3f)<<50); return c.d; }
#else
static double pos(void){ double d=vf_num(); V_ASSUME(d>1e-6&&d<1e6); return d; }
#endif
static double hmin0,hmax0;
/* bounds chosen by the user or not */
static void bounds(int setmin,int setmax){ M.info.sethmin=setmin; M.info.sethmax=setmax; M.info.hmin=setmin?pos():MMG5_NONSET_HMIN; M.info.hmax=setmax?pos():MMG5_NONSET_HMAX; if(setmin&&setmax) V_ASSUME(M.info.hmin<=M.info.hmax); hmin0=M.info.hmin; hmax0=M.info.hmax; }
static void inforce(void){ V_ASSERT(M.info.hmin>0&&M.info.hmin<=M.info.hmax,"bounds in force are positive and ordered"); if(M.info.sethmin) V_ASSERT(M.info.hmin==hmin0,"requested minimal size kept"); if(M.info.sethmax) V_ASSERT(M.info.hmax==hmax0,"requested maximal size kept"); }
static double w[NP+2]; static int used[NP+2],fl[NP+2];
static void clamped(int k){ V_ASSERT(S.m[k]>=M.info.hmin&&S.m[k]<=M.info.hmax,"size within the bounds in force");
  if(w[k]>=M.info.hmin&&w[k]<=M.info.hmax) V_ASSERT(S.m[k]==w[k],"size inside the bounds is unchanged"); else V_ASSERT(S.m[k]==(w[k]<M.info.hmin?M.info.hmin:M.info.hmax),"size outside the bounds takes the nearest one"); }
/* tetrahedra 1234, 1325 or triangles; vertex 5 unused in the second case with HOLE */
static const double X[6][3]={{0,0,0},{0,0,0},{4,0,0},{0,3,0},{0,0,2},{4,3,0}};
#if LIB==3
static const int T[2][4]={{1,2,3,4},{2,5,3,4}};
#define NE 2
#define NC 4
#else
static const int T[2][3]={{1,2,3},{2,5,3}};
#define NE 2
#define NC 3
#endif
static void elements(int ne){ int k,i,j; for(k=1;k<=NP;k++){ for(j=0;j<M.dim;j++) M.point[k].c[j]=X[k][j]; M.point[k].ref=vf_i32(); used[k]=0; }
  for(k=0;k<ne;k++) for(i=0;i<NC;i++){ used[T[k][i]]=1;
#if LIB==3
    M.tetra[k+1].v[i]=T[k][i]; if(!i) M.tetra[k+1].ref=vf_i32();
#else
    M.tria[k+1].v[i]=T[k][i]; if(!i) M.tria[k+1].ref=vf_i32();
#endif
  }
  for(k=1;k<=NP;k++) M.point[k].tag=used[k]?0:MG_NUL;
#if LIB==3
  if(ne==2){ M.adja[1]=4*2+1; M.adja[4*1+1+1]=4*1+0; }
#endif
}
#if LIB==3
#define ELTS(n) n,0
#else
#define ELTS(n) 0,n
#endif
static void run(int a,int b,int c){
  int k,r,j; static MMG5_Mesh Z; static MMG5_Sol ZS; M=Z; S=ZS; L=ZS;
#if OP==0
  alloc(0,0); allocsol(&S,1); bounds(a,b); { int one=0; for(k=1;k<=NP;k++){ M.point[k].tag=(c>>k)&1?MG_NUL:0; fl[k]=vf_bool(); M.point[k].flag=fl[k]?3:2; S.m[k]=w[k]=pos(); if(fl[k]&&!(M.point[k].tag&MG_NUL)) one=1; }
  V_ASSUME(one); }
  r=MMG5_solTruncature_iso(&M,&S); V_ASSERT(r==1,"truncation succeeds"); inforce();
  for(k=1;k<=NP;k++) if(MG_VOK(&M.point[k])){ if(fl[k]) clamped(k); else V_ASSERT(S.m[k]==M.info.hmax,"vertex without a computed size takes the maximal size"); }
#elif OP==1
  alloc(0,0); allocsol(&S,1); bounds(a,b); int bad=0; for(k=1;k<=NP;k++){ M.point[k].tag=(c>>k)&1?MG_NUL:0; M.point[k].flag=2; S.m[k]=vf_num(); V_ASSUME(S.m[k]<1e6); w[k]=S.m[k]; if(MG_VOK(&M.point[k])){ if(S.m[k]<=0) bad=1; else V_ASSUME(S.m[k]>1e-6); } }
  int n; for(n=0;n<2;n++){ /* the second request is judged as the first one */
    r=MMG5_scale_scalarMetric(&M,&S,0.25); if(bad) V_ASSERT(r==0,"a size that is not positive is refused"); else V_ASSERT(r==1,"valid sizes are accepted"); if(!bad||n) break;
    for(k=1;k<=NP;k++){ S.m[k]=w[k]; M.point[k].flag=2; } }
  if(!bad){ inforce(); for(k=1;k<=NP;k++) if(MG_VOK(&M.point[k])){ w[k]*=0.25; clamped(k); } }
#elif OP==2
  alloc(ELTS(NE)); elements(NE); bounds(a,b); S.size=1; S.dim=M.dim; S.type=MMG5_Scalar; double h=pos(); M.info.hsiz=h; M.point[5].tag=c&1?MG_NUL:0; M.info.renum=0;
  int bad=(M.info.hmin>h)||(b&&M.info.hmax<h);
  r=F(Set_constantSize)(&M,&S); V_ASSERT(r==!bad,"a constant size outside the requested bounds is refused, any other accepted");
  if(r){ V_ASSERT(S.np==NP&&S.m!=NULL,"a size for each vertex"); inforce(); for(k=1;k<=NP;k++) if(MG_VOK(&M.point[k])) V_ASSERT(S.m[k]==h,"constant size stored exactly"); V_ASSERT(M.info.hmin<=h&&h<=M.info.hmax,"constant size within the bounds in force"); }
#elif OP==3
  alloc(ELTS(c)); elements(c); bounds(a,b); S.size=1; S.dim=M.dim; S.type=MMG5_Scalar; M.info.optim=1;
#if LIB==1
  if(a&&c==2) M.tria[2].tag[0]=MG_GEO;
#endif
  /* mean length of the edges at each vertex, one contribution per element */
  int cnt[NP+1],i; for(k=1;k<=NP;k++){ w[k]=0; cnt[k]=0; }
  for(k=0;k<c;k++) for(i=0;i<NC;i++) for(j=0;j<i;j++){ double d=0; int e; int p=T[k][i],q=T[k][j]; for(e=0;e<M.dim;e++) d+=(X[p][e]-X[q][e])*(X[p][e]-X[q][e]); d=sqrt(d); w[p]+=d; w[q]+=d; cnt[p]++; cnt[q]++; }
  r=F(doSol_iso)(&M,&S); V_ASSERT(r==1,"sizes computed"); inforce();
  for(k=1;k<=NP;k++) if(used[k]){ double m=w[k]/cnt[k],lo=m*(1-1e-9),hi=m*(1+1e-9); V_ASSERT(S.m[k]>=M.info.hmin&&S.m[k]<=M.info.hmax,"size within the bounds in force");
    if(lo>M.info.hmin&&hi<M.info.hmax) V_ASSERT(S.m[k]>=lo&&S.m[k]<=hi,"size is the mean length of the edges around the vertex"); }
#elif OP==4
  alloc(ELTS(NE)); elements(NE); bounds(1,1); int ismet=a,l; M.info.hausd=0.01; M.info.nosizreq=1;
  if(ismet){ allocsol(&S,1); for(k=1;k<=NP;k++) S.m[k]=w[k]=pos(); } else { S.size=1; S.dim=M.dim; S.type=MMG5_Scalar; }
  M.info.npar=b;
#ifdef VF_REPLAY
  if(b) MMG5_SAFE_CALLOC(M.info.par,b,MMG5_Par,return);
#else
  if(b) M.info.par=__CPROVER_allocate(b*sizeof(MMG5_Par),1);
#endif
  for(l=0;l<b;l++){ MMG5_Par *p=&M.info.par[l]; int vert=(c>>l)&1; p->elt=vert?MMG5_Vertex:(LIB==3?MMG5_Tetrahedron:MMG5_Triangle); M.info.parTyp|=vert?MG_Vert:(LIB==3?MG_Tetra:MG_Tria); p->ref=vf_i32(); p->hmin=pos(); p->hmax=pos(); p->hausd=0.01; V_ASSUME(p->hmin<=p->hmax); }
  r=F(defsiz_iso)(&M,&S); V_ASSERT(r==1,"sizes defined");
  for(k=1;k<=NP;k++) if(used[k]){ double lo=M.info.hmin,hi=M.info.hmax; int loc=0,i,e; 
#if LIB==3
    for(l=0;l<b;l++){ MMG5_Par *p=&M.info.par[l]; if(p->elt==MMG5_Vertex&&p->ref==M.point[k].ref){ lo=p->hmin; hi=p->hmax; loc=1; break; } }
    for(l=0;l<b;l++){ MMG5_Par *p=&M.info.par[l]; int m=0; if(p->elt!=MMG5_Tetrahedron) continue; for(e=0;e<NE;e++) for(i=0;i<4;i++) if(T[e][i]==k&&M.tetra[e+1].ref==p->ref) m=1;
      if(!m) continue; if(!loc){ lo=p->hmin; hi=p->hmax; loc=1; } else { if(p->hmin>lo) lo=p->hmin; if(p->hmax<hi) hi=p->hmax; } }
    if(!ismet) V_ASSERT(S.m[k]==hi,"vertex without a requested size takes the maximal size in force there");
    else if(lo<=hi){ V_ASSERT(S.m[k]>=lo&&S.m[k]<=hi,"size within the bounds in force at the vertex"); if(w[k]>=lo&&w[k]<=hi) V_ASSERT(S.m[k]==w[k],"size inside the bounds is unchanged"); }
#else
    double up=ismet?w[k]:M.info.hmax; int any=0; for(e=0;e<NE;e++) for(i=0;i<3;i++) if(T[e][i]==k) for(l=0;l<b;l++) if(M.info.par[l].elt==MMG5_Triangle&&M.info.par[l].ref==M.tria[e+1].ref){ if(M.info.par[l].hmax<up) up=M.info.par[l].hmax; any=1; break; }
    for(l=0;l<b;l++) if(M.info.par[l].elt==MMG5_Vertex&&M.info.par[l].ref==M.point[k].ref){ if(M.info.par[l].hmax<up) up=M.info.par[l].hmax; any=1; break; }
    (void)loc;(void)hi; if(!any) V_ASSERT(S.m[k]==up,"size no local parameter applies to is unchanged"); else V_ASSERT(S.m[k]==(up>lo?up:lo),"local maximal size respected, not below the minimal size");
#endif
  }
#else
  /* OP 5: mesh of fixed coordinates in a box of side 4, normalised and restored */
  static double C[NP+1][3]; int ani=a,d=M.dim; alloc(0,0); d=M.dim; bounds(b&1,b>>1); allocsol(&L,c?1:d);
  if(ani>=0) allocsol(&S,ani?3*(d-1):1);
  for(k=1;k<=NP;k++) for(j=0;j<d;j++)C[k][j]=0.25*((5*k+3*j)%16)+0.125;
  for(j=0;j<d;j++){ C[1][j]=0; C[2][j]=j?4-j:4; }
  for(k=1;k<=NP;k++){ M.point[k].tag=k==4?MG_NUL:0; M.point[k].flag=2; for(j=0;j<d;j++) M.point[k].c[j]=C[k][j]; }
  M.info.hausd=pos(); M.info.ls=vf_small(-100,100); M.info.hsiz=-1.; double hausd=M.info.hausd,ls=M.info.ls,pm=pos(),px=pos(),ph=pos();
  M.info.npar=1;
#ifdef VF_REPLAY
  MMG5_SAFE_CALLOC(M.info.par,1,MMG5_Par,return);
#else
  M.info.par=__CPROVER_allocate(sizeof(MMG5_Par),1);
#endif
  M.info.par[0].hmin=pm; M.info.par[0].hmax=px; M.info.par[0].hausd=ph; M.info.iso=c; M.info.lag=c?-1:1;
  double lv[NP+1]; for(k=1;k<=NP;k++){ lv[k]=vf_small(-1000,1000); for(j=0;j<L.size;j++) L.m[k*L.size+j]=lv[k]; }
  if(ani==0){ V_ASSUME(1); for(k=1;k<=NP;k++){ w[k]=pos(); if(b&1) V_ASSUME(w[k]>=hmin0); if(b>>1) V_ASSUME(w[k]<=hmax0); S.m[k]=w[k]; } }
  r=MMG5_scaleMesh(&M,ani<0?NULL:&S,&L); V_ASSERT(r==1,"scaling succeeds");
  for(k=1;k<=NP;k++) if(MG_VOK(&M.point[k])) for(j=0;j<d;j++) V_ASSERT(M.point[k].c[j]==0.25*C[k][j],"coordinates normalised");
  V_ASSERT(M.info.hausd==0.25*hausd&&M.info.ls==0.25*ls&&M.info.par[0].hmin==0.25*pm&&M.info.par[0].hmax==0.25*px&&M.info.par[0].hausd==0.25*ph,"lengths normalised with the mesh");
  if(b&1) V_ASSERT(M.info.hmin==0.25*hmin0,"minimal size normalised"); if(b>>1) V_ASSERT(M.info.hmax==0.25*hmax0,"maximal size normalised");
  for(k=1;k<=NP;k++) if(MG_VOK(&M.point[k])){ for(j=0;j<L.size;j++) V_ASSERT(L.m[k*L.size+j]==0.25*lv[k],"level set or displacement normalised"); if(ani==0) V_ASSERT(S.m[k]==0.25*w[k],"size normalised"); }
  r=MMG5_unscaleMesh(&M,ani<0?NULL:&S,&L); V_ASSERT(r==1,"unscaling succeeds");
  int n; for(n=0;n<2;n++){ for(k=1;k<=NP;k++) for(j=0;j<d;j++) V_ASSERT(M.point[k].c[j]==C[k][j],"coordinates restored");
    V_ASSERT(M.info.hausd==hausd&&M.info.ls==ls&&M.info.par[0].hmin==pm&&M.info.par[0].hmax==px&&M.info.par[0].hausd==ph,"lengths restored");
    V_ASSERT(M.info.hmin==hmin0&&M.info.hmax==hmax0,"size bounds restored");
    for(k=1;k<=NP;k++) if(MG_VOK(&M.point[k])){ for(j=0;j<L.size;j++) V_ASSERT(L.m[k*L.size+j]==lv[k],"level set or displacement restored"); if(ani==0) V_ASSERT(S.m[k]==w[k],"size restored"); }
    if(!n) MMG5_unscaleMesh(&M,ani<0?NULL:&S,&L); /* a second time does nothing */ }
#endif
}
int main(void){
#ifdef A
  run(A,B,C_);
#else
  int a,b; for(a=0;a<2;a++) for(b=0;b<2;b++) run(a,b,C_);
#endif
  V_WITNESS(); return 0; }
