/* Per-reference tables. LIB 3/2/1. OP 0 local parameters, 1 materials, 2 level-set base references.
 * Declare N1 entries, NREG registrations with arbitrary arguments, declare N2 entries, one more registration. */
#include "vf.h"
#if LIB==3
#include "libmmg3d.h"
#include "libmmg3d_private.h"
#define F(x) MMG3D_##x
#define TYP1 MMG5_Triangle
#define TAG1 MG_Tria
#define TYP2 MMG5_Tetrahedron
#define TAG2 MG_Tetra
#elif LIB==2
#include "libmmg2d.h"
#include "libmmg2d_private.h"
#define F(x) MMG2D_##x
#define TYP1 MMG5_Triangle
#define TAG1 MG_Tria
#define TYP2 MMG5_Edg
#define TAG2 MG_Edge
#else
#include "libmmgs.h"
#include "libmmgs_private.h"
#define F(x) MMGS_##x
#define TYP1 MMG5_Triangle
#define TAG1 MG_Tria
#define TYP2 MMG5_Triangle
#define TAG2 MG_Tria
#endif
#ifndef NREG
#define NREG 3
#endif
static MMG5_Mesh M; static MMG5_Sol S;
static int calls,mret;
#ifndef VF_REPLAY
int MMG5_MultiMat_init(MMG5_pMesh mesh){ (void)mesh; calls++; return mret; }
#endif
typedef struct { int typ; MMG5_int ref; double a,b,c; int split; MMG5_int rin,rex; } Row;
static Row row[NREG+2]; static int n,cap; static int tagmask;
#if LIB==3
#define GETN MMG3D_Get_iparameter(&M,MMG3D_IPARAM_numberOfLocalParam)
#elif LIB==2
#define GETN cap
#else
#define GETN MMGS_Get_iparameter(&M,MMGS_IPARAM_numberOfLocalParam)
#endif
static void compare(void){
  const MMG5_Info *i=&M.info;
#if OP==0
  V_ASSERT(i->npar==cap && i->npari==n,"number of local parameters");
  V_ASSERT(i->parTyp==tagmask,"kinds of entities with local parameters");
  for(int k=0;k<cap;k++){
    if(k<n) V_ASSERT(i->par[k].elt==row[k].typ && i->par[k].ref==row[k].ref && i->par[k].hmin==row[k].a && i->par[k].hmax==row[k].b && i->par[k].hausd==row[k].c,"local parameter as registered");
    else V_ASSERT(i->par[k].elt==MMG5_Noentity && i->par[k].hmin==i->hmin && i->par[k].hmax==i->hmax && i->par[k].hausd==i->hausd,"entry not yet given is empty");
  }
  V_ASSERT(GETN==cap,"declared count is reported");
#elif OP==1
  V_ASSERT(i->nmat==cap && i->nmati==n,"number of materials");
  for(int k=0;k<n;k++) V_ASSERT(i->mat[k].ref==row[k].ref && i->mat[k].dospl==row[k].split && i->mat[k].rin==row[k].rin && i->mat[k].rex==row[k].rex,"material rule as registered");
#else
  V_ASSERT(i->nbr==cap && i->nbri==n,"number of base references");
  for(int k=0;k<n;k++) V_ASSERT(i->br[k]==row[k].ref,"base reference as registered");
  for(int k=n;k<cap;k++) V_ASSERT(i->br[k]==0,"base reference not yet given");
#endif
}
static void reg(void){
  Row r; int ok,res;
  memset(&r,0,sizeof(r));
  r.typ=vf_i32(); r.ref=vf_i32(); r.a=vf_num(); r.b=vf_num(); r.c=vf_num(); r.split=vf_i32(); r.rin=vf_i32(); r.rex=vf_i32();
  calls=0;
#if OP==0
  ok = cap && n<cap && (r.typ==TYP1||r.typ==TYP2) && r.ref>=0 && r.a>0 && r.b>0 && r.c>0;
  res=F(Set_localParameter)(&M,&S,r.typ,r.ref,r.a,r.b,r.c);
#elif OP==1
  ok = cap && n<cap && r.ref>=0 && (r.split==MMG5_MMAT_Split || r.split==MMG5_MMAT_NoSplit);
  res=F(Set_multiMat)(&M,&S,r.ref,r.split,r.rin,r.rex);
#else
  ok = cap && n<cap && r.ref>=0;
  res=F(Set_lsBaseReference)(&M,&S,r.ref);
#endif
  int k,done=0;
  if(ok){
#if OP!=2
    for(k=0;k<n;k++) if(row[k].ref==r.ref && (OP==1||row[k].typ==r.typ)){
      row[k]=r; done=1;
      if(OP==1 && !r.split) row[k].rin=row[k].rex=r.ref;
    }
#endif
    if(!done){ row[n++]=r; if(OP==0) tagmask|= r.typ==TYP1?TAG1:TAG2; }
  }
#if OP==1
#ifndef VF_REPLAY
  if(ok && !done && n==cap) V_ASSERT(res==mret && calls==1,"complete material table is indexed");
  else V_ASSERT(calls==0 && res==ok,"registration result");
#endif
#else
  V_ASSERT(res==ok,"registration result");
#endif
  compare();
}
static void declare(int c){
#if OP==0
  V_ASSERT(F(Set_iparameter)(&M,&S,F(IPARAM_numberOfLocalParam),c)==1,"declaring a number of local parameters");
#elif OP==1
  V_ASSERT(F(Set_iparameter)(&M,&S,F(IPARAM_numberOfMat),c)==1,"declaring a number of materials");
#else
  V_ASSERT(F(Set_iparameter)(&M,&S,F(IPARAM_numberOfLSBaseReferences),c)==1,"declaring a number of base references");
#endif
  cap=c; n=0; tagmask=0;
}
int main(void){
  mret=vf_bool(); (void)calls;
  M.memMax=1000000; M.memCur=1000;
  M.info.hmin=vf_num(); M.info.hmax=vf_num(); M.info.hausd=vf_num(); M.info.hsiz=vf_num(); M.info.imprim=vf_i32(); M.info.ddebug=vf_bool();
  M.info.isoref=vf_i32(); M.info.nsd=vf_i32(); M.info.iso=vf_range(0,1); M.info.npar=0;
  MMG5_Info e=M.info;
  if(N1){
#if N1==0
  reg();
#endif
  declare(N1);
  compare();
  for(int k=0;k<NREG;k++) reg();
  }
  else reg();
#if N2
  declare(N2);
  compare();
#ifdef VF_REPLAY
  if(OP!=1)  /* natively the material index is really built and accounted */
#endif
  V_ASSERT(M.memCur==1000+(size_t)N2*(OP==0?sizeof(MMG5_Par):OP==1?sizeof(MMG5_Mat):sizeof(MMG5_int)),"previous table is released");
  reg();
#endif
  V_ASSERT(M.info.hmin==e.hmin && M.info.hmax==e.hmax && M.info.hausd==e.hausd && M.info.hsiz==e.hsiz && M.info.imprim==e.imprim && M.info.ddebug==e.ddebug &&
           M.info.isoref==e.isoref && M.info.nsd==e.nsd && M.info.iso==e.iso && M.np==0 && M.ne==0,"other settings unchanged");
  V_WITNESS();
  return 0;
}
