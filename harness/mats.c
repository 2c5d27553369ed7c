/* Material rules. LIB 3/2/1. NM materials registered with arbitrary pairwise different references, then queries.
 * OP 0: table, isSplit, getStartRef, isLevelSet. OP 1: references outside of the table. OP 2: isNotSplit (documented result). */
#include "vf.h"
#if LIB==3
#include "libmmg3d.h"
#include "libmmg3d_private.h"
#define F(x) MMG3D_##x
#define NMAT MMG3D_IPARAM_numberOfMat
#elif LIB==2
#include "libmmg2d.h"
#include "libmmg2d_private.h"
#define F(x) MMG2D_##x
#define NMAT MMG2D_IPARAM_numberOfMat
#else
#include "libmmgs.h"
#include "libmmgs_private.h"
#define F(x) MMGS_##x
#define NMAT MMGS_IPARAM_numberOfMat
#endif
#ifndef LO
#define LO 0
#endif
#ifndef HI
#define HI 7
#endif
static MMG5_Mesh M; static MMG5_Sol S;
static MMG5_Tetra TE[2]; static MMG5_Tria TR[2]; static MMG5_Edge ED[2];
typedef struct { MMG5_int ref,rin,rex; int split; } Row;
int main(void){
  static Row R[4]; int k,l;
  M.memMax=1000000; M.memCur=10; M.info.imprim=-1;
  M.tetra=TE; M.tria=TR; M.edge=ED; 
#if LIB==3
  M.ne=1; TE[1].ref=vf_range(LO,HI);
#endif
  M.nt=1; TR[1].ref=vf_range(LO,HI); M.na=1; ED[1].ref=vf_range(LO,HI);
  V_ASSERT(F(Set_iparameter)(&M,&S,NMAT,NM),"number of materials accepted");
  for(k=0;k<NM;k++){
    R[k].split=vf_bool(); R[k].ref=vf_range(LO,HI);
    if(R[k].split){ R[k].rin=vf_range(LO,HI); R[k].rex=vf_range(LO,HI); V_ASSUME(R[k].rin!=R[k].rex); }
    else { R[k].rin=vf_i32(); R[k].rex=vf_i32(); }
    for(l=0;l<k;l++){
      V_ASSUME(R[k].ref!=R[l].ref);
      if(R[l].split) V_ASSUME(R[k].ref!=R[l].rin && R[k].ref!=R[l].rex);
      if(R[k].split) V_ASSUME(R[k].rin!=R[l].ref && R[k].rex!=R[l].ref);
      if(R[k].split&&R[l].split) V_ASSUME(R[k].rin!=R[l].rin && R[k].rin!=R[l].rex && R[k].rex!=R[l].rin && R[k].rex!=R[l].rex);
    }
  }
  for(k=0;k<NM;k++) V_ASSERT(F(Set_multiMat)(&M,&S,R[k].ref,R[k].split,R[k].rin,R[k].rex)==1,"rule accepted");
  MMG5_int q,q2,in=77,ex=78,st=79; int f=-1,f2=-1,side=0,side2=0,r;
#if OP==1
  q=vf_i32(); for(k=0;k<NM;k++) V_ASSUME(q!=R[k].ref && !(R[k].split && (q==R[k].rin || q==R[k].rex)));
#if NM
  V_ASSERT(MMG5_getStartRef(&M,q,&st)==0 && st==79,"an unlisted reference has no original");
  V_ASSERT(MMG5_isLevelSet(&M,q,R[0].ref)==0 && MMG5_isLevelSet(&M,R[0].ref,q)==0,"an unlisted reference is on no side");
#endif
  V_WITNESS();
#else
#if NM
  f=vf_range(0,NM-1); side=vf_range(0,2); f2=vf_range(0,NM-1); side2=vf_range(0,2);
  if(!R[f].split) V_ASSUME(side==0);
  if(!R[f2].split) V_ASSUME(side2==0);
  q= side==0?R[f].ref:side==1?R[f].rin:R[f].rex; q2= side2==0?R[f2].ref:side2==1?R[f2].rin:R[f2].rex;
  /* the parent may keep its own reference as one of the sides */
  if(R[f].split&&side==0&&q==R[f].rin) side=1; if(R[f].split&&side==0&&q==R[f].rex) side=2;
  if(R[f2].split&&side2==0&&q2==R[f2].rin) side2=1; if(R[f2].split&&side2==0&&q2==R[f2].rex) side2=2;
#else
  q=vf_i32(); q2=vf_i32(); side= q==MG_MINUS?1:q==MG_PLUS?2:0; side2= q2==MG_MINUS?1:q2==MG_PLUS?2:0;
#endif
#if OP==0
  r=MMG5_isSplit(&M,q,&in,&ex);
#if NM
  V_ASSERT(r==R[f].split,"split exactly as the rule says");
  if(r) V_ASSERT(in==R[f].rin && ex==R[f].rex,"names of the two sides");
  else V_ASSERT(in==77&&ex==78,"no names for a kept reference");
  V_ASSERT(MMG5_getStartRef(&M,q,&st)==1 && st==R[f].ref,"original reference recovered");
#else
  V_ASSERT(r==1 && in==MG_MINUS && ex==MG_PLUS,"default: split with the default names");
  V_ASSERT(MMG5_getStartRef(&M,q,&st)==1 && st==0,"default original reference");
#endif
  r=MMG5_isLevelSet(&M,q,q2);
  V_ASSERT(r==((side==1&&side2==2)||(side==2&&side2==1)),"on the level-set exactly between an interior and an exterior reference");
  V_WITNESS();
#else
  r=MMG5_isNotSplit(&M,R[f].ref);
  V_ASSERT(r==!R[f].split,"not split exactly when the rule says so");
  V_WITNESS();
#endif
#endif
  V_ASSERT(M.info.nmat==NM,"rules kept");
  return 0;
}
