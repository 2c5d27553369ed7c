/* Drivers of a remeshing run (libmmg3d.c, libmmg2d.c, libmmgs.c) with every phase replaced by a stand-in that succeeds or fails arbitrarily.
 * LIB 3/2/1, MODE 0 remeshing, 1 level-set, 2 rigid motion, 3 mesh generation (2D). PART 0: failing phases (D01), 1: incompatible requests (D02) */
#include "vf.h"
#if LIB==3
#include "libmmg3d.h"
#include "libmmg3d_private.h"
#include "mmg3dexterns_private.h"
#elif LIB==2
#include "libmmg2d.h"
#include "libmmg2d_private.h"
#include "mmg2dexterns_private.h"
#else
#include "libmmgs.h"
#include "libmmgs_private.h"
#include "mmgsexterns_private.h"
#endif
#ifndef VF_X1
extern int (*MMG5_chkmsh)(MMG5_pMesh,int,MMG5_int);
#endif
static MMG5_Mesh M; static MMG5_Sol MET,LS;
static int failed,begun,scaled,lsscaled,metscaled,packed,packfail,unscalefail,hashfail,adapted,adaptfail,cut,analysed,changed,lateFail;
static int phase(void){ int r; V_ASSERT(!failed,"no further phase starts after a phase failed"); begun=1; r=vf_bool(); if(!r) failed=1; return r; }
int MMG5_scaleMesh(MMG5_pMesh mesh,MMG5_pSol met,MMG5_pSol sol){ int r=phase(); V_ASSERT(!scaled,"the mesh is scaled once"); scaled=1; lsscaled= sol!=NULL; metscaled=met!=NULL; return r; }
int MMG5_unscaleMesh(MMG5_pMesh mesh,MMG5_pSol met,MMG5_pSol sol){ int r=vf_bool(); if(!r){ unscalefail=1; failed=1; return 0; } scaled=0; if(sol) lsscaled=0; if(met) metscaled=0; return 1; }
static int pack(MMG5_pMesh mesh){ int r=vf_bool(); V_ASSERT(!packed,"the mesh is packed once"); if(!r){ packfail=1; failed=1; return 0; } packed=1; return 1; }
static int doadapt(void){ int r=phase(); changed=1; adapted=1; if(!r) adaptfail=1; return r; }
static int docut(MMG5_pSol sol){ int r=phase(); changed=1; cut=1; if(r) lsscaled=0; return r; }
static int last(void){ int r=phase(); if(!r) lateFail=1; return r; }
static int dosol_(MMG5_pMesh mesh,MMG5_pSol met){ return phase(); }
static int chkmsh_(MMG5_pMesh mesh,int a,MMG5_int b){ return phase(); }
void MMG5_version(MMG5_pMesh mesh,char *d){}
#if LIB==3
void MMG3D_Set_commonFunc(void){ MMG5_chkmsh=chkmsh_; }
void MMG3D_setfunc(MMG5_pMesh mesh,MMG5_pSol met){ MMG3D_doSol=dosol_; }
void MMG3D_Free_topoTables(MMG5_pMesh mesh){}
int MMG3D_Clean_isoSurf(MMG5_pMesh mesh){ return phase(); }
int MMG3D_tetraQual(MMG5_pMesh mesh,MMG5_pSol met,int8_t m){ return phase(); }
int MMG3D_inqua(MMG5_pMesh mesh,MMG5_pSol met){ return phase(); }
int MMG3D_outqua(MMG5_pMesh mesh,MMG5_pSol met){ return last(); }
int MMG3D_analys(MMG5_pMesh mesh){ analysed=1; return phase(); }
int MMG3D_prilen(MMG5_pMesh mesh,MMG5_pSol met,int8_t m){ return 1; }
int MMG3D_Set_constantSize(MMG5_pMesh mesh,MMG5_pSol met){ return phase(); }
int MMG5_scotchCall(MMG5_pMesh mesh,MMG5_pSol met,MMG5_pSol f,MMG5_int *p){ return 1; }
int MMG5_mmg3d1_delone(MMG5_pMesh mesh,MMG5_pSol met,MMG5_int *p){ return doadapt(); }
int MMG5_mmg3d1_pattern(MMG5_pMesh mesh,MMG5_pSol met,MMG5_int *p){ return doadapt(); }
int MMG3D_mmg3d2(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol met){ return docut(sol); }
int MMG3D_hashTetra(MMG5_pMesh mesh,int p){ int r=vf_bool(); if(!r){ hashfail=1; failed=1; } return r; }
int MMG3D_packMesh(MMG5_pMesh mesh,MMG5_pSol a,MMG5_pSol b){ return pack(mesh); }
#define RUN_LIB MMG3D_mmg3dlib
#define RUN_LS MMG3D_mmg3dls
#define RUN_MOV MMG3D_mmg3dmov
#define TS 6
#elif LIB==2
void MMG2D_Set_commonFunc(void){ MMG5_chkmsh=chkmsh_; }
void MMG2D_setfunc(MMG5_pMesh mesh,MMG5_pSol met){ MMG2D_doSol=dosol_; }
void MMG2D_keep_only1Subdomain(MMG5_pMesh mesh,int n){}
int MMG2D_outqua(MMG5_pMesh mesh,MMG5_pSol met){ return adapted?last():phase(); }
int MMG2D_analys(MMG5_pMesh mesh){ analysed=1; return phase(); }
int MMG2D_prilen(MMG5_pMesh mesh,MMG5_pSol met){ return 1; }
int MMG2D_Set_constantSize(MMG5_pMesh mesh,MMG5_pSol met){ return phase(); }
int MMG2D_hashTria(MMG5_pMesh mesh){ return phase(); }
int MMG2D_mmg2d1n(MMG5_pMesh mesh,MMG5_pSol met){ return doadapt(); }
int MMG2D_mmg2d2(MMG5_pMesh mesh,MMG5_pSol met){ changed=1; return phase(); }
int MMG2D_mmg2d6(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol met){ return docut(sol); }
int MMG5_Set_defaultTruncatureSizes(MMG5_pMesh mesh,int8_t a,int8_t b){ return phase(); }
int MMG2D_pack(MMG5_pMesh mesh,MMG5_pSol a,MMG5_pSol b){ return pack(mesh); }
#define RUN_LIB MMG2D_mmg2dlib
#define RUN_LS MMG2D_mmg2dls
#define RUN_MOV MMG2D_mmg2dmov
#define RUN_GEN MMG2D_mmg2dmesh
#define TS 3
#else
void MMGS_Set_commonFunc(void){ MMG5_chkmsh=chkmsh_; }
void MMGS_setfunc(MMG5_pMesh mesh,MMG5_pSol met){ MMGS_doSol=dosol_; }
void MMGS_Free_topoTables(MMG5_pMesh mesh){}
int MMGS_Clean_isoSurf(MMG5_pMesh mesh){ return phase(); }
int MMGS_inqua(MMG5_pMesh mesh,MMG5_pSol met){ return phase(); }
int MMGS_outqua(MMG5_pMesh mesh,MMG5_pSol met){ return last(); }
int MMGS_analys(MMG5_pMesh mesh){ analysed=1; return phase(); }
int MMGS_prilen(MMG5_pMesh mesh,MMG5_pSol met,int m){ return 1; }
int MMGS_Set_constantSize(MMG5_pMesh mesh,MMG5_pSol met){ return phase(); }
int MMG5_mmgs1(MMG5_pMesh mesh,MMG5_pSol met,MMG5_int *p){ return doadapt(); }
int MMGS_mmgs2(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol met){ return docut(sol); }
int MMGS_hashTria(MMG5_pMesh mesh){ int r=vf_bool(); if(!r){ hashfail=1; failed=1; } return r; }
int MMGS_packMesh(MMG5_pMesh mesh,MMG5_pSol a,MMG5_pSol b){ return pack(mesh); }
#define RUN_LIB MMGS_mmgslib
#define RUN_LS MMGS_mmgsls
#define TS 6
#endif
int main(void){ int r,bad=0,user; int np,metnp,lsnp,optim; double hsiz;
  MMG5_SAFE_CALLOC(M.point,3,MMG5_Point,return 9);
#if LIB==3
  MMG5_SAFE_CALLOC(M.tetra,3,MMG5_Tetra,return 9);
#else
  MMG5_SAFE_CALLOC(M.tria,3,MMG5_Tria,return 9);
#endif
  M.memMax=100000; M.memCur=5000; M.ntmax=2; M.namax=2;
#ifdef ADJA
  MMG5_SAFE_CALLOC(M.adja,8,MMG5_int,return 9);
#endif
  M.np=np=vf_range(1,3); M.nt=MODE==3?0:vf_range(LIB==2?0:1,2); M.ne=LIB==3?vf_range(1,2):0;
  M.info.imprim=IMPRIM; M.info.ddebug= DDEBUG; M.info.delta=1.;
  M.info.lag=vf_range(-1,3); M.info.iso=vf_range(0,1); M.info.isosurf=vf_range(0,1); M.info.optimLES=vf_range(0,1);
  M.info.optim=optim=vf_range(0,1); hsiz=vf_range(-1,1); M.info.hsiz=hsiz; M.info.nsd=vf_range(0,3);
  M.nquad=0;
  user=METSET; metnp=vf_range(0,4); MET.np=metnp; MET.size=vf_range(1,6); MET.type=MET.size; 
  lsnp=vf_range(0,4); LS.np=lsnp; LS.size=vf_range(1,6);
  if(vf_bool()||lsnp){ MMG5_SAFE_CALLOC(LS.m,2,double,return 9); }
  if(metnp){ MMG5_SAFE_CALLOC(MET.m,2,double,return 9); }
  /* what must be refused before anything is touched */
#if MODE==0||MODE==3
  bad=M.info.iso||M.info.isosurf||(metnp&&(optim||hsiz>0)&&(metnp==np||LIB==2||MODE==3))||(optim&&hsiz>0);
#if LIB==2
  bad=bad||(MODE==0?!M.nt:M.nt)||M.info.lag>=0||(metnp&&metnp!=np)||((MET.size!=1)&&MET.size!=TS);
#else
  bad=bad||((!metnp||metnp==np)&&MET.size!=1&&MET.size!=TS);
#endif
#if LIB==3
  bad=bad||M.info.lag>-1||(M.info.optimLES&&MET.size==6);
#endif
#elif MODE==1
  bad=(user&&metnp&&(optim||hsiz>0))||(optim&&hsiz>0)||(lsnp!=np)||LS.size!=1||(user&&metnp&&metnp!=np);
#if LIB==2
  bad=bad||M.info.lag>-1||!M.nt;
#elif LIB==3
  bad=bad||M.info.lag>-1||M.info.optimLES;
#else
  bad=bad||optim;
#endif
#else
  bad=1; /* the library is built without the elasticity solver */
#endif
#if LIB==2 && MODE==1
  /* the 2D library takes a solution array of declared size 0 for one value per vertex */
  if(!lsnp&&LS.m) V_ASSUME(0);
#endif
#if PART==0
  V_ASSUME(!bad);
#else
  V_ASSUME(bad);
#endif
#if MODE==0
  r=RUN_LIB(&M,&MET);
#elif MODE==3
  r=RUN_GEN(&M,&MET);
#elif MODE==1
  r=RUN_LS(&M,&LS,user?&MET:NULL);
#else
  r=RUN_MOV(&M,&MET,&LS);
#endif
  V_ASSERT(r==MMG5_SUCCESS||r==MMG5_LOWFAILURE||r==MMG5_STRONGFAILURE,"documented return code");
#if PART==1
  V_ASSERT(r==MMG5_STRONGFAILURE,"incompatible request is refused"); V_ASSERT(!begun&&!packed,"incompatible request is refused before any phase"); V_ASSERT(M.np==np&&M.info.hsiz==hsiz&&M.info.optim==optim,"options and sizes unchanged");
#else
  if(failed) V_ASSERT(r!=MMG5_SUCCESS,"a failed phase is never reported as success");
  else { V_ASSERT(r==MMG5_SUCCESS,"success when every phase succeeds"); V_ASSERT(packed&&analysed&&adapted&&begun&&!scaled&&(MODE!=1||cut),"success only after every phase has run"); }
  if(r==MMG5_LOWFAILURE) { V_ASSERT(!scaled,"low failure: the mesh is back in user coordinates"); V_ASSERT(!unscalefail&&!packfail&&!hashfail,"low failure: the mesh could be saved"); if(changed) V_ASSERT(packed,"low failure: the changed mesh is packed"); }
  if(r!=MMG5_STRONGFAILURE) { V_ASSERT(!lsscaled,"the level-set values are back in user units"); if(user||MODE!=1) V_ASSERT(!metscaled,"the sizes are back in user units"); }
  if((adaptfail||lateFail)&&!unscalefail&&!packfail&&!hashfail) V_ASSERT(r==MMG5_LOWFAILURE,"low failure when the mesh could be saved");
#if LIB!=2
  if(metnp&&metnp!=np&&MODE==0) V_ASSERT(MET.np==0,"a metric of the wrong size is ignored");
#endif
#endif
  V_ASSERT(M.npi==M.np&&M.nti==M.nt,"sizes are consistent on return");
  V_WITNESS(); return 0; }
