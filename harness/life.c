/* Life of the user's structures: built by Init_mesh, filled by the size calls, released by Free_all; any allocation may fail.
 * LIB 1 planar, 2 surface, 3 volume; W: optional structures passed (1 metric, 2 level-set, 4 displacement, 8 fields); OPS: sequence of calls. */
#include "vf.h"
#if LIB==1
#include "libmmg2d.h"
#include "libmmg2d_private.h"
#define X(f) MMG2D_##f
#elif LIB==2
#include "libmmgs.h"
#include "libmmgs_private.h"
#define X(f) MMGS_##f
#else
#include "libmmg3d.h"
#include "libmmg3d_private.h"
#define X(f) MMG3D_##f
#endif
#undef malloc
#undef calloc
#undef realloc
#undef free
void *malloc(size_t); void *calloc(size_t,size_t); void *realloc(void*,size_t); void free(void*);
static int live,now;
/* the allocations of one call (any one) may fail; those of the calls before it succeed, and after it the structures are released */
int vf_oom(void){ if(now && vf_bool()) return 1; live++; return 0; }
void vf_free(void *p){ if(p){ live--; free(p); } }
#ifdef VF_REPLAY
void *vf_malloc(size_t n){ return vf_oom()?NULL:malloc(n); }
void *vf_calloc(size_t a,size_t b){ return vf_oom()?NULL:calloc(a,b); }
void *vf_realloc(void *p,size_t n){ void *q; if(vf_oom()) return NULL; q=realloc(p,n); if(p) live--; return q; }
#else
int sprintf(char *b,const char *f,...){ (void)f; b[0]='s'; b[1]=0; return 1; }
#endif
size_t MMG5_memSize(void){ return (size_t)1<<30; }
int X(memOption)(MMG5_pMesh mesh){ if(now && vf_bool()) return 0; mesh->npmax=mesh->np+2; mesh->ntmax=mesh->nt+2; mesh->memMax=MMG5_MEMMAX<<20;
#if LIB==3
  mesh->nemax=mesh->ne+2; mesh->ntmax=mesh->nt;
#else
  mesh->namax=mesh->na+1;
#endif
  return 1; }
#ifndef NAMES
/* names: a stand-in of the same memory behaviour */
static int name(MMG5_pMesh mesh,char **p){ if(*p) MMG5_DEL_MEM(mesh,*p); MMG5_ADD_MEM(mesh,4,"name",return 0); MMG5_SAFE_CALLOC(*p,4,char,return 0); return 1; }
int MMG5_Set_inputMeshName(MMG5_pMesh mesh,const char *n){ (void)n; return name(mesh,&mesh->namein); }
int MMG5_Set_outputMeshName(MMG5_pMesh mesh,const char *n){ (void)n; return name(mesh,&mesh->nameout); }
int MMG5_Set_inputSolName(MMG5_pMesh mesh,MMG5_pSol s,const char *n){ (void)n; return name(mesh,&s->namein); }
int MMG5_Set_outputSolName(MMG5_pMesh mesh,MMG5_pSol s,const char *n){ (void)n; return name(mesh,&s->nameout); }
#endif
static int msize(MMG5_pMesh m,int n){
#if LIB==1
  return MMG2D_Set_meshSize(m,n,1,0,1);
#elif LIB==2
  return MMGS_Set_meshSize(m,n,1,1);
#else
  return MMG3D_Set_meshSize(m,n,1,0,1,0,1);
#endif
}
static const int ops[]={OPS};
#define NOP ((int)(sizeof(ops)/sizeof(ops[0])))
static void run(int w,int st){
  MMG5_pMesh mesh=NULL; MMG5_pSol met=NULL,ls=NULL,disp=NULL,sols=NULL; int ok,i,typ[2]={MMG5_Scalar,MMG5_Vector};
  live=0; now=st==0;
#if LIB==2
  if((w&3)==0) ok=X(Init_mesh)(MMG5_ARG_start,MMG5_ARG_ppMesh,&mesh,MMG5_ARG_end);
  else if((w&3)==1) ok=X(Init_mesh)(MMG5_ARG_start,MMG5_ARG_ppMesh,&mesh,MMG5_ARG_ppMet,&met,MMG5_ARG_end);
  else if((w&3)==2) ok=X(Init_mesh)(MMG5_ARG_start,MMG5_ARG_ppLs,&ls,MMG5_ARG_ppMesh,&mesh,MMG5_ARG_end);
  else ok=X(Init_mesh)(MMG5_ARG_start,MMG5_ARG_ppMesh,&mesh,MMG5_ARG_ppMet,&met,MMG5_ARG_ppLs,&ls,MMG5_ARG_end);
#else
  if((w&7)==0) ok=X(Init_mesh)(MMG5_ARG_start,MMG5_ARG_ppMesh,&mesh,MMG5_ARG_end);
  else if((w&7)==1) ok=X(Init_mesh)(MMG5_ARG_start,MMG5_ARG_ppMet,&met,MMG5_ARG_ppMesh,&mesh,MMG5_ARG_end);
  else if((w&7)==2) ok=X(Init_mesh)(MMG5_ARG_start,MMG5_ARG_ppMesh,&mesh,MMG5_ARG_ppLs,&ls,MMG5_ARG_end);
  else if((w&7)==3) ok=X(Init_mesh)(MMG5_ARG_start,MMG5_ARG_ppMesh,&mesh,MMG5_ARG_ppMet,&met,MMG5_ARG_ppLs,&ls,MMG5_ARG_end);
  else if((w&7)==4) ok=X(Init_mesh)(MMG5_ARG_start,MMG5_ARG_ppMesh,&mesh,MMG5_ARG_ppDisp,&disp,MMG5_ARG_end);
  else if((w&7)==5) ok=X(Init_mesh)(MMG5_ARG_start,MMG5_ARG_ppMesh,&mesh,MMG5_ARG_ppDisp,&disp,MMG5_ARG_ppMet,&met,MMG5_ARG_end);
  else ok=X(Init_mesh)(MMG5_ARG_start,MMG5_ARG_ppMesh,&mesh,MMG5_ARG_ppMet,&met,MMG5_ARG_ppLs,&ls,MMG5_ARG_ppDisp,&disp,MMG5_ARG_end);
#endif
  int want=(mesh!=NULL)&&(!(w&1)||met)&&(!(w&2)||ls)&&(LIB==2||!(w&4)||disp);
  V_ASSERT(ok==want,"building reports failure exactly when a structure could not be allocated");
  now=0; if(st>0 && !ok) return;
  for(i=0;i<st&&i<NOP;i++){ now=i==st-1; switch(ops[i]){
    case 1: ok=msize(mesh,2); break;
    case 2: if(w&1) ok=X(Set_solSize)(mesh,met,MMG5_Vertex,mesh->np,i%2?MMG5_Tensor:MMG5_Scalar); break;
    case 3: if(w&2) ok=X(Set_solSize)(mesh,ls,MMG5_Vertex,mesh->np,MMG5_Scalar); break;
    case 4: if(w&4 && disp) ok=X(Set_solSize)(mesh,disp,MMG5_Vertex,mesh->np,MMG5_Vector); break;
    case 5: if(w&8) ok=X(Set_solsAtVerticesSize)(mesh,&sols,2,mesh->np,typ); break;
    case 6: ok=X(Set_iparameter)(mesh,met,X(IPARAM_numberOfLocalParam),2); break;
    case 7: ok=X(Set_iparameter)(mesh,met,X(IPARAM_numberOfMat),1); if(ok) ok=X(Set_multiMat)(mesh,met,1,MMG5_MMAT_Split,2,3); break;
    case 8: ok=X(Set_iparameter)(mesh,met,X(IPARAM_numberOfLSBaseReferences),1); if(ok) ok=X(Set_lsBaseReference)(mesh,met,4); break;
    case 9: ok=X(Set_inputMeshName)(mesh,"a.mesh")&&X(Set_outputMeshName)(mesh,"b"); break;
    case 10: if(w&1) ok=X(Set_inputSolName)(mesh,met,i%2?"":"c.sol")&&X(Set_outputSolName)(mesh,met,i%2?"":"d.sol"); break;
    default: break; } }
  now=0;
  if(!mesh){ V_ASSERT(live==0&&!met&&!ls&&!disp,"nothing is left when the mesh could not be allocated"); return; }
  { int f;
#if LIB==2
    if(!(w&2)) f=X(Free_all)(MMG5_ARG_start,MMG5_ARG_ppMesh,&mesh,MMG5_ARG_ppMet,&met,MMG5_ARG_ppSols,&sols,MMG5_ARG_end);
    else f=X(Free_all)(MMG5_ARG_start,MMG5_ARG_ppMesh,&mesh,MMG5_ARG_ppMet,&met,MMG5_ARG_ppLs,&ls,MMG5_ARG_ppSols,&sols,MMG5_ARG_end);
#else
    if(!(w&6)&&!(w&8)) f=X(Free_all)(MMG5_ARG_start,MMG5_ARG_ppMesh,&mesh,MMG5_ARG_ppMet,&met,MMG5_ARG_end);
    else f=X(Free_all)(MMG5_ARG_start,MMG5_ARG_ppMesh,&mesh,MMG5_ARG_ppMet,&met,MMG5_ARG_ppLs,&ls,MMG5_ARG_ppDisp,&disp,MMG5_ARG_ppSols,&sols,MMG5_ARG_end);
#endif
    V_ASSERT(f==1,"releasing succeeds"); V_ASSERT(!mesh&&!met&&!ls&&!disp&&!sols,"the user's pointers are reset"); V_ASSERT(live==0,"every block is released exactly once"); }
}
int main(void){ int st; for(st=0;st<=NOP;st++) run(W,st); V_WITNESS(); return 0; }
