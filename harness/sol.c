/* Solution values. LIB 3/2/1, TYP 1 scalar 2 vector 3 tensor, OP 0 one field (set one), 1 one field (set all),
 * 2 several fields (set one), 3 several fields (set all), 4 declared layout. */
#include "vf.h"
#if LIB==3
#include "libmmg3d.h"
#include "libmmg3d_private.h"
#define F(x) MMG3D_##x
#define SZ(t) ((t)==MMG5_Scalar?1:(t)==MMG5_Vector?3:6)
#elif LIB==2
#include "libmmg2d.h"
#include "libmmg2d_private.h"
#define F(x) MMG2D_##x
#define SZ(t) ((t)==MMG5_Scalar?1:(t)==MMG5_Vector?2:3)
#else
#include "libmmgs.h"
#include "libmmgs_private.h"
#define F(x) MMGS_##x
#define SZ(t) ((t)==MMG5_Scalar?1:(t)==MMG5_Vector?3:6)
#endif
#define NP 3
#ifndef NPMAX
#define NPMAX 3
#endif
static MMG5_Mesh M; static MMG5_Sol S; static MMG5_pSol L;
#ifndef VF_REPLAY
int F(Set_inputSolName)(MMG5_pMesh m,MMG5_pSol s,const char *n){ (void)m;(void)s;(void)n; return 1; }
int F(Set_outputSolName)(MMG5_pMesh m,MMG5_pSol s,const char *n){ (void)m;(void)s;(void)n; return 1; }
#endif
static int typ(int t){ return t==1?MMG5_Scalar:t==2?MMG5_Vector:MMG5_Tensor; }
#define NF 3
static double w[NF][NP+1][6]; static int tt[NF],sz[NF];
static void fill(MMG5_pSol s,int f){
  for(int k=1;k<=NP;k++) for(int c=0;c<sz[f];c++) s->m[sz[f]*k+c]=w[f][k][c]=vf_num();
}
static void stored(MMG5_pSol s,int f){
  for(int k=1;k<=NP;k++) for(int c=0;c<sz[f];c++) V_ASSERT(s->m[sz[f]*k+c]==w[f][k][c],"value kept for its vertex");
  V_ASSERT(s->np==NP && s->size==sz[f] && s->type==tt[f] && s->npmax==NPMAX,"layout kept");
}
static int set1(MMG5_pSol s,int t,const double *v,MMG5_int pos){
  if(t==1) return F(Set_scalarSol)(s,v[0],pos);
#if LIB==2
  if(t==2) return F(Set_vectorSol)(s,v[0],v[1],pos);
  return F(Set_tensorSol)(s,v[0],v[1],v[2],pos);
#else
  if(t==2) return F(Set_vectorSol)(s,v[0],v[1],v[2],pos);
  return F(Set_tensorSol)(s,v[0],v[1],v[2],v[3],v[4],v[5],pos);
#endif
}
static int get1(MMG5_pSol s,int t,double *v){
  if(t==1) return F(Get_scalarSol)(s,v);
#if LIB==2
  if(t==2) return F(Get_vectorSol)(s,v,v+1);
  return F(Get_tensorSol)(s,v,v+1,v+2);
#else
  if(t==2) return F(Get_vectorSol)(s,v,v+1,v+2);
  return F(Get_tensorSol)(s,v,v+1,v+2,v+3,v+4,v+5);
#endif
}
static int setall(MMG5_pSol s,int t,double *v){ return t==1?F(Set_scalarSols)(s,v):t==2?F(Set_vectorSols)(s,v):F(Set_tensorSols)(s,v); }
static int getall(MMG5_pSol s,int t,double *v){ return t==1?F(Get_scalarSols)(s,v):t==2?F(Get_vectorSols)(s,v):F(Get_tensorSols)(s,v); }
int main(void){
  double v[6*NP],b[6*NP]; int k,c,f,n;
  M.np=NP; M.npi=NP; M.npmax=NPMAX; M.memMax=1000000; M.info.imprim=1; M.dim=LIB==2?2:3;
  M.info.hmin=vf_num(); M.info.hsiz=vf_num(); MMG5_Info e=M.info;
#if OP<2
  tt[0]=typ(TYP); sz[0]=SZ(tt[0]);
  V_ASSERT(F(Set_solSize)(&M,&S,MMG5_Vertex,NP,tt[0])==1,"declaring a solution");
  { int te,ts; MMG5_int np; V_ASSERT(F(Get_solSize)(&M,&S,&te,&np,&ts)==1 && te==MMG5_Vertex && np==NP && ts==tt[0],"declared layout is reported"); }
  V_ASSERT(M.memCur==sizeof(double)*sz[0]*(NPMAX+1),"memory of the solution is accounted");
  fill(&S,0);
  S.npi=NP;
#if OP==0
  MMG5_int pos=vf_range(1,NP);
  for(c=0;c<6;c++) v[c]=vf_num();
  for(k=1;k<=NP;k++) if(k==pos) for(c=0;c<sz[0];c++) w[0][k][c]=v[c];
  V_ASSERT(set1(&S,TYP,v,pos)==1,"setting a value");
#else
  for(k=0;k<sz[0]*NP;k++){ v[k]=vf_num(); w[0][1+k/sz[0]][k%sz[0]]=v[k]; }
  V_ASSERT(setall(&S,TYP,v)==1,"setting all values");
#endif
  stored(&S,0);
  for(k=1;k<=NP;k++){
    V_ASSERT(get1(&S,TYP,b)==1,"reading a value");
    for(c=0;c<sz[0];c++) V_ASSERT(b[c]==w[0][k][c],"value read for a vertex");
  }
  V_ASSERT(getall(&S,TYP,b)==1,"reading all values");
  for(k=0;k<sz[0]*NP;k++) V_ASSERT(b[k]==w[0][1+k/sz[0]][k%sz[0]],"values read for all vertices");
  stored(&S,0);
#elif OP==2 || OP==3
  const int T[NF]={TYP,TYP%3+1,(TYP+1)%3+1};
  for(f=0;f<NF;f++){ tt[f]=typ(T[f]); sz[f]=SZ(tt[f]); }
  V_ASSERT(F(Set_solsAtVerticesSize)(&M,&L,NF,NP,tt)==1,"declaring several solutions");
  { int ns,ts[NF]; MMG5_int np; V_ASSERT(F(Get_solsAtVerticesSize)(&M,&L,&ns,&np,ts)==1 && ns==NF && np==NP && ts[0]==tt[0] && ts[1]==tt[1] && ts[2]==tt[2],"declared layouts are reported"); }
  for(f=0;f<NF;f++) fill(L+f,f);
  for(int g=0;g<NF;g++){
#if OP==2
    MMG5_int pos=vf_range(1,NP);
    for(c=0;c<6;c++) v[c]=vf_num();
    for(k=1;k<=NP;k++) if(k==pos) for(c=0;c<sz[g];c++) w[g][k][c]=v[c];
    V_ASSERT(F(Set_ithSol_inSolsAtVertices)(L,g+1,v,pos)==1,"setting a value of a field");
#else
    for(k=0;k<sz[g]*NP;k++){ v[k]=vf_num(); w[g][1+k/sz[g]][k%sz[g]]=v[k]; }
    V_ASSERT(F(Set_ithSols_inSolsAtVertices)(L,g+1,v)==1,"setting all values of a field");
#endif
    for(f=0;f<NF;f++) stored(L+f,f);
  }
  for(f=0;f<NF;f++){
    for(k=NP;k>=1;k--){
      V_ASSERT(F(Get_ithSol_inSolsAtVertices)(L,f+1,b,k)==1,"reading a value of a field");
      for(c=0;c<sz[f];c++) V_ASSERT(b[c]==w[f][k][c],"value of a field read for a vertex");
    }
    V_ASSERT(F(Get_ithSols_inSolsAtVertices)(L,f+1,b)==1,"reading all values of a field");
    for(k=0;k<sz[f]*NP;k++) V_ASSERT(b[k]==w[f][1+k/sz[f]][k%sz[f]],"values of a field read for all vertices");
  }
#elif OP==4
  int te=vf_i32(), ts=vf_i32(); n=vf_range(0,1)?NP:0;
  S.size=1; S.type=1; S.dim=LIB==2?2:3;
  int ok = te==MMG5_Vertex && (ts==MMG5_Scalar||ts==MMG5_Vector||ts==MMG5_Tensor);
  V_ASSERT(F(Set_solSize)(&M,&S,te,n,ts)==ok,"layout accepted exactly for vertex solutions of a known type");
  if(ok){
    V_ASSERT(S.size==SZ(ts) && S.type==ts && S.dim==(LIB==2?2:3) && S.np==n && (n==0 || (S.m && S.npmax==NPMAX)),"layout");
    if(n) for(k=0;k<6;k++) if(k<SZ(ts)) S.m[SZ(ts)*NPMAX+k]=1.;
    int te2,ts2; MMG5_int np2;
    V_ASSERT(F(Get_solSize)(&M,&S,&te2,&np2,&ts2)==1 && te2==te && ts2==ts && np2==n,"declared layout is reported");
  }
#endif
  V_ASSERT(M.np==NP && M.npmax==NPMAX && M.info.hmin==e.hmin && M.info.hsiz==e.hsiz && M.info.imprim==1,"mesh and settings unchanged");
  V_WITNESS();
  return 0;
}
