/* Requests outside the declared sizes. LIB 3/2/1. N: declared number of each entity (0: not declared).
 * OP 0 vertices/normals 1 volume elements 2 surface elements 3 edges 4 solutions */
#include "vf.h"
#if LIB==3
#include "libmmg3d.h"
#include "libmmg3d_private.h"
#define F(n) MMG3D_##n
#elif LIB==2
#include "libmmg2d.h"
#include "libmmg2d_private.h"
#define F(n) MMG2D_##n
#else
#include "libmmgs.h"
#include "libmmgs_private.h"
#define F(n) MMGS_##n
#endif
#define X (N+1)
static MMG5_Mesh M,M0; static MMG5_Sol S,S0;
static MMG5_Point PT[X+1],PT0[X+1]; static MMG5_Tetra TE[X+1],TE0[X+1]; static MMG5_Prism PR[X+1],PR0[X+1];
static MMG5_Tria TR[X+1],TR0[X+1]; static MMG5_Quad QU[X+1],QU0[X+1]; static MMG5_Edge ED[X+1],ED0[X+1];
static double m[6*(X+1)],m0[6*(X+1)];
static void unchanged(void){
  int i,j;
  V_ASSERT(M.np==M0.np && M.ne==M0.ne && M.nt==M0.nt && M.na==M0.na && M.nprism==M0.nprism && M.nquad==M0.nquad && M.npmax==M0.npmax && M.nemax==M0.nemax && M.ntmax==M0.ntmax && M.namax==M0.namax,"sizes unchanged");
  V_ASSERT(M.point==M0.point && M.tetra==M0.tetra && M.tria==M0.tria && M.edge==M0.edge && M.prism==M0.prism && M.quadra==M0.quadra,"arrays unchanged");
  V_ASSERT(M.memCur==M0.memCur && M.memMax==M0.memMax && M.info.imprim==M0.info.imprim && M.info.ddebug==M0.info.ddebug && M.xt==M0.xt && M.xp==M0.xp,"settings unchanged");
  for(i=0;i<=X;i++){
    for(j=0;j<3;j++) V_ASSERT(PT[i].c[j]==PT0[i].c[j] && PT[i].n[j]==PT0[i].n[j],"vertex unchanged");
    V_ASSERT(PT[i].ref==PT0[i].ref && PT[i].tag==PT0[i].tag && PT[i].tmp==PT0[i].tmp && PT[i].flag==PT0[i].flag && PT[i].xp==PT0[i].xp,"vertex unchanged");
    for(j=0;j<4;j++) V_ASSERT(TE[i].v[j]==TE0[i].v[j],"tetrahedron unchanged");
    V_ASSERT(TE[i].ref==TE0[i].ref && TE[i].tag==TE0[i].tag,"tetrahedron unchanged");
    for(j=0;j<6;j++) V_ASSERT(PR[i].v[j]==PR0[i].v[j],"prism unchanged");
    V_ASSERT(PR[i].ref==PR0[i].ref && PR[i].tag==PR0[i].tag,"prism unchanged");
    for(j=0;j<3;j++) V_ASSERT(TR[i].v[j]==TR0[i].v[j] && TR[i].tag[j]==TR0[i].tag[j] && TR[i].edg[j]==TR0[i].edg[j],"triangle unchanged");
    V_ASSERT(TR[i].ref==TR0[i].ref && TR[i].base==TR0[i].base,"triangle unchanged");
    for(j=0;j<4;j++) V_ASSERT(QU[i].v[j]==QU0[i].v[j] && QU[i].tag[j]==QU0[i].tag[j],"quadrilateral unchanged");
    V_ASSERT(QU[i].ref==QU0[i].ref,"quadrilateral unchanged");
    V_ASSERT(ED[i].a==ED0[i].a && ED[i].b==ED0[i].b && ED[i].ref==ED0[i].ref && ED[i].tag==ED0[i].tag,"edge unchanged");
    for(j=0;j<6;j++) V_ASSERT(m[6*i+j]==m0[6*i+j],"solution unchanged");
  }
  V_ASSERT(S.np==S0.np && S.npmax==S0.npmax && S.size==S0.size && S.type==S0.type && S.m==S0.m,"solution layout unchanged");
}
int main(void){
  int i,j; MMG5_int v[6],pos,r; double d[6];
  /* stored contents are fixed, the arguments of the refused request are arbitrary */
  for(i=0;i<=X;i++){
    for(j=0;j<3;j++){ PT[i].c[j]=100*i+j; PT[i].n[j]=j; }
    PT[i].ref=40+i; PT[i].tag=MG_NUL; PT[i].tmp=5;
    for(j=0;j<4;j++){ TE[i].v[j]=50+j; QU[i].v[j]=60+j; QU[i].tag[j]=8; }
    TE[i].ref=70+i; QU[i].ref=80; for(j=0;j<6;j++) PR[i].v[j]=90+j;
    PR[i].ref=3; for(j=0;j<3;j++){ TR[i].v[j]=30+j; TR[i].tag[j]=16; }
    TR[i].ref=9; ED[i].a=11; ED[i].b=12; ED[i].ref=13; ED[i].tag=2;
    for(j=0;j<6;j++) m[6*i+j]=1000+6*i+j;
    PT0[i]=PT[i]; TE0[i]=TE[i]; PR0[i]=PR[i]; TR0[i]=TR[i]; QU0[i]=QU[i]; ED0[i]=ED[i]; for(j=0;j<6;j++) m0[6*i+j]=m[6*i+j];
  }
  M.np=M.ne=M.nt=M.na=M.nprism=M.nquad=N; M.npmax=M.nemax=M.ntmax=M.namax=N?N+vf_range(0,1):0;
#if N
  M.point=PT; M.tetra=TE; M.tria=TR; M.edge=ED; M.prism=PR; M.quadra=QU;
#endif
  M.dim=LIB==2?2:3; M.memMax=100000; M.memCur=50; M.info.imprim=vf_range(-5,5); M.info.ddebug=vf_bool();
  S.np=N; S.npmax=N?N+vf_range(0,1):0; S.m=N?&m[0]:0;
  for(j=0;j<6;j++){ v[j]=vf_i32(); d[j]=vf_num(); }
  r=vf_i32(); pos=vf_i32(); V_ASSUME(pos>N);
  S.type=MMG5_Scalar; S.size=1; S0=S; M0=M;
#define NO(c) V_ASSERT((c)==0,"refused: " #c); unchanged();
#if OP==0
#if LIB==2
  NO(F(Set_vertex)(&M,d[0],d[1],r,pos))
  { double a=1,b=2; MMG5_int q=3; int s=4,t=5; NO(F(GetByIdx_vertex)(&M,&a,&b,&q,&s,&t,pos)) V_ASSERT(a==1&&b==2&&q==3&&s==4&&t==5,"outputs untouched");
    MMG5_int z=vf_i32(); V_ASSUME(z<1); NO(F(GetByIdx_vertex)(&M,&a,&b,&q,&s,&t,z))
#if !N
    NO(F(Get_vertex)(&M,&a,&b,&q,&s,&t)+0*M.npi)
#endif
  }
#else
  NO(F(Set_vertex)(&M,d[0],d[1],d[2],r,pos))
  { double a=1,b=2,c=6; MMG5_int q=3; int s=4,t=5; NO(F(GetByIdx_vertex)(&M,&a,&b,&c,&q,&s,&t,pos)) V_ASSERT(a==1&&b==2&&c==6&&q==3&&s==4&&t==5,"outputs untouched");
    MMG5_int z=vf_i32(); V_ASSUME(z<1); NO(F(GetByIdx_vertex)(&M,&a,&b,&c,&q,&s,&t,z))
#if !N
    NO(F(Get_vertex)(&M,&a,&b,&c,&q,&s,&t)+0*M.npi)
#endif
  }
#endif
#elif OP==1
#if LIB==3
  NO(F(Set_tetrahedron)(&M,v[0],v[1],v[2],v[3],r,pos))
  NO(F(Set_prism)(&M,v[0],v[1],v[2],v[3],v[4],v[5],r,pos))
#if !N
  { int q; NO(F(Get_tetrahedron)(&M,v,v+1,v+2,v+3,&r,&q)) }
#endif
#endif
#elif OP==2
  NO(F(Set_triangle)(&M,v[0],v[1],v[2],r,pos))
#if LIB!=1
  NO(F(Set_quadrilateral)(&M,v[0],v[1],v[2],v[3],r,pos))
#endif
#if !N
  { int q; NO(F(Get_triangle)(&M,v,v+1,v+2,&r,&q)) }
#endif
#elif OP==3
  NO(F(Set_edge)(&M,v[0],v[1],r,pos))
#if !N
  { int q,s; NO(F(Get_edge)(&M,v,v+1,&r,&s,&q)) }
#endif
#else
  NO(F(Set_scalarSol)(&S,d[0],pos))
  NO(F(Set_ithSol_inSolsAtVertices)(&S,1,d,pos))
  { double g[6]={1,2,3,4,5,6}; NO(F(Get_ithSol_inSolsAtVertices)(&S,1,g,pos)) for(i=0;i<6;i++) V_ASSERT(g[i]==i+1,"outputs untouched"); }
#if !N
  NO(F(Set_scalarSols)(&S,d)) NO(F(Set_vectorSols)(&S,d)) NO(F(Set_tensorSols)(&S,d))
  { double g; NO(F(Get_scalarSol)(&S,&g)) }
#endif
#if LIB!=2
  S.type=MMG5_Vector; S.size=3; S0=S;
  NO(F(Set_vectorSol)(&S,d[0],d[1],d[2],pos))
  NO(F(Set_ithSol_inSolsAtVertices)(&S,1,d,pos))
  { double g[6]={1,2,3,4,5,6}; NO(F(Get_ithSol_inSolsAtVertices)(&S,1,g,pos)) for(i=0;i<6;i++) V_ASSERT(g[i]==i+1,"outputs untouched"); }
  S.type=MMG5_Tensor; S.size=6; S0=S;
  NO(F(Set_tensorSol)(&S,d[0],d[1],d[2],d[3],d[4],d[5],pos))
#else
  S.type=MMG5_Vector; S.size=2; S0=S;
  NO(F(Set_vectorSol)(&S,d[0],d[1],pos))
  NO(F(Set_ithSol_inSolsAtVertices)(&S,1,d,pos))
  { double g[6]={1,2,3,4,5,6}; NO(F(Get_ithSol_inSolsAtVertices)(&S,1,g,pos)) for(i=0;i<6;i++) V_ASSERT(g[i]==i+1,"outputs untouched"); }
  S.type=MMG5_Tensor; S.size=3; S0=S;
  NO(F(Set_tensorSol)(&S,d[0],d[1],d[2],pos))
#endif
  NO(F(Set_ithSol_inSolsAtVertices)(&S,1,d,pos))
  { double g[6]={1,2,3,4,5,6}; NO(F(Get_ithSol_inSolsAtVertices)(&S,1,g,pos)) for(i=0;i<6;i++) V_ASSERT(g[i]==i+1,"outputs untouched"); }
  S.type=MMG5_Notype; S0=S;
  NO(F(Set_ithSol_inSolsAtVertices)(&S,1,d,1)) NO(F(Set_ithSols_inSolsAtVertices)(&S,1,d)) NO(F(Get_ithSols_inSolsAtVertices)(&S,1,d))
#endif
  V_WITNESS();
  return 0;
}
