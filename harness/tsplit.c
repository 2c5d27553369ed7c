/* Triangle splits. LIB 2/1. OP 0 split1/2/3 by pattern FL, 1 split1b across an edge (I), 2 splitbar.
 * R1,R2 numbering of the two triangles, NEI neighbour present, GROW: no free triangle is left, FREE: free slots recycled */
#include "vf.h"
#if LIB==2
#include "libmmg2d.h"
#include "libmmg2d_private.h"
#else
#include "libmmgs.h"
#include "libmmgs_private.h"
#endif
#include "trichk.h"
#ifndef NEI
#define NEI 1
#endif
#ifndef GROW
#define GROW 0
#endif
static MMG5_Mesh M; static MMG5_Sol S;
#define NP 10
/* A B C D, then midpoints of AB BC CA BD DC, interior point of ABC */
static const double X[NP+1][2]={{0,0},{0,0},{4,0},{0,4},{4,4},{2,0},{2,2},{0,2},{4,2},{2,4},{1,1}};
static const MMG5_int T1[3]={1,2,3},T2[3]={4,3,2};
static MMG5_int mid(MMG5_int a,MMG5_int b){ MMG5_int k; for(k=5;k<=9;k++) if(2*X[k][0]==X[a][0]+X[b][0] && 2*X[k][1]==X[a][1]+X[b][1]) return k; return 0; }
static MMG5_Tria P[3]; static MMG5_Point PP[NP+1];
static void run(int R1,int R2,int FL,int IE,int grow,int nei){
  int i,k,n,ok=0; MMG5_int vx[3]={0,0,0};
  static MMG5_Mesh Z; M=Z;
  M.memMax=1000000; M.memCur=1000; M.info.imprim=-1; M.info.ddebug=0; M.gap=0.2; M.np=NP; M.npmax=NP; M.npi=NP; M.base=vf_i32();
  M.nt=nei?2:1; M.nti=M.nt; M.ntmax=grow==1?M.nt:grow==2?M.nt+1:M.nt+4; M.dim=LIB==2?2:3; M.ver=2;
#ifdef VF_REPLAY
  MMG5_SAFE_CALLOC(M.point,NP+1,MMG5_Point,return); MMG5_SAFE_CALLOC(M.tria,M.ntmax+1,MMG5_Tria,return); MMG5_SAFE_CALLOC(M.adja,3*M.ntmax+5,MMG5_int,return);
#else
  M.point=__CPROVER_allocate((NP+1)*sizeof(MMG5_Point),1); M.tria=__CPROVER_allocate((M.ntmax+1)*sizeof(MMG5_Tria),1); M.adja=__CPROVER_allocate((3*M.ntmax+5)*sizeof(MMG5_int),1);
#endif
  for(k=1;k<=NP;k++){ M.point[k].c[0]=X[k][0]; M.point[k].c[1]=X[k][1]; M.point[k].ref=vf_i32(); M.point[k].tag=vf_u16()&0x3fff; }
  for(i=0;i<3;i++){ M.tria[1].v[i]=T1[(i+R1)%3]; M.tria[1].edg[i]=vf_i32(); M.tria[1].tag[i]=vf_u16(); }
  M.tria[1].ref=vf_i32(); M.tria[1].base=vf_i32(); M.tria[1].cc=vf_i32();
  if(nei){ for(i=0;i<3;i++){ M.tria[2].v[i]=T2[(i+R2)%3]; M.tria[2].edg[i]=vf_i32(); M.tria[2].tag[i]=vf_u16(); } M.tria[2].ref=vf_i32();
    int i1=-1,i2=-1; for(i=0;i<3;i++){ if(M.tria[1].v[i]==1) i1=i; if(M.tria[2].v[i]==4) i2=i; }
    M.tria[2].edg[i2]=M.tria[1].edg[i1]; M.tria[2].tag[i2]=M.tria[1].tag[i1];
    M.adja[1+i1]=3*2+i2; M.adja[3+1+i2]=3*1+i1; }
  /* free triangles, with leftovers of earlier use */
  M.nenil=M.nt<M.ntmax?M.nt+1:0;
  for(k=M.nt+1;k<=M.ntmax;k++){ M.tria[k].v[2]=k<M.ntmax?k+1:0; M.tria[k].ref=vf_i32(); for(i=0;i<3;i++){ M.tria[k].edg[i]=vf_i32(); M.tria[k].tag[i]=vf_u16(); M.adja[3*(k-1)+1+i]=0; } }
  P[1]=M.tria[1]; P[2]=M.tria[2]; for(k=1;k<=NP;k++) PP[k]=M.point[k];
#if OP==0
  n=0; for(i=0;i<3;i++) if(FL&(1<<i)){ vx[i]=mid(P[1].v[nx(i)],P[1].v[pv(i)]); n++; }
  M.tria[1].flag=FL; S.size=1;
#if LIB==2
  ok= n==1?MMG2D_split1(&M,&S,1,vx):n==2?MMG2D_split2(&M,&S,1,vx):MMG2D_split3(&M,&S,1,vx);
#else
  i= FL==1?0:FL==2?1:2;
  ok= n==1?MMGS_split1(&M,&S,1,i,vx):n==2?MMGS_split2(&M,&S,1,vx):MMGS_split3(&M,&S,1,vx);
#endif
  V_ASSERT(ok==1,"split succeeds");
  for(k=1;k<=NP;k++){ int e=-1; for(i=0;i<3;i++) if(vx[i]==k) e=i;
    V_ASSERT(M.point[k].c[0]==PP[k].c[0]&&M.point[k].c[1]==PP[k].c[1]&&M.point[k].tag==PP[k].tag,"vertices not moved or tagged");
    if(e>=0&&P[1].edg[e]>0) V_ASSERT(M.point[k].ref==P[1].edg[e],"new vertex takes the reference of its edge"); else V_ASSERT(M.point[k].ref==PP[k].ref,"vertex keeps its reference"); }
  V_ASSERT(pieces(&M,&P[1],1)==n+1,"number of pieces");
  if(nei){ for(i=0;i<3;i++) V_ASSERT(M.tria[2].v[i]==P[2].v[i]&&M.tria[2].edg[i]==P[2].edg[i]&&M.tria[2].tag[i]==P[2].tag[i],"other triangle unchanged"); V_ASSERT(M.tria[2].ref==P[2].ref,"other triangle unchanged"); }
  for(n=0,k=1;k<=M.nt;k++) if(M.tria[k].v[0]>0) n++;
  { int c=0; for(i=0;i<3;i++) if(vx[i]) c++; V_ASSERT(n==(nei?2:1)+c,"number of triangles"); }
#elif OP==1
  MMG5_int ip=mid(P[1].v[nx(IE)],P[1].v[pv(IE)]); int shared=nei&&P[1].v[IE]==1;
#if LIB==2
  ok=MMG2D_split1b(&M,1,IE,ip);
#else
  ok=split1b(&M,1,IE,ip);
#endif
  V_ASSERT(ok==1,"split succeeds");
  for(k=1;k<=NP;k++){ V_ASSERT(M.point[k].c[0]==PP[k].c[0]&&M.point[k].c[1]==PP[k].c[1],"vertices not moved");
    if(k!=ip) V_ASSERT(M.point[k].ref==PP[k].ref&&M.point[k].tag==PP[k].tag,"other vertices unchanged"); }
#if LIB==1
  V_ASSERT(M.point[ip].ref==(P[1].edg[IE]?P[1].edg[IE]:PP[ip].ref) && M.point[ip].tag==(P[1].tag[IE]?P[1].tag[IE]:PP[ip].tag),"new vertex takes the reference and tag of its edge");
#endif
  V_ASSERT(pieces(&M,&P[1],1)==2,"number of pieces");
  if(nei) V_ASSERT(pieces(&M,&P[2],1)==1+shared,"number of pieces of the neighbour");
  adjexact(&M);
  for(n=0,k=1;k<=M.nt;k++) if(M.tria[k].v[0]>0) n++;
  V_ASSERT(n==(nei?2:1)+1+shared,"number of triangles");
#else
  ok=MMG2D_splitbar(&M,1,10);
  V_ASSERT(ok==1,"insertion succeeds");
  for(k=1;k<=NP;k++) V_ASSERT(M.point[k].c[0]==PP[k].c[0]&&M.point[k].c[1]==PP[k].c[1]&&M.point[k].ref==PP[k].ref&&M.point[k].tag==PP[k].tag,"vertices unchanged");
  V_ASSERT(pieces(&M,&P[1],1)==3,"number of pieces");
  if(nei) V_ASSERT(pieces(&M,&P[2],1)==1,"neighbour unchanged");
  adjexact(&M);
#endif
  /* free list: distinct free slots */
  { MMG5_int f=M.nenil; int c=0; while(f){ V_ASSERT(f>=1&&f<=M.ntmax&&!(M.tria[f].v[0]>0),"free slot is free"); f=M.tria[f].v[2]; c++; if(c>M.ntmax) break; }
    V_ASSERT(c<=M.ntmax,"free list ends"); }
}
int main(void){
#if OP==0
  static const int fl[7]={1,2,4,3,5,6,7};
  for(int p=0;p<7;p++) run(0,p%3,fl[p],0,GROW,NEI);
#elif OP==1
  for(int i=0;i<3;i++) for(int r=0;r<3;r++) run(i,(i+r)%3,0,r,GROW,NEI);
#else
  for(int r=0;r<3;r++) run(r,(r+1)%3,0,0,GROW,NEI);
#endif
  V_WITNESS();
  return 0;
}
