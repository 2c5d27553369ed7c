/* Building adjacency from connectivity. OP 0 tetrahedra, 1 planar triangles, 2 surface triangles, 3 prisms.
 * NE elements over NV vertices; the vertices of the elements from FIX on are symbolic. */
#include "vf.h"
#if OP==1
#include "libmmg2d.h"
#include "libmmg2d_private.h"
#elif OP==2
#include "libmmgs.h"
#include "libmmgs_private.h"
#else
#include "libmmg3d.h"
#include "libmmg3d_private.h"
#endif
static MMG5_Mesh M;
#if OP==0
#define NC 4
#define NF 4
#define FV 3
#define EL M.tetra
static const int FC[4][4]={{1,2,3},{0,2,3},{0,1,3},{0,1,2}};
#define AD(k,f) M.adja[4*((k)-1)+1+(f)]
#elif OP==3
#define NC 6
#define NF 5
#define FV 4
#define EL M.prism
static const int FC[5][4]={{0,1,2,-1},{3,4,5,-1},{1,4,5,2},{0,2,5,3},{0,3,4,1}};
#define AD(k,f) M.adjapr[5*((k)-1)+1+(f)]
#else
#define NC 3
#define NF 3
#define FV 2
#define EL M.tria
static const int FC[3][4]={{1,2},{2,0},{0,1}};
#define AD(k,f) M.adja[3*((k)-1)+1+(f)]
#endif
#define NFT (NF*NE)
static int W[NE+1][NC];
/* same vertex set */
static int facev(int k,int f,int j){ return FC[f][j]<0?0:W[k][FC[f][j]]; }
static int samef(int k,int f,int l,int g){ int i,j,n=0; for(i=0;i<FV;i++){ int m=0; for(j=0;j<FV;j++) m|=facev(k,f,i)==facev(l,g,j); n+=m; } return n==FV; }
static int shared(int k,int f,int l,int g){ int i,j,n=0; for(i=0;i<FV;i++) for(j=0;j<FV;j++) n+=facev(k,f,i)&&facev(k,f,i)==facev(l,g,j); return n; }
static int run(int which){
  int k,l,f,g,i,j; static int same[NE+1][NF][NE+1][NF]; static MMG5_Mesh Z; M=Z; (void)which;
  M.memMax=1000000; M.memCur=1000; M.info.imprim=-1; M.gap=0.2; M.dim=OP==1?2:3; M.ver=2; M.np=NV; M.npmax=NV;
#ifdef VF_REPLAY
  MMG5_SAFE_CALLOC(M.point,NV+1,MMG5_Point,return 0);
#else
  M.point=__CPROVER_allocate((NV+1)*sizeof(MMG5_Point),1);
#endif
#if OP==0
  M.ne=NE; M.nemax=NE;
#ifdef VF_REPLAY
  MMG5_SAFE_CALLOC(M.tetra,NE+1,MMG5_Tetra,return 0);
#else
  M.tetra=__CPROVER_allocate((NE+1)*sizeof(MMG5_Tetra),1);
#endif
#elif OP==3
  M.nprism=NE;
#ifdef VF_REPLAY
  MMG5_SAFE_CALLOC(M.prism,NE+1,MMG5_Prism,return 0);
#else
  M.prism=__CPROVER_allocate((NE+1)*sizeof(MMG5_Prism),1);
#endif
#else
  M.nt=NE; M.ntmax=NE;
#ifdef VF_REPLAY
  MMG5_SAFE_CALLOC(M.tria,NE+1,MMG5_Tria,return 0);
#else
  M.tria=__CPROVER_allocate((NE+1)*sizeof(MMG5_Tria),1);
#endif
#endif
#ifdef LIST
  static const int LI[][NE][NC]={LIST};
#define PICK LI[which][k-1][i]
#else
  static const int INI[NE][NC]={INIT};
#endif
#ifdef TABLE
  static const int TB[][NC]={TABLE}; int sel=vf_range(0,sizeof(TB)/sizeof(TB[0])-1);
#define PICK TB[sel][i]
#elif !defined(LIST)
#define PICK vf_range(1,NV)
#endif
  for(k=1;k<=NE;k++){ for(i=0;i<NC;i++){ int v;
#ifdef LIST
    v=PICK;
#else
    v=k<=FIX?INI[k-1][i]:PICK;
#endif
 EL[k].v[i]=W[k][i]=v; for(j=0;j<i;j++) V_ASSUME(W[k][j]!=v); }
#if OP==2
    for(i=0;i<3;i++){ static const uint16_t TG[7]={0,MG_GEO,MG_REF,MG_BDY|MG_REQ,MG_GEO|MG_BDY,MG_CRN,MG_NOSURF|MG_REQ}; M.tria[k].tag[i]=TG[(3*k+i+which)%7]; M.tria[k].edg[i]=vf_i32(); } M.tria[k].ref=vf_i32();
#endif
  }
#if OP==2
  uint16_t tg[NE+1][3]; for(k=1;k<=NE;k++) for(i=0;i<3;i++) tg[k][i]=M.tria[k].tag[i];
#endif
  /* each face belongs to at most two elements (edges of surfaces: any number), no element twice */
  for(k=1;k<=NE;k++) for(f=0;f<NF;f++) for(l=1;l<k;l++) for(g=0;g<NF;g++) same[k][f][l][g]=same[l][g][k][f]=samef(k,f,l,g);
  for(k=1;k<=NE;k++) for(l=1;l<k;l++){ int n=0; for(f=0;f<NF;f++) for(g=0;g<NF;g++) n+=same[k][f][l][g]; V_ASSUME(n<=(OP==3?1:NC-2)); }
#if OP==3
  for(k=1;k<=NE;k++) for(f=0;f<NF;f++) for(l=1;l<k;l++) for(g=0;g<NF;g++) V_ASSUME(same[k][f][l][g]||shared(k,f,l,g)<=2); /* conforming: faces meet in a face, an edge, a vertex or not at all */
#endif
#if OP!=2
  for(k=1;k<=NE;k++) for(f=0;f<NF;f++){ int n=0; for(l=1;l<=NE;l++) if(l!=k) for(g=0;g<NF;g++) n+=same[k][f][l][g]; V_ASSUME(n<=1); }
#endif
#if OP==0
  V_ASSERT(MMG3D_hashTetra(&M,0)==1,"adjacency built");
#elif OP==1
  V_ASSERT(MMG2D_hashTria(&M)==1,"adjacency built");
#elif OP==2
  V_ASSERT(MMGS_hashTria(&M)==1,"adjacency built");
#else
  V_ASSERT(MMG3D_hashPrism(&M)==1,"adjacency built");
#endif
  for(k=1;k<=NE;k++) for(i=0;i<NC;i++) V_ASSERT(EL[k].v[i]==W[k][i],"connectivity unchanged");
  for(k=1;k<=NE;k++) for(f=0;f<NF;f++){ int n=0,w=0; for(l=1;l<=NE;l++) if(l!=k) for(g=0;g<NF;g++) if(same[k][f][l][g]){ n++; w=NF*l+g; }
#if OP==2
    int nm=(M.tria[k].tag[f]&MG_NOM)!=0; V_ASSERT((M.tria[k].tag[f]&~MG_NOM)==tg[k][f],"other attributes of the edge unchanged"); V_ASSERT(nm==(n>1),"an edge is non-manifold exactly when more than two triangles hold it");
    if(nm) V_ASSERT((M.point[W[k][(f+1)%3]].tag&MG_NOM)&&(M.point[W[k][(f+2)%3]].tag&MG_NOM),"ends of a non-manifold edge are non-manifold");
    if(n<=1)
#endif
    V_ASSERT(AD(k,f)==w,"neighbour across a face is the element that shares it"); (void)n; }
#if OP==2
  for(i=1;i<=NV;i++){ int n=0; for(k=1;k<=NE;k++) for(f=0;f<3;f++) if(M.tria[k].tag[f]&MG_NOM) n|=W[k][(f+1)%3]==i||W[k][(f+2)%3]==i; V_ASSERT(n==((M.point[i].tag&MG_NOM)!=0),"only the ends of non-manifold edges are non-manifold"); }
#endif
  return 0; }
int main(void){
#ifdef LIST
  int n; for(n=0;n<NLIST;n++) run(n);
#else
  run(0);
#endif
  V_WITNESS(); return 0; }
