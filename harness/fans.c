/* Traversals around a vertex of a triangulation: a fan of N triangles around a centre vertex.
 * LIB 1 planar, 2 surface. The fan is closed (CLOSED) or open; every start triangle and several numberings
 * are run; edge attributes and references are symbolic. */
#include "vf.h"
#if LIB==1
#include "libmmg2d.h"
#include "libmmg2d_private.h"
#else
#include "libmmgs.h"
#include "libmmgs_private.h"
int boulechknm(MMG5_pMesh mesh,MMG5_int start,int ip,MMG5_int *list);
#endif
static MMG5_Mesh M;
#define NR (N+!CLOSED)          /* ring vertices */
#define NT (N+2)                /* the fan, a neighbour outside, an element far away */
#define NP (NR+5)
static int W[NT+1][3],LOC[NT+1],K[N];
#ifdef VF_REPLAY
#define ARR(f,n,T) MMG5_SAFE_CALLOC(M.f,(n)+1,T,return)
#else
#define ARR(f,n,T) M.f=__CPROVER_allocate(((n)+1)*sizeof(T),1)
#endif
static void build(int v){
  int k,l,i,j; static MMG5_Mesh Z; M=Z; M.memMax=1000000; M.memCur=1000; M.info.imprim=-1; M.gap=0.2; M.dim=LIB==1?2:3; M.ver=2; M.np=NP; M.npmax=NP; M.nt=NT; M.ntmax=NT;
  ARR(point,NP,MMG5_Point); ARR(tria,NT,MMG5_Tria);
#ifdef VF_REPLAY
  MMG5_SAFE_CALLOC(M.adja,3*NT+5,MMG5_int,return);
#else
  M.adja=__CPROVER_allocate((3*NT+5)*sizeof(MMG5_int),1);
#endif
  int c=1+(v%NP); /* the centre */
#define RING(j) (1+(c+(j)%NR)%NP)
  /* fan triangle j is stored at a permuted position, with a varying first vertex */
  for(j=0;j<N;j++){ k=1+(j*(N%2?2:1)+v)%N; if(v%2) k=NT+1-k; K[j]=k; int r=(j*(v+1)+v)%3; LOC[k]=r; W[k][r]=c; W[k][(r+1)%3]=RING(j); W[k][(r+2)%3]=RING(j+1); }
  int ko=v%2?1:N+1,kf=v%2?2:N+2; /* outside neighbour across the outer edge of fan triangle 0; far triangle */
  W[ko][0]=RING(1); W[ko][1]=RING(0); W[ko][2]=1+(c+NR)%NP;
  W[kf][0]=1+(c+NR+1)%NP; W[kf][1]=1+(c+NR+2)%NP; W[kf][2]=1+(c+NR+3)%NP;
  for(k=1;k<=NP;k++) M.point[k].tag=0;
  for(k=1;k<=NT;k++){ for(i=0;i<3;i++){ M.tria[k].v[i]=W[k][i]; M.tria[k].edg[i]=vf_i32(); } M.tria[k].ref=vf_i32(); }
  for(k=1;k<=NT;k++) for(i=0;i<3;i++) for(l=1;l<=NT;l++) for(j=0;j<3;j++) if(k!=l && W[k][(i+1)%3]==W[l][(j+2)%3] && W[k][(i+2)%3]==W[l][(j+1)%3]) M.adja[3*(k-1)+1+i]=3*l+j; }
static int list[CAP+1],tl[CAP+1];
static void each(int v){
  int s,j,i,n;
  for(s=0;s<N;s++){ build(v); int k=K[s],r=LOC[k]; char opn=9; int c=W[k][r];
#define ONCE(n,e,what) { int seen[NT+1]={0}; int a; for(a=0;a<(n);a++){ int x=(e)/3; V_ASSERT(x>=1&&x<=NT,what ": an element"); V_ASSERT((e)%3==LOC[x]&&W[x][(e)%3]==c,what ": an element that holds the vertex, with its local index"); V_ASSERT(!seen[x],what ": each element once"); seen[x]=1; } V_ASSERT((n)==N,what ": every element"); }
    if(OPN==0){ n=MMG5_boulet(&M,k,r,list,LIB==2,&opn); ONCE(n,list[a],"ball"); V_ASSERT(list[0]/3==k,"ball: starts at the given element"); V_ASSERT(opn==!CLOSED,"ball: open or closed as it is");
      /* consecutive: element a+1 is reached from element a (closed) */
      if(CLOSED) for(i=0;i<N;i++){ int x=list[i]/3,y=list[(i+1)%N]/3; V_ASSERT(M.adja[3*(x-1)+1+(LOC[x]+1)%3]/3==y,"ball: turns around the vertex"); }
#if LIB==2
      M.point[c].tag|=MG_NOM; n=MMG5_boulet(&M,k,r,list,1,&opn); if(!CLOSED) V_ASSERT(n==0,"the open ball of a non-manifold vertex is refused"); else ONCE(n,list[a],"ball");
#endif
    }
    if(OPN==1){ n=MMG5_boulep(&M,k,r,M.adja,list,tl); V_ASSERT(n==NR,"every neighbour vertex"); V_ASSERT(list[0]==c,"the vertex itself first");
      int sv[NP+1]={0}; for(i=1;i<=n;i++){ V_ASSERT(list[i]>=1&&list[i]<=NP,"a vertex"); V_ASSERT(!sv[list[i]],"each neighbour once"); sv[list[i]]=1; } for(j=0;j<NR;j++) V_ASSERT(sv[RING(j)],"every neighbour");
      ONCE(N,3*tl[a]+LOC[tl[a]],"elements of the vertex list"); }
    if(OPN==2){ int32_t ng,nr; int wg=0,wr=0,w=0,a; uint16_t tg[NR]; int rf[NR];
      for(j=0;j<NR;j++){ tg[j]=vf_u16(); rf[j]=vf_i32(); for(a=1;a<=NT;a++) for(i=0;i<3;i++) if((W[a][(i+1)%3]==c&&W[a][(i+2)%3]==RING(j))||(W[a][(i+2)%3]==c&&W[a][(i+1)%3]==RING(j))){ M.tria[a].tag[i]=tg[j]; M.tria[a].edg[i]=rf[j]; } }
      n=MMG5_bouler(&M,M.adja,k,r,list,tl,&ng,&nr,CAP);
      for(j=0;j<NR;j++){ if(tg[j]&MG_GEO) wg++; else if(tg[j]&MG_REF) wr++; w+=(tg[j]&(MG_GEO|MG_REF))!=0; }
      V_ASSERT(n==w&&ng==wg&&nr==wr,"ridges and reference edges around the vertex are counted exactly");
      for(j=0;j<NR;j++){ int f=0; for(a=1;a<=NR;a++) if(a<=n&&list[a]==RING(j)){ f++; V_ASSERT(tl[a]==rf[j],"the reference of a special edge goes with it"); } V_ASSERT(f==((tg[j]&(MG_GEO|MG_REF))!=0),"exactly the special edges of the vertex are listed, once each"); } }
#if LIB==1
    if(OPN==3){ M.point[c].tag=0; n=MMG2D_boulep(&M,k,r,list); ONCE(n,list[a+1],"ball"); }
    if(OPN==4){ int ip1,ip2,a,e1=v%NR,e2=(v*2+1+e1)%NR; if(e2==e1) e2=(e1+1)%NR; uint16_t t1=vf_u16(); /* the two special edges */ V_ASSUME(MG_EDG(t1)); uint16_t t0=vf_u16(); V_ASSUME(!MG_EDG(t0));
      for(a=1;a<=NT;a++) for(i=0;i<3;i++){ M.tria[a].tag[i]=t0; for(j=0;j<NR;j++) if((j==e1||j==e2) && ((W[a][(i+1)%3]==c&&W[a][(i+2)%3]==RING(j))||(W[a][(i+2)%3]==c&&W[a][(i+1)%3]==RING(j)))) M.tria[a].tag[i]=t1; if(W[a][i]==c) M.tria[a].tag[i]=vf_u16(); }
      n=MMG2D_bouleendp(&M,k,r,&ip1,&ip2,list); ONCE(n,3*list[a]+LOC[list[a]],"ball of a line vertex");
      V_ASSERT((ip1==RING(e1)&&ip2==RING(e2))||(ip1==RING(e2)&&ip2==RING(e1)),"the two ends of the lines through the vertex"); }
#else
    if(OPN==5){ n=boulechknm(&M,k,r,list); /* collapse towards the next vertex: allowed when no other vertex is shared */
      if(n>0){ ONCE(n,list[a],"ball"); V_ASSERT(list[0]/3==k,"ball: starts at the given element"); } else { V_ASSERT(n==0,"no overflow"); V_ASSERT(CHKNM==0,"manifold configuration accepted"); } }
#endif
  } }
#ifdef OVER
/* a fan larger than the capacity: refused, never cut short */
static void over(void){
  int j; static MMG5_Mesh Z; M=Z; M.info.imprim=-1; M.np=N+2; M.nt=N;
  ARR(point,1,MMG5_Point);
#ifdef VF_REPLAY
  MMG5_SAFE_CALLOC(M.adja,3*N+5,MMG5_int,return);
#else
  M.adja=__CPROVER_allocate((3*N+5)*sizeof(MMG5_int),1);
#endif
  for(j=1;j<=N;j++){ M.adja[3*(j-1)+2]=CLOSED||j<N?3*(j%N+1)+2:0; M.adja[3*(j-1)+3]=CLOSED||j>1?3*((j+N-2)%N+1)+1:0; }
  char opn; V_ASSERT(MMG5_boulet(&M,N/2+1,0,list,0,&opn)==(N<CAP?N:0),"a ball larger than the list is refused, a smaller one is complete");
}
#endif
int main(void){
#ifdef OVER
  over();
#else
  int v; for(v=0;v<NV;v++) each(v);
#endif
  V_WITNESS(); return 0; }
