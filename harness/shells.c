/* Traversals of a tetrahedral mesh around an edge or a vertex.
 * N tetrahedra around the edge a-b (CLOSED or open shell), one more across the face opposite to a, one far away.
 * OPN 0 coquil, 1 settag, 2 deltag, 3 srcbdy, 4 boulevolp, 5 boulesurfvolp, 6 coquilface, 7 ball of an inner vertex. */
#include "vf.h"
#include "libmmg3d.h"
#include "libmmg3d_private.h"
#ifndef V0
#define V0 0
#endif
static MMG5_Mesh M;
#if OPN==7
#define NR 6
#define NE 10
#define NB 8
#define NP 12
#else
#define NR (N+!CLOSED)
#define NE (N+2)
#define NB N
#define NP (NR+7)
#endif
static int W[NE+1][4],K[NB],A,B,AD[4*NE+5];
static const int EV[12][4]={{0,1,2,3},{1,2,0,3},{2,0,1,3},{0,3,1,2},{3,1,0,2},{1,0,3,2},{0,2,3,1},{2,3,0,1},{3,0,2,1},{1,3,2,0},{3,2,1,0},{2,1,3,0}};
static const int IE[6][2]={{0,1},{0,2},{0,3},{1,2},{1,3},{2,3}};
static int key(int k,int i){ int a,m=0; for(a=0;a<4;a++) if(a!=i) m|=1<<W[k][a]; return m; }
static int loc(int k,int p){ int i; for(i=0;i<4;i++) if(W[k][i]==p) return i; return -1; }
static int edg(int k,int a,int b){ int i; for(i=0;i<6;i++) if((W[k][IE[i][0]]==a&&W[k][IE[i][1]]==b)||(W[k][IE[i][0]]==b&&W[k][IE[i][1]]==a)) return i; return -1; }
static void put(int k,int p,int x0,int x1,int x2,int x3){ int x[4]={x0,x1,x2,x3},i; for(i=0;i<4;i++) W[k][EV[p%12][i]]=x[i]; }
#ifdef VF_REPLAY
#define ARR(f,n,T) MMG5_SAFE_CALLOC(M.f,(n)+1,T,return)
#else
#define ARR(f,n,T) M.f=__CPROVER_allocate(((n)+1)*sizeof(T),1)
#endif
static int V(int j,int v){ return 1+(j*5+v)%NP%NP; }
static int nm(int j,int v){ return 1+(j+v)%NP; }
/* bdf[k][f]: the face is marked as boundary. XT(k): the element stores boundary data */
static int bdf[NE+1][4],xt[NE+1];
static void shape(int v){ int k,l,i,j;
#if OPN==7
  static const int O[8][3]={{0,2,4},{2,1,4},{1,3,4},{3,0,4},{2,0,5},{1,2,5},{3,1,5},{0,3,5}};
  A=nm(0,v); B=0;
  for(j=0;j<8;j++){ K[j]=v%2?10-(j*3+v)%8:1+(j*3+v)%8; put(K[j],j*5+v,A,nm(1+O[j][0],v),nm(1+O[j][1],v),nm(1+O[j][2],v)); }
  put(v%2?1:9,v,nm(1+O[2][0],v),nm(1+O[2][2],v),nm(1+O[2][1],v),nm(7,v)); put(v%2?2:10,v+3,nm(8,v),nm(9,v),nm(10,v),nm(11,v));
#else
  A=nm(0,v); B=nm(1,v);
#define RING(j) nm(2+(j)%NR,v)
  for(j=0;j<N;j++){ K[j]=1+(j*(N%2?2:1)+v)%N; if(v%2) K[j]=NE+1-K[j]; put(K[j],j*5+v,A,B,RING(j),RING(j+1)); }
  put(v%2?1:N+1,v,B,RING(1),RING(0),nm(2+NR,v)); put(v%2?2:N+2,v+3,nm(3+NR,v),nm(4+NR,v),nm(5+NR,v),nm(6+NR,v));
#endif
  /* neighbours: same three vertices, opposite orientation is not looked at */
  for(k=0;k<4*NE+5;k++) AD[k]=0;
  for(k=1;k<=NE;k++) for(i=0;i<4;i++) for(l=1;l<k;l++) for(j=0;j<4;j++) if(key(k,i)==key(l,j)){ AD[4*(k-1)+1+i]=4*l+j; AD[4*(l-1)+1+j]=4*k+i; }
}
static void build(int v){
  int k,i; static MMG5_Mesh Z; M=Z; M.memMax=1000000; M.memCur=1000; M.info.imprim=-1; M.gap=0.2; M.dim=3; M.ver=2; M.np=NP; M.npmax=NP; M.ne=NE; M.nemax=NE; M.xt=NE; M.xtmax=NE;
  ARR(point,NP,MMG5_Point); ARR(tetra,NE,MMG5_Tetra); ARR(xtetra,NE,MMG5_xTetra);
#ifdef VF_REPLAY
  MMG5_SAFE_CALLOC(M.adja,4*NE+5,MMG5_int,return);
#else
  M.adja=__CPROVER_allocate((4*NE+5)*sizeof(MMG5_int),1);
#endif
  for(k=1;k<=NP;k++) M.point[k].tag=0;
  for(k=1;k<=NE;k++){ for(i=0;i<4;i++) M.tetra[k].v[i]=W[k][i]; M.tetra[k].ref=vf_i32(); }
  for(k=1;k<4*NE+5;k++) M.adja[k]=AD[k]; (void)v;
}
/* boundary data of the elements: outer faces are boundary faces; face after shell element INTF too (both sides) */
static void bdry(int intf,int v){
  int k,i,j,x=0; for(k=1;k<=NE;k++){ xt[k]=0; for(i=0;i<4;i++) bdf[k][i]=!M.adja[4*(k-1)+1+i]; }
#if OPN!=7
  if(intf>=0){ for(k=1;k<=NE;k++) for(i=0;i<4;i++){ int l=M.adja[4*(k-1)+1+i]/4; if(l && ((k==K[intf]&&l==K[(intf+1)%N])||(l==K[intf]&&k==K[(intf+1)%N]))) bdf[k][i]=1; } }
#endif
  for(k=1;k<=NE;k++){ int b=(k+v)%2; for(i=0;i<4;i++) b|=bdf[k][i]; if(b){ xt[k]=++x; M.tetra[k].xt=x; for(i=0;i<4;i++) M.xtetra[x].ftag[i]=bdf[k][i]?MG_BDY|(i+v)%3:0; for(j=0;j<6;j++){ M.xtetra[x].edg[j]=vf_range(0,15); M.xtetra[x].tag[j]=vf_u16(); } } } }
static int64_t list[CAP];
static MMG5_int ls[CAP];
static char bad(int64_t e,int q){ return e/q<1||e/q>NE; }
#define ONCE(n,e,q,L,what) { int seen[NE+1]={0}; int a_; for(a_=0;a_<(n)&&a_<NE;a_++){ int64_t y=(e)[a_]; V_ASSERT(!bad(y,q),what ": an element"); int x=y/q; V_ASSERT(L>=0&&y%q==L,what ": an element that holds it, with its local index"); V_ASSERT(!seen[x],what ": each element once"); seen[x]=1; } V_ASSERT((n)==NB,what ": every element"); }
static void each(int v){
  int s,j,i,k,n; shape(v);
  for(s=0;s<NB;s++){
#if OPN==0 || OPN==3
    int f; for(f=-1;f<NB-!CLOSED;f++){
#else
    int f=OPN!=5&&v%2?0:-1; {
#endif
    build(v); bdry(CLOSED||f<NB-1?f:-1,v); k=K[s]; int ia=OPN==7?0:edg(k,A,B);
#if OPN==0
    int8_t bd=7; n=MMG5_coquil(&M,k,ia,list,&bd); V_ASSERT(n%2==!CLOSED,"closed and open shells are told apart"); ONCE(n/2,list,6,edg(x,A,B),"shell"); V_ASSERT(bd==(!CLOSED||f>=0),"the edge is reported as boundary exactly when a boundary face holds it");
    if(CLOSED) V_ASSERT(list[0]/6==k,"shell: starts at the given element");
    { int r=vf_range(0,N-1); for(j=0;j<N;j++) if(j!=s) M.tetra[K[j]].tag=j==r?MG_REQ:0; n=MMG5_coquil(&M,k,ia,list,&bd); if(r!=s) V_ASSERT(n==0,"a shell with a required element is refused"); else V_ASSERT(n/2==N,"only a required element of the shell refuses it"); }
#elif OPN==1 || OPN==2
    uint16_t t=vf_u16(); int e=vf_range(0,15); static uint16_t t0[NE+1][6]; static int e0[NE+1][6]; int l;
    for(l=1;l<=NE;l++) if(xt[l]) for(j=0;j<6;j++){ t0[l][j]=M.xtetra[xt[l]].tag[j]; e0[l][j]=M.xtetra[xt[l]].edg[j]; }
    V_ASSERT((OPN==1?MMG5_settag(&M,k,ia,t,e):MMG5_deltag(&M,k,ia,t))==1,"shell travelled");
    for(l=1;l<=NE;l++) if(xt[l]) for(j=0;j<6;j++){ uint16_t w=t0[l][j]; int we=e0[l][j],q=edg(l,A,B);
      if(j==q){
#if OPN==1
        w|=t; if(((t0[l][j]&MG_REQ)&&!(t0[l][j]&MG_NOSURF))||((t&MG_REQ)&&!(t&MG_NOSURF))) w&=~MG_NOSURF; if(e>we) we=e;
#else
        int b=0; for(i=0;i<4;i++) if(i!=IE[q][0]&&i!=IE[q][1]) b|=bdf[l][i]; if(b) w&=~t;
#endif
      }
      V_ASSERT(M.xtetra[xt[l]].tag[j]==w,"the attribute reaches the edge in every element of its shell, and no other edge"); V_ASSERT(M.xtetra[xt[l]].edg[j]==we,"the reference reaches the edge in every element of its shell, and no other edge"); }
#elif OPN==3
    if(CLOSED) V_ASSERT(MMG5_srcbdy(&M,k,ia)==(f>=0),"the edge is reported as boundary exactly when a boundary face holds it"); else V_ASSERT(MMG5_srcbdy(&M,k,ia)==1,"an edge of an open shell is a boundary edge");
#elif OPN==4 || OPN==7
    n=MMG5_boulevolp(&M,k,loc(k,A),list); ONCE(n,list,4,loc(x,A),"ball"); V_ASSERT(list[0]/4==k,"ball: starts at the given element");
#elif OPN==5
    { int nv=-1,ns=-1,c; /* A is a boundary vertex: the faces opposite to B are outer faces */
      M.point[A].tag=MG_BDY; n=MMG5_boulesurfvolp(&M,k,loc(k,A),loc(k,B),list,&nv,ls,&ns,v%3==0); V_ASSERT(n==1,"balls found"); ONCE(nv,list,4,loc(x,A),"volume ball");
      int cnt=0; for(i=1;i<=NE;i++) for(j=0;j<4;j++) if(loc(i,A)>=0&&j!=loc(i,A)&&!M.adja[4*(i-1)+1+j]) cnt++;
      V_ASSERT(ns==cnt,"surface ball: every boundary face of the vertex"); for(c=0;c<ns&&c<4*NE;c++){ int x=ls[c]/4,y=ls[c]%4,d; V_ASSERT(x>=1&&x<=NE&&loc(x,A)>=0&&y!=loc(x,A)&&!M.adja[4*(x-1)+1+y],"surface ball: boundary faces that hold the vertex"); for(d=0;d<c;d++) V_ASSERT(ls[d]!=ls[c],"surface ball: each face once"); }
      V_ASSERT(ls[0]==4*k+loc(k,B),"surface ball: starts at the given face"); }
#endif
  } } }
int main(void){ int v; for(v=V0;v<NV;v++) each(v); V_WITNESS(); return 0; }
