/* Edge swaps and vertex collapses on triangle patches. LIB 2/1; OP 0 swap, 1 protected edge, 2 collapse, 3 swap decision, 4 delaunay swap.
 * The connectivity of the patch is concrete and enumerated; references, edge references and tags are symbolic. */
#include "vf.h"
#if LIB==2
#include "libmmg2d.h"
#include "libmmg2d_private.h"
#define swapar MMG2D_swapar
#define COLVER(m,l,n) MMG2D_colver(m,n,l)
#define colver3 MMG2D_colver3
#define colver2 MMG2D_colver2
#else
#include "libmmgs.h"
#include "libmmgs_private.h"
#include "mmgsexterns_private.h"
#define COLVER(m,l,n) colver(m,l,n)
#endif
#include "trichk.h"
#ifndef NTX
#define NTX 8
#endif
#define NPX 14
static MMG5_Mesh M; static MMG5_Sol S;
static MMG5_Tria O[NTX+1]; static MMG5_Point OP_[NPX+1]; static MMG5_int ADJ[3*NTX+4];
static void newmesh(int np){ int k; static MMG5_Mesh Z; M=Z; M.memMax=1000000; M.memCur=1000; M.info.imprim=-1; M.gap=0.2; M.dim=LIB==2?2:3; M.ver=2;
  M.np=np; M.npi=np; M.npmax=np+2; M.nt=0; M.ntmax=NTX; M.base=7;
#ifdef VF_REPLAY
  MMG5_SAFE_CALLOC(M.point,NPX+4,MMG5_Point,return); MMG5_SAFE_CALLOC(M.tria,NTX+1,MMG5_Tria,return); MMG5_SAFE_CALLOC(M.adja,3*NTX+5,MMG5_int,return);
#else
  M.point=__CPROVER_allocate((NPX+4)*sizeof(MMG5_Point),1); M.tria=__CPROVER_allocate((NTX+1)*sizeof(MMG5_Tria),1); M.adja=__CPROVER_allocate((3*NTX+5)*sizeof(MMG5_int),1);
#endif
  for(k=1;k<=np;k++){ M.point[k].ref=vf_i32(); M.point[k].tag=vf_u16()&0x3fff&(~MG_NUL); M.point[k].tmp=0; M.point[k].c[0]=k; M.point[k].c[1]=2*k; }
  M.npnil=np+1; M.point[np+1].tag=MG_NUL; M.point[np+1].tmp=0;
}
/* adds a triangle, written from corner rot */
static int add(int a,int b,int c,int rot){ int w[3]={a,b,c},i; M.nt++; for(i=0;i<3;i++) M.tria[M.nt].v[i]=w[(i+rot)%3]; return M.nt; }
static int corner(const MMG5_Tria *t,int v){ int i; for(i=0;i<3;i++) if(t->v[i]==v) return i; return -1; }
/* adjacency from the vertices; attributes: every edge arbitrary, the same on its two sides; the rest of the triangle array is the free list */
static void finish(MMG5_int ref){ int k,l,i,j,nt=(int)M.nt; int w[NTX+1][3];
  for(k=1;k<=nt;k++) for(i=0;i<3;i++) w[k][i]=(int)M.tria[k].v[i];
  for(k=1;k<=nt;k++){ M.tria[k].ref=ref; for(i=0;i<3;i++){ int a=w[k][nx(i)],b=w[k][pv(i)]; int f=0;
    for(l=1;l<k;l++) for(j=0;j<3;j++) if(w[l][nx(j)]==b&&w[l][pv(j)]==a){ M.adja[3*(k-1)+1+i]=3*l+j; M.adja[3*(l-1)+1+j]=3*k+i;
      M.tria[k].edg[i]=M.tria[l].edg[j]; M.tria[k].tag[i]=M.tria[l].tag[j]; f=1; }
    if(!f){ int32_t e=vf_i32(); V_ASSUME(e>=0); M.tria[k].edg[i]=e; M.tria[k].tag[i]=vf_u16(); } } }
  M.nenil=nt+1; for(k=nt+1;k<=NTX;k++) M.tria[k].v[2]=k<NTX?k+1:0; M.nti=nt; }
static void setedge(int a,int b,int tag,MMG5_int edg){ int k,i; for(k=1;k<=M.nt;k++) for(i=0;i<3;i++){ MMG5_int p=M.tria[k].v[nx(i)],q=M.tria[k].v[pv(i)]; if((p==a&&q==b)||(p==b&&q==a)){ M.tria[k].tag[i]=tag; M.tria[k].edg[i]=edg; } } }
static void save(void){ int k,i; for(k=1;k<=NTX;k++){ O[k]=M.tria[k]; for(i=0;i<3;i++) ADJ[3*(k-1)+1+i]=M.adja[3*(k-1)+1+i]; } for(k=1;k<=M.np;k++) OP_[k]=M.point[k]; }
static void release(void){
#ifdef VF_REPLAY
  MMG5_SAFE_FREE(M.point); MMG5_SAFE_FREE(M.tria); MMG5_SAFE_FREE(M.adja);
#endif
}
static void sametria(int k){ int i; for(i=0;i<3;i++){ V_ASSERT(M.tria[k].v[i]==O[k].v[i],"vertices of the other triangles are unchanged"); V_ASSERT(M.tria[k].tag[i]==O[k].tag[i]&&M.tria[k].edg[i]==O[k].edg[i],"edge attributes of the other triangles are unchanged"); } V_ASSERT(M.tria[k].ref==O[k].ref,"references of the other triangles are unchanged"); }
static void samepoint(int k,int tag){ V_ASSERT(M.point[k].ref==OP_[k].ref&&M.point[k].c[0]==OP_[k].c[0]&&M.point[k].c[1]==OP_[k].c[1],"vertex data unchanged"); if(tag) V_ASSERT(M.point[k].tag==OP_[k].tag,"vertex tag unchanged"); }
static void unchanged(int nt,int np){ int k,i; V_ASSERT(M.nt==nt&&M.np==np,"no entity created or removed"); for(k=1;k<=nt;k++){ sametria(k); for(i=0;i<3;i++) V_ASSERT(M.adja[3*(k-1)+1+i]==ADJ[3*(k-1)+1+i],"adjacency unchanged"); } for(k=1;k<=np;k++) samepoint(k,1); }
#if OP==0||OP==1||OP==3||OP==4
/* T1=(1,2,3) T2=(4,3,2); neighbours over 31,12,24,43 with outer vertices 5,6,7,8 */
static int outer(int m,int v){ int s=0; (void)m; return v+s; }
static void patch(int ra,int rb,int mask,int lost){ int n5=5,n7=7;
  newmesh(8); add(1,2,3,ra); add(4,3,2,rb);
  if(lost==1) n5=4; if(lost==2) n7=1;
  if(mask&1) add(n5,1,3,mask%3); if(mask&2) add(6,2,1,1); if(mask&4) add(n7,4,2,ra); if(mask&8) add(8,3,4,rb);
  finish(vf_i32()); (void)outer; }
static void pairok(int k,int l,MMG5_int ref){ int i,e,j,c=0; int q[2]={k,l}; int seen=0;
  /* outer edges in order 31 12 24 43; their original attributes */
  static const int E[4][2]={{3,1},{1,2},{2,4},{4,3}};
  for(c=0;c<2;c++){ MMG5_Tria *t=&M.tria[q[c]]; V_ASSERT(t->ref==ref,"swapped triangles keep the reference");
    int has2=corner(t,2)>=0,has3=corner(t,3)>=0; V_ASSERT(corner(t,1)>=0&&corner(t,4)>=0&&has2!=has3,"swapped triangles hold the new edge and one old end"); seen+= has2?1:2;
    for(i=0;i<3;i++){ int a=t->v[nx(i)],b=t->v[pv(i)],f=-1; for(e=0;e<4;e++) if(E[e][0]==a&&E[e][1]==b) f=e;
      if(f>=0){ int s= f<2?1:2; for(j=0;j<3;j++) if(O[s].v[nx(j)]==a&&O[s].v[pv(j)]==b) V_ASSERT(t->tag[i]==O[s].tag[j]&&t->edg[i]==O[s].edg[j],"outer edge keeps its attributes"); }
      else { V_ASSERT((a==1&&b==4)||(a==4&&b==1),"orientation kept"); V_ASSERT(t->tag[i]==0&&t->edg[i]==0,"new edge carries no attribute"); } } }
  V_ASSERT(seen==3,"both halves present"); }
#endif
#if OP==0
static void runsw(int ra,int rb,int mask,int side,int lost){ int i,k,r,nt; 
  patch(ra,rb,mask,lost); setedge(2,3,
#ifdef TAGGED
    MG_CRN
#else
    0
#endif
    ,0); save(); nt=M.nt;
  int me=side?2:1, ot=side?1:2; i=corner(&M.tria[me],side?4:1);
  r=swapar(&M,me,i);
  int refuse=0;
#if LIB==1
  /* the surface library refuses when a needed neighbour is missing or when two triangles would become folded onto each other */
  { int k11=ADJ[3*(me-1)+1+nx(i)]; int j=ADJ[3*(me-1)+1+i]%3; int k21=ADJ[3*(ot-1)+1+nx(j)];
    if(k11<3||k21<3) refuse=1; if(lost) refuse= refuse||(k11>=3&&O[k11/3].v[k11%3]==O[ot].v[j])||(k21>=3&&O[k21/3].v[k21%3]==O[me].v[i]); }
#endif
  V_ASSERT(r==!refuse,"result of the swap");
  if(!r){ unchanged(nt,8); release(); return; }
  V_ASSERT(M.nt==nt&&M.np==8,"no entity created or removed");
  pairok(1,2,O[1].ref); for(k=3;k<=nt;k++) sametria(k); for(k=1;k<=8;k++) samepoint(k,1);
  adjexact(&M); release(); }
int main(void){ int ra,rb,m;
#ifdef LOST
  for(ra=0;ra<3;ra++) for(rb=0;rb<3;rb++) runsw(ra,rb,SIDE?13:7,SIDE,SIDE?2:1);
  for(ra=0;ra<3;ra++) runsw(ra,(ra+1)%3,SIDE?7:13,!SIDE,SIDE?1:2);
#elif MLO==15
  for(ra=0;ra<3;ra++) for(rb=0;rb<3;rb++) runsw(ra,rb,15,SIDE,0);
#elif MLO==0
  for(m=0;m<15;m++) runsw(m%3,(m/3)%3,m,SIDE,0);
#else
  for(ra=0;ra<3;ra++) for(rb=0;rb<3;rb++) for(m=0;m<15;m++) runsw(ra,rb,m,SIDE,0);
#endif
  V_WITNESS(); return 0; }
#elif OP==1
/* protected edge: nothing happens */
static int proposed(int k,int i){
#if LIB==2
  return MMG2D_chkswp(&M,&S,k,i,2);
#else
  return chkswp(&M,&S,k,i,2,NULL,MMG5_caltri_iso);
#endif
}
int main(void){ int ra,rb,i,k,r,nt,w; static const int B[4]={MG_GEO,MG_REF,MG_REQ,MG_NOM};
  for(ra=0;ra<3;ra++) for(rb=0;rb<3;rb++) for(w=0;w<2;w++){ uint16_t t; MMG5_int e;
    if(w&&ra!=rb) continue;
    patch(ra,rb,15,0); t=vf_u16(); V_ASSUME(t&(LIB==2?MG_GEO|MG_REF|MG_REQ:MG_GEO|MG_REF|MG_REQ|MG_NOM)); e=vf_i32(); setedge(2,3,t,e); nt=M.nt; save(); k=w?2:1; i=corner(&M.tria[k],w?4:1);
    r=swapar(&M,k,i); V_ASSERT(r==0,"a protected edge is not swapped"); unchanged(nt,8); release(); }
  for(w=1;w<(LIB==2?8:16);w++){ int t=0,q; for(q=0;q<4;q++) if(w&(1<<q)) t|=B[q];
    for(r=0;r<2;r++){ patch(w%3,r,15,0); setedge(2,3,r?t:t|MG_BDY,vf_i32()); nt=M.nt; save(); k=r?2:1; i=corner(&M.tria[k],r?4:1);
      V_ASSERT(proposed(k,i)==0,"the swap of a protected edge is not proposed"); unchanged(nt,8); release(); } }
  /* boundary edge: no triangle on the other side */
  for(ra=0;ra<3;ra++){ newmesh(3); add(1,2,3,ra); finish(vf_i32()); nt=1; save(); i=corner(&M.tria[1],1);
    r=proposed(1,i); V_ASSERT(r==0,"a boundary edge is not swapped"); unchanged(nt,3); release(); }
  V_WITNESS(); return 0; }
#elif OP==4
/* MMG2D_swapdelone: reference and edge references follow; convexity and quality arbitrary verdicts */
double MMG2D_caltri_iso(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pTria t){ return vf_f64(); }
int main(void){ int ra,rb,m,i,k,r,nt; static const double C[9][2]={{0,0},{0,0},{4,0},{0,4},{4,4},{-1,1},{1,-1},{6,1},{1,6}};
  for(ra=0;ra<3;ra++) for(rb=0;rb<3;rb++) for(m=MLO;m<16;m+=5){ MMG5_int list[8]={0}; int refd=(m&1)&&ra==2; int e;
    patch(ra,rb,m,0); for(k=1;k<=8;k++){ M.point[k].c[0]=C[k][0]; M.point[k].c[1]=C[k][1]; } for(k=1;k<=M.nt;k++) for(e=0;e<3;e++) M.tria[k].tag[e]=0;
    setedge(2,3,0,0); if(refd){ M.tria[2].ref=vf_i32(); V_ASSUME(M.tria[2].ref!=M.tria[1].ref); } nt=M.nt; save();
    i=corner(&M.tria[1],1); r=MMG2D_swapdelone(&M,&S,1,i,vf_f64(),list);
    if(refd) V_ASSERT(r==0,"an interface edge is not swapped");
    if(!r) unchanged(nt,8); else { V_ASSERT(r==1&&list[1]==1&&list[2]==2,"swapped triangles are listed"); V_ASSERT(M.nt==nt&&M.np==8,"no entity created or removed"); pairok(1,2,O[1].ref); for(k=3;k<=nt;k++) sametria(k); for(k=1;k<=8;k++) samepoint(k,1); adjexact(&M); }
    release(); }
  V_WITNESS(); return 0; }
#elif OP==2
/* ball of vertex 1: ring vertices 2..; NB triangles, closed or open; collapse 1 -> ring[0] */
static void runcol(int nb,int open,int mask,int rot){ int k,n,i,j,nr=open?nb+1:nb,ring[9],nt,r,list[10]; MMG5_int lst[10];
  for(k=0;k<nr;k++) ring[k]=2+k;
  newmesh(1+nr);
  for(k=0;k<nb;k++) add(1,ring[k],ring[(k+1)%nr],(rot>>k)%3);
  { int x=1+nr; M.np=x; }
  /* outer neighbours: over ring edge k when the bit is set; their third vertex is a fresh one shared by nobody else: use vertex of a separate point */
  for(k=0;k<nb;k++) if(mask&(1<<k)){ int o=M.np+1; M.np=o; M.npi=o; M.point[o].ref=vf_i32(); M.point[o].tag=vf_u16()&0x3fff&(~MG_NUL); M.point[o].c[0]=o; M.point[o].c[1]=2*o; M.point[o].tmp=0; add(o,ring[(k+1)%nr],ring[k],(k+rot)%3); }
  M.npnil=M.np+1; M.point[M.np+1].tag=MG_NUL; M.point[M.np+1].tmp=0;
  finish(vf_i32());
#if LIB==2||1
  if(nb==2) setedge(1,ring[1],0,0);
#endif
  nt=M.nt; n=M.np; save();
  for(k=0;k<nb;k++) lst[k]=3*(k+1)+corner(&M.tria[k+1],1);
  if(nb==2) r=colver2(&M,lst); else if(nb==3&&!open) r=colver3(&M,lst); else r=COLVER(&M,lst,nb);
  V_ASSERT(r==1,"collapse succeeds");
  int tgt=ring[0],d0=1,d1=open?0:nb;
#if LIB==1
  if(nb==2){ tgt=ring[2]; d0=0; d1=2; }
#endif
  /* vertices */
  V_ASSERT(M.point[1].tag&MG_NUL,"the vertex is removed"); V_ASSERT(M.npnil==1&&M.point[1].tmp==n+1,"the vertex is free again"); V_ASSERT(M.np==n,"other vertices remain");
  for(k=2;k<=n;k++){ samepoint(k,k!=tgt); if(k==tgt) V_ASSERT((M.point[k].tag&OP_[k].tag)==OP_[k].tag&&(M.point[k].tag&~(OP_[k].tag|OP_[1].tag))==0,"target keeps its tags"); }
  /* elements */
  for(k=1;k<=nt;k++){ MMG5_Tria *t=&M.tria[k]; int dead=k==d0||k==d1;
    if(dead){ V_ASSERT(k>M.nt||!MG_EOK(t),"elements holding both vertices are removed"); continue; }
    V_ASSERT(k<=M.nt&&MG_EOK(t),"other elements remain"); V_ASSERT(t->ref==O[k].ref,"references kept");
    for(i=0;i<3;i++) V_ASSERT(t->v[i]==(O[k].v[i]==1?tgt:O[k].v[i]),"only the vertex is replaced");
    for(i=0;i<3;i++){ int a=O[k].v[nx(i)],b=O[k].v[pv(i)]; int aa=a==1?tgt:a,bb=b==1?tgt:b; uint16_t tg=O[k].tag[i]; MMG5_int eg=O[k].edg[i]; int l;
      /* merged with the edge of a removed element? */
      for(l=1;l<=nt;l++) if(l==d0||l==d1){ int jt=corner(&O[l],tgt),j1=corner(&O[l],1),w=3-jt-j1; int x=O[l].v[w];
        if((aa==x&&bb==tgt)||(bb==x&&aa==tgt)){ /* edges (1,x) and (tgt,x) become one */
          tg=O[l].tag[j1]|O[l].tag[jt]; eg=MG_MAX(O[l].edg[j1],O[l].edg[jt]);
        } }
      V_ASSERT(t->tag[i]==tg,"edge keeps its tags, merged edges carry both"); V_ASSERT(t->edg[i]==eg,"edge keeps its reference"); } }
  { int nl=0; MMG5_int f=M.nenil; if(d0){ V_ASSERT(f==(d1?d1:d0),"removed element is free again"); f=M.tria[f].v[2]; if(d1){ V_ASSERT(f==d0,"removed element is free again"); f=M.tria[f].v[2]; } } else { V_ASSERT(f==d1,"removed element is free again"); f=M.tria[f].v[2]; } V_ASSERT(f==nt+1,"free list keeps the rest"); (void)nl; (void)j; (void)list; }
  adjexact(&M); release(); }
int main(void){ int m,q,all=(1<<NB)-1;
  for(m=0;m<=all;m++) for(q=0;q<3;q++){ if(m&&m!=all&&q!=m%3) continue;
#ifndef DEEP
    if(NB>3&&q!=m%3) continue;
    if(NB>4&&m&&m!=all&&m!=10&&m!=21) continue;
#endif
    runcol(NB,OPEN,m,q==0?0:q==1?27:54+2*m); }
  V_WITNESS(); return 0; }
#endif
