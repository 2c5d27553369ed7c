/* Free lists. LIB 3/2/1. OP 0 newPt, 1 delPt, 2 newElt, 3 delElt, 4 grow points, 5 grow elements, 6 newPt with boundary tag, the
 * boundary data being full (3D), 7 fresh lists built by setMeshSize_alloc then N creations. FAIL (OP 4,5): the budget lets the first array grow only. OP 6: RICH = boundary data can grow.
 * One step from an arbitrary consistent state. */
#include "vf.h"
#if LIB==3
#include "libmmg3d.h"
#include "libmmg3d_private.h"
#define NEWPT(m,c,t) MMG3D_newPt(m,c,t,1)
#define DELPT MMG3D_delPt
#define NEWEL MMG3D_newElt
#define DELEL MMG3D_delElt
#define ALLOC MMG3D_setMeshSize_alloc
typedef MMG5_Tetra EL; typedef MMG5_Tetra *PEL;
#define EM tetra
#define NEE ne
#define NEM nemax
#define NV 4
#elif LIB==2
#include "libmmg2d.h"
#include "libmmg2d_private.h"
#define NEWPT(m,c,t) MMG2D_newPt(m,c,t)
#define DELPT MMG2D_delPt
#define NEWEL MMG2D_newElt
#define DELEL MMG2D_delElt
#define ALLOC MMG2D_setMeshSize_alloc
#else
#include "libmmgs.h"
#include "libmmgs_private.h"
#define NEWPT(m,c,t) MMGS_newPt(m,c,NULL)
#define DELPT MMGS_delPt
#define NEWEL MMGS_newElt
#define DELEL MMGS_delElt
#define ALLOC MMGS_setMeshSize_alloc
#endif
#if LIB!=3
typedef MMG5_Tria EL;
#define EM tria
#define NEE nt
#define NEM ntmax
#define NV 3
#endif
#define PTS (OP==0||OP==1||OP==4||OP==6)
#define N 4
#define NX 8
#ifndef FAIL
#define FAIL 0
#endif
static MMG5_Mesh M; static MMG5_Sol S;
static int live[NX+1],chain[NX+1];        /* the state before the step */
static MMG5_Point PP[N+1]; static EL PE[N+1];
static MMG5_int link_of(MMG5_int k){ return PTS?M.point[k].tmp:M.EM[k].v[NV-1]; }
/* reads the list back: order -> set; returns length, -1 if it does not end or leaves the table */
static int walk(MMG5_int h,MMG5_int max,int *set){ int n=0,i; MMG5_int k=h; for(i=0;i<=NX;i++) set[i]=0;
  for(i=0;i<=NX;i++){ if(!k) return n; if(k<0||k>max||set[k]) return -1; set[k]=1; n++; k=link_of(k); }
  return -1; }
int main(void){
  int i,j,u,L,n; static int post[NX+1]; MMG5_int r,k,ip,np0,max=N;
  M.memMax=1000000; M.memCur=1000; M.info.imprim=-1; M.gap=0.75; M.dim=LIB==2?2:3; M.ver=2; M.mark=vf_i32();
#ifdef VF_REPLAY
  MMG5_SAFE_CALLOC(M.point,N+1,MMG5_Point,return 0); MMG5_SAFE_CALLOC(M.EM,N+1,EL,return 0); MMG5_SAFE_CALLOC(M.adja,NV*N+5,MMG5_int,return 0);
  MMG5_SAFE_CALLOC(S.m,N+1,double,return 0);
#if LIB==3
  MMG5_SAFE_CALLOC(M.xpoint,3,MMG5_xPoint,return 0);
#endif
#else
  M.point=__CPROVER_allocate((N+1)*sizeof(MMG5_Point),1); M.EM=__CPROVER_allocate((N+1)*sizeof(EL),1); M.adja=__CPROVER_allocate((NV*N+5)*sizeof(MMG5_int),1);
  S.m=__CPROVER_allocate((N+1)*sizeof(double),1);
#if LIB==3
  M.xpoint=__CPROVER_allocate(3*sizeof(MMG5_xPoint),1);
#endif
#endif
  M.npmax=N; M.NEM=N; S.size=1; S.npmax=N; M.xpmax=2; M.xp=0;
  /* touched part of the table 1..u, untouched rest; live slots; list = any order of some free touched slots, then the untouched ones */
  u=vf_range(0,N); n=0;
  for(k=1;k<=N;k++){ live[k]=vf_bool(); V_ASSUME(k<=u||!live[k]); if(live[k]) n=k; chain[k]=0; }
  L=vf_range(0,N);
#if OP==4||OP==5
  L=0; V_ASSUME(u==N||u==N-1);
#endif
  static int ord[N+1];
  for(i=0;i<N;i++){ ord[i]=0; if(i<L){ j=vf_range(1,N); V_ASSUME(j<=u&&!live[j]&&!chain[j]); chain[j]=1; ord[i]=j; } }
  /* the last slot of the table is never linked */
  for(k=1;k<=N-1;k++) if(k>u) chain[k]=1;
  for(k=1;k<=N;k++){ MMG5_int nx= (k>u&&k+1<=N-1)?k+1:0;
    if(PTS){ M.point[k].tmp=live[k]?vf_i32():nx; M.point[k].tag=live[k]?(vf_u16()&(MG_NUL-1)):(k<=u||vf_bool()?MG_NUL:0); M.point[k].c[0]=vf_num(); M.point[k].ref=vf_i32(); }
    else { for(i=0;i<NV;i++) { MMG5_int v=vf_range(1,9); M.EM[k].v[i]=live[k]?v:0; } if(!live[k]) M.EM[k].v[NV-1]=nx; M.EM[k].ref=vf_i32();
      for(i=0;i<NV;i++) M.adja[NV*(k-1)+1+i]=live[k]?vf_i32():0; } }
  MMG5_int head=(u+1<=N-1)?u+1:0;
  for(i=N-1;i>=0;i--) if(i<L){ if(PTS) M.point[ord[i]].tmp=head; else M.EM[ord[i]].v[NV-1]=head; head=ord[i]; }
  np0=vf_range(0,N); V_ASSUME(np0==n);   /* the count is the last live slot */
  if(PTS){ M.np=np0; M.npnil=head; } else { M.NEE=np0; M.nenil=head; }
  int cnt=0; for(k=1;k<=N;k++){ PP[k]=M.point[k]; PE[k]=M.EM[k]; cnt+=chain[k]; }
  V_ASSERT(walk(head,N,post)==cnt,"harness: list is well formed");
  double c[3]={vf_num(),vf_num(),vf_num()}; 
#if OP==0 || OP==6
#if OP==0
  uint16_t tag=vf_u16()&(MG_NUL-1)&(LIB==3?~MG_BDY:0xffff); size_t mc=M.memCur;
#else
  uint16_t tag=(vf_u16()&(MG_NUL-1))|MG_BDY; M.xp=2; size_t mc=M.memCur; if(FAIL) M.memMax=M.memCur+1;
#endif
  r=NEWPT(&M,c,tag); n=walk(M.npnil,N,post);
  V_ASSERT(n>=0,"free list stays well formed");
  if(FAIL||!cnt){ V_ASSERT(r==0,"refused"); V_ASSERT(n==cnt&&M.npnil==head&&M.np==np0,"refusal leaves list and count");
    for(k=1;k<=N;k++) V_ASSERT(M.point[k].tag==PP[k].tag&&M.point[k].c[0]==PP[k].c[0],"refusal leaves the vertices"); V_ASSERT(M.memCur==mc,"refusal leaves the memory use"); V_ASSERT(M.xp<=M.xpmax,"boundary data count within its table"); }
  else { V_ASSERT(r>=1&&r<=N&&!live[r]&&chain[r],"slot handed out was free"); V_ASSERT(n==cnt-1&&!post[r],"slot leaves the free list");
    for(k=1;k<=N;k++) if(k!=r){ V_ASSERT(post[k]==chain[k],"no other slot gained or lost"); V_ASSERT(M.point[k].tag==PP[k].tag&&M.point[k].c[0]==PP[k].c[0]&&M.point[k].ref==PP[k].ref&&(live[k]?M.point[k].tmp==PP[k].tmp:1),"other vertices unchanged"); }
    V_ASSERT(M.np==(r>np0?r:np0),"count covers the live vertices"); V_ASSERT(MG_VOK(&M.point[r]),"new vertex is in use"); V_ASSERT(M.point[r].c[0]==c[0]&&M.point[r].c[1]==c[1],"new vertex at the given place");
    if(LIB!=1) V_ASSERT(M.point[r].tag==tag,"new vertex has the given tag");
    if(LIB==3) V_ASSERT(M.point[r].c[2]==c[2]&&M.point[r].ref==0&&M.point[r].xp==(tag&MG_BDY?M.xp:0),"new vertex initialised"); 
    if(OP==6) V_ASSERT(M.xp==3&&M.xpmax>=3&&M.memCur==mc+(M.xpmax-2)*sizeof(MMG5_xPoint),"boundary data grows"); }
#elif OP==1
  ip=vf_range(1,N); V_ASSUME(live[ip]);
#if LIB==3
  { int w=vf_bool(); M.point[ip].xp=w; for(k=0;k<3;k++) M.xpoint[k].n1[0]=1.; }
#endif
  DELPT(&M,ip); n=walk(M.npnil,N,post);
  V_ASSERT(n==cnt+1&&post[ip],"deleted slot joins the free list");
  V_ASSERT(!MG_VOK(&M.point[ip]),"deleted vertex is not in use");
  for(k=1;k<=N;k++) if(k!=ip){ V_ASSERT(post[k]==chain[k],"no other slot gained or lost"); V_ASSERT(M.point[k].tag==PP[k].tag&&M.point[k].c[0]==PP[k].c[0]&&M.point[k].ref==PP[k].ref&&M.point[k].tmp==PP[k].tmp,"other vertices unchanged"); }
  n=0; for(k=1;k<=N;k++) if(live[k]&&k!=ip) n=k;
  V_ASSERT(M.np==n,"count is the last vertex in use");
  V_ASSERT(NEWPT(&M,c,0)==ip,"deleted slot is handed out again");
#elif OP==2
  r=NEWEL(&M); n=walk(M.nenil,N,post); V_ASSERT(n>=0,"free list stays well formed");
  if(!cnt) V_ASSERT(r==0&&M.NEE==np0&&M.nenil==head,"refused when no slot is free");
  else { V_ASSERT(r>=1&&r<=N&&!live[r]&&chain[r],"slot handed out was free"); V_ASSERT(n==cnt-1&&!post[r],"slot leaves the free list"); V_ASSERT(M.NEE==(r>np0?r:np0),"count covers the live elements");
    V_ASSERT(M.EM[r].v[NV-1]==0,"new element has no leftover link"); }
  for(k=1;k<=N;k++) if(k!=r){ V_ASSERT(post[k]==chain[k],"no other slot gained or lost"); for(i=0;i<NV;i++) V_ASSERT(M.EM[k].v[i]==PE[k].v[i],"other elements unchanged"); V_ASSERT(M.EM[k].ref==PE[k].ref,"other elements unchanged"); }
#elif OP==3
  static MMG5_int A[NV*N+5]; for(i=0;i<NV*N+5;i++) A[i]=M.adja[i];
  ip=vf_range(1,N); int noadj=vf_bool(); MMG5_int *sv=M.adja; if(noadj) M.adja=NULL;
  r=DELEL(&M,ip); M.adja=sv; n=walk(M.nenil,N,post); V_ASSERT(n>=0,"free list stays well formed");
  if(!live[ip]) { V_ASSERT(r==0&&n==cnt&&M.NEE==np0&&M.nenil==head,"element that is not in use is not deleted again"); }
  else { V_ASSERT(r==1&&n==cnt+1&&post[ip],"deleted slot joins the free list"); V_ASSERT(!MG_EOK(&M.EM[ip]),"deleted element is not in use");
    if(!noadj) for(i=0;i<NV;i++) V_ASSERT(M.adja[NV*(ip-1)+1+i]==0,"adjacency of the deleted element is cleared");
    n=0; for(k=1;k<=N;k++) if(live[k]&&k!=ip) n=k;
    V_ASSERT(M.NEE==n,"count is the last element in use"); }
  for(k=1;k<=N;k++) if(k!=ip||!live[ip]){ V_ASSERT(post[k]==chain[k],"no other slot gained or lost"); for(i=0;i<NV;i++) V_ASSERT(M.EM[k].v[i]==PE[k].v[i]&&M.adja[NV*(k-1)+1+i]==A[NV*(k-1)+1+i],"other elements unchanged"); V_ASSERT(M.EM[k].ref==PE[k].ref,"other elements unchanged"); }
  if(live[ip]) V_ASSERT(NEWEL(&M)==ip,"deleted slot is handed out again");
#elif OP==4
  int failed=0; size_t mc=M.memCur; r=0; if(FAIL) M.memMax=M.memCur+3*sizeof(MMG5_Point)+1;
  for(k=1;k<=N;k++){ S.m[k]=vf_num(); }
  double sm[N+1]; for(k=1;k<=N;k++) sm[k]=S.m[k];
  MMG5_pMesh mesh=&M; MMG5_pSol met=&S;
#if LIB==3
  do { MMG3D_POINT_REALLOC(mesh,met,r,mesh->gap,failed=1;goto out,c,0,1); } while(0);
#elif LIB==2
  do { MMG2D_POINT_REALLOC(mesh,met,r,mesh->gap,failed=1;goto out,c,0); } while(0);
#else
  do { MMGS_POINT_REALLOC(mesh,met,r,mesh->gap,failed=1;goto out,c,NULL); } while(0);
#endif
  out: V_ASSERT(failed==FAIL,"growth succeeds when there is room");
  V_ASSERT(M.npmax>=N+(FAIL?0:1)&&M.npmax<=NX,"growth"); max=M.npmax;
#ifdef VF_REPLAY
  for(k=1;k<=M.npmax;k++) M.point[k].s=0; for(k=1;k<=S.npmax;k++) S.m[k]=k<=N?S.m[k]:0.; /* accesses every slot: overflow is reported */
#else
  V_ASSERT(__CPROVER_OBJECT_SIZE(M.point)==(M.npmax+1)*sizeof(MMG5_Point)&&__CPROVER_OBJECT_SIZE(S.m)==(S.npmax+1)*sizeof(double),"tables have the recorded sizes");
#endif
  n=walk(M.npnil,max,post); V_ASSERT(n>=0,"free list stays well formed");
  for(k=1;k<=NX;k++) if(post[k]) V_ASSERT(k<=M.npmax&&k<=S.npmax,"free slots lie within the tables of points and of values");
  for(k=1;k<=N;k++){ if(live[k]){ V_ASSERT(M.point[k].tag==PP[k].tag&&M.point[k].c[0]==PP[k].c[0]&&M.point[k].ref==PP[k].ref&&!post[k]&&k<=M.np,"vertices in use survive growth"); V_ASSERT(S.m[k]==sm[k],"values survive growth"); } }
  if(!FAIL){ V_ASSERT(r==np0+1&&!(r<=N&&live[r])&&!post[r]&&M.np==r&&MG_VOK(&M.point[r]),"growth hands out a free slot"); V_ASSERT(S.npmax==M.npmax,"values grow along"); V_ASSERT(M.memCur==mc+(M.npmax-N)*(sizeof(MMG5_Point)+sizeof(double)),"memory use accounted"); V_ASSERT(n==M.npmax-1-r,"all new slots but the last are free"); }
  else { V_ASSERT(M.memCur==mc+(M.npmax-N)*sizeof(MMG5_Point)+(S.npmax-N)*sizeof(double),"memory use accounted"); }
#elif OP==5
  int failed=0; size_t mc=M.memCur; r=0; if(FAIL) M.memMax=M.memCur+3*sizeof(EL)+1;
  MMG5_pMesh mesh=&M; static MMG5_int A[NV*N+5]; for(i=0;i<NV*N+5;i++) A[i]=M.adja[i];
#if LIB==3
  do { MMG3D_TETRA_REALLOC(mesh,r,mesh->gap,failed=1;goto out); } while(0);
#elif LIB==2
  do { MMG2D_TRIA_REALLOC(mesh,r,mesh->gap,failed=1;goto out); } while(0);
#else
  do { MMGS_TRIA_REALLOC(mesh,r,mesh->gap,failed=1;goto out); } while(0);
#endif
  out: V_ASSERT(failed==FAIL,"growth succeeds when there is room"); V_ASSERT(M.NEM>=N+(FAIL?0:1)&&M.NEM<=NX,"growth"); max=M.NEM;
  n=walk(M.nenil,max,post); V_ASSERT(n>=0,"free list stays well formed");
#ifdef VF_REPLAY
  for(k=1;k<=NX;k++) if(post[k]) for(i=0;i<NV;i++) M.adja[NV*(k-1)+1+i]=0;
#else
  V_ASSERT(__CPROVER_OBJECT_SIZE(M.EM)==(M.NEM+1)*sizeof(EL),"table has the recorded size");
  for(k=1;k<=NX;k++) if(post[k]) V_ASSERT((NV*k+1)*sizeof(MMG5_int)<=__CPROVER_OBJECT_SIZE(M.adja),"free slots lie within the adjacency table");
#endif
  for(k=1;k<=N;k++) if(live[k]){ for(i=0;i<NV;i++) V_ASSERT(M.EM[k].v[i]==PE[k].v[i]&&M.adja[NV*(k-1)+1+i]==A[NV*(k-1)+1+i],"elements in use survive growth"); V_ASSERT(M.EM[k].ref==PE[k].ref&&!post[k]&&k<=M.NEE,"elements in use survive growth"); }
  if(!FAIL){ V_ASSERT(r==np0+1&&!(r<=N&&live[r])&&!post[r]&&M.NEE==r,"growth hands out a free slot"); V_ASSERT(M.memCur==mc+(M.NEM-N)*(sizeof(EL)+NV*sizeof(MMG5_int)),"memory use accounted"); V_ASSERT(n==M.NEM-1-r,"all new slots but the last are free"); }
  else V_ASSERT(M.memCur==mc+(M.NEM-N)*sizeof(EL),"memory use accounted");
#endif
  V_WITNESS(); return 0; }
