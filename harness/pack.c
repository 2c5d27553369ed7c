/* Packing of a mesh for output. LIB 1 planar, 2 surface, 3 volume.
 * A strip of elements; every pattern of deleted elements given by MASKS is run; vertices no live element holds are
 * deleted, or isolated and live. References that decide what is listed, tags and connectivity are concrete and varied;
 * coordinates, vertex and edge references, metric and field values are symbolic. */
#include "vf.h"
#if LIB==1
#include "libmmg2d.h"
#include "libmmg2d_private.h"
#elif LIB==2
#include "libmmgs.c" /* packing is local to that file */
#else
#include "libmmg3d.h"
#include "libmmg3d_private.h"
#endif
static MMG5_Mesh M; static MMG5_Sol S,T;
#if LIB==3
#define NC 4
#define EL tetra
#define ET MMG5_Tetra
#define NEL M.ne
#define NELX M.nemax
int MMG3D_bdryBuild(MMG5_pMesh mesh){ (void)mesh; return 0; } /* listing of the boundary faces: not part of this check */
#else
#define NC 3
#define EL tria
#define ET MMG5_Tria
#define NEL M.nt
#define NELX M.ntmax
#endif
#define NK 5                      /* elements of the strip */
#define NQ (LIB==2?0:2)           /* quadrilaterals (planar), prisms and quadrilaterals (volume) */
#define QV (LIB==3?6:4)
#define NS (NK+NC-1)              /* vertices of the strip */
#define NP (NS+1+(LIB==1?4:LIB==3?9:0))
#ifdef VF_REPLAY
#define ARR(p,n,T) MMG5_SAFE_CALLOC(p,(n)+1,T,return)
#else
#define ARR(p,n,T) p=__CPROVER_allocate(((n)+1)*sizeof(T),1)
#endif
static int nm(int j,int v){ return 1+(j*(NP%2?2:NP%3?3:5)+v)%NP; } /* vertex number of strip vertex j; a permutation when the step and NP are coprime */
static int V0[NK+1][4],live[NK+1],alive[NP+1],ref0[NK+1],tg0[NK+1][3],ed0[NK+1][3],Q0[NQ+1][6],ql[NQ+1],tr0[NK+1];
static int pr[NP+1],pt0[NP+1]; static double pc[NP+1][2],sv[NP+1][SZ+1],tv[NP+1]; static int qr[NQ+1];
static int nmof(int j){ return 0*j; }
static const uint16_t TG[9]={0,MG_REQ,MG_REF,0,MG_REQ|MG_NOSURF,MG_BDY,MG_GEO,MG_CRN,MG_GEO|MG_REQ};
static int same(int k,int i,int l,int j){ int a,b,n=0; for(a=0;a<NC;a++) if(a!=i) for(b=0;b<NC;b++) if(b!=j) n+=V0[k][a]==V0[l][b]; return n==NC-1; }
static int has(int k,int a,int b){ int i,x=0,y=0; for(i=0;i<NC;i++){ x|=V0[k][i]==a; y|=V0[k][i]==b; } return x&&y; }
static void run(int mask,int v){
  static MMG5_Mesh Z; static MMG5_Sol Y; int k,l,i,j; M=Z; S=Y; T=Y;
  int full=(mask+v)%4==0, iso=(mask+v)%3!=0, nsd=(v%5==4)?3:0; (void)nmof(0);
  M.memMax=1000000; M.memCur=20000; M.info.imprim=-1; M.dim=LIB==1?2:3; M.ver=2; M.np=NP; M.npmax=full?NP:NP+6; NEL=NK; NELX=full?NK:NK+6; M.info.opnbdy=OPN; M.info.nsd=nsd;
  ARR(M.point,NP+7,MMG5_Point); ARR(M.EL,NK+7,ET); ARR(M.adja,NC*(NK+7)+5,MMG5_int);
  S.size=SZ; S.np=NP; S.npmax=M.npmax; S.dim=M.dim; ARR(S.m,SZ*(NP+7),double);
  T.size=1; T.np=NP; T.npmax=M.npmax; T.dim=M.dim; ARR(T.m,NP+7,double);
  for(k=1;k<=NP;k++) alive[k]=0;
  for(k=1;k<=NK;k++){ l=v%2?NK+1-k:k; live[l]=!(mask>>(k-1)&1); for(i=0;i<NC;i++) V0[l][(i+v+k*k)%NC]=nm(k-1+i,v); ref0[l]=1+((k+v)*(k+v))%3; if(v%3==1) ref0[l]=3; tr0[l]=vf_u16(); }
#if LIB!=3
  /* keep the orientation of the strip consistent */
  for(k=1;k<=NK;k++){ l=v%2?NK+1-k:k; if(k%2==0){ i=V0[l][0]; V0[l][0]=V0[l][1]; V0[l][1]=i; } }
#endif
  for(k=1;k<=NQ;k++){ ql[k]=1; qr[k]=vf_i32(); }
#if LIB==1
  { int e0=NC==3?V0[1][1]:0,e1=V0[1][2]; /* the first triangle may have a quadrilateral across its first edge */
    int nb=0; for(l=2;l<=NK;l++) for(j=0;j<3;j++) nb|=same(1,0,l,j);
    if(nb){ e0=nm(NS,v); e1=nm(NS+1,v); }
    int q[2][4]={{e1,e0,nm(NS+1,v),nm(NS+2,v)},{nm(NS+2,v),nm(NS+1,v),nm(NS+3,v),nm(NS+4,v)}}; if(nb){ q[0][2]=nm(0,v)==0?1:nm(NS+2,v); q[0][3]=nm(NS+3,v); q[1][0]=nm(NS+3,v); q[1][1]=nm(NS+2,v); q[1][2]=nm(NS+4,v); q[1][3]=nm(0,v); if(has(1,nm(0,v),nm(NS+3,v))) q[1][3]=nm(NS+4,v); }
    for(k=1;k<=2;k++) for(i=0;i<4;i++) Q0[k][i]=q[k-1][i]; qr[1]=2; qr[2]=v%2?2:1; }
  ARR(M.quadra,NQ,MMG5_Quad); M.nquad=NQ;
  for(k=1;k<=NQ;k++){ for(i=0;i<4;i++){ M.quadra[k].v[i]=Q0[k][i]; alive[Q0[k][i]]=1; M.quadra[k].edg[i]=0; M.quadra[k].tag[i]=0; } M.quadra[k].ref=qr[k]; }
#elif LIB==3
  ARR(M.prism,NQ,MMG5_Prism); M.nprism=NQ; ARR(M.quadra,NQ,MMG5_Quad); M.nquad=NQ; ARR(M.xtetra,NK,MMG5_xTetra); M.xt=NK; M.xtmax=NK;
  for(k=1;k<=NQ;k++){ ql[k]=mask%4!=k; for(i=0;i<6;i++) Q0[k][i]=nm(NS+(k-1)*3+i,v); if(ql[k]){ for(i=0;i<6;i++){ M.prism[k].v[i]=Q0[k][i]; alive[Q0[k][i]]=1; } M.prism[k].ref=qr[k]; for(i=0;i<4;i++) M.quadra[k].v[i]=Q0[k][i<2?i:5-i+2]; M.quadra[k].ref=qr[k]^1; } }
#endif
  for(k=1;k<=NK;k++){ int kept=live[k]&&(!nsd||ref0[k]==nsd); if(kept) for(i=0;i<NC;i++) alive[V0[k][i]]=1; }
  { int used; for(k=1;k<=NP;k++){ used=0; for(l=1;l<=NK;l++) if(live[l]) for(i=0;i<NC;i++) used|=V0[l][i]==k; pt0[k]=TG[(k*2+v)%9]; if(!alive[k] && !used && iso && k%2){ if(!nsd) alive[k]=1; else if(pt0[k]&MG_REQ) alive[k]=1; }
      int there=alive[k]||used; M.point[k].tag=there?pt0[k]:MG_NUL; M.point[k].c[0]=k; for(i=0;i<2;i++) M.point[k].c[1+i]=pc[k][i]=vf_num(); M.point[k].ref=pr[k]=vf_range(0,1000); M.point[k].tmp=there?0:k+1; for(i=0;i<SZ;i++) S.m[SZ*k+i]=sv[k][i]=vf_num(); T.m[k]=tv[k]=vf_num(); } }
#if LIB==1
  for(k=1;k<=NP;k++) M.point[k].c[1]=pc[k][0];
#endif
  for(k=1;k<=NK;k++) if(live[k]){ for(i=0;i<NC;i++) M.EL[k].v[i]=V0[k][i]; M.EL[k].ref=ref0[k];
#if LIB==3
      M.tetra[k].xt=(k+v)%2?k:0; for(i=0;i<6;i++) M.xtetra[k].tag[i]=tr0[k]; M.tetra[k].mark=k;
#else
      for(i=0;i<3;i++){ ed0[k][i]=vf_i32(); tg0[k][i]=TG[(k*3+i+v+mask)%9]; for(l=1;l<k;l++) if(live[l]) for(j=0;j<3;j++) if(same(k,i,l,j)){ ed0[k][i]=ed0[l][j]; tg0[k][i]=tg0[l][j]; } M.tria[k].edg[i]=ed0[k][i]; M.tria[k].tag[i]=tg0[k][i]; }
#endif
      for(i=0;i<NC;i++) for(l=1;l<k;l++) if(live[l]) for(j=0;j<NC;j++) if(same(k,i,l,j)){ M.adja[NC*(k-1)+1+i]=NC*l+j; M.adja[NC*(l-1)+1+j]=NC*k+i; } }
  if(nsd) for(k=1;k<=NK;k++) if(ref0[k]!=nsd) live[k]=0;
#if LIB==1
  V_ASSERT(MMG2D_pack(&M,&S,&T)==1,"packed");
#elif LIB==2
  V_ASSERT(MMGS_packMesh(&M,&S,&T)==1,"packed");
#else
  V_ASSERT(MMG3D_packMesh(&M,&S,&T)==1,"packed");
#endif
  int np=0,ne=0,to[NP+1],kt[NK+1]; for(k=1;k<=NP;k++){ np+=alive[k]; to[k]=0; } for(k=1;k<=NK;k++) ne+=live[k];
  V_ASSERT(M.np==np,"exactly the live vertices are kept"); V_ASSERT(NEL==ne,"exactly the live elements are kept"); V_ASSERT(S.np==np&&T.np==np,"the fields have one value per vertex kept");
  for(l=1;l<=np&&l<=NP;l++){ k=(int)M.point[l].c[0]; V_ASSERT(k>=1&&k<=NP&&alive[k]&&!to[k],"each live vertex is kept once"); to[k]=l; int t=pt0[k];
#if LIB!=2
    if(t&MG_NOSURF) t&=~(MG_NOSURF|MG_REQ);
#endif
    V_ASSERT(M.point[l].ref==pr[k]&&M.point[l].tag==t,"a vertex keeps its reference and attributes"); V_ASSERT(M.point[l].c[1]==pc[k][0]&&(LIB==1||M.point[l].c[2]==pc[k][1]),"a vertex keeps its coordinates");
    for(i=0;i<SZ;i++) V_ASSERT(S.m[SZ*l+i]==sv[k][i],"a vertex keeps its size or value"); V_ASSERT(T.m[l]==tv[k],"a vertex keeps its field value"); }
  for(k=1;k<=NK;k++) kt[k]=0;
  for(l=1;l<=ne&&l<=NK;l++){ int f=0; for(k=1;k<=NK;k++) if(live[k]){ int eq=1; for(i=0;i<NC;i++) eq&=M.EL[l].v[i]==to[V0[k][i]]; if(eq){ f=k; V_ASSERT(!kt[k],"each live element once"); kt[k]=l; } } V_ASSERT(f,"an element kept joins the vertices it joined before"); k=f;
    V_ASSERT(M.EL[l].ref==ref0[k],"an element keeps its reference");
#if LIB==3
    V_ASSERT(M.tetra[l].xt==((k+v)%2?k:0)&&M.tetra[l].mark==k,"an element keeps its attributes"); if(M.tetra[l].xt) for(i=0;i<6;i++) V_ASSERT(M.xtetra[k].tag[i]==((tr0[k]&MG_NOSURF)?tr0[k]&~(MG_NOSURF|MG_REQ):tr0[k]),"an edge keeps its attributes");
#else
    for(i=0;i<3;i++){ int t=tg0[k][i]; if(LIB==1&&(t&MG_NOSURF)) t&=~(MG_NOSURF|MG_REQ); V_ASSERT(M.tria[l].edg[i]==ed0[k][i]&&M.tria[l].tag[i]==t,"an edge of an element keeps its reference and attributes"); }
#endif
  }
  for(k=1;k<=NK;k++) if(live[k]) for(i=0;i<NC;i++){ int w=0; for(l=1;l<=NK;l++) if(l!=k&&live[l]) for(j=0;j<NC;j++) if(same(k,i,l,j)) w=NC*kt[l]+j; V_ASSERT(M.adja[NC*(kt[k]-1)+1+i]==w,"neighbours are the elements that share the face"); }
#if LIB==1
  V_ASSERT(M.nquad==NQ,"every quadrilateral is kept"); for(k=1;k<=NQ;k++) for(i=0;i<4;i++) V_ASSERT(M.quadra[k].v[i]==to[Q0[k][i]]&&M.quadra[k].ref==qr[k],"a quadrilateral keeps its vertices and reference");
#elif LIB==3
  { int nq=ql[1]+ql[2],m=0; V_ASSERT(M.nprism==nq&&M.nquad==nq,"exactly the live prisms and quadrilaterals are kept"); for(k=1;k<=NQ;k++) if(ql[k]){ int f=0; for(l=1;l<=nq;l++){ int eq=1; for(i=0;i<6;i++) eq&=M.prism[l].v[i]==to[Q0[k][i]]; if(eq&&M.prism[l].ref==qr[k]) f++; } V_ASSERT(f==1,"a prism keeps its vertices and reference"); f=0; for(l=1;l<=nq;l++){ int eq=1; for(i=0;i<4;i++) eq&=M.quadra[l].v[i]==to[Q0[k][i<2?i:5-i+2]]; if(eq&&M.quadra[l].ref==(qr[k]^1)) f++; } V_ASSERT(f==1,"a quadrilateral keeps its vertices and reference"); } (void)m; }
#endif
#if LIB!=3
  { int na=0,a,b; 
    for(k=1;k<=NK;k++) if(live[k]) for(i=0;i<3;i++){ int o=0,oj=0,qn=0; for(l=1;l<=NK;l++) if(l!=k&&live[l]) for(j=0;j<3;j++) if(same(k,i,l,j)){ o=l; oj=j; }
      if(o&&o<k) continue; int t=tg0[k][i],w; if(LIB==1&&(t&MG_NOSURF)) t&=~(MG_NOSURF|MG_REQ);
#if LIB==1
      w=!o||ref0[k]!=ref0[o]||(t&(MG_CRN|MG_REQ))||(OPN&&(t&(MG_REF|MG_BDY)));
#else
      w=(t&(MG_GEO|MG_REF))!=0;
#endif
      a=to[V0[k][(i+1)%3]]; b=to[V0[k][(i+2)%3]]; int f=0; for(l=1;l<=M.na&&l<=30;l++) if((M.edge[l].a==a&&M.edge[l].b==b)||(M.edge[l].a==b&&M.edge[l].b==a)){ f++; V_ASSERT(M.edge[l].ref==ed0[k][i]&&M.edge[l].tag==t,"a listed edge has its reference and attributes"); }
      V_ASSERT(f==w,"boundary, interface and special edges are listed once each, and no other"); na+=w; (void)oj; (void)qn; }
#if LIB==1
    for(k=1;k<=2;k++) for(i=0;i<4;i++){ static const int D[4][2]={{0,1},{1,2},{2,3},{3,0}}; int x=Q0[k][D[i][0]],y=Q0[k][D[i][1]],o=0,t=0; for(l=1;l<=NK;l++) if(live[l]&&has(l,x,y)) t=1; for(j=0;j<4;j++) o|=(Q0[3-k][D[j][0]]==y&&Q0[3-k][D[j][1]]==x)||(Q0[3-k][D[j][0]]==x&&Q0[3-k][D[j][1]]==y);
      if(t||(o&&k==2)) continue; int w=!o||qr[1]!=qr[2],f=0; for(l=1;l<=M.na&&l<=30;l++) f+=(M.edge[l].a==to[x]&&M.edge[l].b==to[y])||(M.edge[l].a==to[y]&&M.edge[l].b==to[x]); V_ASSERT(f==w,"boundary and interface edges of quadrilaterals are listed once each, and no other"); na+=w; }
#endif
    V_ASSERT(M.na==na,"number of edges listed"); }
#endif
  /* the free slots */
  { int c=0; k=M.npnil; while(k&&c<=NP+7){ V_ASSERT(k>M.np&&k<=M.npmax,"a free vertex slot lies after the vertices and in the table"); k=M.point[k].tmp; c++; } V_ASSERT(c<=NP+7,"the list of free slots ends"); V_ASSERT(M.npmax-M.np-c<=3,"free vertex slots are kept for later use");
    c=0; k=M.nenil; while(k&&c<=NK+7){ V_ASSERT(k>NEL&&k<=NELX,"a free element slot lies after the elements and in the table");
#if LIB==3
      k=M.tetra[k].v[3];
#else
      k=M.tria[k].v[2];
#endif
      c++; } V_ASSERT(c<=NK+7,"the list of free slots ends"); }
}
int main(void){ static const int MS[]={MASKS}; int m; for(m=0;m<(int)(sizeof(MS)/sizeof(MS[0]));m++) run(MS[m],V); V_WITNESS(); return 0; }
