/* Tetrahedron splits. FN selects the function family; the split flag and numbering are concrete, attributes symbolic.
 * PLO..PHI: range of vertex numberings (0..23), MSTEP: boundary-face masks used, GROW: arrays have to grow */
#include "vf.h"
#include "libmmg3d.h"
#include "libmmg3d_private.h"
#include "mmg3dexterns_private.h"
#include "tetchk.h"
#ifndef GROW
#define GROW 0
#endif
static MMG5_Mesh M; static MMG5_Sol S; static double metm[64];
static double ocal(MMG5_pMesh m,MMG5_pSol s,MMG5_pTetra k){ (void)m;(void)s;(void)k; return 1.; }
static const double X[4][3]={{0,0,0},{4,0,0},{0,4,0},{0,0,4}};
static const int PERM[24][4]={{1,2,3,4},{1,2,4,3},{1,3,2,4},{1,3,4,2},{1,4,2,3},{1,4,3,2},{2,1,3,4},{2,1,4,3},{2,3,1,4},{2,3,4,1},{2,4,1,3},{2,4,3,1},
 {3,1,2,4},{3,1,4,2},{3,2,1,4},{3,2,4,1},{3,4,1,2},{3,4,2,1},{4,1,2,3},{4,1,3,2},{4,2,1,3},{4,2,3,1},{4,3,1,2},{4,3,2,1}};
#if FN==1
static const int FL[]={1,2,4,8,16,32};
#define CALL MMG5_split1(&M,&S,1,vx,1)
#elif FN==2
static const int FL[]={48,24,40,6,34,36,20,5,17,9,3,10};
#define CALL MMG5_split2sf(&M,&S,1,vx,1)
#elif FN==3
static const int FL[]={33,18,12};
#define CALL MMG5_split2(&M,&S,1,vx,1)
#elif FN==4
static const int FL[]={11,21,38,56};
#define CALL MMG5_split3(&M,&S,1,vx,1)
#elif FN==5
static const int FL[]={7,25,42,52};
#define CALL MMG5_split3cone(&M,&S,1,vx,1)
#elif FN==6
static const int FL[]={35,19,13,37,22,28,26,14,49,50,44,41};
#define CALL MMG5_split3op(&M,&S,1,vx,1)
#elif FN==7
static const int FL[]={23,29,53,60,57,58,27,15,43,39,54,46};
#define CALL MMG5_split4sf(&M,&S,1,vx,1)
#elif FN==8
static const int FL[]={30,45,51};
#define CALL MMG5_split4op(&M,&S,1,vx,1)
#elif FN==9
static const int FL[]={62,61,59,55,47,31};
#define CALL MMG5_split5(&M,&S,1,vx,1)
#elif FN==10
static const int FL[]={63};
#define CALL MMG5_split6(&M,&S,1,vx,1)
#else
static const int FL[]={0};
#define CALL (MMG5_split4bar(&M,&S,1,1)==11)
#endif
#define NFL ((int)(sizeof(FL)/sizeof(FL[0])))
static const int NCH[11]={0,2,3,4,4,4,5,6,6,7,8};
static void run(int flag,int pi,int mask,int hasxt,int nch){
  int i,j,c,c2,f,e,id[12],loc[12],n,ok; MMG5_int k,vx[6]; MMG5_Tetra P; MMG5_xTetra PX; static MMG5_Point P0[12];
  int ch[9][4],cv[9]; static MMG5_Mesh Z; M=Z;
  M.memMax=1000000; M.memCur=1000; M.info.imprim=-1; M.gap=0.2; M.np=FN==11?10:10; M.npmax=GROW?M.np:12; M.ver=2; M.dim=3;
  M.ne=1; M.nei=1; M.nemax=GROW==1?1:GROW==2?nch-1:nch+1; M.xt=hasxt?1:0; M.xtmax=GROW==3?1:nch+2;
  if(GROW==3) M.nemax=nch+1;
#ifdef VF_REPLAY
  MMG5_SAFE_CALLOC(M.point,M.npmax+1,MMG5_Point,return); MMG5_SAFE_CALLOC(M.tetra,M.nemax+1,MMG5_Tetra,return); MMG5_SAFE_CALLOC(M.adja,4*M.nemax+5,MMG5_int,return);
  MMG5_SAFE_CALLOC(M.xtetra,M.xtmax+1,MMG5_xTetra,return);
#else
  M.point=__CPROVER_allocate((M.npmax+1)*sizeof(MMG5_Point),1); M.tetra=__CPROVER_allocate((M.nemax+1)*sizeof(MMG5_Tetra),1); M.adja=__CPROVER_allocate((4*M.nemax+5)*sizeof(MMG5_int),1);
  M.xtetra=__CPROVER_allocate((M.xtmax+1)*sizeof(MMG5_xTetra),1);
#endif
  MMG5_caltet=ocal; MMG5_interp4bar=MMG5_interp4bar_iso; S.size=1; S.np=10; S.npmax=M.npmax;
#if FN==11 && GROW
  S.m=NULL;
#else
  S.m=metm;
#endif
  /* numbering: vertex i has the number PERM[pi][i], edge points follow */
  for(i=0;i<4;i++) id[i]=PERM[pi][i]; for(i=4;i<10;i++) id[i]=i+1; id[10]=11;
  for(i=0;i<12;i++) loc[i]=-1; for(i=0;i<11;i++) loc[id[i]]=i;
  for(i=0;i<10;i++){ MMG5_pPoint p=&M.point[id[i]]; for(j=0;j<3;j++) p->c[j]= i<4?X[i][j]:0.5*(X[EV[i-4][0]][j]+X[EV[i-4][1]][j]); p->ref=vf_i32(); p->tag=vf_u16()&0x3fff; }
  M.npnil=M.np<M.npmax?M.np+1:0; for(k=M.np+1;k<=M.npmax;k++) M.point[k].tmp=k<M.npmax?k+1:0;
  M.nenil=M.ne<M.nemax?M.ne+1:0; for(k=M.ne+1;k<=M.nemax;k++) M.tetra[k].v[3]=k<M.nemax?k+1:0;
  for(i=0;i<4;i++) M.tetra[1].v[i]=id[i];
  M.tetra[1].ref=vf_i32(); M.tetra[1].tag=vf_u16(); M.tetra[1].mark=vf_i32(); M.tetra[1].flag=flag; M.tetra[1].xt=hasxt;
  if(hasxt){ MMG5_pxTetra x=&M.xtetra[1]; x->ori=0;
    for(f=0;f<4;f++) if(mask&(1<<f)){ x->ref[f]=vf_i32(); x->ftag[f]=MG_BDY|(f==1?MG_REF:f==2?MG_GEO:f==3?(MG_REQ|MG_REF):0); }
    for(e=0;e<6;e++){ x->edg[e]=vf_i32(); x->tag[e]=vf_u16(); }
    x->ori=(int8_t)(vf_u8()&15); PX=*x; }
  P=M.tetra[1]; for(k=1;k<=10;k++) P0[k]=M.point[k];
  for(i=0;i<6;i++) vx[i]=(flag&(1<<i))?id[4+i]:0;
  ok=CALL;
  V_ASSERT(ok==1,"split succeeds");
#if FN==6
  V_ASSERT(M.ne==4||M.ne==5,"number of pieces"); nch=M.ne==5?5:4;
#else
  V_ASSERT(M.ne==nch,"number of pieces");
#endif
  for(k=1;k<=10;k++) V_ASSERT(M.point[k].c[0]==P0[k].c[0]&&M.point[k].c[1]==P0[k].c[1]&&M.point[k].c[2]==P0[k].c[2]&&M.point[k].tag==P0[k].tag&&M.point[k].ref==P0[k].ref,"vertices unchanged");
#if FN==11
  V_ASSERT(M.np==11&&M.point[11].c[0]==1&&M.point[11].c[1]==1&&M.point[11].c[2]==1,"centre inserted");
#endif
  int sum=0,fs[4]={0,0,0,0};
  for(c=0;c<nch;c++){ for(i=0;i<4;i++){ MMG5_int q=M.tetra[c+1].v[i]; V_ASSERT(q>=1&&q<=11,"piece uses the vertices at hand"); ch[c][i]=loc[q]; if(ch[c][i]>=4&&ch[c][i]<10) V_ASSERT(flag&(1<<(ch[c][i]-4)),"piece uses only the points of split edges"); }
    int v=bvol(ch[c]); V_ASSERT(v>0,"piece is positively oriented"); sum+=v;
    V_ASSERT(M.tetra[c+1].ref==P.ref,"piece carries the reference"); V_ASSERT(M.tetra[c+1].tag==P.tag,"piece carries the tag");
    MMG5_int xt=M.tetra[c+1].xt;
    if(!hasxt) V_ASSERT(xt==0,"no boundary information from nothing");
    V_ASSERT(xt>=0&&xt<=M.xt,"boundary information in use");
    for(c2=0;c2<c;c2++) V_ASSERT(xt==0||M.tetra[c2+1].xt!=xt,"boundary information not shared");
    const MMG5_xTetra *x=xt?&M.xtetra[xt]:0;
    for(f=0;f<4;f++){ int a=ch[c][FV[f][0]],b=ch[c][FV[f][1]],d=ch[c][FV[f][2]],F=outside(SUP[a]|SUP[b]|SUP[d]);
      if(F>=0){ /* part of face F of the parent */
        int A[3]={BC[a][FV[F][0]],BC[a][FV[F][1]],BC[a][FV[F][2]]},B[3]={BC[b][FV[F][0]],BC[b][FV[F][1]],BC[b][FV[F][2]]},D[3]={BC[d][FV[F][0]],BC[d][FV[F][1]],BC[d][FV[F][2]]};
        int ar=det3(A,B,D,0,1,2); V_ASSERT(ar>0,"part of a face keeps its side"); fs[F]+=ar;
        if(hasxt&&(mask&(1<<F))){ V_ASSERT(x!=0,"piece on the boundary keeps boundary information"); V_ASSERT(x->ref[f]==PX.ref[F]&&x->ftag[f]==PX.ftag[F],"part of a face carries its reference and tag"); V_ASSERT(((x->ori>>f)&1)==((PX.ori>>F)&1),"part of a face carries its orientation mark"); }
        else if(x) V_ASSERT(x->ref[f]==0&&x->ftag[f]==0,"part of an inner face has no attributes");
      } else { int g[3]={a,b,d},m=0;
        if(x) V_ASSERT(x->ref[f]==0&&x->ftag[f]==0&&((x->ori>>f)&1)==1,"new inner face has no attributes");
        for(c2=0;c2<nch;c2++) for(i=0;i<4;i++) if(c2!=c){ int h[3]={loc[M.tetra[c2+1].v[FV[i][0]]],loc[M.tetra[c2+1].v[FV[i][1]]],loc[M.tetra[c2+1].v[FV[i][2]]]}; int q=cmpf(g,h); V_ASSERT(q<=0,"inner face has one piece on each side"); if(q<0) m++; }
        V_ASSERT(m==1,"inner face is shared by exactly two pieces"); } }
    if(x) for(e=0;e<6;e++){ int s=SUP[ch[c][EV[e][0]]]|SUP[ch[c][EV[e][1]]],E=-1,F; for(i=0;i<6;i++) if((s&~((1<<EV[i][0])|(1<<EV[i][1])))==0) E=i;
        F=outside(s);
        if(E>=0){ V_ASSERT(x->tag[e]==PX.tag[E],"part of an edge carries its tag"); V_ASSERT(x->edg[e]==PX.edg[E],"part of an edge carries its reference"); }
        else { V_ASSERT(x->edg[e]==0,"new edge has no reference"); V_ASSERT(x->tag[e]==(F>=0?(PX.ftag[F]&~MG_REF):0),"new edge carries the tag of the face it lies on"); } }
  }
  V_ASSERT(sum==64,"pieces fill the tetrahedron");
  for(f=0;f<4;f++) V_ASSERT(fs[f]==64,"pieces cover each face");
  /* faces with two split edges: the diagonal starts from the vertex of lowest number */
  for(f=0;f<4;f++) for(j=0;j<3;j++){ int a=FV[f][j],b=FV[f][(j+1)%3],o=FV[f][(j+2)%3],ea=-1,eb=-1,ab=-1; for(e=0;e<6;e++){ int s=(1<<EV[e][0])|(1<<EV[e][1]); if(s==((1<<a)|(1<<o))) ea=e; if(s==((1<<b)|(1<<o))) eb=e; if(s==((1<<a)|(1<<b))) ab=e; }
    if((flag&(1<<ea))&&(flag&(1<<eb))&&!(flag&(1<<ab))){ int want= id[a]<id[b]?4+eb:4+ea,found=0;
      for(c=0;c<nch;c++){ int ha=0,hb=0,hw=0; for(i=0;i<4;i++){ if(ch[c][i]==a) ha=1; if(ch[c][i]==b) hb=1; if(ch[c][i]==want) hw=1; } if(ha&&hb&&hw) found=1; }
      V_ASSERT(found,"the diagonal of a face depends on its vertex numbers only"); } }
}
int main(void){
  int p,l; bary();
  for(l=LLO;l<(LHI<NFL?LHI:NFL);l++) for(p=PLO;p<PHI;p++){
#ifdef MLO
    for(int m=MLO;m<MHI;m++) run(FL[l],p,m,m!=0,FN==11?4:NCH[FN]);
#else
    run(FL[l],p,(5*l+7*p+MOFF)&15,((5*l+7*p+MOFF)&15)!=0,FN==11?4:NCH[FN]);
#endif
  }
  V_WITNESS();
  return 0;
}
