/* Level-set discretisation of triangles (MODE 0) or of their reference edges (MODE 1): cut along the zero level, then references.
 * Sign pattern of the vertices, materials and configuration are concrete (enumerated), references and tags symbolic.
 * LIB 2/1; NT triangles; PAT patterns (base 3 digits); MATS: -1 no table, else mask of the kept entities; ISO 1 or 2; EM mask of reference edges (MODE 1); GROW: point table full */
#include "vf.h"
#if LIB==2
#include "libmmg2d.h"
#include "libmmg2d_private.h"
#include "mmg2dexterns_private.h"
#else
#include "mmgs2.c" /* the cutting routine is local to that file */
#endif
static MMG5_Mesh M; static MMG5_Sol S,E;
#ifndef VF_REPLAY
double sqrt(double x){ (void)x; return nondet_f64(); }
#endif
static const int X[6][2]={{0,0},{0,0},{4,0},{0,4},{4,4},{-4,0}};
static const int T0[3][3]={{1,2,3},{3,2,4},{1,3,5}};
static const int NVT[4]={0,3,4,5};
#define NV NVT[NT]
static int T[3][3],Y[30][2];
static int area(int a,int b,int c){ return (Y[b][0]-Y[a][0])*(Y[c][1]-Y[a][1])-(Y[b][1]-Y[a][1])*(Y[c][0]-Y[a][0]); }
static int inside(int t,int p){ int f; for(f=0;f<3;f++) if(area(T[t][f],T[t][(f+1)%3],p)<0) return 0; return 1; }
/* edges of the initial triangles */
static int nE,ea[9],eb[9],en[9]; static MMG5_int er[9]; static uint16_t et[9];
static int edgeof(int a,int b){ int e; for(e=0;e<nE;e++) if((ea[e]==a&&eb[e]==b)||(ea[e]==b&&eb[e]==a)) return e; return -1; }
static int onedge(int e,int p){ return area(ea[e],eb[e],p)==0; }
static int FK[64];
static void run(int pat,int mats){
  int i,j,t,k,l,n,z,e,sg[30],tot=0,nf=0; static MMG5_Mesh Z; MMG5_int ref0[3];
  for(t=0;t<NT;t++) for(i=0;i<3;i++) T[t][i]=T0[t][(i+ROT+t)%3];
  M=Z; M.memMax=10000000; M.memCur=100000; M.info.imprim=-1; M.gap=0.2; M.ver=2; M.dim=LIB==2?2:3; M.info.isoref=10; M.info.iso=MODE?0:ISO; M.info.isosurf=MODE?1:0;
  M.np=NV; M.npmax=GROW?NV+1:NV+10; M.nt=NT; M.ntmax=GROW?NT+1:NT+10;
#ifdef VF_REPLAY
  MMG5_SAFE_CALLOC(M.point,M.npmax+1,MMG5_Point,return); MMG5_SAFE_CALLOC(M.tria,M.ntmax+1,MMG5_Tria,return); MMG5_SAFE_CALLOC(M.adja,3*M.ntmax+5,MMG5_int,return); MMG5_SAFE_CALLOC(S.m,M.npmax+1,double,return);
  if(MET) MMG5_SAFE_CALLOC(E.m,M.npmax+1,double,return);
#else
  M.point=__CPROVER_allocate((M.npmax+1)*sizeof(MMG5_Point),1); M.tria=__CPROVER_allocate((M.ntmax+1)*sizeof(MMG5_Tria),1); M.adja=__CPROVER_allocate((3*M.ntmax+5)*sizeof(MMG5_int),1); S.m=__CPROVER_allocate((M.npmax+1)*sizeof(double),1);
  if(MET) E.m=__CPROVER_allocate((M.npmax+1)*sizeof(double),1);
#endif
  S.size=E.size=1; S.np=NV; S.npmax=E.npmax=M.npmax; E.np=NV;
  z=pat; for(i=1;i<=NV;i++){ sg[i]=z%3-1; z/=3; S.m[i]=sg[i]; if(MET) E.m[i]=1; for(j=0;j<2;j++) { M.point[i].c[j]=X[i][j]; Y[i][j]=2*X[i][j]; } M.point[i].ref=vf_i32(); }
  M.npnil=M.npmax>M.np?M.np+1:0; for(k=M.np+1;k<=M.npmax;k++) M.point[k].tmp=k<M.npmax?k+1:0;
  M.nenil=M.nt+1; for(k=M.nt+1;k<=M.ntmax;k++) M.tria[k].v[2]=k<M.ntmax?k+1:0;
  nE=0;
  for(t=0;t<NT;t++){ M.tria[t+1].ref= MODE?(mats<0?vf_i32():7+t):mats<0?vf_i32():(mats>>t)&1?4:3; ref0[t]=M.tria[t+1].ref;
    for(i=0;i<3;i++){ int a=T[t][(i+1)%3],b=T[t][(i+2)%3]; M.tria[t+1].v[i]=T[t][i]; e=edgeof(a,b);
      if(e<0){ e=nE++; ea[e]=a; eb[e]=b; en[e]=0; et[e]=MODE?((EM>>e)&1?MG_REF+MG_BDY:0):vf_u16()&(MG_REF+MG_BDY+MG_GEO+MG_NOM); er[e]= MODE&&!((EM>>e)&1)?0:!MODE||mats<0?vf_i32():(mats>>e)&1?4:3; }
      en[e]++; M.tria[t+1].edg[i]=er[e]; M.tria[t+1].tag[i]=et[e]; } }
  if(mats>=0){ M.info.nmat=M.info.nmati=2;
#ifdef VF_REPLAY
    MMG5_SAFE_CALLOC(M.info.mat,2,MMG5_Mat,return);
#else
    M.info.mat=__CPROVER_allocate(2*sizeof(MMG5_Mat),1);
#endif
    M.info.mat[0].ref=3; M.info.mat[0].dospl=1; M.info.mat[0].rin=5; M.info.mat[0].rex=6; M.info.mat[1].ref=4; M.info.mat[1].dospl=0;
    V_ASSERT(MMG5_MultiMat_init(&M)==1,"table built"); }
#if LIB==2
  MMG2D_intmet=MMG2D_intmet_iso; int r=MMG2D_cuttri(&M,&S,MET?&E:NULL);
#else
  int r=MMGS_cuttri(&M,&S,MET?&E:NULL);
#endif
  V_ASSERT(r>0,"cutting succeeds");
  for(i=1;i<=NV;i++) V_ASSERT(M.point[i].c[0]==X[i][0]&&M.point[i].c[1]==X[i][1]&&S.m[i]==sg[i],"vertices and their levels unchanged");
  V_ASSERT(M.np<=NV+10,"number of new points");
  for(i=NV+1;i<=M.np;i++){ for(j=0;j<2;j++){ Y[i][j]=(int)(2*M.point[i].c[j]); V_ASSERT(Y[i][j]==2*M.point[i].c[j],"new point at the middle of an edge"); } V_ASSERT(S.m[i]==0,"level of a new point"); sg[i]=0; n=0;
    for(e=0;e<nE;e++) if(sg[ea[e]]*sg[eb[e]]<0&&2*Y[i][0]==Y[ea[e]][0]+Y[eb[e]][0]&&2*Y[i][1]==Y[ea[e]][1]+Y[eb[e]][1]) n++;
    V_ASSERT(n==1,"new point where the level vanishes");
    if(MET) V_ASSERT(E.m[i]==1,"metric of a new point");
    for(k=NV+1;k<i;k++) V_ASSERT(Y[k][0]!=Y[i][0]||Y[k][1]!=Y[i][1],"new points are distinct"); }
#if MODE==0
  r=MMG5_setref_ls(&M,&S);
#else
  r=MMG5_setref_lssurf(&M,&S);
#endif
  V_ASSERT(r==1,"references set");
  for(k=1;k<=M.nt;k++) for(i=0;i<3;i++) FK[nf++]=M.tria[k].v[i]*64+M.tria[k].v[(i+1)%3];
  for(k=1;k<=M.nt;k++){ MMG5_int *v=M.tria[k].v; int pos=0,neg=0; for(i=0;i<3;i++) V_ASSERT(v[i]>=1&&v[i]<=M.np,"vertices of a piece exist");
    int w=area(v[0],v[1],v[2]); V_ASSERT(w>0,"piece has positive area"); tot+=w;
    n=-1; for(t=0;t<NT;t++) if(inside(t,v[0])&&inside(t,v[1])&&inside(t,v[2])) n=t; V_ASSERT(n>=0,"piece lies in one of the triangles");
    for(i=0;i<3;i++){ if(sg[v[i]]>0) pos++; if(sg[v[i]]<0) neg++; }
    int kept=!MODE&&mats>=0&&((mats>>n)&1);
    if(MODE||kept||ISO==2) V_ASSERT(M.tria[k].ref==ref0[n],"triangle keeps its reference");
    else V_ASSERT(M.tria[k].ref==(mats>=0?(pos?6:5):(pos?MG_PLUS:MG_MINUS)),"reference of the side");
    if(!MODE&&!kept) V_ASSERT(!(pos&&neg),"no piece lies on both sides");
    for(i=0;i<3;i++){ int a=v[(i+1)%3],b=v[(i+2)%3],m=0,m2=0,o=-1,ze=sg[a]==0&&sg[b]==0,ka=a*64+b,kb=b*64+a;
      for(l=0;l<nf;l++){ m+=FK[l]==ka; m2+=FK[l]==kb; }
      for(j=0;j<3;j++){ e=edgeof(T[n][j],T[n][(j+1)%3]); if(onedge(e,a)&&onedge(e,b)) o=e; }
      V_ASSERT(m==1&&m2==(o>=0&&en[o]==1?0:1),"the cut mesh is conforming");
      if(MODE==0){
        if(ze&&pos+neg==1){ if(!kept) V_ASSERT(M.tria[k].edg[i]==M.info.isoref&&(M.tria[k].tag[i]&MG_REF)&&M.point[a].ref==M.info.isoref&&M.point[b].ref==M.info.isoref,"edge of the zero line carries its reference"); }
        else if(o>=0) V_ASSERT(M.tria[k].edg[i]==er[o]&&M.tria[k].tag[i]==et[o],"edge keeps its attributes");
        else V_ASSERT(M.tria[k].edg[i]==0&&!(M.tria[k].tag[i]&(MG_REF+MG_BDY)),"inner edge has no attribute");
      } else {
        int ps=sg[a]>0||sg[b]>0,ng=sg[a]<0||sg[b]<0;
        if(o<0||!((EM>>o)&1)) V_ASSERT(M.tria[k].edg[i]==0,"edge keeps its attributes");
        else if(mats>=0&&((mats>>o)&1)) V_ASSERT(M.tria[k].edg[i]==4,"kept material keeps its reference");
        else { V_ASSERT(!(ps&&ng),"no edge lies on both sides"); V_ASSERT(M.tria[k].edg[i]==(mats>=0?(ps?6:5):(ps?MG_PLUS:MG_MINUS)),"reference of the side"); }
        if(sg[a]==0) V_ASSERT(M.point[a].ref==M.info.isoref,"vertex on the line carries its reference"); }
    } }
  int want=0; for(t=0;t<NT;t++) want+=area(T[t][0],T[t][1],T[t][2]);
  V_ASSERT(tot==want,"pieces fill the triangles");
}
static const int PATS[]={PAT};
int main(void){ unsigned p; for(p=0;p<sizeof(PATS)/sizeof(PATS[0]);p++) run(PATS[p],MATS); V_WITNESS(); return 0; }
