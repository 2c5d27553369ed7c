/* Level-set discretisation of tetrahedra (MODE 0) or of their boundary faces (MODE 1): cut along the zero level, then references.
 * Sign pattern of the vertices, materials and configuration are concrete (enumerated), references symbolic where no table is given.
 * NT tetrahedra; PAT patterns; ROT numbering of the first tetrahedron; MATS materials: -1 no table, else mask of the kept entities */
#include "vf.h"
#include "libmmg3d.h"
#include "libmmg3d_private.h"
#include "mmg3dexterns_private.h"
#ifndef GROW
#define GROW 0
#endif
static MMG5_Mesh M; static MMG5_Sol S; static double lev[40];
#ifndef VF_REPLAY
double sqrt(double x){ (void)x; return nondet_f64(); } /* only used for the quality */
#endif
static double ocal(MMG5_pMesh m,MMG5_pSol s,MMG5_pTetra k){ (void)m;(void)s;(void)k; return 1.; }
#if CONF==1 /* neighbours by an edge only */
static const double X[9][3]={{0,0,0},{0,0,0},{4,0,0},{0,4,0},{0,0,4},{0,-4,0},{0,0,-4},{-4,8,4},{-8,4,8}};
static const int T0[3][4]={{1,2,3,4},{1,2,5,6},{3,4,7,8}};
static const int NVT[4]={0,4,6,8};
#else
static const double X[7][3]={{0,0,0},{0,0,0},{4,0,0},{0,4,0},{0,0,4},{1,1,-4},{1,-4,1}};
static const int T0[3][4]={{1,2,3,4},{1,3,2,5},{1,2,4,6}};
static const int NVT[4]={0,4,5,6};
#endif
/* orientation preserving renumberings of the first tetrahedron */
static const int EVEN[12][4]={{0,1,2,3},{0,2,3,1},{0,3,1,2},{1,0,3,2},{1,3,2,0},{1,2,0,3},{2,3,0,1},{2,0,1,3},{2,1,3,0},{3,2,1,0},{3,1,0,2},{3,0,2,1}};
static int T[3][4];
#define NV NVT[NT]
static const int FC[4][3]={{1,2,3},{0,3,2},{0,1,3},{0,2,1}};
static const int EG[6][2]={{0,1},{0,2},{0,3},{1,2},{1,3},{2,3}};
static int Y[40][3]; /* twice the coordinates of all points */
static int vol(int a,int b,int c,int d){ int i; int p[3],q[3],r[3]; for(i=0;i<3;i++){ p[i]=Y[b][i]-Y[a][i]; q[i]=Y[c][i]-Y[a][i]; r[i]=Y[d][i]-Y[a][i]; }
  return p[0]*(q[1]*r[2]-q[2]*r[1])-p[1]*(q[0]*r[2]-q[2]*r[0])+p[2]*(q[0]*r[1]-q[1]*r[0]); }
static int inside(int t,int p){ int f; for(f=0;f<4;f++) if(vol(T[t][FC[f][0]],T[t][FC[f][1]],T[t][FC[f][2]],p)> 0) return 0; return 1; }
static int onface(int t,int f,int p){ return vol(T[t][FC[f][0]],T[t][FC[f][1]],T[t][FC[f][2]],p)==0; }
static int sgn(double v){ return v>0?1:v<0?-1:0; }
static int outer(int t,int f){ int u,g,j,l,n; for(u=0;u<NT;u++) if(u!=t) for(g=0;g<4;g++){ n=0; for(j=0;j<3;j++) for(l=0;l<3;l++) if(T[t][FC[f][j]]==T[u][FC[g][l]]) n++; if(n==3) return 0; } return 1; }
/* an oriented face, smallest vertex first */
static int FK[100];
static int k4(int a,int b,int c){ if(a<b&&a<c) return (a*64+b)*64+c; if(b<a&&b<c) return (b*64+c)*64+a; return (c*64+a)*64+b; }
#define ENT (MODE?12:NT)
static void run(int pat,int mats){
  int i,j,f,g,t,k,l,n,z; static MMG5_Mesh Z; MMG5_int ref0[12]; int keep[12],sg[40]; int tot=0;
  for(t=0;t<NT;t++) for(i=0;i<4;i++) T[t][i]=T0[t][t?i:EVEN[ROT][i]];
  M=Z; M.memMax=10000000; M.memCur=100000; M.info.imprim=-1; M.gap=0.2; M.ver=2; M.dim=3; M.info.isoref=10; M.info.iso=MODE?0:1; M.info.isosurf=MODE?1:0;
  M.np=NV; M.npmax=GROW?NV+1:NV+14; M.ne=NT; M.nemax=GROW?NT+2:NT+20; M.xt=NT; M.xtmax=GROW?NT:NT+20; MMG5_caltet=ocal;
#ifdef VF_REPLAY
  MMG5_SAFE_CALLOC(M.point,M.npmax+1,MMG5_Point,return); MMG5_SAFE_CALLOC(M.tetra,M.nemax+1,MMG5_Tetra,return); MMG5_SAFE_CALLOC(M.adja,4*M.nemax+5,MMG5_int,return);
  MMG5_SAFE_CALLOC(M.xtetra,M.xtmax+1,MMG5_xTetra,return); MMG5_SAFE_CALLOC(S.m,M.npmax+1,double,return);
#else
  M.point=__CPROVER_allocate((M.npmax+1)*sizeof(MMG5_Point),1); M.tetra=__CPROVER_allocate((M.nemax+1)*sizeof(MMG5_Tetra),1); M.adja=__CPROVER_allocate((4*M.nemax+5)*sizeof(MMG5_int),1);
  M.xtetra=__CPROVER_allocate((M.xtmax+1)*sizeof(MMG5_xTetra),1); S.m=__CPROVER_allocate((M.npmax+1)*sizeof(double),1);
#endif
  S.size=1; S.np=NV; S.npmax=M.npmax;
  z=pat; for(i=1;i<=NV;i++){ sg[i]=z%3-1; z/=3; S.m[i]=sg[i]; for(j=0;j<3;j++) { M.point[i].c[j]=X[i][j]; Y[i][j]=2*(int)X[i][j]; } M.point[i].ref=vf_i32(); }
  M.npnil=M.npmax>M.np?M.np+1:0; for(k=M.np+1;k<=M.npmax;k++) M.point[k].tmp=k<M.npmax?k+1:0;
  M.nenil=M.ne+1; for(k=M.ne+1;k<=M.nemax;k++) M.tetra[k].v[3]=k<M.nemax?k+1:0;
  for(t=0;t<NT;t++){ for(i=0;i<4;i++) M.tetra[t+1].v[i]=T[t][i]; M.tetra[t+1].ref=mats<0?vf_i32():MODE?7+t:(mats>>t)&1?4:3; M.tetra[t+1].xt=t+1; M.xtetra[t+1].ori=15;
    for(f=0;f<4;f++) if(outer(t,f)){ M.xtetra[t+1].ftag[f]=MG_BDY; M.xtetra[t+1].ref[f]=mats<0?vf_i32():(mats>>(4*t+f))&1?4:3; } }
  if(mats>=0){ M.info.nmat=M.info.nmati=2;
#ifdef VF_REPLAY
    MMG5_SAFE_CALLOC(M.info.mat,2,MMG5_Mat,return);
#else
    M.info.mat=__CPROVER_allocate(2*sizeof(MMG5_Mat),1);
#endif
    M.info.mat[0].ref=3; M.info.mat[0].dospl=1; M.info.mat[0].rin=5; M.info.mat[0].rex=6; M.info.mat[1].ref=4; M.info.mat[1].dospl=0;
    V_ASSERT(MMG5_MultiMat_init(&M)==1,"table built"); }
  for(i=0;i<ENT;i++){ keep[i]=mats>=0&&((mats>>i)&1); ref0[i]=MODE?(i/4<NT?M.xtetra[i/4+1].ref[i%4]:0):M.tetra[i+1].ref; }
  int r=MODE?MMG3D_cuttet_lssurf(&M,&S,NULL):MMG3D_cuttet_ls(&M,&S,NULL);
  V_ASSERT(r>0,"cutting succeeds");
  /* new points: middle of an edge whose ends have opposite signs, level exactly 0 */
  for(i=1;i<=NV;i++) V_ASSERT(M.point[i].c[0]==X[i][0]&&M.point[i].c[1]==X[i][1]&&M.point[i].c[2]==X[i][2]&&S.m[i]==sg[i],"vertices and their levels unchanged");
  V_ASSERT(M.np<=NV+14,"number of new points");
  for(i=NV+1;i<=M.np;i++){ for(j=0;j<3;j++){ Y[i][j]=(int)(2*M.point[i].c[j]); V_ASSERT(Y[i][j]==2*M.point[i].c[j],"new point at the middle of an edge"); } V_ASSERT(S.m[i]==0,"level of a new point"); sg[i]=0; n=0;
    for(k=1;k<=NV;k++) for(l=1;l<k;l++) if(sg[k]*sg[l]<0&&2*Y[i][0]==Y[k][0]+Y[l][0]&&2*Y[i][1]==Y[k][1]+Y[l][1]&&2*Y[i][2]==Y[k][2]+Y[l][2]) n++;
    V_ASSERT(n>0,"new point where the level vanishes");
    for(k=NV+1;k<i;k++) V_ASSERT(Y[k][0]!=Y[i][0]||Y[k][1]!=Y[i][1]||Y[k][2]!=Y[i][2],"new points are distinct"); }
  r=MODE?MMG3D_setref_lssurf(&M,&S):MMG3D_setref_ls(&M,&S);
  V_ASSERT(r==1,"references set");
  int nf=0; for(k=1;k<=M.ne;k++) for(f=0;f<4;f++) FK[nf++]=k4(M.tetra[k].v[FC[f][0]],M.tetra[k].v[FC[f][1]],M.tetra[k].v[FC[f][2]]);
  for(k=1;k<=M.ne;k++){ MMG5_int *v=M.tetra[k].v; int pos=0,neg=0; for(i=0;i<4;i++) V_ASSERT(v[i]>=1&&v[i]<=M.np,"vertices of a piece exist");
    int w=vol(v[0],v[1],v[2],v[3]); V_ASSERT(w>0,"piece has positive volume"); tot+=w;
    n=-1; for(t=0;t<NT;t++) if(inside(t,v[0])&&inside(t,v[1])&&inside(t,v[2])&&inside(t,v[3])) n=t; V_ASSERT(n>=0,"piece lies in one of the tetrahedra");
    for(i=0;i<4;i++){ if(S.m[v[i]]>0) pos++; if(S.m[v[i]]<0) neg++; }
#if MODE==0
    if(keep[n]) V_ASSERT(M.tetra[k].ref==ref0[n],"kept material keeps its reference");
    else { V_ASSERT(!(pos&&neg),"no piece lies on both sides"); V_ASSERT(M.tetra[k].ref==(mats>=0?(pos?6:5):(pos?MG_PLUS:MG_MINUS)),"reference of the side"); }
#else
    V_ASSERT(M.tetra[k].ref==M.tetra[n+1].ref,"volume reference unchanged");
#endif
    for(f=0;f<4;f++){ int a=v[FC[f][0]],b=v[FC[f][1]],c=v[FC[f][2]],m=0,o=-1;
      { int ka=k4(a,b,c); for(l=0;l<nf;l++) m+=FK[l]==ka; }
      for(g=0;g<4;g++) if(outer(n,g)&&onface(n,g,a)&&onface(n,g,b)&&onface(n,g,c)) o=g;
      V_ASSERT(m==1,
        "face listed once"); m=0; { int ka=k4(a,c,b); for(l=0;l<nf;l++) m+=FK[l]==ka; } V_ASSERT(m==(o>=0?0:1),"the cut mesh is conforming");
#if MODE==1
      if(o>=0){ int x=M.tetra[k].xt,ps=S.m[a]>0||S.m[b]>0||S.m[c]>0,ng=S.m[a]<0||S.m[b]<0||S.m[c]<0; V_ASSERT(x>0&&(M.xtetra[x].ftag[f]&MG_BDY),"boundary face is still known");
        if(keep[4*n+o]) V_ASSERT(M.xtetra[x].ref[f]==ref0[4*n+o],"kept material keeps its reference");
        else { V_ASSERT(!(ps&&ng),"no boundary face lies on both sides"); V_ASSERT(M.xtetra[x].ref[f]==(mats>=0?(ps?6:5):(ps?MG_PLUS:MG_MINUS)),"reference of the side"); }
        for(j=0;j<3;j++){ int p=v[FC[f][j]],q=v[FC[f][(j+1)%3]],e; if(S.m[p]==0) V_ASSERT(M.point[p].ref==M.info.isoref,"vertex on the line carries its reference");
          if(S.m[p]==0&&S.m[q]==0){ for(e=0;e<6;e++) if((v[EG[e][0]]==p&&v[EG[e][1]]==q)||(v[EG[e][0]]==q&&v[EG[e][1]]==p)) V_ASSERT(M.xtetra[x].edg[e]==M.info.isoref&&(M.xtetra[x].tag[e]&MG_REF),"edge on the line carries its reference"); } } }
#endif
    } }
  int want=0; for(t=0;t<NT;t++) want+=vol(T[t][0],T[t][1],T[t][2],T[t][3]);
  V_ASSERT(tot==want,"pieces fill the tetrahedra");
}
static const int PATS[]={PAT}; /* sign of each vertex, base 3 digits: 0 negative, 1 zero, 2 positive */
int main(void){ unsigned p; for(p=0;p<sizeof(PATS)/sizeof(PATS[0]);p++) run(PATS[p],MATS); V_WITNESS(); return 0; }
