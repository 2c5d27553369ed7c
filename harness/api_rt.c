/* Entities of one kind written through the API from an arbitrary state are read
 * back as written, by every getter; everything else is untouched.
 * LIB 3: mmg3d, 2: mmg2d, 1: mmgs.   KIND: V E P T Q A below.   OP: 0 set one,
 * 1 set all, 2 attributes. */
#ifndef NE_
#define NE_ 3
#endif
#include "vf.h"
#if LIB==3
#include "libmmg3d.h"
#include "libmmg3d_private.h"
#define F(n) MMG3D_##n
#define DIM 3
#elif LIB==2
#include "libmmg2d.h"
#include "libmmg2d_private.h"
#define F(n) MMG2D_##n
#define DIM 2
#else
#include "libmmgs.h"
#include "libmmgs_private.h"
#define F(n) MMGS_##n
#define DIM 3
#endif
#define VERT 0
#define TETR 1
#define PRIS 2
#define TRIA 3
#define QUAD 4
#define EDGE 5

/* kinds whose vertices become part of the mesh */
#define INUSE ((LIB==3 && (KIND==TETR||KIND==PRIS)) || LIB==2 || (LIB==1 && KIND==TRIA))

/* LIGHT_: coordinates of the vertices are concrete and not compared */
#if INUSE && OP<2 && KIND!=VERT && (OP==1 || KIND==PRIS)
#define LIGHT
#endif
static MMG5_Mesh  M;  static MMG5_pMesh mesh=&M;
static MMG5_Point PT[NE_+2]; static MMG5_Tetra TE[NE_+2]; static MMG5_Prism PR[NE_+2];
static MMG5_Tria  TR[NE_+2]; static MMG5_Quad  QU[NE_+2]; static MMG5_Edge  ED[NE_+2];
static MMG5_Point PT0[NE_+2]; static MMG5_Tetra TE0[NE_+2]; static MMG5_Prism PR0[NE_+2];
static MMG5_Tria  TR0[NE_+2]; static MMG5_Quad  QU0[NE_+2]; static MMG5_Edge  ED0[NE_+2];

/* signed volume / area: an arbitrary function of (the first two of) the vertices,
 * so that the claim holds whatever the geometry is */
#if OP<2 && ((LIB==3 && KIND==TETR) || (LIB==2 && KIND==TRIA))
#define ORIENT
static double VOL[NE_+1][NE_+1];
static double vol_of(int a,int b){ double r=0; int i,j; for(i=1;i<=NE_;i++) for(j=1;j<=NE_;j++) if(i==a && j==b) r=VOL[i][j]; return r; }
#endif
#if defined(ORIENT) && LIB==3
double MMG5_orvol(MMG5_pPoint point,MMG5_int *v){ return vol_of(v[0],v[1]); }
#endif
#if defined(ORIENT) && LIB==2
static int idof(double *c){ int k,r=0; for(k=1;k<=NE_;k++) if(c==PT[k].c) r=k; return r; }
double MMG2D_quickarea(double a[2],double b[2],double c[2]){ return vol_of(idof(a),idof(b)); }
#endif

static void mk_state(void){
  int i,j;
  mesh->point=PT; mesh->tetra=TE; mesh->prism=PR; mesh->tria=TR; mesh->quadra=QU; mesh->edge=ED;
  mesh->np=mesh->ne=mesh->nprism=mesh->nt=mesh->nquad=mesh->na=NE_;
  mesh->npmax=mesh->nemax=mesh->ntmax=mesh->namax=NE_+1;
  mesh->npi=mesh->np; mesh->nei=mesh->ne; mesh->nti=mesh->nt; mesh->nai=mesh->na;
  mesh->dim=DIM; mesh->ver=2; mesh->info.ddebug=vf_bool();
  for(i=1;i<=NE_;i++){
#ifdef LIGHT
    for(j=0;j<3;j++){ PT[i].c[j]=i; PT[i].n[j]=j; }
#else
    for(j=0;j<3;j++){ PT[i].c[j]=vf_num(); PT[i].n[j]=vf_num(); }
#endif
    PT[i].ref=vf_i32(); PT[i].tag=vf_u16(); PT[i].tmp=vf_i32(); PT[i].flag=vf_i32();
    for(j=0;j<4;j++) TE[i].v[j]=vf_i32();
    TE[i].ref=vf_i32(); TE[i].tag=vf_u16();
    for(j=0;j<6;j++) PR[i].v[j]=vf_i32();
    PR[i].ref=vf_i32(); PR[i].tag=vf_u8();
    for(j=0;j<3;j++){ TR[i].v[j]=vf_i32(); TR[i].tag[j]=vf_u16(); }
    TR[i].ref=vf_i32();
    for(j=0;j<4;j++){ QU[i].v[j]=vf_i32(); QU[i].tag[j]=vf_u16(); }
    QU[i].ref=vf_i32();
    ED[i].a=vf_i32(); ED[i].b=vf_i32(); ED[i].ref=vf_i32(); ED[i].tag=vf_u16();
#if LIB==2
    V_ASSUME(ED[i].a!=0); /* edges of a user mesh */
#endif
  }
  for(i=0;i<NE_+2;i++){ PT0[i]=PT[i]; TE0[i]=TE[i]; PR0[i]=PR[i]; TR0[i]=TR[i]; QU0[i]=QU[i]; ED0[i]=ED[i]; }
}

/* ---- uniform view of the kind under test -------------------------------- */
#if KIND==VERT
#define NV 0
#define CNT np
#elif KIND==TETR
#define NV 4
#define CNT ne
static int s1(MMG5_int *v,MMG5_int r,int pos){ return F(Set_tetrahedron)(mesh,v[0],v[1],v[2],v[3],r,pos); }
static int sa(MMG5_int *v,MMG5_int *r){ return F(Set_tetrahedra)(mesh,v,r); }
static int ga(MMG5_int *v,MMG5_int *r,int *q,int *d){ (void)d; return F(Get_tetrahedra)(mesh,v,r,q); }
static int g1(MMG5_int *v,MMG5_int *r,int *q,int *d){ (void)d; return F(Get_tetrahedron)(mesh,&v[0],&v[1],&v[2],&v[3],r,q); }
#elif KIND==PRIS
#define NV 6
#define CNT nprism
static int s1(MMG5_int *v,MMG5_int r,int pos){ return F(Set_prism)(mesh,v[0],v[1],v[2],v[3],v[4],v[5],r,pos); }
static int sa(MMG5_int *v,MMG5_int *r){ return F(Set_prisms)(mesh,v,r); }
static int ga(MMG5_int *v,MMG5_int *r,int *q,int *d){ (void)d; return F(Get_prisms)(mesh,v,r,q); }
static int g1(MMG5_int *v,MMG5_int *r,int *q,int *d){ (void)d; return F(Get_prism)(mesh,&v[0],&v[1],&v[2],&v[3],&v[4],&v[5],r,q); }
#elif KIND==TRIA
#define NV 3
#define CNT nt
static int s1(MMG5_int *v,MMG5_int r,int pos){ return F(Set_triangle)(mesh,v[0],v[1],v[2],r,pos); }
static int sa(MMG5_int *v,MMG5_int *r){ return F(Set_triangles)(mesh,v,r); }
static int ga(MMG5_int *v,MMG5_int *r,int *q,int *d){ (void)d; return F(Get_triangles)(mesh,v,r,q); }
static int g1(MMG5_int *v,MMG5_int *r,int *q,int *d){ (void)d; return F(Get_triangle)(mesh,&v[0],&v[1],&v[2],r,q); }
#elif KIND==QUAD
#define NV 4
#define CNT nquad
static int s1(MMG5_int *v,MMG5_int r,int pos){ return F(Set_quadrilateral)(mesh,v[0],v[1],v[2],v[3],r,pos); }
static int sa(MMG5_int *v,MMG5_int *r){ return F(Set_quadrilaterals)(mesh,v,r); }
static int ga(MMG5_int *v,MMG5_int *r,int *q,int *d){ (void)d; return F(Get_quadrilaterals)(mesh,v,r,q); }
static int g1(MMG5_int *v,MMG5_int *r,int *q,int *d){ (void)d; return F(Get_quadrilateral)(mesh,&v[0],&v[1],&v[2],&v[3],r,q); }
#else
#define NV 2
#define CNT na
static int s1(MMG5_int *v,MMG5_int r,int pos){ return F(Set_edge)(mesh,v[0],v[1],r,pos); }
static int sa(MMG5_int *v,MMG5_int *r){ return F(Set_edges)(mesh,v,r); }
static int ga(MMG5_int *v,MMG5_int *r,int *q,int *d){ return F(Get_edges)(mesh,v,r,d,q); }
static int g1(MMG5_int *v,MMG5_int *r,int *q,int *d){ return F(Get_edge)(mesh,&v[0],&v[1],r,d,q); }
#endif
#define W (NV?NV:1)
typedef struct { MMG5_int v[NE_*W],r[NE_]; int q[NE_],d[NE_]; double c[NE_*DIM],n[NE_*3]; } view_t;

static void observe(view_t *o){
#if KIND==VERT
  V_ASSERT(F(Get_vertices)(mesh,o->c,o->r,o->d,o->q)==1,"read of all entities succeeds");
#if LIB!=2
  int i; for(i=0;i<NE_;i++) if(i<mesh->np) V_ASSERT(F(Get_normalAtVertex)(mesh,i+1,&o->n[3*i],&o->n[3*i+1],&o->n[3*i+2])==1,"normal read");
#endif
#else
  V_ASSERT(ga(o->v,o->r,o->q,o->d)==1,"read of all entities succeeds");
#endif
}

/* one-by-one getters enumerate the same contents in the same order */
static void compare(const view_t *b,const view_t *a,int n){
  int i,j;
  for(i=0;i<NE_;i++) if(i<n){
    V_ASSERT(b->r[i]==a->r[i],"reference as set");
    V_ASSERT(b->q[i]==a->q[i],"required attribute as set");
#if KIND==VERT
    for(j=0;j<DIM;j++) V_ASSERT(b->c[DIM*i+j]==a->c[DIM*i+j],"coordinates as set");
    V_ASSERT(b->d[i]==a->d[i],"corner attribute as set");
#if LIB!=2
    for(j=0;j<3;j++) V_ASSERT(b->n[3*i+j]==a->n[3*i+j],"normal as set");
#endif
    { double c[3],e[3]; MMG5_int r,r2; int q,d,q2,d2; c[2]=e[2]=0;
#if LIB==2
      V_ASSERT(F(Get_vertex)(mesh,&c[0],&c[1],&r,&d,&q)==1,"vertex read");
      V_ASSERT(F(GetByIdx_vertex)(mesh,&e[0],&e[1],&r2,&d2,&q2,i+1)==1,"indexed vertex read");
#else
      V_ASSERT(F(Get_vertex)(mesh,&c[0],&c[1],&c[2],&r,&d,&q)==1,"vertex read");
      V_ASSERT(F(GetByIdx_vertex)(mesh,&e[0],&e[1],&e[2],&r2,&d2,&q2,i+1)==1,"indexed vertex read");
#endif
      for(j=0;j<DIM;j++) V_ASSERT(c[j]==a->c[DIM*i+j] && e[j]==a->c[DIM*i+j],"single read: coordinates");
      V_ASSERT(r==a->r[i] && r2==a->r[i] && q==a->q[i] && q2==a->q[i] && d==a->d[i] && d2==a->d[i],"single read: reference and attributes"); }
#else
    for(j=0;j<NV;j++) V_ASSERT(b->v[NV*i+j]==a->v[NV*i+j],"vertices as set");
#if KIND==EDGE
    V_ASSERT(b->d[i]==a->d[i],"ridge attribute as set");
#endif
    { MMG5_int v[W],r; int q,d=0;
      V_ASSERT(g1(v,&r,&q,&d)==1,"single read");
      for(j=0;j<NV;j++) V_ASSERT(v[j]==a->v[NV*i+j],"single read: vertices");
      V_ASSERT(r==a->r[i] && q==a->q[i],"single read: reference and attribute");
#if KIND==EDGE
      V_ASSERT(d==a->d[i],"single read: ridge attribute");
#endif
    }
#endif
  }
}

/* kinds that were not written keep their contents (a vertex may become "in use") */
static void others(int n0[6]){
  int i,j;
#if LIB==3
  MMG5_int np,ne,npr,nt,nq,na; F(Get_meshSize)(mesh,&np,&ne,&npr,&nt,&nq,&na);
  V_ASSERT(np==n0[0]&&ne==n0[1]&&npr==n0[2]&&nt==n0[3]&&nq==n0[4]&&na==n0[5],"mesh sizes unchanged");
#elif LIB==2
  MMG5_int np,nt,nq,na; F(Get_meshSize)(mesh,&np,&nt,&nq,&na);
  V_ASSERT(np==n0[0]&&nt==n0[3]&&nq==n0[4]&&na==n0[5],"mesh sizes unchanged");
#else
  MMG5_int np,nt,na; F(Get_meshSize)(mesh,&np,&nt,&na);
  V_ASSERT(np==n0[0]&&nt==n0[3]&&na==n0[5],"mesh sizes unchanged");
#endif
  for(i=1;i<=NE_;i++){
#if KIND!=VERT
#ifndef LIGHT
    for(j=0;j<3;j++) V_ASSERT(PT[i].c[j]==PT0[i].c[j] && PT[i].n[j]==PT0[i].n[j],"vertices untouched");
#endif
    V_ASSERT(PT[i].ref==PT0[i].ref && ((PT[i].tag^PT0[i].tag)&~(MG_NUL|MG_PARBDY))==0,"vertex attributes untouched");
#endif
#if KIND!=TETR
    for(j=0;j<4;j++) V_ASSERT(TE[i].v[j]==TE0[i].v[j],"tetrahedra untouched");
    V_ASSERT(TE[i].ref==TE0[i].ref && TE[i].tag==TE0[i].tag,"tetrahedra untouched");
#endif
#if KIND!=PRIS
    for(j=0;j<6;j++) V_ASSERT(PR[i].v[j]==PR0[i].v[j],"prisms untouched");
    V_ASSERT(PR[i].ref==PR0[i].ref && PR[i].tag==PR0[i].tag,"prisms untouched");
#endif
#if KIND!=TRIA
    for(j=0;j<3;j++) V_ASSERT(TR[i].v[j]==TR0[i].v[j] && TR[i].tag[j]==TR0[i].tag[j],"triangles untouched");
    V_ASSERT(TR[i].ref==TR0[i].ref,"triangles untouched");
#endif
#if KIND!=QUAD
    for(j=0;j<4;j++) V_ASSERT(QU[i].v[j]==QU0[i].v[j] && QU[i].tag[j]==QU0[i].tag[j],"quadrilaterals untouched");
    V_ASSERT(QU[i].ref==QU0[i].ref,"quadrilaterals untouched");
#endif
#if KIND!=EDGE
    V_ASSERT(ED[i].a==ED0[i].a && ED[i].b==ED0[i].b && ED[i].ref==ED0[i].ref && ED[i].tag==ED0[i].tag,"edges untouched");
#endif
  }
}

#if OP<2
/* expected vertices of an element given as w: reversed when its volume is negative */
static int expect(const MMG5_int *w,MMG5_int *e){
  int j; for(j=0;j<NV;j++) e[j]=w[j];
#if LIB==3 && KIND==TETR
  double x=vol_of(w[0],w[1]);
  if(x<0){ e[2]=w[3]; e[3]=w[2]; }
  return x>1e-200 || x<-1e-200;
#elif LIB==2 && KIND==TRIA
  double x=vol_of(w[0],w[1]);
  if(x<0){ e[1]=w[2]; e[2]=w[1]; }
  return x!=0;
#else
  return 1;
#endif
}
#endif

int main(void){
  static view_t a,b; int i,j,n0[6];
  mk_state();
  V_ASSUME(mesh->CNT>=1);
  n0[0]=mesh->np; n0[1]=mesh->ne; n0[2]=mesh->nprism; n0[3]=mesh->nt; n0[4]=mesh->nquad; n0[5]=mesh->na;
  observe(&a);
  int pos=vf_range(1,NE_); V_ASSUME(pos<=mesh->CNT);
  i=pos-1;
#if KIND==VERT && OP<2
  { double c[DIM*NE_]; MMG5_int r[NE_]; int wr=vf_bool();
    for(i=0;i<DIM*NE_;i++) c[i]=vf_num();
    for(i=0;i<NE_;i++) r[i]=vf_i32();
#if OP==0
#if LIB==2
    V_ASSERT(F(Set_vertex)(mesh,c[0],c[1],r[0],pos)==1,"write succeeds");
#else
    V_ASSERT(F(Set_vertex)(mesh,c[0],c[1],c[2],r[0],pos)==1,"write succeeds");
#endif
    for(j=0;j<DIM;j++) a.c[DIM*(pos-1)+j]=c[j];
    a.r[pos-1]=r[0];
#else
    V_ASSERT(F(Set_vertices)(mesh,c,wr?r:NULL)==1,"write succeeds");
    for(i=0;i<NE_;i++){ for(j=0;j<DIM;j++) a.c[DIM*i+j]=c[DIM*i+j]; if(wr) a.r[i]=r[i]; }
#endif
    /* coordinates and references only: whether a rewritten vertex keeps its
     * corner/required attributes is not claimed */
    for(i=0;i<NE_;i++) if(OP==1 || i==pos-1){ a.d[i]=!!(PT[i+1].tag&MG_CRN); a.q[i]=!!(PT[i+1].tag&MG_REQ); }
  }
#elif OP<2
  { MMG5_int v[NV*NE_],r[NE_]; int wr=vf_bool();
    /* second prism: fixed vertices (cost) */
    for(i=0;i<NV*NE_;i++) v[i]=(KIND==PRIS && i>=6)?1+i%3%2:vf_range(1,NE_);
    for(i=0;i<NE_;i++){ r[i]=vf_i32(); if(LIB==3 && KIND==TETR) V_ASSUME(r[i]>=0); }
#ifdef ORIENT
    for(i=1;i<=NE_;i++) for(j=1;j<=NE_;j++) VOL[i][j]=vf_num();
#endif
#if OP==0
    int ret=s1(v,r[0],pos);
    i=pos-1;
    int ok=expect(v,&a.v[NV*i]);
    a.r[i]=r[0];
    if(INUSE) for(j=0;j<NV;j++) V_ASSERT(MG_VOK(&PT[v[j]]),"vertices of a written entity are in use");
#else
    int ret=sa(v,wr?r:NULL),ok=1;
    for(i=0;i<NE_;i++) if(i<mesh->CNT){
      if(!expect(v+NV*i,&a.v[NV*i])) ok=0;
      if(wr) a.r[i]=r[i]; }
#endif
    V_ASSERT(!ok || ret==1,"write of valid entities succeeds");
    V_ASSUME(ok);
#if OP==1
    if(INUSE) for(i=0;i<NE_;i++) if(i<mesh->CNT) for(j=0;j<NV;j++) V_ASSERT(MG_VOK(&PT[v[NV*i+j]]),"vertices of a written entity are in use");
#endif
#if KIND==EDGE
    /* whether rewriting an edge keeps its attributes is not claimed */
    for(i=0;i<NE_;i++) if(OP==1 || i==pos-1){ a.d[i]=!!(ED[i+1].tag&MG_GEO); a.q[i]=!!(ED[i+1].tag&MG_REQ); }
#endif
  }
#else /* attributes */
  int k=vf_range(0,9),nl=vf_range(0,2); MMG5_int l[2];
  l[0]=vf_range(1,NE_); l[1]=vf_range(1,NE_); V_ASSUME(l[0]<=mesh->CNT && l[1]<=mesh->CNT);
#if KIND==VERT
  double x=vf_num(),y=vf_num(),z=vf_num();
  V_ASSUME(k<=(LIB==2?3:4));
  switch(k){
  case 0: V_ASSERT(F(Set_corner)(mesh,pos)==1,"Set_corner"); a.d[i]=1; break;
  case 1: V_ASSERT(F(Unset_corner)(mesh,pos)==1,"Unset_corner"); a.d[i]=0; break;
  case 2: V_ASSERT(F(Set_requiredVertex)(mesh,pos)==1,"Set_requiredVertex"); a.q[i]=1; V_ASSERT(MG_VOK(&PT[pos]),"a required vertex is in use"); break;
  case 3: V_ASSERT(F(Unset_requiredVertex)(mesh,pos)==1,"Unset_requiredVertex"); a.q[i]=0; break;
#if LIB!=2
  default: V_ASSERT(F(Set_normalAtVertex)(mesh,pos,x,y,z)==1,"Set_normalAtVertex"); a.n[3*i]=x; a.n[3*i+1]=y; a.n[3*i+2]=z;
#endif
  }
#elif KIND==TETR
  V_ASSUME(k<4);
  switch(k){
  case 0: V_ASSERT(F(Set_requiredTetrahedron)(mesh,pos)==1,"ok"); a.q[i]=1; break;
  case 1: V_ASSERT(F(Unset_requiredTetrahedron)(mesh,pos)==1,"ok"); a.q[i]=0; break;
  case 2: V_ASSERT(F(Set_requiredTetrahedra)(mesh,l,nl)==1,"ok"); for(j=0;j<nl;j++) a.q[l[j]-1]=1; break;
  default: V_ASSERT(F(Unset_requiredTetrahedra)(mesh,l,nl)==1,"ok"); for(j=0;j<nl;j++) a.q[l[j]-1]=0; break;
  }
#elif KIND==TRIA
  V_ASSUME(k<(LIB==3?8:2));
  int e;
  switch(k){
  case 0: V_ASSERT(F(Set_requiredTriangle)(mesh,pos)==1,"ok"); a.q[i]=1; break;
  case 1: V_ASSERT(F(Unset_requiredTriangle)(mesh,pos)==1,"ok"); a.q[i]=0; break;
#if LIB==3
  case 2: V_ASSERT(F(Set_requiredTriangles)(mesh,l,nl)==1,"ok"); for(j=0;j<nl;j++) a.q[l[j]-1]=1; break;
  case 3: V_ASSERT(F(Unset_requiredTriangles)(mesh,l,nl)==1,"ok"); for(j=0;j<nl;j++) a.q[l[j]-1]=0; break;
  case 4: V_ASSERT(F(Set_parallelTriangle)(mesh,pos)==1,"ok"); for(e=0;e<3;e++) V_ASSERT(TR[pos].tag[e]&MG_PARBDY,"parallel attribute set on every edge"); break;
  case 5: V_ASSERT(F(Unset_parallelTriangle)(mesh,pos)==1,"ok"); for(e=0;e<3;e++) V_ASSERT(!(TR[pos].tag[e]&MG_PARBDY),"parallel attribute removed from every edge"); break;
  case 6: V_ASSERT(F(Set_parallelTriangles)(mesh,l,nl)==1,"ok"); for(j=0;j<nl;j++) for(e=0;e<3;e++) V_ASSERT(TR[l[j]].tag[e]&MG_PARBDY,"parallel attribute set"); break;
  default: V_ASSERT(F(Unset_parallelTriangles)(mesh,l,nl)==1,"ok"); for(j=0;j<nl;j++) for(e=0;e<3;e++) V_ASSERT(!(TR[l[j]].tag[e]&MG_PARBDY),"parallel attribute removed"); break;
#endif
  }
#if LIB!=2
  /* attributes are stored per edge of the triangle: nothing but the named bits moves */
  for(j=1;j<=NE_;j++) for(e=0;e<3;e++) V_ASSERT(((TR[j].tag[e]^TR0[j].tag[e])&~(MG_REQ|MG_PARBDY))==0,"other attributes untouched");
#endif
#else
  V_ASSUME(k<(LIB==2?3:4));
  V_ASSUME(ED[pos].a>=1 && ED[pos].a<=NE_ && ED[pos].b>=1 && ED[pos].b<=NE_);
  switch(k){
  case 0: V_ASSERT(F(Set_requiredEdge)(mesh,pos)==1,"ok"); a.q[i]=1; break;
  case 1: V_ASSERT(F(Unset_requiredEdge)(mesh,pos)==1,"ok"); a.q[i]=0; break;
#if LIB==2
  default: V_ASSERT(F(Set_parallelEdge)(mesh,pos)==1,"ok"); V_ASSERT(ED[pos].tag&MG_PARBDY,"parallel attribute"); break;
#else
  case 2: V_ASSERT(F(Set_ridge)(mesh,pos)==1,"Set_ridge"); a.d[i]=1; break;
  default: V_ASSERT(F(Unset_ridge)(mesh,pos)==1,"Unset_ridge"); a.d[i]=0; break;
#endif
  }
#endif
#endif
  observe(&b);
  compare(&b,&a,mesh->CNT);
  others(n0);
  V_WITNESS();
  return 0;
}
