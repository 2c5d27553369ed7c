/* Planar refinement oracle: the live triangles of M must partition the NP0 parent triangles P0 (saved copies),
 * vertex coordinates are concrete, references and tags symbolic. */
static double carea(const MMG5_Point *p,MMG5_int a,MMG5_int b,MMG5_int c){
  return (p[b].c[0]-p[a].c[0])*(p[c].c[1]-p[a].c[1])-(p[b].c[1]-p[a].c[1])*(p[c].c[0]-p[a].c[0]); }
static int nx(int i){ return i==2?0:i+1; }
static int pv(int i){ return i==0?2:i-1; }
/* is vertex q on edge e of parent P (concrete) */
static int onedge(const MMG5_Point *p,const MMG5_Tria *P,int e,MMG5_int q){ return carea(p,P->v[nx(e)],P->v[pv(e)],q)==0.; }
static int inside(const MMG5_Point *p,const MMG5_Tria *P,const MMG5_Tria *t){ int i,j;
  for(i=0;i<3;i++) for(j=0;j<3;j++) if(carea(p,P->v[nx(i)],P->v[pv(i)],t->v[j])<0.) return 0;
  return 1; }
/* checks the pieces of parent P (index ip); returns their number */
static int pieces(const MMG5_Mesh *m,const MMG5_Tria *P,int checkattr){
  const MMG5_Point *p=m->point; double s=0.; int n=0,i,j,e; MMG5_int k,l; double len[3]={0,0,0};
  for(k=1;k<=m->nt;k++){ const MMG5_Tria *t=&m->tria[k]; if(!(t->v[0]>0)) continue;
    if(!inside(p,P,t)) continue;
    n++; double a=carea(p,t->v[0],t->v[1],t->v[2]); V_ASSERT(a>0.,"piece keeps the orientation"); s+=a;
    if(checkattr) V_ASSERT(t->ref==P->ref,"piece carries the reference of the triangle");
    for(i=0;i<3;i++){
      MMG5_int a1=t->v[nx(i)],a2=t->v[pv(i)]; int on=-1;
      for(e=0;e<3;e++) if(onedge(p,P,e,a1)&&onedge(p,P,e,a2)) on=e;
      if(on>=0){ double dx=p[a2].c[0]-p[a1].c[0],dy=p[a2].c[1]-p[a1].c[1],ex=p[P->v[pv(on)]].c[0]-p[P->v[nx(on)]].c[0],ey=p[P->v[pv(on)]].c[1]-p[P->v[nx(on)]].c[1];
        V_ASSERT(dx*ex+dy*ey>0.,"part of an edge runs in the direction of the edge"); len[on]+=(dx*ex+dy*ey)/(ex*ex+ey*ey);
        V_ASSERT(t->tag[i]==P->tag[on],"part of an edge carries its tag"); V_ASSERT(t->edg[i]==P->edg[on],"part of an edge carries its reference"); }
      else { int c=0; V_ASSERT(t->tag[i]==0&&t->edg[i]==0,"inner edge has no tag and no reference");
        for(l=1;l<=m->nt;l++){ const MMG5_Tria *u=&m->tria[l]; if(!(u->v[0]>0)) continue; for(j=0;j<3;j++) if(u->v[nx(j)]==a2&&u->v[pv(j)]==a1) c++; else if(l!=k) V_ASSERT(!(u->v[nx(j)]==a1&&u->v[pv(j)]==a2),"inner edge used once in each direction"); }
        V_ASSERT(c==1,"inner edge separates two pieces"); }
    } }
  V_ASSERT(s==carea(p,P->v[0],P->v[1],P->v[2]),"pieces fill the triangle");
  for(e=0;e<3;e++) V_ASSERT(len[e]==1.,"pieces cover each edge once");
  return n; }
/* adjacency of all live triangles is exact */
#ifndef AXMAX
#define AXMAX 24
#endif
static void adjexact(const MMG5_Mesh *m){ int i,j,k,l,nt=(int)m->nt; int w[AXMAX][3]; MMG5_int want[3*AXMAX];
  V_ASSERT(nt<AXMAX,"triangle count within the harness bound");
  for(k=1;k<=nt;k++){ int lv=m->tria[k].v[0]>0; for(i=0;i<3;i++){ w[k][i]=lv?(int)m->tria[k].v[i]:0; want[3*k+i]=0; } }
  for(k=1;k<=nt;k++){ if(!w[k][0]) continue;
    for(l=1;l<k;l++){ if(!w[l][0]) continue;
      for(i=0;i<3;i++){ int a1=w[k][nx(i)],a2=w[k][pv(i)];
        for(j=0;j<3;j++) if(w[l][nx(j)]==a2&&w[l][pv(j)]==a1){ want[3*k+i]=3*l+j; want[3*l+j]=3*k+i; } } } }
  for(k=1;k<=nt;k++) if(w[k][0]) for(i=0;i<3;i++) V_ASSERT(m->adja[3*(k-1)+1+i]==want[3*k+i],"adjacency is exact"); }
