/* Combinatorial refinement oracle for one tetrahedron: vertices 0..3 of the parent, edge points 4..9, centre 10.
 * Every point is known by its barycentric coordinates (in units of 1/4 of the parent). */
static const int EV[6][2]={{0,1},{0,2},{0,3},{1,2},{1,3},{2,3}};
static int BC[11][4]; static int SUP[11];
static void bary(void){ int i,j; for(i=0;i<11;i++){ for(j=0;j<4;j++) BC[i][j]=0; SUP[i]=0; }
  for(i=0;i<4;i++){ BC[i][i]=4; SUP[i]=1<<i; } for(i=0;i<6;i++){ BC[4+i][EV[i][0]]=2; BC[4+i][EV[i][1]]=2; SUP[4+i]=(1<<EV[i][0])|(1<<EV[i][1]); }
  for(j=0;j<4;j++) BC[10][j]=1; SUP[10]=15; }
static int det3(const int *a,const int *b,const int *c,int p,int q,int r){
  return a[p]*(b[q]*c[r]-b[r]*c[q])-a[q]*(b[p]*c[r]-b[r]*c[p])+a[r]*(b[p]*c[q]-b[q]*c[p]); }
/* orientation volume in units of parent/64 */
static int bvol(const int *v){ int a[3],b[3],c[3],i; for(i=0;i<3;i++){ a[i]=BC[v[1]][i+1]-BC[v[0]][i+1]; b[i]=BC[v[2]][i+1]-BC[v[0]][i+1]; c[i]=BC[v[3]][i+1]-BC[v[0]][i+1]; } return det3(a,b,c,0,1,2); }
/* faces of tetra, local vertices in the library's order (face i opposite to vertex i) */
static const int FV[4][3]={{1,2,3},{0,3,2},{0,1,3},{0,2,1}};
static int outside(int sup){ int f; for(f=0;f<4;f++) if(!(sup&(1<<f))) return f; return -1; }
/* same cyclic order (1), reversed (-1), different faces (0) */
static int cmpf(const int *a,const int *b){ int s; for(s=0;s<3;s++){ if(a[0]==b[s]&&a[1]==b[(s+1)%3]&&a[2]==b[(s+2)%3]) return 1; if(a[0]==b[s]&&a[1]==b[(s+2)%3]&&a[2]==b[(s+1)%3]) return -1; } return 0; }
