/* Edge/face tables against a reference map. T: 0 edge->int, 1 edge->tag (or), 2 face->int, 3 edge->(ref,tag)
 * NK keys, NOP operations, MODE 0: any operations, any collision pattern, table large enough;
 * MODE 1: NK distinct colliding keys inserted so that the table has to grow. */
#include "vf.h"
#include "libmmg3d.h"
#include "libmmg3d_private.h"
#ifndef NK
#define NK 3
#endif
#ifndef NOP
#define NOP 4
#endif
#ifndef HSIZ
#define HSIZ 1
#endif
#ifndef HMAX
#define HMAX 8
#endif
#define NO ((T==0||T==3)?3:1)
static MMG5_Mesh M; static MMG5_Hash H; static MMG5_HGeom G;
/* concrete keys: same smallest vertex, same largest, same sum, both buckets */
#if T==2
static const MMG5_int ka[14]={1,1,1,2,1,2,1,1,1,1,1,1,2,2},kb[14]={2,3,4,3,2,4,2,2,3,3,4,5,3,4},kc[14]={5,5,5,5,3,3,4,6,4,6,6,6,6,5};
#else
static const MMG5_int ka[14]={1,1,2,1,2,3,1,1,2,2,3,3,4,4},kb[14]={2,3,3,4,4,4,5,6,5,6,5,6,5,6},kc[14]={0};
#endif
static int has[NK]; static MMG5_int val[NK]; static uint16_t tg[NK];
static void key(int i,int o,MMG5_int *a,MMG5_int *b,MMG5_int *c){
  switch(o){
  case 0: *a=ka[i];*b=kb[i];*c=kc[i];break;
  case 1: *a=kb[i];*b=ka[i];*c=kc[i];break;
#if T==2
  case 2: *a=kc[i];*b=ka[i];*c=kb[i];break;
  case 3: *a=kc[i];*b=kb[i];*c=ka[i];break;
  case 4: *a=ka[i];*b=kc[i];*c=kb[i];break;
  default: *a=kb[i];*b=kc[i];*c=ka[i];break;
#else
  default: *a=kb[i];*b=ka[i];*c=0;break;
#endif
  }
}
static void check(void){
  int i; MMG5_int a,b,c;
  for(i=0;i<NK;i++){
    for(int o=0;o<(T==2?6:2);o++){
    key(i,o,&a,&b,&c);
#if T==3
    MMG5_int r; uint16_t t; int f=MMG5_hGet(&G,a,b,&r,&t);
    V_ASSERT(f==has[i],"presence of an edge");
    V_ASSERT(!has[i] || (r==val[i] && t==tg[i]),"reference and tag stored for an edge");
    V_ASSERT(has[i] || (r==0 && t==0),"nothing is returned for an absent edge");
#elif T==2
    V_ASSERT(MMG5_hashGetFace(&H,a,b,c)==(has[i]?val[i]:0),"value stored for a face");
#else
    V_ASSERT(MMG5_hashGet(&H,a,b)==(has[i]?val[i]:0),"value stored for an edge");
#endif
    }
  }
}
static void op(int o,int i,int ord){
  MMG5_int a,b,c,v=vf_i32(); uint16_t t=vf_u16(); int r,j; V_ASSUME(v!=0);
  key(i,T==2?(i+3*ord)%6:ord,&a,&b,&c);
#if T==0
  if(o==0){ r=MMG5_hashEdge(&M,&H,a,b,v); V_ASSERT(r==(has[i]?1:2),"insertion reports whether the edge was known"); if(!has[i]){ has[i]=1; val[i]=v; } }
  else if(o==1){ r=MMG5_hashUpdate(&H,a,b,v); V_ASSERT(r==has[i],"update reports whether the edge is known"); if(has[i]) val[i]=v; }
  else { r=MMG5_hashPop(&H,a,b); V_ASSERT(r==has[i],"removal reports whether the edge was known"); has[i]=0; }
#elif T==1
  r=MMG5_hashEdgeTag(&M,&H,a,b,t); if(has[i]) val[i]|=t; else { has[i]=1; val[i]=t; }
  V_ASSERT(r==val[i],"accumulated tag returned");
#elif T==2
  r=MMG5_hashFace(&M,&H,a,b,c,v); V_ASSERT(r==(has[i]?val[i]:-1),"insertion reports the value of a known face");
  if(!has[i]){ has[i]=1; val[i]=v; }
#else
  if(o==0){ r=MMG5_hEdge(&M,&G,a,b,v,t); V_ASSERT(r==1,"insertion succeeds"); if(!has[i]){ has[i]=1; val[i]=v; tg[i]=t; } }
  else if(o==1){ MMG5_int rr=vf_bool()?v:0; r=MMG5_hTag(&G,a,b,rr,t); V_ASSERT(r==has[i],"tagging reports whether the edge is known"); if(has[i]){ tg[i]|=t; if(rr) val[i]=rr; } }
  else { MMG5_int rr; uint16_t tt; r=MMG5_hPop(&G,a,b,&rr,&tt); V_ASSERT(r==has[i],"removal reports whether the edge was known");
    V_ASSERT(!r || (rr==val[i] && tt==tg[i]),"removal returns what was stored"); has[i]=0; }
#endif
}
static void fresh(void){
  int i;
  memset(&M,0,sizeof M); M.memMax=1000000; M.gap=MMG5_GAP;
  for(i=0;i<NK;i++) has[i]=0;
#if T==3
  V_ASSERT(MMG5_hNew(&M,&G,HSIZ,HMAX)==1,"table created");
#else
  V_ASSERT(MMG5_hashNew(&M,&H,HSIZ,HMAX)==1,"table created");
#endif
}
int main(void){
  int i,c;
#if MODE==0
  /* every choice of two operations and keys is one path, the stored values are symbolic */
  for(c=C0;c<C1;c++){
    int k1=c%NK,o1=c/NK%NO,k2=c/NK/NO%NK,o2=c/NK/NO/NK;
    fresh();
    for(i=0;i<PRE;i++) op(0,i,i&1);
    op(o1,k1,c&1);
    check();
    op(o2,k2,(c>>1)&1);
    check();
#if T==3
    MMG5_DEL_MEM(&M,G.geom);
#else
    MMG5_DEL_MEM(&M,H.item);
#endif
  }
#else
  fresh();
  for(i=0;i<NK;i++) op(0,i,i&1);
#if T==3
  V_ASSERT(G.max>HMAX+2,"the table grew");
#else
  V_ASSERT(H.max>HMAX+2,"the table grew");
#endif
  check();
#endif
  V_WITNESS();
  return 0;
}
