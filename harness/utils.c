/* Small utilities. K=1 sorting, 2 permuting (LEN values), 3 byte order of integers, 4 of single and double precision values */
#include "vf.h"
#include "libmmgs.h"
#include "libmmgs_private.h"
#ifndef LEN
#define LEN 4
#endif
#if K==1
static double v[LEN+2],v0[LEN+2]; static int8_t perm[LEN+2];
static void t(int n){ int i,j; int8_t g=(int8_t)vf_u8();
  for(i=0;i<LEN+2;i++){ v[i]=v0[i]=vf_num(); perm[i]=g; }
  MMG5_nsort((int8_t)n,v,perm);
  for(i=0;i<LEN+2;i++) V_ASSERT(v[i]==v0[i],"values are not moved");
  for(i=n;i<LEN+2;i++) V_ASSERT(perm[i]==g,"nothing written past the length");
  for(i=0;i<n;i++){ V_ASSERT(perm[i]>=0&&perm[i]<n,"order holds indices"); for(j=0;j<i;j++) V_ASSERT(perm[i]!=perm[j],"each index once"); }
  for(i=1;i<n;i++) V_ASSERT(v[perm[i-1]]<=v[perm[i]],"values in order");
}
int main(void){ int n; for(n=0;n<=LEN;n++) t(n); V_WITNESS(); return 0; }
#elif K==2
static void t(int n,int sh,int st){ double v[24],v0[24],o[LEN+1]; int8_t p[LEN+1]; int i,j,hit;
  for(i=0;i<24;i++) v[i]=v0[i]=vf_num(); for(i=0;i<=LEN;i++){ o[i]=7; p[i]=0; }
  for(i=0;i<n;i++){ p[i]=(int8_t)vf_range(0,n-1); for(j=0;j<i;j++) V_ASSUME(p[i]!=p[j]); }
  MMG5_nperm((int8_t)n,(int8_t)sh,(int8_t)st,v,o,p);
  for(i=0;i<24;i++){ hit=-1; for(j=0;j<n;j++) if(i==sh+j*st) hit=j;
    if(hit>=0) V_ASSERT(v[i]==v0[sh+p[hit]*st],"value moved to its place"); else V_ASSERT(v[i]==v0[i],"other values stay"); }
  V_ASSERT(o[LEN]==7,"nothing written past the length");
}
int main(void){ int n,sh; for(n=0;n<=LEN;n++){ t(n,0,1); for(sh=0;sh<3;sh++) t(n,sh,3); t(n,1,2); } V_WITNESS(); return 0; }
#elif K==3
int main(void){ int x=vf_i32(); uint32_t u=(uint32_t)x,r=(u>>24)|((u>>8)&0xff00u)|((u<<8)&0xff0000u)|(u<<24);
  V_ASSERT((uint32_t)MMG5_swapbin(x)==r,"bytes reversed"); V_ASSERT(MMG5_swapbin(MMG5_swapbin(x))==x,"twice gives the value back");
  V_ASSERT((uint32_t)MMG5_SWAPBIN(x)==r,"bytes reversed"); V_ASSERT(MMG5_SWAPBIN(MMG5_SWAPBIN(x))==x,"twice gives the value back");
  V_WITNESS(); return 0; }
#else
static uint32_t fb(float f){ union{float f;uint32_t u;} c; c.f=f; return c.u; }
static float bf(uint32_t u){ union{float f;uint32_t u;} c; c.u=u; return c.f; }
static uint64_t db(double f){ union{double f;uint64_t u;} c; c.f=f; return c.u; }
static double bd(uint64_t u){ union{double f;uint64_t u;} c; c.u=u; return c.f; }
int main(void){ uint32_t u=(uint32_t)vf_i32(),r=(u>>24)|((u>>8)&0xff00u)|((u<<8)&0xff0000u)|(u<<24); uint64_t w=vf_u64(),q=0; int i;

  float f=bf(u);
  V_ASSERT(fb(MMG5_swapf(f))==r,"bytes reversed"); V_ASSERT(fb(MMG5_swapf(MMG5_swapf(f)))==u,"twice gives the value back");
  for(i=0;i<8;i++) q|=((w>>(8*i))&0xffu)<<(56-8*i);
  double d=bd(w);
  V_ASSERT(db(MMG5_swapd(d))==q,"bytes reversed"); V_ASSERT(db(MMG5_swapd(MMG5_swapd(d)))==w,"twice gives the value back");
  V_WITNESS(); return 0; }
#endif
