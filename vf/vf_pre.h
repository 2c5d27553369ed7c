/* Forced include of the goto-cc build.  The library hides the block size in front
 * of each allocation and clears/copies structures bytewise; in the encoding these
 * become typed allocations, element-wise clearing and copying (same effect on
 * memory, exact size returned by the release), so that the solver sees arrays of
 * structures rather than arrays of bytes. */
#ifndef VF_PRE_H
#define VF_PRE_H
#include <string.h>
#include "mmgcommon_private.h"
#ifdef VF_TYPED
#ifdef VF_OOM
int vf_oom(void);
#define VF_NEW(s) (vf_oom()?(void*)0:__CPROVER_allocate((s),1))
#else
#define VF_NEW(s) __CPROVER_allocate((s),1)
#endif
#define mycalloc(c,s) VF_NEW((c)*(s))
#define mymalloc(s)   VF_NEW((s))
#define myfree(p) ({ size_t vf_n=0; void *vf_q=(void*)(p); if(vf_q){ vf_n=__CPROVER_OBJECT_SIZE(vf_q); free(vf_q); } vf_n; })
#define myrealloc(p,s,o) ({ __typeof__(p) vf_p=(p); __typeof__(p) vf_q=VF_NEW(s); \
   __CPROVER_assert(vf_p?__CPROVER_OBJECT_SIZE(vf_p)==(o):(o)==0,"VF: size given to reallocation is the block size"); \
   if(vf_q && vf_p){ size_t vf_i,vf_m=((s)<(o)?(s):(o))/sizeof(*vf_p); for(vf_i=0;vf_i<vf_m;vf_i++) vf_q[vf_i]=vf_p[vf_i]; free(vf_p); } (void*)vf_q; })
#ifdef VF_NOGROW
#undef MMG5_TAB_RECALLOC
#define MMG5_TAB_RECALLOC(mesh,ptr,initSize,wantedGap,type,message,law) do{ __CPROVER_assert(0,"VF: no growth within the bounds of this harness"); __CPROVER_assume(0); }while(0)
#endif
#ifndef VF_NOMEM
#define memset(p,c,n) ({ __typeof__(&(p)[0]) vf_d=(p); \
   if(((c)&255)==0 && sizeof((p)[0])>1 && (n)%sizeof((p)[0])==0){ static const __typeof__((p)[0]) vf_z; size_t vf_i; for(vf_i=0;vf_i<(n)/sizeof((p)[0]);vf_i++) vf_d[vf_i]=vf_z; } \
   else (memset)(vf_d,(c),(n)); (void*)vf_d; })
#define memcpy(d,s,n) ({ __typeof__(&(d)[0]) vf_d=(d); const __typeof__((d)[0]) *vf_s=(const void*)(s); \
   if(sizeof((d)[0])>1 && (n)%sizeof((d)[0])==0){ size_t vf_i; for(vf_i=0;vf_i<(n)/sizeof((d)[0]);vf_i++) vf_d[vf_i]=vf_s[vf_i]; } \
   else (memcpy)(vf_d,vf_s,(n)); (void*)vf_d; })
#endif
#endif
#endif
