#define VF_REPLAY
#include "vf.h"
#include <unistd.h>
static FILE *vf_f; static long vf_n;
uint64_t vf_next(void){
  unsigned long long v;
  if(!vf_f){ const char *p=getenv("VF_VALUES"); vf_f=p?fopen(p,"r"):NULL; if(!vf_f){fprintf(stderr,"VF: no value file\n"); _exit(90);} }
  if(fscanf(vf_f,"%llx",&v)!=1){ fprintf(stderr,"VF: input %ld not in the assignment, 0 used\n",vf_n); v=0; }
  vf_n++;
  return (uint64_t)v;
}
void vf_violated(const char *m,const char *f,int l){ fprintf(stderr,"VF_VIOLATED: %s (%s:%d)\n",m,f,l); fflush(NULL); _exit(42); }
void vf_assume_failed(const char *f,int l){ fprintf(stderr,"VF_ASSUME_FAILED %s:%d\n",f,l); fflush(NULL); _exit(77); }
void vf_witness_hit(void){ fprintf(stderr,"VF_WITNESS_REACHED\n"); fflush(NULL); }
