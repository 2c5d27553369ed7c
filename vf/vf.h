/* Harness support: the same harness text is (a) encoded by CBMC, where every
 * vf_* input is a symbolic variable, and (b) compiled natively against the real
 * sources to replay a solver assignment. */
#ifndef VF_H
#define VF_H
#include <stdint.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>

#ifdef VF_REPLAY
uint64_t vf_next(void);
void vf_violated(const char *msg,const char *file,int line);
void vf_assume_failed(const char *file,int line);
void vf_witness_hit(void);
static inline int32_t  vf_i32(void){ return (int32_t)vf_next(); }
static inline int64_t  vf_i64(void){ return (int64_t)vf_next(); }
static inline uint64_t vf_u64(void){ return vf_next(); }
static inline uint8_t  vf_u8(void){ return (uint8_t)vf_next(); }
static inline uint16_t vf_u16(void){ return (uint16_t)vf_next(); }
static inline float    vf_f32(void){ uint32_t u=(uint32_t)vf_next(); float f; memcpy(&f,&u,4); return f; }
static inline double   vf_f64(void){ uint64_t u=vf_next(); double d; memcpy(&d,&u,8); return d; }
#define V_ASSUME(c)     do { if(!(c)) vf_assume_failed(__FILE__,__LINE__); } while(0)
#define V_ASSERT(c,m)   do { if(!(c)) vf_violated(m,__FILE__,__LINE__); } while(0)
#define V_WITNESS()     vf_witness_hit()
#else
int32_t nondet_i32(void); int64_t nondet_i64(void); uint64_t nondet_u64(void);
uint8_t nondet_u8(void); uint16_t nondet_u16(void); float nondet_f32(void); double nondet_f64(void);
#define VF_LOG(x) __CPROVER_input("vfin",x)
static inline int32_t  vf_i32(void){ int32_t x=nondet_i32(); VF_LOG(x); return x; }
static inline int64_t  vf_i64(void){ int64_t x=nondet_i64(); VF_LOG(x); return x; }
static inline uint64_t vf_u64(void){ uint64_t x=nondet_u64(); VF_LOG(x); return x; }
static inline uint8_t  vf_u8(void){ uint8_t x=nondet_u8(); VF_LOG(x); return x; }
static inline uint16_t vf_u16(void){ uint16_t x=nondet_u16(); VF_LOG(x); return x; }
/* floating values are produced from their bit pattern so that the log is exact */
static inline double   vf_f64(void){ union {uint64_t u; double d;} c; uint64_t x=nondet_u64(); VF_LOG(x); c.u=x; return c.d; }
static inline float    vf_f32(void){ union {uint32_t u; float d;} c; uint32_t x=(uint32_t)nondet_u64(); VF_LOG(x); c.u=x; return c.d; }
#define V_ASSUME(c)     __CPROVER_assume(c)
#define V_ASSERT(c,m)   __CPROVER_assert((c),"VF: " m)
#define V_WITNESS()     __CPROVER_assert(0,"VF_WITNESS")
#endif

/* integer in [lo,hi] */
static inline int vf_range(int lo,int hi){ int x=vf_i32(); V_ASSUME(x>=lo && x<=hi); return x; }
static inline int vf_bool(void){ return vf_range(0,1); }
/* any double that is not a NaN (a NaN compares unequal to itself, so equality
 * oracles would be meaningless); infinities, subnormals and -0 are included */
static inline double vf_num(void){ double d=vf_f64(); V_ASSUME(d==d); return d; }
/* small integer converted to double, used where products of coordinates occur */
static inline double vf_small(int lo,int hi){ return (double)vf_range(lo,hi); }
#endif
