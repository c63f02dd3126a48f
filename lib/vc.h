/*
 * vc.h: vocabulary shared by every unit in /verif/units.
 *
 * A unit is a C file which #includes the real source file(s) from /repo and
 * adds contracts, contract stubs for the callees, and a harness.  It is
 * compiled twice from the same text:
 *   - by goto-cc (-DVC_CBMC) for the proof: nd_*() are unconstrained values;
 *   - by gcc (-DVC_NATIVE) to replay a counterexample on the real code: nd_*()
 *     take the values the verifier chose, in order (or seeded random ones).
 */
#ifndef VC_H_
#define VC_H_

#include <errno.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#ifdef VC_NATIVE
uint64_t vc_nd(const char * kind, uint64_t lo, uint64_t hi);
void vc_native_fail(const char * what);
void vc_native_skip(void);
void vc_native_blob(void *, size_t);
#define vc_assert(c, msg) do { if (!(c)) vc_native_fail(msg); } while (0)
#define vc_assume(c) do { if (!(c)) vc_native_skip(); } while (0)
#define vc_reach(msg) do { } while (0)
static inline uint8_t nd_u8(void) { return ((uint8_t)vc_nd("u8", 0, 0xff)); }
static inline uint32_t nd_u32(void) { return ((uint32_t)vc_nd("u32", 0, UINT32_MAX)); }
static inline uint64_t nd_u64(void) { return (vc_nd("u64", 0, UINT64_MAX)); }
static inline int nd_int(void) { return ((int)(uint32_t)vc_nd("int", 0, UINT32_MAX)); }
static inline size_t nd_size(void) { return ((size_t)vc_nd("size", 0, UINT64_MAX)); }
static inline int nd_bool(void) { return ((int)vc_nd("bool", 0, 1)); }
static inline uint64_t nd_range(uint64_t lo, uint64_t hi) { return (vc_nd("range", lo, hi)); }
static inline void nd_fill(void * p, size_t n) { vc_native_blob(p, n); }
#define VC_RW(p, n) 1
#define VC_R(p, n) 1
#else
/* Reachability witnesses are assertions which the runner expects to FAIL. */
#define vc_assert(c, msg) __CPROVER_assert(c, msg)
#define vc_assume(c) __CPROVER_assume(c)
#define vc_reach(msg) __CPROVER_assert(0, "REACH " msg)
uint64_t nondet_vc_u64(void);
static inline uint8_t nd_u8(void) { uint64_t vc_ndv = nondet_vc_u64(); vc_assume(vc_ndv <= 0xff); return ((uint8_t)vc_ndv); }
static inline uint32_t nd_u32(void) { uint64_t vc_ndv = nondet_vc_u64(); vc_assume(vc_ndv <= UINT32_MAX); return ((uint32_t)vc_ndv); }
static inline uint64_t nd_u64(void) { uint64_t vc_ndv = nondet_vc_u64(); return (vc_ndv); }
static inline int nd_int(void) { uint64_t vc_ndv = nondet_vc_u64(); vc_assume(vc_ndv <= UINT32_MAX); return ((int)(uint32_t)vc_ndv); }
static inline size_t nd_size(void) { uint64_t vc_ndv = nondet_vc_u64(); return ((size_t)vc_ndv); }
static inline int nd_bool(void) { uint64_t vc_ndv = nondet_vc_u64(); vc_assume(vc_ndv <= 1); return ((int)vc_ndv); }
static inline uint64_t nd_range(uint64_t lo, uint64_t hi) { uint64_t vc_ndv = nondet_vc_u64(); vc_assume(lo <= vc_ndv && vc_ndv <= hi); return (vc_ndv); }
static inline void nd_fill(void * p, size_t n) { if (n) __CPROVER_havoc_slice(p, n); }
#define VC_RW(p, n) __CPROVER_rw_ok(p, n)
#define VC_R(p, n) __CPROVER_r_ok(p, n)
#endif

/* What errno says when a failure is reported: anything. */
#define vc_errno() (errno = (int)nd_range(0, 133))

/* Obligation on the caller of a contract stub. */
#define vc_requires(c, msg) vc_assert(c, "callee precondition: " msg)

#endif /* !VC_H_ */
