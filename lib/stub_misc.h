/* Contract stubs for functions with no effect on any property. */
#ifndef STUB_MISC_H_
#define STUB_MISC_H_
#include "vc.h"
/* Diagnostics: no effect on program state. */
void libcperciva_warn(const char * fmt, ...) { (void)fmt; }
void libcperciva_warnx(const char * fmt, ...) { (void)fmt; }
void libcperciva_warnp(const char * fmt, ...) { (void)fmt; }
/* insecure_memzero: its contract is "the bytes become zero". */
static void
vc_memzero(volatile void * buf, size_t len)
{
	vc_requires(VC_RW((void *)(uintptr_t)buf, len), "insecure_memzero buffer");
	memset((void *)(uintptr_t)buf, 0, len);
}
extern void (* volatile insecure_memzero_ptr)(volatile void *, size_t);
void (* volatile insecure_memzero_ptr)(volatile void *, size_t) = vc_memzero;
#endif
