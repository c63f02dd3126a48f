/*
 * malloc, calloc, realloc and free with bookkeeping: allocation may fail, and
 * what is alive is counted, so leaks and double frees are obligations.
 * Include before the real source.
 */
#ifndef VC_ALLOC_H_
#define VC_ALLOC_H_
#include "vc.h"
static int vc_live;		/* Objects allocated and not freed. */
static int vc_nfail;		/* Allocations which failed. */
#ifdef VC_NOFAIL
static int vc_may_fail = 0;
#else
static int vc_may_fail = 1;
#endif
#ifdef VC_FAILAT
/*
 * With vc_failat set, exactly the allocation of that number fails (a constant
 * choice keeps the histories after a successful allocation simple).
 */
static int vc_failat, vc_nalloc;
#define VC_FAILS() (++vc_nalloc == vc_failat || (vc_may_fail && nd_bool()))
#else
#define VC_FAILS() (vc_may_fail && nd_bool())
#endif
#ifdef VC_WIPE
/* Called before memory is given back. */
static void vc_on_free(void * p);
#endif
static void *
vc_malloc(size_t n)
{
	void * p;

	if (VC_FAILS()) {
		vc_nfail++;
		return (NULL);
	}
	p = malloc(n);
	vc_assume(p != NULL);
	vc_live++;
	return (p);
}
static void *
vc_calloc(size_t a, size_t b)
{
	void * p;

	if (VC_FAILS()) {
		vc_nfail++;
		return (NULL);
	}
	p = calloc(a, b);
	vc_assume(p != NULL);
	vc_live++;
	return (p);
}
static void
vc_free(void * p)
{

	if (p == NULL)
		return;
#ifdef VC_WIPE
	vc_on_free(p);
#endif
	vc_live--;
	free(p);
}
static char *
vc_strdup(const char * s)
{
	size_t n = strlen(s) + 1;
	char * p = vc_malloc(n);

	if (p != NULL)
		memcpy(p, s, n);
	return (p);
}
#define malloc vc_malloc
#define calloc vc_calloc
#define free vc_free
#define strdup vc_strdup
#endif
