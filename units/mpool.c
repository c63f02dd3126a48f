/*
 * mpool.h: what a pool gives out is held by nobody else, and what it keeps
 * fits its stack.  With -DINDUCT one operation is applied to a pool in an
 * arbitrary state (any statistics, any number of cached records up to SIZE);
 * otherwise OPS operations follow initialization.
 */
#define VC_WIPE
#include "vc_alloc.h"
#include "stub_misc.h"
static void (* vc_exit)(void);
static int vc_atexit(void (* f)(void)) { vc_exit = f; return (0); }
#define atexit vc_atexit
#ifndef VC_NATIVE
/* memcpy, for arrays of pointers. */
static void *
vc_memcpy(void * d, const void * s, size_t n)
{
	size_t i;

	vc_assert(n % sizeof(void *) == 0, "LEMMA pointers are copied");
	for (i = 0; i < n / sizeof(void *); i++)
		((void **)d)[i] = ((void * const *)s)[i];
	return (d);
}
#define memcpy vc_memcpy
#endif
struct rec { uint64_t a, b, c, d, e; };
#ifndef SIZE
#define SIZE 3
#endif
#ifndef VC_NATIVE
/* (Constant sizes spare the verifier arrays of symbolic length.) */
static void *
vc_malloc1(size_t n)
{

	if (n == sizeof(struct rec))
		return (vc_malloc(sizeof(struct rec)));
	if (n == 2 * SIZE * sizeof(void *))
		return (vc_malloc(2 * SIZE * sizeof(void *)));
	if (n == 4 * SIZE * sizeof(void *))
		return (vc_malloc(4 * SIZE * sizeof(void *)));
	vc_assert(0, "LEMMA sizes of allocations");
	vc_assume(0);
	return (NULL);
}
#undef malloc
#define malloc vc_malloc1
#endif
#include "mpool.h"
MPOOL(rec, struct rec, SIZE);
#undef malloc
#undef free
#undef atexit
#undef memcpy
#ifndef OPS
#define OPS 6
#endif
#define HELD 12

static struct rec * held[HELD];
static int nheld, quiet;
static void
vc_on_free(void * p)
{
	int i;

	for (i = 0; i < nheld; i++)
		vc_assert(quiet || held[i] != p, "records which are in use are not released");
}

void
harness(void)
{
	struct rec * p;
	int k, i;

#ifdef INDUCT
	/* Some records cached, some in use; possibly a grown stack. */
	mpool_rec_rec.nallocs = nd_u64();
	mpool_rec_rec.nempties = nd_u64();
	mpool_rec_rec.state = 1;
	if (nd_bool()) {
		mpool_rec_rec.allocsize = 2 * SIZE;
		mpool_rec_rec.allocs = malloc(2 * SIZE * sizeof(void *));
		vc_assume(mpool_rec_rec.allocs != NULL);
		vc_live++;
	}
	mpool_rec_rec.stacklen = (size_t)nd_range(0, mpool_rec_rec.allocsize);
	for (i = 0; i < (int)mpool_rec_rec.stacklen; i++) {
		mpool_rec_rec.allocs[i] = malloc(sizeof(struct rec));
		vc_assume(mpool_rec_rec.allocs[i] != NULL);
		vc_live++;
	}
	held[0] = malloc(sizeof(struct rec));
	vc_assume(held[0] != NULL);
	held[0]->a = 7;
	vc_live++;
	nheld = 1;
#endif
	for (k = 0; k < OPS; k++) {
		if (nheld == 0 || (nheld < HELD - 1 && nd_bool())) {
			p = mpool_rec_malloc();
			vc_assert(p != NULL || vc_nfail, "a record is given unless there is no memory");
			vc_nfail = 0;
			if (p == NULL)
				continue;
			vc_assert(VC_RW(p, sizeof(*p)), "the record is usable");
			for (i = 0; i < nheld; i++)
				vc_assert(held[i] != p, "no record is given out twice");
			held[nheld++] = p;
			p->a = p->b = (uint64_t)nheld;
			vc_reach("given");
		} else {
			i = (int)nd_range(0, nheld - 1);
			p = held[i];
			held[i] = held[--nheld];
			held[nheld] = NULL;
			mpool_rec_free(p);
			vc_nfail = 0;
			vc_reach("given back");
		}
#ifdef INDUCT
		vc_assert(mpool_rec_rec.stacklen <= mpool_rec_rec.allocsize && mpool_rec_rec.allocsize > 0, "LEMMA invariant");
		vc_assert(VC_RW(mpool_rec_rec.allocs, mpool_rec_rec.allocsize * sizeof(void *)), "LEMMA invariant: stack");
		for (i = 0; i < (int)mpool_rec_rec.stacklen; i++)
			vc_assert(VC_RW(mpool_rec_rec.allocs[i], sizeof(struct rec)), "LEMMA invariant: cached records");
#endif
	}
	/* At exit everything the pool holds is released. */
	while (nheld > 0)
		mpool_rec_free(held[--nheld]);
	quiet = 1;
	if (vc_exit != NULL)
		(vc_exit)();
#ifdef INDUCT
	else
		mpool_rec_atexit();
#endif
	vc_assert(vc_live == 0, "everything is released at exit");
	vc_reach("end");
}
