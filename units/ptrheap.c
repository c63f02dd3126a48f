/*
 * ptrheap.c.  With -DINDUCT one operation is applied to a heap of at most NMAX
 * elements in an arbitrary state, over the contract of elasticarray.c (P20).
 * Otherwise OPS operations follow creation; natively, over the real
 * elasticarray.c.  Afterwards everything is checked.
 *
 * Element k is ELEM(k); the order is that of key[].
 */
#include <errno.h>
#include "vc_alloc.h"
#include "stub_misc.h"
#ifdef VC_NATIVE
static void *
vc_realloc(void * p, size_t n)
{

	if (vc_may_fail && nd_bool()) {
		vc_nfail++;
		return (NULL);
	}
	if (p == NULL)
		vc_live++;
	return (realloc(p, n));
}
#define realloc vc_realloc
#include "libcperciva/datastruct/elasticarray.c"
#undef realloc
#endif
#include "libcperciva/datastruct/ptrheap.c"
#undef malloc
#undef calloc
#undef free
#ifndef NMAX
#define NMAX 7
#endif
#ifndef OPS
#define OPS 1
#endif
#define COOKIE ((void *)&vc_live)
#define NONE SIZE_MAX

static uint8_t elems[NMAX + 1];
#define ELEM(k) ((void *)&elems[k])
#define KEY(p) key[(const uint8_t *)(p) - elems]
#define POS(p) pos[(const uint8_t *)(p) - elems]
static uint64_t key[NMAX + 1];
static size_t pos[NMAX + 1];	/* NONE: not in the heap. */
static size_t nn;		/* Elements in the heap. */
#ifndef VC_NATIVE
struct elasticarray { size_t n; };
static struct elasticarray ea;
static void * el[NMAX + 1];
static size_t eln;
struct elasticarray *
elasticarray_init(size_t n, size_t len)
{

	(void)len;
	if (nd_bool() || n > NMAX + 1) {
		vc_nfail++;
		return (NULL);
	}
	vc_live++;
	eln = n;
	return (&ea);
}
void *
elasticarray_get(struct elasticarray * EA, size_t i, size_t len)
{

	vc_requires(EA == &ea && len == sizeof(void *), "array");
	vc_requires(i < eln, "elements are within the array");
	return (&el[i]);
}
int
elasticarray_append(struct elasticarray * EA, const void * p, size_t n, size_t len)
{
	size_t i;

	vc_requires(EA == &ea && len == sizeof(void *), "array");
	if (nd_bool() || n > NMAX + 1 - eln) {
		vc_nfail++;
		return (-1);
	}
	for (i = 0; i < n; i++)
		el[eln++] = ((void * const *)p)[i];
	return (0);
}
int
elasticarray_resize(struct elasticarray * EA, size_t n, size_t len)
{
	size_t i;

	vc_requires(EA == &ea && len == sizeof(void *), "array");
	if (n > eln && (nd_bool() || n > NMAX + 1)) {
		vc_nfail++;
		return (-1);
	}
	for (i = eln; i < n; i++)
		el[i] = NULL;
	eln = n;
	return (0);
}
void
elasticarray_shrink(struct elasticarray * EA, size_t n, size_t len)
{

	vc_requires(EA == &ea && len == sizeof(void *), "array");
	eln = n > eln ? 0 : eln - n;
}
int elasticarray_truncate(struct elasticarray * EA) { vc_requires(EA == &ea, "array"); return (nd_bool() ? -1 : 0); }
void elasticarray_free(struct elasticarray * EA) { if (EA != NULL) vc_live--; }
size_t elasticarray_getsize(struct elasticarray * EA, size_t len) { (void)EA; (void)len; return (eln); }
#endif
static int
cmp(void * c, const void * x, const void * y)
{
	uint64_t a, b;

	vc_requires(c == COOKIE, "comparison cookie");
	vc_requires(x != NULL && y != NULL, "elements are compared");
	a = KEY(x);
	b = KEY(y);
	return (a < b ? -1 : a > b);
}
static void
rec(void * c, void * p, size_t i)
{

	vc_requires(c == COOKIE && p != NULL, "position cookie");
	POS(p) = i;
}
static uint64_t
newkey(void)
{
#ifdef VC_NATIVE
	return (nd_range(0, 6));
#else
	return (nd_u64());
#endif
}

static void
check(struct ptrheap * H)
{
	void * m = ptrheap_getmin(H);
	int k, t;

	vc_assert((m == NULL) == (nn == 0), "there is a minimum if there are elements");
	if (m == NULL)
		return;
	vc_assert(POS(m) != NONE, "the minimum is in the heap");
	for (k = 0; k <= NMAX; k++) {
		if (pos[k] == NONE)
			continue;
		vc_assert(key[k] >= KEY(m), "the minimum is the smallest element");
		vc_assert(pos[k] < nn, "positions are within the heap");
		for (t = 0; t < k; t++)
			vc_assert(pos[k] != pos[t], "positions are distinct");
#ifdef INDUCT
		vc_assert(pos[k] < eln && el[pos[k]] == ELEM(k), "LEMMA recorded positions are right");
		vc_assert(pos[k] == 0 || key[k] >= KEY(el[(pos[k] - 1) / 2]), "LEMMA heap order");
#endif
	}
}

void
harness(void)
{
	struct ptrheap * H;
	void * v, * init[NMAX];
	uint64_t x;
	int k, o;

	for (k = 0; k <= NMAX; k++)
		pos[k] = NONE;
#ifdef INDUCT
	vc_may_fail = 0;
	H = ptrheap_init(cmp, rec, COOKIE);
	vc_assume(H != NULL);
	/* An arbitrary heap: without loss of generality element k is at place k. */
	eln = nn = H->nelems = (size_t)nd_range(0, NMAX);
	for (k = 0; k < NMAX && (size_t)k < nn; k++) {
		el[k] = ELEM(k);
		pos[k] = (size_t)k;
		key[k] = nd_u64();
		vc_assume(k == 0 || key[k] >= key[(k - 1) / 2]);
	}
#else
#ifndef CREATE
#define CREATE nd_bool()
#endif
	if (!(CREATE)) {
		H = ptrheap_init(cmp, rec, COOKIE);
	} else {
		nn = (size_t)nd_range(0, NMAX);
		for (k = 0; k < NMAX && (size_t)k < nn; k++) {
			init[k] = ELEM(k);
			pos[k] = NONE - 1;
			key[k] = newkey();
		}
		H = ptrheap_create(cmp, rec, COOKIE, nn, init);
	}
	if (H == NULL) {
		vc_assert(vc_nfail > 0, "a heap is created unless there is no memory");
		vc_assert(vc_live == 0, "nothing is left behind");
		return;
	}
#endif
	check(H);
	for (o = 0; o < OPS; o++) {
		k = (int)nd_range(0, NMAX);
#ifdef INDUCT
		if (OP == 3)
			k = NMAX;
		else
			vc_assume(k < NMAX);
#endif
		x = newkey();
		vc_nfail = 0;
#ifdef INDUCT
		switch (OP) {
#else
		switch (nd_range(0, 5)) {
#endif
		case 0:
			if (!(pos[k] != NONE && x >= key[k])) continue;
			key[k] = x;
			ptrheap_increase(H, pos[k]);
			break;
		case 1:
			if (!(pos[k] != NONE && x <= key[k])) continue;
			key[k] = x;
			ptrheap_decrease(H, pos[k]);
			break;
		case 2:
			if (!(pos[k] != NONE)) continue;
			ptrheap_delete(H, pos[k]);
			pos[k] = NONE;
			nn--;
			break;
		case 3:
			if (!(pos[k] == NONE)) continue;
			key[k] = x;
			if (ptrheap_add(H, ELEM(k))) {
				vc_assert(vc_nfail > 0, "an element is added unless there is no memory");
				pos[k] = NONE;
			} else
				nn++;
			break;
		case 4:
			if (!(nn > 0)) continue;
			v = ptrheap_getmin(H);
			vc_assert(v != NULL, "there is a minimum");
			ptrheap_deletemin(H);
			POS(v) = NONE;
			nn--;
			break;
		default:
			if (!(nn > 0)) continue;
			v = ptrheap_getmin(H);
			vc_assert(v != NULL, "there is a minimum");
			if (!(x >= KEY(v))) continue;
			KEY(v) = x;
			ptrheap_increasemin(H);
			break;
		}
#if OPS > 0
		vc_reach("operation");
#endif
		check(H);
	}
#ifdef INDUCT
	vc_assert(H->nelems == nn && eln == nn, "LEMMA count");
#endif
	ptrheap_free(H);
	vc_assert(vc_live == 0, "everything is freed");
	vc_reach("end");
}
