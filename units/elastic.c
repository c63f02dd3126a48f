/*
 * elasticarray.c, for one record length RECLEN and every number of records.
 * An arbitrary byte ("witness") is followed through every operation.  With
 * -DINDUCT one operation is applied to an arbitrary state which satisfies the
 * representation invariant; otherwise OPS operations to an empty or new array.
 */
#include <errno.h>
#define VC_WIPE
#include "vc_alloc.h"
#include "stub_misc.h"
static void * vc_copy(void *, const void *, size_t);
static void * vc_realloc(void *, size_t);
#define memcpy vc_copy
#define memmove vc_copy
#define realloc vc_realloc
#include "libcperciva/datastruct/elasticarray.c"
#undef memcpy
#undef memmove
#undef malloc
#undef free
#undef realloc
#ifndef OPS
#define OPS 1
#endif
#ifdef VC_NATIVE
#define BIG 3000
#define LIMIT (BIG * 100)
#define LEMMA(c, m) do { } while (0)
#else
#define BIG (1ULL << 46)
#define LIMIT BIG
#define LEMMA(c, m) vc_assert(c, "LEMMA " m)
#endif
#define AT(p) ((uint8_t)(((p) * 2654435761u) >> 9))

static struct {
	struct elasticarray * EA;
	uint64_t n, size;		/* Records and bytes the array holds. */
	uint64_t known;			/* The first bytes have known contents. */
	uint64_t w;			/* Witness: a byte below "known"... */
	uint8_t * wp;			/* ... and where it is. */
	uint8_t * src; uint64_t from;	/* Bytes being appended. */
} g;
static uint64_t vc_sizes;

#ifdef VC_NATIVE
static void * vc_copy(void * d, const void * s, size_t n) { return (n ? memcpy(d, s, n) : d); }
static void vc_on_free(void * p) { (void)p; }
static void *
vc_realloc(void * p, size_t n)
{

	if (n > LIMIT || nd_bool()) {
		vc_nfail++;
		return (NULL);
	}
	vc_assert(n > 0, "no zero-size allocation");
	if (p == NULL)
		vc_live++;
	return (realloc(p, n));
}
#else
#define IN(p, q, n) ((n) > 0 && (p) != NULL && __CPROVER_POINTER_OBJECT(p) == __CPROVER_POINTER_OBJECT(q) && \
    __CPROVER_POINTER_OFFSET(p) - __CPROVER_POINTER_OFFSET(q) < (n))
static void *
vc_copy(void * d, const void * s, size_t n)
{

	vc_assert(n == 0 || (__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n)), "copying within bounds");
	if (IN(g.wp, s, n))
		g.wp = (uint8_t *)d + (__CPROVER_POINTER_OFFSET(g.wp) - __CPROVER_POINTER_OFFSET(s));
	else if (IN(g.wp, d, n))
		g.wp = NULL;
	return (d);
}
static void
vc_on_free(void * p)
{

	if (g.wp != NULL && __CPROVER_POINTER_OBJECT(p) == __CPROVER_POINTER_OBJECT(g.wp))
		g.wp = NULL;
}
static void *
vc_realloc(void * p, size_t n)
{
	uint8_t * q;
	size_t o;

	vc_assert(n > 0, "no zero-size allocation");
	if (n > LIMIT || nd_bool()) {
		vc_nfail++;
		return (NULL);
	}
	q = malloc(n);
	vc_assume(q != NULL);
	vc_live++;
	if (p != NULL) {
		if (g.wp != NULL && __CPROVER_POINTER_OBJECT(p) == __CPROVER_POINTER_OBJECT(g.wp)) {
			o = __CPROVER_POINTER_OFFSET(g.wp);
			g.wp = o < n ? q + o : NULL;
		}
		vc_live--;
		free(p);
	}
	return (q);
}
#endif

/* What the array holds is what it should hold. */
static void
check(struct elasticarray * EA)
{
	uint8_t * p;

	vc_assert(elasticarray_getsize(EA, RECLEN) == g.n, "the array has the expected number of records");
#ifdef VC_NATIVE
	for (g.w = 0; g.w < g.known; g.w++)
		vc_assert(((uint8_t *)elasticarray_get(EA, g.w / RECLEN, RECLEN))[g.w % RECLEN] == AT(g.w), "records keep their contents");
	for (g.w = g.known; g.w < g.size; g.w++) {
		p = (uint8_t *)elasticarray_get(EA, g.w / RECLEN, RECLEN) + g.w % RECLEN;
		*p = AT(g.w);	/* The caller fills new records. */
	}
	g.known = g.size;
#else
	if (g.known > 0 && g.w < g.known) {
		p = (uint8_t *)elasticarray_get(EA, 0, RECLEN);
		LEMMA(p + g.w == g.wp, "records keep their contents");
	}
	if (g.size > 0) {
		p = (uint8_t *)elasticarray_get(EA, g.n - 1, RECLEN);
		vc_assert(VC_RW(p, RECLEN), "every record is within the allocation");
		vc_assert(p == (uint8_t *)elasticarray_get(EA, 0, RECLEN) + (g.size - RECLEN), "records are consecutive");
	}
#endif
}

static size_t
count(void)
{

	switch (nd_range(0, 3)) {
	case 0:
		return ((size_t)nd_u64());
	case 1:
		return ((size_t)(SIZE_MAX / RECLEN + nd_range(0, 3)));
	case 2:
		return ((size_t)nd_range(0, 2 * g.n + 2));
	default:
		return ((size_t)nd_range(0, BIG / RECLEN));
	}
}

void
harness(void)
{
	void * buf;
	size_t n, m;
	uint64_t old;
	int k, rc;

	/* A new array. */
	g.wp = NULL;
#ifdef INDUCT
	n = 0;
#else
	n = count();
#endif
	g.EA = elasticarray_init(n, RECLEN);
	if (g.EA == NULL) {
		vc_assert(vc_nfail || n > SIZE_MAX / RECLEN, "an array is created unless it cannot be");
		vc_assert(vc_live == 0, "a failed creation leaves nothing behind");
		vc_reach("not created");
		return;
	}
	vc_assert(n <= SIZE_MAX / RECLEN && n * RECLEN <= LIMIT, "impossible sizes are rejected");
	g.n = n;
	g.size = n * RECLEN;
#ifdef INDUCT
	/* An arbitrary state. */
	g.EA->alloc = (size_t)nd_range(0, BIG / 4);
	g.n = nd_range(0, BIG / 4 / RECLEN);
	g.size = g.n * RECLEN;
	vc_assume(g.size <= g.EA->alloc);
	g.EA->size = g.size;
	g.EA->buf = NULL;
	if (g.EA->alloc) {
		g.EA->buf = malloc(g.EA->alloc);
		vc_assume(g.EA->buf != NULL);
		vc_live++;
	}
	g.known = g.size;
	g.w = nd_u64();
	vc_assume(g.w < g.known || g.known == 0);
	if (g.known)
		g.wp = (uint8_t *)g.EA->buf + g.w;
#endif
	check(g.EA);
#ifndef VC_NATIVE
#ifndef INDUCT
	/* The caller has filled the array. */
	g.known = g.size;
	g.w = nd_u64();
	vc_assume(g.w < g.known || g.known == 0);
	if (g.known)
		g.wp = (uint8_t *)elasticarray_get(g.EA, 0, RECLEN) + g.w;
#endif
#endif
	for (k = 0; k < OPS; k++) {
		vc_nfail = 0;
		old = g.size;
		switch (nd_range(0, 6)) {
		case 0:
			n = count();
			rc = elasticarray_resize(g.EA, n, RECLEN);
			vc_assert(rc == 0 || rc == -1, "result");
			if (rc)
				vc_assert(vc_nfail || n > SIZE_MAX / RECLEN, "resizing works unless it cannot");
			else {
				vc_assert(n <= SIZE_MAX / RECLEN, "impossible sizes are rejected");
				g.n = n;
				g.size = n * RECLEN;
				if (g.size < g.known)
					g.known = g.size;
			}
			vc_reach("resize");
			break;
		case 1:
			n = count();
			m = n;
			if (n > LIMIT / RECLEN)
				m = 1;
			g.src = malloc(m * RECLEN + 1);
			vc_assume(g.src != NULL);
#ifdef VC_NATIVE
			for (old = 0; old < m * RECLEN; old++)
				g.src[old] = AT(g.size + old);
			old = g.size;
#else
			/* The witness may be among the new bytes. */
			if (g.known == g.size && m == n && n > 0 && (g.w >= g.size || nd_bool())) {
				old = nd_u64();
				vc_assume(old < n * RECLEN);
				g.w = g.size + old;
				g.wp = g.src + old;
				old = g.size;
			}
#endif
			rc = elasticarray_append(g.EA, g.src, n, RECLEN);
			if (rc) {
				vc_assert(vc_nfail || n > SIZE_MAX / RECLEN - g.n, "appending works unless it cannot");
				vc_assume(g.w < g.size || g.known == 0);
			} else {
				vc_assert(n <= SIZE_MAX / RECLEN - g.n && m == n, "impossible sizes are rejected");
				g.n += n;
				g.size += n * RECLEN;
				if (g.known == old)
					g.known = g.size;
			}
			free(g.src);
			vc_reach("append");
			break;
		case 2:
			n = count();
			elasticarray_shrink(g.EA, n, RECLEN);
			g.n = n > g.n ? 0 : g.n - n;
			g.size = g.n * RECLEN;
			if (g.size < g.known)
				g.known = g.size;
			vc_reach("shrink");
			break;
		case 3:
			rc = elasticarray_truncate(g.EA);
			vc_assert(rc == 0 || vc_nfail, "truncating works unless it cannot");
			vc_reach("truncate");
			break;
		case 4:
			vc_may_fail = nd_bool();
			rc = elasticarray_exportdup(g.EA, &buf, &n, RECLEN);
			vc_may_fail = 1;
			/* (Copying an empty array asks for no memory at all.) */
			if (rc == 0) {
				vc_assert(n == g.n, "the copy has all records");
				vc_assert(n == 0 || VC_RW(buf, g.size), "the copy is large enough");
#ifdef VC_NATIVE
				for (old = 0; old < g.known; old++)
					vc_assert(((uint8_t *)buf)[old] == AT(old), "the copy is faithful");
#else
				/* Copying took the witness along: it goes back. */
				if (g.w < g.known && g.wp != NULL && n > 0) {
					LEMMA(g.wp == (uint8_t *)buf + g.w, "the copy is faithful");
					g.wp = (uint8_t *)elasticarray_get(g.EA, 0, RECLEN) + g.w;
				}
#endif
				if (buf != NULL) {
					vc_live--;
					free(buf);
				}
				vc_reach("copied");
			}
			break;
		case 5:
			rc = elasticarray_export(g.EA, &buf, &n, RECLEN);
			if (rc == 0) {
				vc_assert(n == g.n, "all records are exported");
				vc_assert(n == 0 || VC_RW(buf, g.size), "the exported buffer is large enough");
#ifdef VC_NATIVE
				for (old = 0; old < g.known; old++)
					vc_assert(((uint8_t *)buf)[old] == AT(old), "records are exported unchanged");
#else
				LEMMA(g.w >= g.known || g.wp == (uint8_t *)buf + g.w, "records are exported unchanged");
#endif
				if (buf != NULL) {
					vc_live--;
					free(buf);
				}
				vc_assert(vc_live == 0, "the array is gone");
				vc_reach("exported");
				return;
			}
			vc_assert(vc_nfail, "exporting works unless it cannot");
			break;
		default:
			elasticarray_free(g.EA);
			vc_assert(vc_live == 0, "freeing releases everything");
			vc_reach("freed");
			return;
		}
		check(g.EA);
	}
#ifdef INDUCT
	vc_assert(g.EA->size <= g.EA->alloc, "LEMMA invariant: size");
	vc_assert(g.EA->size == g.size, "LEMMA invariant: records");
	vc_assert(g.EA->alloc == 0 ? g.EA->buf == NULL : __CPROVER_OBJECT_SIZE(g.EA->buf) == g.EA->alloc, "LEMMA invariant: allocation");
#endif
}
