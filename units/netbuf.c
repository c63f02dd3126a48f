/*
 * netbuf_read.c over the contracts of network_read and immediate events.
 * Which memory holds the unread bytes is followed by the verifier (see
 * "region"); a native run follows the contents.  With -DINDUCT the first
 * round starts from an arbitrary state which satisfies the representation
 * invariant, and ends by showing the invariant again.
 */
#define VC_WIPE
#define VC_FAILAT
#include <limits.h>
#include "vc_alloc.h"
#include "stub_misc.h"
static void * vc_copy(void *, const void *, size_t);
#define memcpy vc_copy
#define memmove vc_copy
#include "libcperciva/netbuf/netbuf_read.c"
#undef memcpy
#undef memmove
#undef malloc
#undef free
#ifndef ROUNDS
#define ROUNDS 3
#endif
#ifdef VC_NATIVE
#define MAXLEN 20000
#define LEMMA(c, m) do { } while (0)
#else
#define MAXLEN (1ULL << 40)
#define LEMMA(c, m) vc_assert(c, "LEMMA " m)
#endif

static struct {
	struct netbuf_read * R;
	int s, app;
	uint64_t pos, end;		/* Unread bytes of the stream. */
	/* Memory which holds the last rlen bytes before rend. */
	uint8_t * rptr; uint64_t rlen;
	size_t len;			/* Requested. */
	int imm; int (* icb)(void *); void * icookie;
	int read; uint8_t * buf; size_t buflen, min; int (* rcb)(void *, ssize_t); void * rcookie;
	int waiting, expect, rc, freed, fatal, quiet;
} g;
#define AT(p) ((uint8_t)(((p) * 2654435761u) >> 9))

#ifdef VC_NATIVE
static void * vc_copy(void * d, const void * s, size_t n) { return (memmove(d, s, n)); }
static void vc_on_free(void * p) { (void)p; }
#else
static void *
vc_copy(void * d, const void * s, size_t n)
{
	size_t o;

	vc_assert(n == 0 || (__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n)), "copying within bounds");
	if (n == 0 || g.rlen == 0)
		return (d);
	o = __CPROVER_POINTER_OFFSET(s) - __CPROVER_POINTER_OFFSET(g.rptr);
	if (__CPROVER_POINTER_OBJECT(s) == __CPROVER_POINTER_OBJECT(g.rptr) && o == 0 && n >= g.rlen)
		g.rptr = d;
	else
		/* Not what we follow: forget it. */
		g.rptr = NULL;
	return (d);
}
static void
vc_on_free(void * p)
{

	if (g.rlen > 0 && __CPROVER_POINTER_OBJECT(p) == __CPROVER_POINTER_OBJECT(g.rptr))
		g.rptr = NULL;
}
#endif
#define ND() (!g.quiet && nd_bool())
static int tok[2];
void *
events_immediate_register(int (* cb)(void *), void * cookie, int prio)
{

	(void)prio;
	vc_requires(!g.imm, "one immediate event");
	if (ND()) {
		g.fatal = 1;
		return (NULL);
	}
	g.imm = 1;
	g.icb = cb;
	g.icookie = cookie;
	return (&tok[0]);
}
void
events_immediate_cancel(void * c)
{

	vc_requires(c == &tok[0] && g.imm, "pending event");
	g.imm = 0;
}
void *
network_read(int fd, uint8_t * buf, size_t buflen, size_t min, int (* cb)(void *, ssize_t), void * cookie)
{

	vc_assert(fd == g.s && !g.read, "one read at a time from the socket");
	vc_requires(buflen > 0 && buflen <= SSIZE_MAX && min > 0 && min <= buflen, "read lengths");
	vc_requires(VC_RW(buf, buflen), "read buffer");
	vc_assert(min + (g.end - g.pos) == g.len, "waits for exactly what is missing");
	LEMMA(g.quiet || g.rlen == 0 || buf == g.rptr + g.rlen, "new bytes follow the unread ones");
	if (ND()) {
		g.fatal = 1;
		return (NULL);
	}
	g.read = 1;
	g.buf = buf;
	g.buflen = buflen;
	g.min = min;
	g.rcb = cb;
	g.rcookie = cookie;
	return (&tok[1]);
}
void
network_read_cancel(void * c)
{

	vc_requires(c == &tok[1] && g.read, "pending read");
	g.read = 0;
}

/* Exactly the unread bytes, in order. */
static void
peek(void)
{
	uint8_t * d;
	size_t n;

	netbuf_read_peek(g.R, &d, &n);
	vc_assert(n == g.end - g.pos, "exactly the unread bytes are shown");
#ifdef VC_NATIVE
	{
		size_t i;

		for (i = 0; i < n; i++)
			vc_assert(d[i] == AT(g.pos + i), "the unread bytes are shown in order");
	}
#else
	LEMMA(n == 0 || d == g.rptr, "the unread bytes are shown in order");
	vc_assert(n == 0 || VC_R(d, n), "shown bytes are readable");
#endif
}
static void
consume(void)
{
	size_t n;

	n = (size_t)nd_range(0, g.end - g.pos);
	netbuf_read_consume(g.R, n);
	g.pos += n;
	g.rlen -= n;
#ifndef VC_NATIVE
	if (g.rlen > 0 && g.rptr != NULL)
		g.rptr += n;
#endif
	peek();
}
static int
told(void * cookie, int status)
{

	vc_assert(cookie == &g.app && g.waiting, "the caller is told once, and not after cancelling");
	vc_assert(!g.imm && !g.read, "nothing is pending any more");
	g.waiting = 0;
	vc_assert(status == g.expect, "success, end of file and errors are told apart");
	if (status == 0)
		vc_assert(g.end - g.pos >= g.len, "as many bytes as requested are available");
	if (g.quiet)
		return (0);
	peek();
	if (nd_bool()) {
		netbuf_read_free(g.R);
		g.freed = 1;
	}
	g.rc = nd_int();
	return (g.rc);
}

/*
 * A history followed first shows which callbacks are registered; that later
 * histories register the same is an obligation.
 */
#ifdef VC_NATIVE
#define CALL(f, k, x, ...) (f)(x __VA_ARGS__)
#define REHEARSE() do { } while (0)
#else
static struct { int (* icb)(void *); int (* rcb)(void *, ssize_t); } kn;
#define CALL(f, k, x, ...) (vc_assert(f == k && x == g.R, "LEMMA the same callbacks are registered in every history"), (k)(g.R __VA_ARGS__))
#define REHEARSE() rehearse()
static void
rehearse(void)
{

	vc_may_fail = 0;
	g.quiet = 1;
	g.R = netbuf_read_init(g.s);
	g.len = 5;
	g.waiting = 1;
	(void)netbuf_read_wait(g.R, 5, told, &g.app);
	kn.rcb = g.rcb;
	g.read = 0;
	g.end = 6;
	(kn.rcb)(g.rcookie, 6);
	g.waiting = 1;
	(void)netbuf_read_wait(g.R, 5, told, &g.app);
	kn.icb = g.icb;
	netbuf_read_wait_cancel(g.R);
	netbuf_read_free(g.R);
	g.R = NULL;
	vc_may_fail = 1;
	g.quiet = g.waiting = 0;
	g.end = g.rlen = 0;
	g.rptr = NULL;
}
#endif

void
harness(void)
{
	uint64_t n;
	int k, rc;

	g.s = nd_int();
	REHEARSE();
	vc_may_fail = vc_nalloc = 0;
	if (nd_bool()) {
		/* An allocation fails. */
		if (nd_bool())
			vc_failat = 1;
		else
			vc_failat = 2;
		g.R = netbuf_read_init(g.s);
		vc_assert(vc_nfail == 0 || (g.R == NULL && vc_live == 0), "a failed allocation is reported and leaves nothing");
		vc_reach("no memory");
		return;
	}
	g.R = netbuf_read_init(g.s);
	vc_assert(g.R != NULL, "initialization fails only without memory");
	vc_may_fail = 1;
#ifdef INDUCT
	vc_free(g.R->buf);
	vc_may_fail = 0;
	g.R->buflen = (size_t)nd_range(1, MAXLEN);
	g.R->datalen = (size_t)nd_range(0, g.R->buflen);
	g.R->bufpos = (size_t)nd_range(0, g.R->datalen);
	g.R->buf = vc_malloc(g.R->buflen);
	vc_may_fail = 1;
	g.pos = nd_range(0, MAXLEN);
	g.rlen = g.R->datalen - g.R->bufpos;
	g.end = g.pos + g.rlen;
	g.rptr = g.R->buf + g.R->bufpos;
#endif
	for (k = 0; k < ROUNDS; k++) {
		peek();
		consume();
		g.len = (size_t)nd_range(0, MAXLEN);
		g.waiting = 1;
		g.fatal = 0;
		vc_nfail = 0;
		rc = netbuf_read_wait(g.R, g.len, told, &g.app);
		if (rc) {
			vc_assert(g.fatal || vc_nfail, "waiting fails only if a step fails");
			vc_assert(!g.imm && !g.read, "nothing is pending after a failure");
			peek();
			netbuf_read_free(g.R);
			vc_assert(vc_live == 0, "freeing releases everything");
			vc_reach("failed");
			return;
		}
		vc_assert(!g.fatal && vc_nfail == 0, "a failing step is reported");
		vc_assert(g.imm + g.read == 1 && g.waiting, "the caller is told later");
		vc_assert((g.imm != 0) == (g.end - g.pos >= g.len), "data which is there is not waited for");
		if (nd_bool()) {
			netbuf_read_wait_cancel(g.R);
			vc_assert(!g.imm && !g.read, "nothing is pending after cancelling");
			g.waiting = 0;
			peek();
			vc_reach("cancelled");
		} else if (g.imm) {
			g.imm = 0;
			g.expect = 0;
			rc = CALL(g.icb, kn.icb, g.icookie);
			vc_assert(!g.waiting && rc == g.rc, "the caller is told and its result passed on");
			vc_reach("immediate");
		} else {
			g.read = 0;
			n = 0;
			g.expect = (int)nd_range(0, 2) - 1;
			if (g.expect == 0) {
				n = nd_range(g.min, g.buflen);
#ifdef VC_NATIVE
				{
					size_t i;

					for (i = 0; i < n; i++)
						g.buf[i] = AT(g.end + i);
				}
#endif
				if (g.rlen == 0)
					g.rptr = g.buf;
				g.end += n;
				g.rlen += n;
			}
			vc_errno();
			rc = CALL(g.rcb, kn.rcb, g.rcookie, , g.expect == 1 ? 0 : g.expect == -1 ? -1 : (ssize_t)n);
			vc_assert(!g.waiting && rc == g.rc, "the caller is told and its result passed on");
			vc_reach("read");
		}
		if (g.freed) {
			vc_assert(vc_live == 0, "freeing releases everything");
			vc_reach("freed");
			return;
		}
	}
#ifdef INDUCT
	vc_assert(g.R->bufpos <= g.R->datalen && g.R->datalen <= g.R->buflen && g.R->buflen > 0, "LEMMA invariant");
	vc_assert(VC_RW(g.R->buf, g.R->buflen), "LEMMA invariant: buffer size");
	vc_assert(g.R->datalen - g.R->bufpos == g.end - g.pos, "LEMMA invariant: data");
	vc_assert(g.rlen == 0 || g.rptr == g.R->buf + g.R->bufpos, "LEMMA invariant: place");
#endif
	peek();
	vc_reach("rounds");
}
