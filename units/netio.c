/*
 * network_read.c (-DU_READ) and network_write.c over the contracts of the
 * event loop and of recv/send.  What such an operation has done is one
 * number, and any of its values is reached by one transfer, so three
 * wake-ups after the start cover histories of any length.
 */
#include <sys/types.h>
#include <sys/socket.h>
#include <limits.h>
#include "vc_alloc.h"
#include "stub_misc.h"
#include "stub_mpool.h"
#define recv vc_recv
#define send vc_send
ssize_t vc_recv(int, void *, size_t, int);
ssize_t vc_send(int, const void *, size_t, int);
#ifdef U_READ
#include "libcperciva/network/network_read.c"
#define OP EVENTS_NETWORK_OP_READ
#else
#include "libcperciva/network/network_write.c"
#define OP EVENTS_NETWORK_OP_WRITE
#endif
#undef malloc
#undef free
#define WAKEUPS 4
#ifdef VC_NATIVE
#define MAXLEN 3000
#define LEMMA(c, m) do { } while (0)
#else
#define MAXLEN (1ULL << 40)
#define LEMMA(c, m) vc_assert(c, "LEMMA " m)
#endif
#define AT(p) ((uint8_t)(((p) * 2654435761u) >> 9))

static struct {
	int fd, app;
	uint8_t * buf; size_t len, min;
	uint64_t done;			/* Bytes transferred. */
	int reg; int (* cb)(void *); void * cookie;
	int live, told, expect, rc, regfail, stepped;
	ssize_t result;
} g;

int
events_network_register(int (* cb)(void *), void * cookie, int s, int op)
{

	vc_assert(s == g.fd && op == OP && !g.reg, "waits once for its own socket and direction");
	vc_assert(!g.told, "nothing goes on after the report");
	if (nd_bool()) {
		g.regfail = 1;
		g.expect = -1;
		return (-1);
	}
	g.reg = 1;
	g.cb = cb;
	g.cookie = cookie;
	return (0);
}
int
events_network_cancel(int s, int op)
{

	vc_requires(s == g.fd && op == OP && g.reg, "a registered event is cancelled");
	g.reg = 0;
	return (0);
}
/* One transfer: progress, a temporary condition, end of file or an error. */
static ssize_t
transfer(int fd, size_t n)
{
	static const int tmp[] = { EAGAIN, EWOULDBLOCK, EINTR };
	static const int bad[] = { ECONNRESET, EPIPE, ENOTCONN, ETIMEDOUT, EBADF, EIO, ENOBUFS, EINVAL, EINPROGRESS };
	size_t r;

	vc_assert(fd == g.fd && !g.told && !g.reg, "transfers on its own socket when woken");
	vc_assert(n > 0 && n <= g.len - g.done, "transfers stay within the buffer");
	g.stepped = 1;
	switch (nd_range(0, 3)) {
	case 0:
		errno = tmp[nd_range(0, 2)];
		g.expect = 2;		/* No report. */
		return (-1);
	case 1:
		errno = bad[nd_range(0, 8)];
		g.expect = -1;
		return (-1);
#ifdef U_READ
	case 2:
		g.expect = 0;
		return (0);
#endif
	default:
		r = (size_t)nd_range(1, n);
		g.expect = g.done + r >= g.min ? 1 : 2;
		return ((ssize_t)r);
	}
}
ssize_t
vc_recv(int fd, void * buf, size_t n, int flags)
{
	ssize_t r = transfer(fd, n);

	(void)flags;
	vc_requires(VC_RW(buf, n), "read buffer");
	LEMMA((uint8_t *)buf == g.buf + g.done, "bytes are stored in order");
	if (r > 0) {
#ifdef VC_NATIVE
		ssize_t i;

		for (i = 0; i < r; i++)
			((uint8_t *)buf)[i] = AT(g.done + (uint64_t)i);
#endif
		g.done += (uint64_t)r;
	}
	return (r);
}
ssize_t
vc_send(int fd, const void * buf, size_t n, int flags)
{
	ssize_t r = transfer(fd, n);

	vc_assert(flags & MSG_NOSIGNAL, "a closed peer does not raise a signal");
	vc_requires(VC_R(buf, n), "write buffer");
	LEMMA((const uint8_t *)buf == g.buf + g.done, "bytes are sent in order, without gap or repeat");
	if (r > 0) {
#ifdef VC_NATIVE
		ssize_t i;

		for (i = 0; i < r; i++)
			vc_assert(((const uint8_t *)buf)[i] == AT(g.done + (uint64_t)i), "bytes are sent in order, without gap or repeat");
#endif
		g.done += (uint64_t)r;
	}
	return (r);
}
static int
told(void * cookie, ssize_t r)
{

	vc_assert(cookie == &g.app && !g.told, "reports once");
	vc_assert(!g.reg, "nothing is pending at the report");
	vc_assert(g.expect != 2, "temporary conditions and partial transfers are not reported");
	g.told = 1;
	if (g.expect == 1) {
		vc_assert(r > 0 && (uint64_t)r == g.done, "success reports the number of bytes transferred");
		vc_assert((size_t)r >= g.min && (size_t)r <= g.len, "at least the minimum, at most the buffer");
#if defined(VC_NATIVE) && defined(U_READ)
		{
			ssize_t i;

			for (i = 0; i < r; i++)
				vc_assert(g.buf[i] == AT((uint64_t)i), "bytes are stored in order");
		}
#endif
		vc_reach("success");
	} else {
		vc_assert(r == g.expect, "end of file and errors are reported as such");
		vc_reach("other");
	}
	g.rc = nd_int();
	return (g.rc);
}

void
harness(void)
{
	void * C;
	int n, rc;

	g.fd = nd_int();
	g.len = (size_t)nd_range(1, MAXLEN);
	g.min = (size_t)nd_range(0, g.len);
	g.buf = malloc(g.len);
	vc_assume(g.buf != NULL);
#if defined(VC_NATIVE) && !defined(U_READ)
	for (n = 0; n < (int)g.len; n++)
		g.buf[n] = AT((uint64_t)n);
#endif
#ifdef U_READ
	C = network_read(g.fd, g.buf, g.len, g.min, told, &g.app);
#else
	C = network_write(g.fd, g.buf, g.len, g.min, told, &g.app);
#endif
	vc_assert(!g.told && !g.stepped, "nothing happens before the socket is ready");
	if (C == NULL) {
		vc_assert(g.regfail || vc_nfail, "an operation starts unless a step fails");
		vc_assert(!g.reg && vc_live == 0, "an operation which did not start leaves nothing behind");
		vc_reach("not started");
		return;
	}
	vc_assert(!g.regfail && !vc_nfail && g.reg, "a failing step is reported");
	for (n = 0; n < WAKEUPS; n++) {
		if (nd_bool()) {
#ifdef U_READ
			network_read_cancel(C);
#else
			network_write_cancel(C);
#endif
			vc_assert(!g.reg && !g.told && vc_live == 0, "cancelling ends the operation");
			vc_reach("cancelled");
			return;
		}
		g.reg = 0;
		g.stepped = 0;
		rc = (g.cb)(g.cookie);
		vc_assert(g.told == (g.expect != 2), "the outcome is reported at once");
		if (g.told) {
			vc_assert(rc == g.rc, "the result of the report is passed on");
			vc_assert(vc_live == 0 && !g.reg, "a finished operation leaves nothing behind");
			return;
		}
		vc_assert(g.reg && rc == 0, "an unfinished operation waits for its socket");
	}
	vc_reach("still going");
}
