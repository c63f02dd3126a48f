/*
 * network_accept.c over the contracts of the event loop and of accept(2).
 * Nothing but the registration remains between wake-ups, so three wake-ups
 * cover histories of any length.
 */
#include <sys/types.h>
#include <sys/socket.h>
#include <unistd.h>
#include "vc_alloc.h"
#include "stub_misc.h"
#define accept vc_accept
#define accept4(f, a, l, fl) vc_accept(f, a, l)
#define close vc_close
int vc_accept(int, struct sockaddr *, socklen_t *);
int vc_close(int);
#include "libcperciva/network/network_accept.c"
#undef malloc
#undef free
#define WAKEUPS 3

static struct {
	int fd, app;
	int reg; int (* cb)(void *); void * cookie;
	int told, regfail, accepts, next, err, open, rc;
} g;

int
events_network_register(int (* cb)(void *), void * cookie, int s, int op)
{

	vc_assert(s == g.fd && op == EVENTS_NETWORK_OP_READ && !g.reg, "waits once for the listening socket");
	vc_assert(!g.told, "nothing goes on after the report");
	if (nd_bool()) {
		g.regfail = 1;
		return (-1);
	}
	g.reg = 1;
	g.cb = cb;
	g.cookie = cookie;
	return (0);
}
int
events_network_cancel(int s, int op)
{

	vc_requires(s == g.fd && op == EVENTS_NETWORK_OP_READ && g.reg, "a registered event is cancelled");
	g.reg = 0;
	return (0);
}
int
vc_accept(int fd, struct sockaddr * sa, socklen_t * len)
{
	static const int tmp[] = { EAGAIN, EWOULDBLOCK, EINTR, ECONNABORTED };
	static const int bad[] = { EMFILE, ENFILE, EBADF, EINVAL, ENOTSOCK, EFAULT };

	(void)sa; (void)len;
	vc_assert(fd == g.fd && !g.told, "accepts on the listening socket when woken");
	vc_assert(g.open == -1 && !g.err, "no connection or error is passed over");
	vc_assume(++g.accepts <= 3);
	switch (nd_range(0, 2)) {
	case 0:
		errno = tmp[nd_range(0, 3)];
		return (-1);
	case 1:
		errno = bad[nd_range(0, 5)];
		g.err = 1;
		return (-1);
	default:
		g.open = g.next++;
		return (g.open);
	}
}
int
vc_close(int fd)
{

	vc_assert(fd == g.open && 0, "an accepted connection is delivered, not closed");
	return (0);
}
static int
told(void * cookie, int s)
{

	vc_assert(cookie == &g.app && !g.told, "reports once");
	vc_assert(!g.reg, "nothing is pending at the report");
	g.told = 1;
	if (g.open != -1) {
		vc_assert(s == g.open, "the connection accepted is delivered");
		vc_reach("accepted");
	} else {
		vc_assert(s == -1 && (g.err || g.regfail), "only errors are reported as errors");
		vc_reach("error");
	}
	g.rc = nd_int();
	return (g.rc);
}

void
harness(void)
{
	void * C;
	int n, rc;

	g.fd = (int)nd_range(0, 1000);
	g.next = (int)nd_range(0, 5);
	g.open = -1;
	C = network_accept(g.fd, told, &g.app);
	vc_assert(!g.told && !g.accepts, "nothing happens before the socket is ready");
	if (C == NULL) {
		vc_assert(g.regfail || vc_nfail, "waiting starts unless a step fails");
		vc_assert(!g.reg && vc_live == 0, "an operation which did not start leaves nothing behind");
		vc_reach("not started");
		return;
	}
	vc_assert(!g.regfail && !vc_nfail && g.reg, "a failing step is reported");
	for (n = 0; n < WAKEUPS; n++) {
		if (nd_bool()) {
			network_accept_cancel(C);
			vc_assert(!g.reg && !g.told && vc_live == 0, "cancelling ends the operation");
			vc_reach("cancelled");
			return;
		}
		g.reg = 0;
		g.accepts = 0;
		rc = (g.cb)(g.cookie);
		vc_assert(g.accepts, "a wake-up looks for a connection");
		if (g.open != -1 || g.err)
			vc_assert(g.told, "a connection or error is reported at once");
		if (g.told) {
			vc_assert(rc == g.rc, "the result of the report is passed on");
			vc_assert(vc_live == 0 && !g.reg, "a finished operation leaves nothing behind");
			return;
		}
		if (g.regfail) {
			vc_assert(rc != 0, "a failing registration is reported");
			return;
		}
		vc_assert(g.reg && rc == 0, "temporary conditions cause waiting to continue");
	}
	vc_reach("still waiting");
}
