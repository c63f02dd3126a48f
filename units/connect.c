/*
 * network_connect.c over the contracts of the event loop and of
 * sock_connect_bind_nb (unit sock): up to three addresses, every outcome,
 * order of expiry and readiness, failure and cancellation.
 */
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <unistd.h>
#include "vc_alloc.h"
#include "stub_misc.h"
#define getsockopt vc_getsockopt
#define close vc_close
int vc_getsockopt(int, int, int, void *, socklen_t *);
int vc_close(int);
#ifndef VC_NATIVE
#undef assert
#endif
#include "libcperciva/network/network_connect.c"
#undef malloc
#undef free
#ifndef NA
#define NA 3
#endif
struct sock_addr { int x; };

static struct {
	int na, app;
	struct sock_addr addrs[NA], bind;
	struct sock_addr * list[NA + 1];
	const struct sock_addr * sab;
	struct timeval tv; int timed;
	int next;			/* Addresses tried. */
	int open[NA], nopen, got[NA];	/* Sockets made, and open now. */
	int cur;			/* Last socket made. */
	int reg, treg, ireg;
	int (* ncb)(void *), (* tcb)(void *), (* icb)(void *);
	void * nck, * tck, * ick;
	int told, fail, ok, failed, rc, started;
	int tobj, iobj;
} g;
#define FD(i) (10 + (i))

int
sock_connect_bind_nb(const struct sock_addr * sa, const struct sock_addr * sab)
{
	int i = g.next;

	vc_assert(!g.told, "nothing is tried after the report");
	vc_assert(i < g.na && sa == &g.addrs[i], "addresses are tried in order, each once");
	vc_assert(!g.ok, "no address is tried after one has succeeded");
	vc_assert(sab == g.sab, "sockets are bound as asked");
	g.next++;
	if (nd_bool()) {
		vc_errno();
		return (-1);
	}
	g.open[i] = 1;
	g.nopen++;
	g.cur = i;
	return (FD(i));
}
int
vc_close(int fd)
{
	int i = fd - 10;

	vc_assert(i >= 0 && i < g.next && g.open[i], "an open socket is closed, once");
	vc_assert(!(g.ok && i == g.cur) || g.fail, "the connected socket is not closed");
	vc_assert(!g.reg || g.cur != i, "a socket is no longer waited for when it is closed");
	vc_assert(!g.told, "nothing happens after the report");
	g.open[i] = 0;
	g.nopen--;
	if (nd_bool()) {
		vc_errno();
		return (-1);
	}
	return (0);
}
int
events_network_register(int (* cb)(void *), void * ck, int s, int op)
{

	vc_assert(!g.told && !g.reg && g.nopen && s == FD(g.cur) && g.open[g.cur] && op == EVENTS_NETWORK_OP_WRITE,
	    "waits for the socket being connected");
	if (nd_bool()) {
		g.fail = 1;
		return (-1);
	}
	g.reg = 1;
	g.ncb = cb;
	g.nck = ck;
	return (0);
}
int
events_network_cancel(int s, int op)
{

	vc_requires(g.reg && s == FD(g.cur) && op == EVENTS_NETWORK_OP_WRITE, "a registered event is cancelled");
	g.reg = 0;
	return (0);
}
void *
events_timer_register(int (* cb)(void *), void * ck, const struct timeval * tv)
{

	vc_assert(!g.told && !g.treg && g.timed, "one timer, if a limit was given");
	vc_assert(tv->tv_sec == g.tv.tv_sec && tv->tv_usec == g.tv.tv_usec, "each attempt gets the given time");
	if (nd_bool()) {
		g.fail = 1;
		return (NULL);
	}
	g.treg = 1;
	g.tcb = cb;
	g.tck = ck;
	return (&g.tobj);
}
void
events_timer_cancel(void * t)
{

	vc_requires(t == &g.tobj && g.treg, "a pending timer is cancelled");
	g.treg = 0;
}
void *
events_immediate_register(int (* cb)(void *), void * ck, int prio)
{

	vc_requires(prio >= 0 && prio < 32, "event priority");
	vc_assert(!g.told && !g.ireg, "one report is scheduled");
	if (nd_bool()) {
		g.fail = 1;
		return (NULL);
	}
	g.ireg = 1;
	g.icb = cb;
	g.ick = ck;
	return (&g.iobj);
}
void
events_immediate_cancel(void * c)
{

	vc_requires(c == &g.iobj && g.ireg, "a pending event is cancelled");
	g.ireg = 0;
}
int
vc_getsockopt(int s, int level, int name, void * v, socklen_t * len)
{

	vc_requires(len != NULL && *len >= sizeof(int) && VC_RW(v, sizeof(int)), "getsockopt buffer");
	vc_assert(s == FD(g.cur) && g.nopen && g.open[g.cur] && level == SOL_SOCKET && name == SO_ERROR, "asks for the outcome of the connection");
	if (nd_bool()) {
		vc_errno();
		g.fail = 1;
		return (-1);
	}
	*(int *)v = nd_bool() ? 0 : (int)nd_range(1, 133);
	*len = sizeof(int);
	if (*(int *)v == 0)
		g.ok = 1;
	else
		g.failed = 1;
	return (0);
}
static int
told(void * ck, int s)
{

	vc_assert(ck == &g.app && !g.told, "reports once");
	vc_assert(g.started, "nothing is reported before the caller has its cookie");
	vc_assert(!g.reg && !g.treg && !g.ireg, "nothing is pending at the report");
	g.told = 1;
	if (s != -1) {
		vc_assert(g.ok && s == FD(g.cur) && g.open[g.cur] && g.nopen == 1, "the connected socket is reported, all others are closed");
		vc_reach("connected");
	} else {
		vc_assert(g.nopen == 0, "failed sockets are closed");
		vc_assert(!g.ok || g.fail, "a connection is not reported as failure");
		vc_assert(g.next == g.na || g.fail, "failure is reported after all addresses were tried");
		vc_reach("failed");
	}
	g.rc = nd_int();
	return (g.rc);
}
/* What holds while an attempt is going on. */
static void
pending(void)
{

	vc_assert(!g.told && vc_live > 0, "an unfinished operation keeps its state");
	if (g.ireg)
		vc_assert(!g.reg && !g.treg && g.nopen == 0 && (g.next == g.na || g.fail), "failure is reported after all addresses were tried");
	else {
		vc_assert(g.reg && g.nopen == 1 && g.open[g.cur] && g.cur == g.next - 1, "one attempt is waited for");
		vc_assert(g.treg == g.timed, "a given time limit applies to each attempt");
		vc_assert(!g.ok && !g.failed, "the outcome of an attempt is acted upon at once");
	}
}
static void
gone(void)
{

	vc_assert(g.nopen == 0, "sockets of unsuccessful attempts are closed");
	vc_assert(!g.reg && !g.treg && !g.ireg && vc_live == 0, "nothing is left behind");
}

void
harness(void)
{
	void * C;
	int n, rc;

	g.na = (int)nd_range(0, NA);
	for (n = 0; n < g.na; n++)
		g.list[n] = &g.addrs[n];
	g.list[g.na] = NULL;
	switch (nd_range(0, 2)) {
	case 0:
		C = network_connect(g.list, told, &g.app);
		break;
	case 1:
		g.sab = nd_bool() ? &g.bind : NULL;
		C = network_connect_bind(g.list, g.sab, told, &g.app);
		break;
	default: {
		struct timeval tv;

		g.timed = 1;
		tv.tv_sec = (time_t)nd_range(0, 1000000);
		tv.tv_usec = (suseconds_t)nd_range(0, 999999);
		g.tv = tv;
		C = network_connect_timeo(g.list, &tv, told, &g.app);
		tv.tv_sec = -1;		/* The caller may reuse it. */
		}
	}
	g.started = 1;
	if (C == NULL) {
		vc_assert(!g.told && (g.fail || vc_nfail), "connecting starts unless a step fails");
		gone();
		vc_reach("not started");
		return;
	}
	for (n = 0; n < NA + 1; n++) {
		pending();
		g.failed = 0;
		if (nd_bool()) {
			network_connect_cancel(C);
			vc_assert(!g.told, "cancelling does not report");
			gone();
			vc_reach("cancelled");
			return;
		}
		if (g.ireg) {
			g.ireg = 0;
			rc = (g.icb)(g.ick);
			vc_assert(g.told, "failure is reported");
		} else if (g.treg && nd_bool()) {
			g.treg = 0;
			rc = (g.tcb)(g.tck);
			vc_assert(!g.told || g.fail || g.next == g.na, "the next address is tried when time is up");
		} else {
			g.reg = 0;
			rc = (g.ncb)(g.nck);
			vc_assert(g.told || !g.ok || g.fail, "success is reported at once");
		}
		g.failed = 0;
		if (g.told) {
			vc_assert(rc == g.rc || g.fail, "the result of the report is passed on");
			vc_assert(!g.reg && !g.treg && !g.ireg && vc_live == 0, "nothing is left behind");
			return;
		}
		if (rc != 0) {
			vc_assert(g.fail, "only a failing step is fatal");
			gone();
			vc_reach("fatal");
			return;
		}
	}
	vc_assert(0, "connecting ends after all addresses were tried");
}
