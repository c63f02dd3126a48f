/*
 * spiped/dispatch.c over the contracts of accepting (P25), connections (P12),
 * timers (P17), name resolution and address lists (P27): every sequence of
 * STEPS events after the start.
 */
#include <errno.h>
#define VC_FAILAT
#include "vc_alloc.h"
#include "stub_misc.h"
static int vc_close(int);
#define close vc_close
#include "spiped/dispatch.c"
#undef close
#undef malloc
#undef calloc
#undef free
#undef strdup
#ifndef STEPS
#define STEPS 3
#endif
#ifndef MAXC
#define MAXC 3
#endif
#ifndef ATMOST
#define ATMOST MAXC
#endif

#define LFD 3			/* The listening socket; accepted ones follow. */
static int lclosed, nfd, sockst[STEPS + 3];	/* 0: none, 1: open, 2: a connection has it, 3: closed. */
static int fails;		/* Something failed in this step. */
static int nobad;		/* Nothing fails. */
static int fail(void) { if (nobad || !nd_bool()) return (0); fails++; return (1); }
static int
vc_close(int s)
{

	if (s == LFD) {
		vc_requires(!lclosed, "the listening socket is closed once");
		lclosed = 1;
	} else {
		vc_requires(s > LFD && s - LFD - 1 < nfd && sockst[s - LFD - 1] == 1, "only accepted sockets which nobody has are closed");
		sockst[s - LFD - 1] = 3;
	}
	return (fail() ? -1 : 0);
}

/* Address lists: which address it came from, and whether it is there. */
#ifdef VC_NATIVE
#define NL 40
#else
#ifdef PREFIX
#define NL (2 * STEPS + PREFIX + 1)
#else
#define NL (2 * STEPS + 1)
#endif
#endif
static struct { int live, from; } list[NL];
static struct sock_addr * lists[NL][1];
static int nlist, current;	/* The addresses in force. */
static struct sock_addr **
mklist(int from)
{

	vc_assert(nlist < NL, "LEMMA number of lists");
	vc_assume(nlist < NL);
	list[nlist].live = 1;
	list[nlist].from = from;
	return (lists[nlist++]);
}
static int
idx(struct sock_addr * const * l)
{
	int k;

	for (k = 0; k < NL; k++)
		if (l == lists[k])
			return (k);
	vc_assert(0, "callee precondition: a list of addresses");
	return (0);
}
void
sock_addr_freelist(struct sock_addr ** l)
{
	int k;

	if (l == NULL)
		return;
	k = idx(l);
	vc_requires(list[k].live, "a list of addresses is freed once");
	list[k].live = 0;
}
struct sock_addr **
sock_addr_duplist(struct sock_addr * const * l)
{
	int k = idx(l);

	vc_requires(list[k].live, "a list which is there is copied");
	if (fail())
		return (NULL);
	return (mklist(list[k].from));
}

/* Accepting. */
static struct { int pending, n; int (* cb)(void *, int); void * cookie; } ac;
static char accepting;
void *
network_accept(int s, int (* cb)(void *, int), void * cookie)
{

	vc_requires(s == LFD && !lclosed, "connections are accepted on the listening socket");
	vc_requires(!ac.pending, "one connection is waited for at a time");
	if (fail())
		return (NULL);
	ac.pending = 1;
	ac.cb = cb;
	ac.cookie = cookie;
	return (&accepting);
}
void
network_accept_cancel(void * c)
{

	vc_requires(c == &accepting && ac.pending, "only what is pending is cancelled");
	ac.pending = 0;
}

/* Timers. */
static struct { int pending; int (* cb)(void *); void * cookie; } ti;
static char timing;
static double rtime;
void *
events_timer_register_double(int (* cb)(void *), void * cookie, double t)
{

	vc_requires(!ti.pending, "one timer runs");
	vc_requires(t == rtime && rtime > 0, "addresses are looked up again at the given interval");
	if (fail())
		return (NULL);
	ti.pending = 1;
	ti.cb = cb;
	ti.cookie = cookie;
	return (&timing);
}
void
events_timer_cancel(void * c)
{

	vc_requires(c == &timing && ti.pending, "only what is pending is cancelled");
	ti.pending = 0;
}

/* Name resolution. */
static struct { int spawned, pending; int (* cb)(void *, struct sock_addr **); void * cookie; } dn;
static char thread;
static const char target[] = "target";
DNSTHREAD
dnsthread_spawn(void)
{

	vc_requires(!dn.spawned, "one thread");
	if (fail())
		return (NULL);
	dn.spawned = 1;
	return ((DNSTHREAD)(void *)&thread);
}
int
dnsthread_resolveone(DNSTHREAD T, const char * addr, int (* cb)(void *, struct sock_addr **), void * cookie)
{

	vc_requires((void *)T == &thread && dn.spawned && !dn.pending, "one address is resolved at a time");
	vc_requires(addr == target, "the target is resolved");
	if (fail())
		return (-1);
	dn.pending = 1;
	dn.cb = cb;
	dn.cookie = cookie;
	return (0);
}
int
dnsthread_kill(DNSTHREAD T)
{

	vc_requires((void *)T == &thread && dn.spawned, "the thread is ended once");
	dn.spawned = dn.pending = 0;
	return (0);
}

/* Connections. */
static struct { int live, s, l; int (* cb)(void *, int); void * cookie; } c[MAXC];
static char cname[MAXC];
static int live, shut, stopping;
static size_t maxc;
static int conndone;
static struct sock_addr * bindto;
static struct proto_secret * key;
static char bytes[2];
static int decr, nopfs, reqpfs, noka;
static double timeo;
void *
proto_conn_create(int s, struct sock_addr ** sas, const struct sock_addr * sa_b, int d, int np, int rp, int nk, const struct proto_secret * K, double t,
    int (* cb)(void *, int), void * cookie)
{
	int k, l = idx(sas);

	vc_requires(s > LFD && s - LFD - 1 < nfd && sockst[s - LFD - 1] == 1, "a connection gets an accepted socket");
	vc_requires(list[l].live && list[l].from == current, "a connection goes to the addresses in force");
	vc_requires((struct sock_addr *)sa_b == bindto && K == key && t == timeo, "a connection is set up as asked: address, key, timeout");
	vc_requires(!!d == decr && !!np == nopfs && !!rp == reqpfs && !!nk == noka, "a connection is set up as asked: mode");
	if (fail())
		return (NULL);
	for (k = 0; k < MAXC - 1; k++)
		if (!c[k].live)
			break;
	vc_assert(!c[k].live, "at most the configured number of connections");
	c[k].live = 1;
	c[k].s = s - LFD - 1;
	c[k].l = l;
	c[k].cb = cb;
	c[k].cookie = cookie;
	sockst[c[k].s] = 2;
	live++;
	vc_assert((size_t)live <= maxc, "at most the configured number of connections");
	return (&cname[k]);
}
static int
ended(int k)
{

	c[k].live = 0;
	live--;
	sockst[c[k].s] = 3;
	list[c[k].l].live = 0;
	return ((c[k].cb)(c[k].cookie, 1));
}
int
proto_conn_drop(void * cookie, int reason)
{
	int k;

	(void)reason;
	for (k = 0; k < MAXC; k++)
		if (cookie == &cname[k])
			break;
	vc_requires(k < MAXC && c[k].live, "a live connection is dropped");
	return (ended(k));
}

static void
check(int ok)
{
	int k, n = 0;

	for (k = 0; k < STEPS + 3; k++)
		vc_assert(k >= nfd || sockst[k] == 2 || sockst[k] == 3, "every accepted socket becomes a connection or is closed");
	for (k = 0; k < NL; k++)
		n += list[k].live;
	vc_assert(n == live + 1, "addresses are neither lost nor kept");
	vc_assert(vc_live == live + 1, "memory is neither lost nor kept");
	if (!ok)
		return;
	vc_assert(!(shut && ac.pending), "no connection is accepted after a request to end");
	vc_assert(shut || (size_t)live >= maxc || ac.pending, "below the limit, another connection is waited for");
	vc_assert((size_t)live < maxc || !ac.pending, "at the limit, no further connection is waited for");
	vc_assert((conndone != 0) == (shut && live == 0), "the end is reported when the last connection has ended, if asked for");
	vc_assert(rtime > 0 ? ti.pending + dn.pending == 1 : !dn.spawned, "the target is looked up again and again if asked for");
	vc_assert(!lclosed, "listening goes on");
}

void
harness(void)
{
	void * A;
	int k, o, rc = 0;
	struct sock_addr ** l;

	vc_may_fail = 0;
	vc_failat = (int)nd_range(0, 2);
	rtime = nd_bool() ? 0.0 : 60.0;
	timeo = 5.0;
	bindto = nd_bool() ? NULL : (struct sock_addr *)(void *)&bytes[0];
	key = (struct proto_secret *)(void *)&bytes[1];
	decr = nd_bool(); nopfs = nd_bool(); reqpfs = nd_bool(); noka = nd_bool();
	maxc = (size_t)nd_range(1, ATMOST);
	current = 0;
	l = mklist(0);
#ifdef PREFIX
	nobad = 1;
	vc_failat = 0;
#endif
	A = dispatch_accept(LFD, target, rtime, l, bindto, decr, nopfs, reqpfs, noka, key, maxc, timeo, &conndone);
	if (A == NULL) {
		vc_assert(fails || vc_nfail, "accepting starts unless it cannot");
		vc_assert(vc_live == 0 && !ac.pending && !ti.pending && !dn.spawned, "a failed start leaves nothing behind");
		vc_assert(list[0].live && !lclosed, "a failed start leaves the socket and addresses to the caller");
		vc_reach("not started");
		return;
	}
	vc_failat = 0;
	vc_assert(!fails && !vc_nfail, "nothing fails in a successful start");
	check(1);
#ifdef PREFIX
	/* That many connections arrive, without trouble. */
	nobad = 1;
	vc_assume(maxc >= PREFIX);
	for (k = 0; k < PREFIX; k++) {
		ac.pending = 0;
		sockst[nfd++] = 1;
		rc = (ac.cb)(ac.cookie, LFD + nfd);
		vc_assert(rc == 0, "connections are accepted unless there is trouble");
		check(1);
	}
	nobad = 0;
#endif
	for (o = 0; o < STEPS; o++) {
		fails = vc_nfail = vc_nalloc = 0;
		rc = 0;
		k = (int)nd_range(0, MAXC - 1);
		switch (nd_range(0, 5)) {
		case 0:
			/* A connection, or failure. */
			if (!ac.pending)
				continue;
			ac.pending = 0;
			vc_failat = nobad ? 0 : (int)nd_range(0, 1);
			if (fail()) {
				vc_errno();
				rc = (ac.cb)(ac.cookie, -1);
				vc_assert(rc != 0, "failure to accept is reported");
			} else {
				sockst[nfd++] = 1;
				rc = (ac.cb)(ac.cookie, LFD + nfd);
			}
			vc_failat = 0;
			vc_reach("accepted");
			break;
		case 1:
			if (!c[k].live)
				continue;
			rc = ended(k);
			vc_reach("ended");
			break;
		case 2:
			if (!ti.pending)
				continue;
			ti.pending = 0;
			rc = (ti.cb)(ti.cookie);
			break;
		case 3:
			if (!dn.pending)
				continue;
			dn.pending = 0;
			if (nd_bool()) {
				current = o + 1;
				rc = (dn.cb)(dn.cookie, mklist(current));
			} else
				rc = (dn.cb)(dn.cookie, NULL);
			vc_reach("resolved");
			break;
		default:
			if (shut)
				continue;
			shut = 1;
			dispatch_request_shutdown(A);
			vc_reach("asked to end");
			break;
		}
		vc_assert(rc == 0 || fails || vc_nfail, "no failure without cause");
		check(rc == 0);
		if (rc)
			break;	/* The daemon ends. */
	}
	nobad = 1;
	dispatch_shutdown(A);
	vc_assert(live == 0 && !ac.pending && !ti.pending && !dn.spawned && lclosed, "in the end everything is ended");
	vc_assert(vc_live == 0, "in the end all memory is released");
	for (k = 0; k < NL; k++)
		vc_assert(!list[k].live, "in the end all addresses are released");
	for (k = 0; k < nfd; k++)
		vc_assert(sockst[k] == 3, "in the end all sockets are closed");
	vc_reach("end");
}
