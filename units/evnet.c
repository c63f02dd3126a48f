/*
 * events_network.c over the contract of elasticarray.c (P20) and of poll(2).
 * With -DINDUCT one operation is applied to an arbitrary state with NFD
 * descriptors; otherwise OPS operations follow initialization (natively, with
 * the real elasticarray.c).
 */
#include <sys/select.h>
#include <errno.h>
#include <poll.h>
#define VC_FAILAT
#include "vc_alloc.h"
#include "stub_misc.h"
static void (* vc_exit)(void);
static int vc_atexit(void (* f)(void)) { vc_exit = f; return (0); }
#define atexit vc_atexit
static void * vc_realloc(void * p, size_t n);
#define realloc vc_realloc
static int vc_poll(struct pollfd *, nfds_t, int);
#define poll vc_poll
#ifdef VC_NATIVE
#include "libcperciva/datastruct/elasticarray.c"
#endif
#include "libcperciva/events/events_network.c"
#undef malloc
#undef calloc
#undef free
#undef atexit
#undef realloc
#undef poll
#ifndef NFD
#define NFD 3
#endif
#ifndef OPS
#define OPS 1
#endif
#ifndef OP
#define OP nd_range(0, 5)
#endif
#ifndef TIMES
#define TIMES 1
#endif
#define RD 0
#define WR 1
static const int opc[2] = { EVENTS_NETWORK_OP_READ, EVENTS_NETWORK_OP_WRITE };
static const short bit[2] = { POLLIN, POLLOUT };

/* What is registered, and what the last poll said. */
static struct eventrec { int (* func)(void *); void * cookie; int live; } er[NFD][2];
static int reg[NFD][2];		/* Registered. */
static int ready[NFD][2];	/* Found ready since it was registered. */
static int err[NFD];		/* Found to be in error. */
static int pure;		/* Nothing happened since the poll. */
static int npoll;
static int mf, mo, mkfail, nmk;	/* Which event is being registered. */
struct eventrec *
events_mkrec(int (* func)(void *), void * cookie)
{

	nmk++;
	if (mkfail) {
		vc_nfail++;
		return (NULL);
	}
	vc_requires(!er[mf][mo].live, "one event record is made");
	er[mf][mo].live = 1;
	er[mf][mo].func = func;
	er[mf][mo].cookie = cookie;
	return (&er[mf][mo]);
}
void
events_freerec(struct eventrec * r)
{

	vc_requires(r != NULL && r->live, "event records are freed once");
	r->live = 0;
}
static int startclock;
void events_network_selectstats_startclock(void) { startclock = 1; }
void events_network_selectstats_stopclock(void) { startclock = 0; }
void events_network_selectstats_select(void) { }

#ifdef VC_NATIVE
static void *
vc_realloc(void * p, size_t n)
{

	if (VC_FAILS()) {
		vc_nfail++;
		return (NULL);
	}
	if (p == NULL)
		vc_live++;
	return (realloc(p, n));
}
#else
static struct pollfd pf[2][32];
static int pfk;
static void *
vc_realloc(void * p, size_t n)
{
	size_t i;

	vc_requires(p == NULL ? pfk == 0 : p == pf[0] && pfk == 1, "LEMMA reallocation of the descriptors");
	if (VC_FAILS()) {
		vc_nfail++;
		return (NULL);
	}
	vc_assert(n <= 32 * sizeof(struct pollfd), "LEMMA size");
	if (p == NULL)
		vc_live++;
	else for (i = 0; i < NFD; i++)
		pf[1][i] = pf[0][i];
	return (pf[pfk++]);
}
/* The contract of elasticarray.c. */
struct elasticarray { size_t n; };
static struct elasticarray ea;
static struct socketrec el[NFD];
struct elasticarray *
elasticarray_init(size_t n, size_t len)
{

	vc_requires(n == 0 && len == sizeof(struct socketrec), "array");
	if (VC_FAILS()) {
		vc_nfail++;
		return (NULL);
	}
	vc_live++;
	ea.n = 0;
	return (&ea);
}
void *
elasticarray_get(struct elasticarray * EA, size_t i, size_t len)
{

	vc_requires(EA == &ea && len == sizeof(struct socketrec), "array");
	vc_requires(i < ea.n, "descriptors are within the array");
	return (&el[i]);
}
int
elasticarray_resize(struct elasticarray * EA, size_t n, size_t len)
{
	size_t i;

	vc_requires(EA == &ea && len == sizeof(struct socketrec), "array");
	vc_assert(n <= NFD, "the array is as large as the largest descriptor");
	if (n > ea.n && VC_FAILS()) {
		vc_nfail++;
		return (-1);
	}
	for (i = 0; i < NFD; i++)
		if (i >= ea.n && i < n) {
			el[i].pollpos = nd_size();
			el[i].reader = nd_bool() ? NULL : &er[0][0];
			el[i].writer = nd_bool() ? NULL : &er[0][0];
		}
	ea.n = n;
	return (0);
}
size_t elasticarray_getsize(struct elasticarray * EA, size_t len) { vc_requires(EA == &ea && len == sizeof(struct socketrec), "array"); return (ea.n); }
void elasticarray_free(struct elasticarray * EA) { if (EA != NULL) vc_live--; }
static void
vc_pfree(void * p)
{
	(void)p;
}
#endif

/* poll(2). */
static const struct timeval * ptv;
static int64_t tms;		/* The time in milliseconds. */
static volatile sig_atomic_t intr;
static int
vc_poll(struct pollfd * p, nfds_t n, int timeout)
{
	int f, o, seen[NFD], want = 0;
	size_t i;
	short rev;

	npoll++;
	for (f = 0; f < NFD; f++) {
		seen[f] = 0;
		want += reg[f][RD] || reg[f][WR];
	}
	vc_requires(n == (nfds_t)want, "as many descriptors are polled as have events");
	for (i = 0; i < NFD; i++) {
		if (i >= n)
			break;
		f = p[i].fd;
		vc_requires(f >= 0 && f < NFD && !seen[f], "a descriptor with events is polled, once");
		seen[f] = 1;
		for (o = 0; o < 2; o++)
			vc_requires(((p[i].events & bit[o]) != 0) == reg[f][o], "what is polled for is what is registered");
		vc_requires((p[i].events & ~(POLLIN | POLLOUT)) == 0, "nothing else is polled for");
	}
	if (ptv == NULL)
		vc_requires(timeout < 0, "without a timer there is no limit");
	else {
		vc_requires(timeout >= 0, "with a timer there is a limit");
		vc_requires(ptv->tv_sec >= INT_MAX / 1000 ? timeout >= INT_MAX / 1000 : timeout == tms, "the limit is the time given, rounded up to milliseconds");
	}
	if (nd_bool()) {
		if (npoll < 3 && nd_bool()) {
			errno = EINTR;
			intr = nd_bool();
		} else {
			errno = ENOMEM;
			vc_nfail++;
		}
		return (-1);
	}
	want = 0;
	for (i = 0; i < NFD; i++) {
		if (i >= n)
			break;
		f = p[i].fd;
		rev = (short)(nd_u8() & (p[i].events | POLLERR | POLLHUP));
		p[i].revents = rev;
		want += rev != 0;
		ready[f][RD] = (rev & POLLIN) != 0;
		ready[f][WR] = (rev & POLLOUT) != 0;
		err[f] = (rev & (POLLERR | POLLHUP)) != 0;
	}
	return (want);
}

static int cb(void * c) { (void)c; return (0); }
static void
get(void)
{
	struct eventrec * r;
	int f, o, ff, oo, found = 0;

	r = events_network_get();
	if (r == NULL) {
		for (f = 0; f < NFD; f++)
			for (o = 0; o < 2; o++)
				vc_assert(!pure || !reg[f][o] || !(ready[f][o] || err[f]), "if something is ready, something is delivered");
		pure = 0;
		vc_reach("nothing to deliver");
		return;
	}
	ff = oo = pure = 0;
	for (f = 0; f < NFD; f++)
		for (o = 0; o < 2; o++)
			if (r == &er[f][o]) {
				found++;
				ff = f;
				oo = o;
			}
	vc_assert(found == 1, "an event which was registered is delivered");
	vc_assert(reg[ff][oo], "an event is delivered once, and not once cancelled");
	vc_assert(r->live && r->func == cb && r->cookie == &er[ff][oo], "an event is delivered as registered");
	vc_assert(ready[ff][oo] || err[ff], "only events whose descriptor is ready are delivered");
	reg[ff][oo] = ready[ff][oo] = 0;
	r->live = 0;
	vc_reach("delivered");
}

#ifdef INDUCT
/* The representation invariant. */
static int
inv(void)
{
	size_t i;
	int f, o, n = 0;

	if (nfds > NFD || ea.n > NFD || nfds > fds_alloc)
		return (0);
	for (f = 0; f < NFD; f++) {
		n += reg[f][RD] || reg[f][WR];
		if ((size_t)f >= ea.n) {
			if (reg[f][RD] || reg[f][WR])
				return (0);
			continue;
		}
		if (el[f].reader != (reg[f][RD] ? &er[f][RD] : NULL) || el[f].writer != (reg[f][WR] ? &er[f][WR] : NULL))
			return (0);
		if (!reg[f][RD] && !reg[f][WR]) {
			if (el[f].pollpos != (size_t)(-1))
				return (0);
			continue;
		}
		i = el[f].pollpos;
		if (i >= nfds || fds[i].fd != f)
			return (0);
		if (fds[i].events != ((reg[f][RD] ? POLLIN : 0) | (reg[f][WR] ? POLLOUT : 0)))
			return (0);
		if (fds[i].revents & ~(fds[i].events | POLLERR | POLLHUP))
			return (0);
		for (o = 0; o < 2; o++)
			if ((fds[i].revents & bit[o]) && !ready[f][o] && !err[f])
				return (0);
		if ((fds[i].revents & (POLLERR | POLLHUP)) && !err[f])
			return (0);
		/* Undelivered events are within reach. */
		if (pure && (reg[f][RD] || reg[f][WR]) && (ready[f][RD] || ready[f][WR] || err[f])) {
			if (i > fdscanpos || fdscanpos >= nfds)
				for (o = 0; o < 2; o++)
					if (reg[f][o] && (ready[f][o] || err[f]))
						return (0);
			if (i <= fdscanpos && fdscanpos < nfds) {
				for (o = 0; o < 2; o++)
					if (reg[f][o] && ready[f][o] && !(fds[i].revents & bit[o]))
						return (0);
				if (err[f] && !(fds[i].revents & (POLLERR | POLLHUP)))
					for (o = 0; o < 2; o++)
						if (reg[f][o] && !(fds[i].revents & bit[o]))
							return (0);
			}
		}
	}
	return (nfds == (size_t)n);
}
#endif

void
harness(void)
{
	struct timeval tv;
	int f, o, k, rc, live;

	vc_may_fail = 0;
#ifdef INDUCT
	/* An arbitrary state. */
	rc = init();
	vc_assume(rc == 0);
	rc = inv();
	vc_assert(rc, "LEMMA initial state");
	ea.n = (size_t)nd_range(0, NFD);
	fds = pf[0];
	pfk = 1;
	vc_live++;
	nfds = (size_t)nd_range(0, NFD);
	fds_alloc = (size_t)nd_range(0, NFD + 1);
	vc_assume(fds_alloc >= nfds);
	if (fds_alloc == 0) {
		fds = NULL;
		pfk = 0;
		vc_live--;
	}
	fdscanpos = nd_size();
	pure = nd_bool();
	for (f = 0; f < NFD; f++) {
		err[f] = nd_bool();
		for (o = 0; o < 2; o++) {
			reg[f][o] = nd_bool();
			ready[f][o] = nd_bool();
			vc_assume(reg[f][o] || !ready[f][o]);
			if (reg[f][o]) {
				er[f][o].live = 1;
				er[f][o].func = cb;
				er[f][o].cookie = &er[f][o];
			}
		}
		el[f].reader = reg[f][RD] ? &er[f][RD] : NULL;
		el[f].writer = reg[f][WR] ? &er[f][WR] : NULL;
		el[f].pollpos = nd_size();
		pf[0][f].fd = (int)nd_range(0, NFD - 1);
		pf[0][f].events = (short)(nd_u8() & (POLLIN | POLLOUT));
		pf[0][f].revents = (short)(nd_u8() & (POLLIN | POLLOUT | POLLERR | POLLHUP));
	}
	rc = inv();
	vc_assume(rc);
#endif
	for (k = 0; k < OPS; k++) {
		f = (int)nd_range(0, NFD - 1);
		o = (int)nd_range(0, 1);
		vc_nfail = vc_nalloc = vc_failat = npoll = nmk = 0;
		intr = 0;
		mkfail = 0;
		errno = 0;
		mf = f;
		mo = o;
		switch (OP) {
		case 0:
			mkfail = nd_bool();
			vc_failat = (int)nd_range(0, 3);
			pure = 0;
			live = er[f][o].live;
			rc = events_network_register(cb, &er[f][o], f, opc[o]);
			if (rc == 0) {
				vc_assert(!reg[f][o], "at most one reader and one writer");
				reg[f][o] = 1;
				ready[f][o] = 0;
				vc_reach("registered");
			} else {
				vc_assert(reg[f][o] ? errno == EEXIST : vc_nfail > 0, "an event is registered unless there is one or there is no memory");
				vc_assert(er[f][o].live == live, "a failed registration leaves nothing behind");
				vc_reach("not registered");
			}
			break;
		case 1:
			pure = 0;
			vc_failat = (int)nd_range(0, 1);
			rc = events_network_cancel(f, opc[o]);
			if (rc == 0) {
				vc_assert(reg[f][o] && !er[f][o].live, "an event is cancelled");
				reg[f][o] = ready[f][o] = 0;
				vc_reach("cancelled");
			} else {
				vc_assert(!reg[f][o] && (errno == ENOENT || vc_nfail), "an event which is registered is cancelled");
				vc_reach("not cancelled");
			}
			break;
		case 2:
			ptv = nd_bool() ? &tv : NULL;
			tv.tv_sec = (time_t)nd_range(0, TIMES ? 1ULL << 40 : 0);
			tms = (int64_t)nd_range(0, TIMES ? 999 : 0);
			tv.tv_usec = (suseconds_t)nd_range(0, TIMES ? 999 : 0);
			o = tv.tv_usec != 0;
			tv.tv_usec += (suseconds_t)tms * 1000;
			tms += tv.tv_sec * 1000 + o;
			for (f = 0; f < NFD; f++)
				err[f] = ready[f][0] = ready[f][1] = 0;
			rc = events_network_select(ptv, &intr);
			vc_assert((rc != 0) == (vc_nfail != 0), "selecting works unless polling fails");
			vc_assert(npoll > 0 || vc_nfail, "descriptors are polled");
			pure = rc == 0 && !intr;
			if (!pure) {
				/* (Nothing new is known.) */
				for (f = 0; f < NFD; f++)
					err[f] = ready[f][0] = ready[f][1] = 1;
			}
			vc_reach("selected");
			break;
		case 3:
			/* Not a descriptor; not an operation. */
			if (nd_bool())
				rc = nd_bool() ? events_network_register(cb, NULL, -1 - f, opc[o]) : events_network_cancel(-1 - f, opc[o]);
			else
				rc = nd_bool() ? events_network_register(cb, NULL, f, 2 + o) : events_network_cancel(f, 2 + o);
			vc_assert(rc == -1, "nonsense is refused");
			break;
		default:
			get();
			break;
		}
		/* Every registration which is held is held still. */
		for (f = 0; f < NFD; f++)
			for (o = 0; o < 2; o++) {
				vc_assert(er[f][o].live == reg[f][o], "registrations are kept");
				vc_assert(!reg[f][o] || (er[f][o].func == cb && er[f][o].cookie == &er[f][o]), "registrations are kept unchanged");
			}
#ifdef INDUCT
		rc = inv();
		vc_assert(rc, "LEMMA representation invariant");
#endif
	}
#ifndef INDUCT
	/* Cancel what is left; everything is released at exit. */
	vc_failat = 0;
	for (f = 0; f < NFD; f++)
		for (o = 0; o < 2; o++)
			if (reg[f][o]) {
				rc = events_network_cancel(f, opc[o]);
				vc_assert(rc == 0, "what is registered can be cancelled");
			}
	if (vc_exit != NULL)
		vc_exit();
#ifdef VC_NATIVE
	vc_assert(vc_live == 0 || vc_exit == NULL, "everything is released at exit");
#endif
#endif
	vc_reach("end");
}
