/*
 * events_immediate.c: OPS operations from the initial state.  Registrations
 * may fail; after each operation nothing but the registered events is held,
 * and at the end everything is taken in order.
 */
#include <errno.h>
#define VC_FAILAT
#include "vc_alloc.h"
#include "stub_misc.h"
#include "stub_mpool.h"
#include "libcperciva/events/events_immediate.c"
#undef malloc
#undef calloc
#undef free
#ifndef NE
#define NE 3
#endif
#ifdef SCHED
#define OPS ((int)sizeof(SCHED) - 1)
#endif
#ifndef OPS
#define OPS 4
#endif
#ifndef PRIOS
#define PRIOS 32
#endif

struct eventrec { int (* func)(void *); void * cookie; int live; };
static struct eventrec er[NE];
static void * ck[NE];
static int prio[NE], when[NE], mk, mkfail, now;
static int cb(void * c) { (void)c; return (0); }
struct eventrec *
events_mkrec(int (* func)(void *), void * cookie)
{

	if (mkfail) {
		vc_nfail++;
		return (NULL);
	}
	vc_requires(!er[mk].live, "one event record is made");
	er[mk].live = 1;
	er[mk].func = func;
	er[mk].cookie = cookie;
	return (&er[mk]);
}
void
events_freerec(struct eventrec * r)
{

	vc_requires(r != NULL && r->live, "event records are freed once");
	r->live = 0;
}

static void
get(void)
{
	struct eventrec * r;
	int k, m = -1;

	for (k = 0; k < NE; k++)
		if (ck[k] != NULL && (m == -1 || prio[k] < prio[m] || (prio[k] == prio[m] && when[k] < when[m])))
			m = k;
	r = events_immediate_get();
	if (m == -1) {
		vc_assert(r == NULL, "there is no event if none is registered");
		vc_reach("none");
		return;
	}
	vc_assert(r == &er[m], "the event of the smallest priority registered first is next");
	vc_assert(r->live && r->func == cb && r->cookie == &prio[m], "an event is delivered as registered");
	r->live = 0;
	ck[m] = NULL;
	vc_reach("delivered");
}

void
harness(void)
{
	int k, o, p, kind, nreg = 0;

	vc_may_fail = 0;
	for (o = 0; o < OPS; o++) {
		vc_failat = vc_nalloc = mkfail = vc_nfail = 0;
#ifdef SCHED
		/* A given schedule: register, cancel, get. */
		kind = SCHED[o] == 'R' ? 0 : SCHED[o] == 'C' ? 1 : 2;
		k = kind == 0 ? nreg++ : (int)nd_range(0, NE - 1);
#else
		kind = (int)nd_range(0, 2);
		k = (int)nd_range(0, NE - 1);
#endif
		switch (kind) {
		case 0:
			if (ck[k] != NULL)
				break;
			mk = k;
			p = (int)nd_range(0, PRIOS - 1);
#if PRIOS < 32
			p = p == PRIOS - 1 ? 31 : p;
#endif
			mkfail = nd_bool();
#ifndef SCHED
			vc_failat = (int)nd_range(0, 1);
#endif
			ck[k] = events_immediate_register(cb, &prio[k], p);
			if (ck[k] == NULL) {
				vc_assert(vc_nfail > 0, "an event is registered unless there is no memory");
				vc_assert(!er[k].live, "a failed registration leaves nothing behind");
				vc_reach("not registered");
				break;
			}
			prio[k] = p;
			when[k] = o;
			break;
		case 1:
			if (ck[k] == NULL)
				break;
			events_immediate_cancel(ck[k]);
			vc_assert(!er[k].live, "a cancelled event is released");
			ck[k] = NULL;
			vc_reach("cancelled");
			break;
		default:
			get();
			break;
		}
		for (k = 0; k < NE; k++)
			vc_assert(er[k].live == (ck[k] != NULL), "other events stay registered");
	}
	for (k = 0; k < NE; k++)
		get();
	for (k = 0; k < NE; k++)
		vc_assert(ck[k] == NULL, "every event is delivered");
	vc_assert(events_immediate_get() == NULL, "there is no other event");
	vc_assert(vc_live == 0, "everything is released");
	vc_reach("end");
}
