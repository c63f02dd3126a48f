/*
 * events.c: the event loop, over the contracts of the three kinds of events
 * (P16, P17, P19).
 */
#include <sys/time.h>
#include <errno.h>
#include <signal.h>
#define VC_FAILAT
#include "vc_alloc.h"
#include "stub_misc.h"
#include "stub_mpool.h"
#include "libcperciva/events/events.c"
#undef malloc
#undef calloc
#undef free
#ifndef NE
#define NE 3
#endif

/*
 * Events: queued as an immediate event, as a socket which is or may become
 * ready, or as a timer which has or may have expired; or given out, or run.
 */
enum kind { NOTYET, IMM, NET, TIM, GIVEN, RUN };
static struct { enum kind k; int ready; struct eventrec * r; int rc, runs, intr, then; } e[NE];
static int running, stop, stopped, failed, npoll, given;
static int polled;		/* Sockets have been looked at. */
static int timers;		/* Timers which are pending. */
static struct timeval tv0, * tvp;

static int
cb(int k)
{
	int j;

	vc_assert(e[k].k == GIVEN, "an event is run once, after it was found to be runnable");
	vc_assert(!stopped, "nothing is run after an event failed or the loop was interrupted");
	given--;
	e[k].k = RUN;
	e[k].runs++;
	/* Events cause other events. */
	for (j = 0; j < NE; j++)
		if (e[j].k == NOTYET && nd_bool()) {
			e[j].k = IMM;
		}
	if (e[k].intr)
		events_interrupt();
	if (e[k].rc || e[k].intr)
		stopped = 1;
	return (e[k].rc);
}
static int cb0(void * c) { vc_assert(c == &e[0], "cookie"); return (cb(0)); }
static int cb1(void * c) { vc_assert(c == &e[1], "cookie"); return (cb(1)); }
static int cb2(void * c) { vc_assert(c == &e[2], "cookie"); return (cb(2)); }

static struct eventrec *
give(enum kind k)
{
	int j;

	vc_assert(given == 0, "no event is lost: each is run before the next is taken");
	vc_assert(!stopped, "nothing is taken after an event failed or the loop was interrupted");
	for (j = 0; j < NE; j++)
		if (e[j].k == k && e[j].ready) {
			e[j].k = GIVEN;
			given++;
			return (e[j].r);
		}
	return (NULL);
}
static int
have(enum kind k)
{
	int j;

	for (j = 0; j < NE; j++)
		if (e[j].k == k && (k == IMM || e[j].ready))
			return (1);
	return (0);
}
struct eventrec *
events_immediate_get(void)
{
	int j;

	for (j = 0; j < NE; j++)
		if (e[j].k == IMM)
			e[j].ready = 1;
	return (give(IMM));
}
int
events_timer_min(struct timeval ** t)
{

	if (nd_bool()) {
		failed = 1;
		return (-1);
	}
	*t = NULL;
	if (have(TIM) || nd_bool()) {
		*t = vc_malloc(sizeof(struct timeval));
		vc_assume(*t != NULL);
		(*t)->tv_sec = (time_t)nd_range(0, 100);
		(*t)->tv_usec = (suseconds_t)nd_range(0, 999999);
		if (have(TIM))
			(*t)->tv_sec = (*t)->tv_usec = 0;
		tv0 = **t;
		timers = 1;
	}
	tvp = *t;
	return (0);
}
int
events_network_select(const struct timeval * tv, const volatile sig_atomic_t * intr)
{
	int j;

	vc_requires(intr == &interrupt_requested, "LEMMA interruption");
	vc_requires(!have(IMM), "nothing waits while an immediate event can run");
	npoll++;
	if (tv == NULL || tv->tv_sec || tv->tv_usec) {
		vc_requires(npoll == 1, "only the first poll waits");
		vc_requires(tv != NULL || !timers, "the wait is limited by the earliest timer");
		vc_requires(tv == NULL || (tv->tv_sec < tv0.tv_sec || (tv->tv_sec == tv0.tv_sec && tv->tv_usec <= tv0.tv_usec)), "the wait is no longer than until the earliest timer");
	}
	if (nd_bool()) {
		failed = 1;
		return (-1);
	}
	if (npoll == 1 && nd_bool()) {
		/* A signal handler runs. */
		events_interrupt();
		stopped = 1;
		return (0);
	}
	for (j = 0; j < NE; j++)
		if (e[j].k == NET)
			e[j].ready = e[j].ready || nd_bool();
	polled = 1;
	return (0);
}
struct eventrec *
events_network_get(void)
{

	vc_assert(!have(IMM), "immediate events come before others");
	return (give(NET));
}
int
events_timer_get(struct eventrec ** r)
{

	if (nd_bool()) {
		failed = 1;
		return (-1);
	}
	vc_assert(!have(IMM) && !have(NET), "sockets come before timers");
	*r = give(TIM);
	return (0);
}

void
harness(void)
{
	struct eventrec * r;
	int j, rc, n, spin = 0, done = 0, could = 0;

	vc_may_fail = 0;
	/* Event records; making one may fail. */
	vc_failat = (int)nd_range(0, 1);
	r = events_mkrec(cb0, NULL);
	vc_assert((r == NULL) == (vc_failat == 1), "an event record is made unless there is no memory");
	if (r != NULL)
		events_freerec(r);
	vc_assert(vc_live == 0, "event records are freed");
	vc_failat = 0;
	for (j = 0; j < NE; j++) {
		e[j].k = (enum kind)nd_range(NOTYET, TIM);
		e[j].ready = e[j].k == NET || e[j].k == TIM ? nd_bool() : 0;
		if (e[j].k == NET)
			e[j].ready = 0;
		e[j].rc = nd_bool() ? 0 : nd_int();
		e[j].intr = nd_bool();
		e[j].r = events_mkrec(j == 0 ? cb0 : j == 1 ? cb1 : cb2, &e[j]);
		vc_assert(e[j].r != NULL, "event records are made");
	}
	could = have(IMM) || have(TIM);
#ifdef SPIN
	spin = 1;
	rc = nd_bool();
	if (rc) {
		done = 1;
		rc = events_spin(&done);
		vc_assert(rc == 0 && npoll == 0 && given == 0, "nothing runs once the loop is done");
		return;
	}
#endif
	rc = events_run();
	(void)spin; (void)n;
	/* Afterwards. */
	n = 0;
	for (j = 0; j < NE; j++)
		n += e[j].runs;
	vc_assert(given == 0, "every event which was taken was run");
	for (j = 0; j < NE; j++)
		vc_assert(e[j].runs <= 1, "events run once");
	if (failed)
		vc_assert(rc == -1, "failure is reported");
	else if (!stopped) {
		vc_assert(rc == 0, "success is reported");
		vc_assert(n > 0 || !could, "if something could run, something ran");
		vc_assert(n > 0 || polled, "sockets are looked at");
		if (npoll > 0)
			vc_assert(!have(IMM) && !have(NET) && !have(TIM), "everything which could run has run");
		vc_reach("all run");
	} else {
		for (j = 0; j < NE; j++)
			if (e[j].k == RUN && e[j].rc) {
				vc_assert(rc == e[j].rc, "the status of the failing event is reported");
				vc_reach("failed event");
				break;
			}
		if (j == NE)
			vc_assert(rc == 0, "an interruption is no failure");
	}
	for (j = 0; j < NE; j++)
		if (e[j].k != RUN)
			events_freerec(e[j].r);
	vc_assert(vc_live == 0, "all memory is released");
	vc_reach("end");
}
