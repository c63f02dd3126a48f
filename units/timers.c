/*
 * events_timer.c and timerqueue.c, over the contract of ptrheap.c (P18);
 * natively, over the real ptrheap.c and elasticarray.c.  Up to NT timers are
 * set, with any delays and at any times, and then OPS operations follow.
 */
#include <sys/time.h>
#include <errno.h>
#define VC_FAILAT
#include "vc_alloc.h"
#include "stub_misc.h"
static void (* vc_exit)(void);
static int vc_atexit(void (* f)(void)) { vc_exit = f; return (0); }
#define atexit vc_atexit
#ifdef VC_NATIVE
static void *
vc_realloc(void * p, size_t n)
{

	if (VC_FAILS()) {
		vc_nfail++;
		return (NULL);
	}
	if (p == NULL)
		vc_live++;
	return (realloc(p, n));
}
#define realloc vc_realloc
#include "libcperciva/datastruct/elasticarray.c"
#include "libcperciva/datastruct/ptrheap.c"
#undef realloc
#endif
#define compar tq_compar
#define setreccookie tq_setreccookie
#include "libcperciva/datastruct/timerqueue.c"
#undef compar
#undef setreccookie
#define timerrec ev_timerrec
#include "libcperciva/events/events_timer.c"
#undef timerrec
#undef malloc
#undef calloc
#undef free
#undef atexit
#ifndef NT
#define NT 3
#endif
#ifndef OP
#define OP nd_range(0, 3)
#endif
#ifndef OPS
#define OPS 1
#endif
#ifndef MAXSEC
#define MAXSEC (1LL << 40)
#endif

/* The clock: it never goes backwards. */
static struct timeval now;
static int clockfail, nclock;
int
monoclock_get(struct timeval * tv)
{

	vc_requires(VC_RW(tv, sizeof(*tv)), "time");
	nclock++;
	if (clockfail) {
		vc_nfail++;
		return (-1);
	}
	*tv = now;
	return (0);
}
static int
later(const struct timeval * x, const struct timeval * y)
{

	return (x->tv_sec > y->tv_sec || (x->tv_sec == y->tv_sec && x->tv_usec > y->tv_usec));
}
static void
pass(void)
{
	struct timeval t;

#ifdef VC_NATIVE
	t.tv_sec = now.tv_sec + (time_t)nd_range(0, 2);
	t.tv_usec = (suseconds_t)(nd_range(0, 3) * 333333);
#else
	t.tv_sec = (time_t)nd_range(0, MAXSEC);
	t.tv_usec = (suseconds_t)nd_range(0, 999999);
#endif
	if (later(&t, &now))
		now = t;
}
static void
add(struct timeval * t, const struct timeval * d)
{

	t->tv_sec = now.tv_sec + d->tv_sec;
	t->tv_usec = now.tv_usec + d->tv_usec;
	if (t->tv_usec >= 1000000) {
		t->tv_sec++;
		t->tv_usec -= 1000000;
	}
}

/* Event records. */
struct eventrec { int (* func)(void *); void * cookie; int live; };
static struct eventrec er[NT];
static int ner, mkfail;
struct eventrec *
events_mkrec(int (* func)(void *), void * cookie)
{
	int k = ner;

	if (mkfail || k >= NT) {
		vc_nfail++;
		return (NULL);
	}
	ner++;
	er[k].func = func;
	er[k].cookie = cookie;
	er[k].live = 1;
	return (&er[k]);
}
void
events_freerec(struct eventrec * r)
{

	vc_requires(r != NULL && r->live, "event records are freed once");
	r->live = 0;
}

#ifndef VC_NATIVE
/*
 * The contract of ptrheap.c.  That the heap is told of every change is
 * checked for an arbitrary pair of elements.
 */
struct ptrheap { int x; };
static struct ptrheap hp;
static void * he[NT], * wa, * wb;
static size_t hn, hmin = SIZE_MAX;
static int word, na, nb, nadd;
static void * hcookie;
struct ptrheap *
ptrheap_init(int (* f)(void *, const void *, const void *), void (* g)(void *, void *, size_t), void * c)
{

	if (VC_FAILS()) {
		vc_nfail++;
		return (NULL);
	}
	vc_live++;
	vc_assert(f == tq_compar && g == tq_setreccookie, "LEMMA callbacks");
	hcookie = c;
	return (&hp);
}
#define WORD() (wa != NULL && wb != NULL ? tq_compar(hcookie, wa, wb) : 0)
int
ptrheap_add(struct ptrheap * H, void * p)
{

	vc_requires(H == &hp && p != NULL, "heap");
	if (hn == NT || VC_FAILS()) {
		vc_nfail++;
		return (-1);
	}
	if (nadd == na)
		wa = p;
	else if (nadd == nb)
		wb = p;
	nadd++;
	word = WORD();
	tq_setreccookie(hcookie, p, hn);
	he[hn++] = p;
	hmin = SIZE_MAX;
	return (0);
}
void *
ptrheap_getmin(struct ptrheap * H)
{
	size_t i, j;

	vc_requires(H == &hp, "heap");
	if (hn == 0)
		return (NULL);
	vc_requires(wa == NULL || wb == NULL || word == WORD(), "the heap is told of every change");
	if (hmin == SIZE_MAX) {
		i = (size_t)nd_range(0, NT - 1);
		vc_assume(i < hn);
		for (j = 0; j < NT; j++)
			if (j < hn)
				vc_assume(tq_compar(hcookie, he[i], he[j]) <= 0);
		hmin = i;
	}
	return (he[hmin]);
}
void
ptrheap_delete(struct ptrheap * H, size_t rc)
{

	vc_requires(H == &hp && rc < hn, "an element is deleted");
	if (he[rc] == wa)
		wa = NULL;
	if (he[rc] == wb)
		wb = NULL;
	vc_requires(wa == NULL || wb == NULL || word == WORD(), "the heap is told of every change");
	hn--;
	if (rc != hn) {
		he[rc] = he[hn];
		tq_setreccookie(hcookie, he[rc], rc);
	}
	he[hn] = NULL;
	hmin = SIZE_MAX;
}
void
ptrheap_deletemin(struct ptrheap * H)
{

	vc_requires(hn > 0, "an element is deleted");
	(void)ptrheap_getmin(H);
	ptrheap_delete(H, hmin);
}
void
ptrheap_increase(struct ptrheap * H, size_t rc)
{
	int w = WORD();

	vc_requires(H == &hp && rc < hn, "an element is increased");
	vc_requires(he[rc] != wa || wb == NULL || w >= word, "the element has increased");
	vc_requires(he[rc] != wb || wa == NULL || w <= word, "the element has increased");
	vc_requires(he[rc] == wa || he[rc] == wb || w == word, "the heap is told of every change");
	word = w;
	hmin = SIZE_MAX;
}
void
ptrheap_decrease(struct ptrheap * H, size_t rc)
{
	int w = WORD();

	vc_requires(H == &hp && rc < hn, "an element is decreased");
	vc_requires(he[rc] != wa || wb == NULL || w <= word, "the element has decreased");
	vc_requires(he[rc] != wb || wa == NULL || w >= word, "the element has decreased");
	vc_requires(he[rc] == wa || he[rc] == wb || w == word, "the heap is told of every change");
	word = w;
	hmin = SIZE_MAX;
}
void
ptrheap_increasemin(struct ptrheap * H)
{

	(void)ptrheap_getmin(H);
	ptrheap_increase(H, hmin);
}
void
ptrheap_free(struct ptrheap * H)
{

	if (H == NULL)
		return;
	vc_live--;
	hn = 0;
}
#endif

/* The timers. */
static struct { void * t; struct timeval delay, due; int set; } tm[NT];
static char ck[NT];
static int cb(void * c) { (void)c; return (0); }

/* Everything is as it should be. */
static void
check(void)
{
	struct timeval * tv, d;
	int k, m = -1, rc, n0 = nclock;

	for (k = 0; k < NT; k++)
		if (tm[k].set && (m == -1 || later(&tm[m].due, &tm[k].due)))
			m = k;
	vc_nfail = 0;
	rc = events_timer_min(&tv);
	if (rc) {
		vc_assert(vc_nfail > 0, "the time to wait is reported unless there is no memory or clock");
		return;
	}
	vc_assert((tv == NULL) == (m == -1), "there is a time to wait if there is a timer");
	if (tv == NULL)
		return;
	vc_assert(nclock > n0, "the clock is read");
	if (later(&now, &tm[m].due))
		d.tv_sec = d.tv_usec = 0;
	else {
		d.tv_sec = tm[m].due.tv_sec - now.tv_sec;
		d.tv_usec = tm[m].due.tv_usec - now.tv_usec;
		if (d.tv_usec < 0) {
			d.tv_usec += 1000000;
			d.tv_sec--;
		}
	}
	vc_assert(tv->tv_sec == d.tv_sec && tv->tv_usec == d.tv_usec, "the time to the earliest deadline is reported");
	vc_live--;
	free(tv);
}

static void
set(int k)
{
	double x;
	uint32_t s;

	pass();
	clockfail = mkfail = 0;
	vc_failat = vc_nalloc = vc_nfail = 0;
#ifdef FAILS
	clockfail = nd_bool();
	mkfail = nd_bool();
	if (nd_bool()) {
		vc_failat = (int)nd_range(1, 4);
	}
#endif
#ifdef DOUBLE
	s = nd_u32();
	x = (double)s / 1024.0;		/* (exact) */
	tm[k].delay.tv_sec = (time_t)(s / 1024);
	tm[k].delay.tv_usec = (suseconds_t)((uint64_t)(s % 1024) * 1000000 / 1024);
	tm[k].t = events_timer_register_double(cb, &ck[k], x);
#else
	(void)x; (void)s;
#ifdef VC_NATIVE
	tm[k].delay.tv_sec = (time_t)nd_range(0, 4);
	tm[k].delay.tv_usec = (suseconds_t)(nd_range(0, 3) * 333333);
#else
	tm[k].delay.tv_sec = (time_t)nd_range(0, MAXSEC);
	tm[k].delay.tv_usec = (suseconds_t)nd_range(0, 999999);
#endif
	tm[k].t = events_timer_register(cb, &ck[k], &tm[k].delay);
#endif
	if (tm[k].t == NULL) {
		vc_assert(vc_nfail > 0, "a timer is set unless there is no memory or clock");
		vc_reach("not set");
	} else {
		vc_assert(!clockfail && !mkfail, "a timer needs a clock and an event record");
		add(&tm[k].due, &tm[k].delay);
		tm[k].set = 1;
	}
	clockfail = mkfail = vc_failat = 0;
}

void
harness(void)
{
	struct eventrec * r;
	int k, o, n, j, rc;

	vc_may_fail = 0;
#ifndef VC_NATIVE
	na = (int)nd_range(0, NT - 1);
	nb = (int)nd_range(na, NT);
#endif
	now.tv_sec = (time_t)nd_range(0, MAXSEC);
	now.tv_usec = (suseconds_t)nd_range(0, 999999);
	check();
	rc = events_timer_get(&r);
	vc_assert(rc == 0 && r == NULL, "no timer, no event");
	n = (int)nd_range(0, NT);
	for (k = 0; k < NT; k++)
		if (k < n)
			set(k);
	check();
	for (o = 0; o < OPS; o++) {
		k = (int)nd_range(0, NT - 1);
		vc_nfail = 0;
		pass();
		clockfail = nd_bool();
		if (nd_bool()) {
			vc_failat = 1;
			vc_nalloc = 0;
		}
		switch (OP) {
		case 0:
			check();
			vc_reach("time to wait");
			break;
		case 1:
			if (!tm[k].set)
				break;
			events_timer_cancel(tm[k].t);
			tm[k].set = 0;
			vc_reach("cancelled");
			break;
		case 2:
			if (!tm[k].set)
				break;
			rc = events_timer_reset(tm[k].t);
			vc_assert((rc != 0) == (clockfail != 0), "a timer is reset unless there is no clock");
			if (rc == 0)
				add(&tm[k].due, &tm[k].delay);
			vc_reach("reset");
			break;
		default:
			r = &er[0];
			rc = events_timer_get(&r);
			if (rc) {
				vc_assert(clockfail != 0, "timers are looked for unless there is no clock");
				break;
			}
			if (r == NULL) {
				for (j = 0; j < NT; j++)
					vc_assert(!tm[j].set || later(&tm[j].due, &now), "an expired timer is delivered");
				vc_reach("none expired");
				break;
			}
			vc_assert(r->live && r->func == cb, "an event is delivered as registered");
			for (k = 0; k < NT; k++)
				if (r->cookie == &ck[k])
					break;
			vc_assert(k < NT && tm[k].set, "a timer which is set is delivered");
			vc_assert(!later(&tm[k].due, &now), "no timer is delivered early");
			for (j = 0; j < NT; j++)
				vc_assert(!tm[j].set || !later(&tm[k].due, &tm[j].due), "timers are delivered in order of their deadlines");
			tm[k].set = 0;
			events_freerec(r);
			vc_reach("delivered");
			break;
		}
		clockfail = vc_failat = 0;
		check();
	}
	/* The end: everything is released. */
	for (k = 0; k < NT; k++)
		if (tm[k].set)
			events_timer_cancel(tm[k].t);
	for (k = 0; k < NT; k++)
		vc_assert(!er[k].live, "event records are released");
	if (vc_exit != NULL)
		vc_exit();
	vc_assert(vc_live == 0, "everything is released at exit");
	vc_reach("end");
}
