/*
 * proto_conn.c over the contracts of connecting, handshake, pipes and timers:
 * every order of completions, expiries, failures and cancellation.  At most
 * connecting, handshake and two pipes complete, so EVENTS is no bound.
 */
#define VC_FAILAT
#include "vc_alloc.h"
#include "stub_misc.h"
#define close vc_close
#define setsockopt vc_setsockopt
#include "lib/proto/proto_conn.c"
#undef malloc
#undef free
#undef close
#undef setsockopt
#define EVENTS 6

struct proto_keys { int x; };
struct sock_addr { int x; };
struct op { int reg, pending; int (* tcb)(void *); void * cookie; };
static struct {
	/* Arguments. */
	int s, t, decr, nopfs, requirepfs, nokeepalive;
	double timeo;
	struct sock_addr * sas[1], sa_b;
	int app, K;
	int created;
	/* Resources. */
	int sopen, topen, sasheld;
	struct op tm0, tm1;			/* Timers, in the order they are started. */
	int cpend, cdone; int (* ccb)(void *, int); void * ccookie;
	int hpend, hok, hstarted; int (* hcb)(void *, struct proto_keys *, struct proto_keys *); void * hcookie;
	struct proto_keys kf, kr;
	int kfheld, krheld;
	struct { int live, running; int * status; int (* cb)(void *); void * cookie; } p0, p1;
	int dead, rc, reason;
	int fatal;
	int quiet;
} g;
#define ND() (!g.quiet && nd_bool())
static int tok[6];

int vc_close(int fd);
int
vc_close(int fd)
{

	if (g.sopen && fd == g.s)
		g.sopen = 0;
	else if (g.topen && fd == g.t)
		g.topen = 0;
	else
		vc_assert(0, "only the connection's own sockets are closed, each once");
	vc_assert(!g.dead, "nothing is touched once the owner is told");
	return (ND() ? -1 : 0);
}
int vc_setsockopt(int, int, int, const void *, socklen_t);
int
vc_setsockopt(int fd, int level, int name, const void * val, socklen_t len)
{

	(void)level; (void)name;
	vc_requires((fd == g.s && g.sopen) || (fd == g.t && g.topen), "options are set on the connection's sockets");
	vc_requires(VC_R(val, len), "option value");
	return (ND() ? -1 : 0);
}
void *
events_timer_register_double(int (* func)(void *), void * cookie, double timeo)
{

	vc_assert(timeo == g.timeo, "the timer has the configured length");
#define REG(T) do {			\
	T.reg = 1;			\
	T.tcb = func;			\
	T.cookie = cookie;		\
	if (ND()) {		\
		g.fatal = 1;		\
		return (NULL);		\
	}				\
	T.pending = 1;			\
	} while (0)
	if (!g.tm0.reg) {
		REG(g.tm0);
		return (&tok[0]);
	}
	vc_assert(!g.tm1.reg, "one timer for connecting and one for the handshake");
	REG(g.tm1);
	return (&tok[1]);
}
void *
events_timer_register(int (* func)(void *), void * cookie, const struct timeval * tv)
{

	return (events_timer_register_double(func, cookie, (double)tv->tv_sec + (double)tv->tv_usec * 0.000001));
}
void
events_timer_cancel(void * cookie)
{

	vc_assert(!g.dead, "nothing is touched once the owner is told");
	if (cookie == &tok[0]) {
		vc_requires(g.tm0.pending, "a running timer is cancelled");
		g.tm0.pending = 0;
	} else {
		vc_requires(cookie == &tok[1] && g.tm1.pending, "a running timer is cancelled");
		g.tm1.pending = 0;
	}
}
void *
network_connect_bind(struct sock_addr * const * sas, const struct sock_addr * sa_b, int (* cb)(void *, int), void * cookie)
{

	vc_assert(sas == g.sas && g.sasheld && sa_b == &g.sa_b, "connecting to the given addresses");
	vc_requires(!g.cpend && !g.cdone, "one connection attempt");
	g.ccb = cb;
	g.ccookie = cookie;
	if (ND()) {
		g.fatal = 1;
		return (NULL);
	}
	g.cpend = 1;
	return (&tok[2]);
}
void
network_connect_cancel(void * cookie)
{

	vc_requires(cookie == &tok[2] && g.cpend, "a pending connection attempt is cancelled");
	vc_assert(!g.dead, "nothing is touched once the owner is told");
	g.cpend = 0;
}
void
sock_addr_freelist(struct sock_addr ** sas)
{

	if (sas == NULL)
		return;
	vc_requires(sas == g.sas && g.sasheld, "addresses are freed once");
	vc_requires(!g.cpend, "addresses are in use while connecting");
	vc_assert(!g.dead, "nothing is touched once the owner is told");
	g.sasheld = 0;
}
void *
proto_handshake(int s, int decr, int nopfs, int requirepfs, const struct proto_secret * K,
    int (* cb)(void *, struct proto_keys *, struct proto_keys *), void * cookie)
{

	vc_assert(s == (g.decr ? g.s : g.t) && (g.decr ? g.sopen : g.topen), "the handshake is on the encrypted side");
	vc_assert((decr != 0) == (g.decr != 0) && (nopfs != 0) == (g.nopfs != 0) && (requirepfs != 0) == (g.requirepfs != 0),
	    "the handshake has the configured role and settings");
	vc_assert((const void *)K == (const void *)&g.K, "the handshake uses the given key");
	vc_assert(!g.hstarted, "one handshake");
	g.hstarted = 1;
	g.hcb = cb;
	g.hcookie = cookie;
	if (ND()) {
		g.fatal = 1;
		return (NULL);
	}
	g.hpend = 1;
	return (&tok[3]);
}
void
proto_handshake_cancel(void * cookie)
{

	vc_requires(cookie == &tok[3] && g.hpend, "a pending handshake is cancelled");
	vc_assert(!g.dead, "nothing is touched once the owner is told");
	g.hpend = 0;
}
void *
proto_pipe(int sin, int sout, int decr, struct proto_keys * k, int * status, int (* cb)(void *), void * cookie)
{

	vc_assert(g.cdone && g.topen && g.hok, "data flows only once connected and after the handshake");
	vc_requires(VC_RW(status, sizeof(int)) && *status == 1, "running status");
#define PIPE(P, O, SIN, SOUT, D, KEY, HELD) do {					\
	vc_assert(sin == SIN && sout == SOUT, "data flows between the two sockets");	\
	vc_assert(!P.live, "one pipe for each direction");				\
	vc_assert((decr != 0) == (D), "decryption is on the encrypted side's input");	\
	vc_assert(k == KEY && HELD, "each direction uses its keys");			\
	vc_assert(!O.live || status != O.status, "each direction has its own status");	\
	P.status = status;								\
	P.cb = cb;									\
	P.cookie = cookie;								\
	if (ND()) {								\
		g.fatal = 1;								\
		return (NULL);								\
	}										\
	P.live = P.running = 1;								\
	} while (0)
	if (sin == g.s) {
		PIPE(g.p0, g.p1, g.s, g.t, (g.decr != 0), &g.kf, g.kfheld);
		return (&tok[4]);
	}
	PIPE(g.p1, g.p0, g.t, g.s, (g.decr == 0), &g.kr, g.krheld);
	return (&tok[5]);
}
void
proto_pipe_cancel(void * cookie)
{

	vc_assert(!g.dead, "nothing is touched once the owner is told");
	if (cookie == &tok[4]) {
		vc_requires(g.p0.live, "a pipe is released once");
		g.p0.live = g.p0.running = 0;
	} else {
		vc_requires(cookie == &tok[5] && g.p1.live, "a pipe is released once");
		g.p1.live = g.p1.running = 0;
	}
}
void
proto_crypt_free(struct proto_keys * k)
{

	if (k == NULL)
		return;
	vc_assert(!g.dead, "nothing is touched once the owner is told");
	if (k == &g.kf && g.kfheld)
		g.kfheld = 0;
	else if (k == &g.kr && g.krheld)
		g.krheld = 0;
	else
		vc_assert(0, "keys are freed once");
}

static int
released(void)
{

	return (!g.tm0.pending && !g.tm1.pending && !g.cpend && !g.hpend && !g.p0.live && !g.p1.live &&
	    !g.kfheld && !g.krheld);
}
static int
died(void * cookie, int reason)
{

	vc_assert(cookie == &g.app && g.created, "the owner is told about its connection");
	vc_assert(!g.dead, "the owner is told once");
	vc_assert(!g.sopen && !g.topen, "both sockets are closed");
	vc_assert(released() && !g.sasheld, "everything is released");
	g.dead = 1;
	g.reason = reason;
	g.rc = g.quiet ? 0 : nd_int();
	return (g.rc);
}

#define CREATE() proto_conn_create(g.s, g.sas, &g.sa_b, g.decr, g.nopfs, g.requirepfs, g.nokeepalive,	\
	    (const void *)&g.K, g.timeo, died, &g.app)
/*
 * A history without failures, followed first, shows which callbacks are
 * registered and where each direction's status is; that later histories
 * register the same is an obligation, and lets the verifier follow the
 * connection by name.
 */
static struct {
	int (* ccb)(void *, int);
	int (* hcb)(void *, struct proto_keys *, struct proto_keys *);
	int (* tcb0)(void *), (* tcb1)(void *), (* pcb0)(void *), (* pcb1)(void *);
	size_t st0, st1;
} kn;
#ifdef VC_NATIVE
#define CALL(f, k, x, ...) (f)(x __VA_ARGS__)
#define STATUS(P, k) (P.status)
#define CK(f, k, x) do { } while (0)
#define REHEARSE() do { } while (0)
#else
#define CALL(f, k, x, ...) (k)(C __VA_ARGS__)
#define STATUS(P, k) ((int *)((char *)C + (k)))
#define CK(f, k, x) vc_assert(f == k && x == C, "LEMMA the same callbacks are registered in every history")
#define REHEARSE() rehearse()
static void
rehearse(void)
{
	void * C;

	g.quiet = 1;
	C = CREATE();
	vc_assume(C != NULL);
	kn.ccb = g.ccb;
	kn.tcb0 = g.tm0.tcb;
	g.cpend = 0;
	g.cdone = g.topen = 1;
	(g.ccb)(C, g.t);
	kn.hcb = g.hcb;
	kn.tcb1 = g.tm1.tcb;
	g.hpend = 0;
	g.hok = g.kfheld = g.krheld = 1;
	(g.hcb)(C, &g.kf, &g.kr);
	kn.pcb0 = g.p0.cb;
	kn.pcb1 = g.p1.cb;
	kn.st0 = __CPROVER_POINTER_OFFSET(g.p0.status);
	kn.st1 = __CPROVER_POINTER_OFFSET(g.p1.status);
	g.created = 1;
	proto_conn_drop(C, PROTO_CONN_ERROR);
	g.quiet = g.created = 0;
	g.sopen = g.sasheld = 1;
	g.dead = g.cdone = g.hok = g.hstarted = 0;
	g.tm0.reg = g.tm1.reg = 0;
	g.p0.status = g.p1.status = NULL;
}
#endif

/* Timers run exactly while their step is pending. */
static void
timers(void)
{
	int h;

	/* The first timer started is the connection's, unless it came second. */
	h = g.tm0.pending + g.tm1.pending;
	vc_assert(h == (g.cpend != 0) + (g.hpend != 0), "a timer runs exactly while connecting and while handshaking");
}

void
harness(void)
{
	struct proto_keys * f, * r;
	void * C;
	int n, rc, drop, st, over;

	g.sas[0] = NULL;
	/* Descriptors are only passed on and compared with -1. */
	g.s = 5;
	g.t = 8;
	g.decr = DECR ? (int)nd_range(1, 9) : 0;
	g.nopfs = nd_int();
	g.requirepfs = nd_int();
	g.nokeepalive = nd_int();
	g.timeo = (double)nd_range(0, 1000000) / 16;
	g.sopen = g.sasheld = 1;
	vc_may_fail = 0;
	REHEARSE();
	vc_nalloc = 0;
	if (nd_bool()) {
		/* An allocation fails. */
		vc_failat = 1;
		C = CREATE();
		vc_assert(C == NULL && g.sopen && g.sasheld && released() && vc_live == 0,
		    "a failed allocation is reported and leaves nothing behind");
		vc_reach("no memory");
		return;
	}
	C = CREATE();
	if (C != NULL)
		vc_may_fail = 1;
	vc_assert(g.sopen && !g.topen && g.sasheld && !g.dead, "creation leaves socket and addresses alone");
	if (C == NULL) {
		vc_assert(g.fatal, "a connection starts unless a step fails");
		vc_assert(released() && vc_live == 0, "a connection which did not start leaves nothing behind");
		vc_reach("not started");
		return;
	}
	vc_assert(!g.fatal, "a failing step is reported");
	vc_assert(g.cpend, "connecting");
	vc_assert((g.hpend != 0) == (g.decr != 0), "the handshake starts once its socket is there");
	g.created = 1;
	for (n = 0; n < EVENTS; n++) {
		timers();
		drop = 0;
		rc = 0;
		over = PROTO_CONN_ERROR;
		switch (nd_range(0, 6)) {
		case 0:			/* The owner drops the connection. */
			drop = 1;
			over = nd_int();
			rc = proto_conn_drop(C, over);
			vc_reach("dropped by the owner");
			break;
		case 1:			/* Connected, or not. */
			vc_assume(g.cpend);
			g.cpend = 0;
			CK(g.ccb, kn.ccb, g.ccookie);
			if (nd_bool()) {
				drop = 1;
				over = PROTO_CONN_CONNECT_FAILED;
				vc_errno();
				rc = CALL(g.ccb, kn.ccb, g.ccookie, , -1);
				vc_reach("connect failed");
				break;
			}
			g.cdone = g.topen = 1;
			rc = CALL(g.ccb, kn.ccb, g.ccookie, , g.t);
			break;
		case 2:			/* The handshake completes, or not. */
			vc_assume(g.hpend);
			g.hpend = 0;
			CK(g.hcb, kn.hcb, g.hcookie);
			if (nd_bool()) {
				drop = 1;
				over = PROTO_CONN_HANDSHAKE_FAILED;
				rc = CALL(g.hcb, kn.hcb, g.hcookie, , NULL, NULL);
				vc_reach("handshake failed");
				break;
			}
			g.hok = g.kfheld = g.krheld = 1;
			f = &g.kf;
			r = &g.kr;
			rc = CALL(g.hcb, kn.hcb, g.hcookie, , f, r);
			break;
#define TIMEOUT(T, K) do {								\
			vc_assume(T.pending);				\
			T.pending = 0;					\
			drop = 1;					\
			CK(T.tcb, K, T.cookie);				\
			rc = CALL(T.tcb, K, T.cookie);			\
			vc_reach("timeout");				\
		} while (0)
		case 3:			/* A timer expires. */
			TIMEOUT(g.tm0, kn.tcb0);
			break;
		case 4:
			TIMEOUT(g.tm1, kn.tcb1);
			break;
#define FINISHED(P, Q, K, S) do {							\
			vc_assume(P.running);				\
			st = nd_bool() - 1;				\
			CK(P.cb, K, P.cookie);				\
			vc_assert(P.status == STATUS(P, S), "LEMMA status is in the same place"); \
			*STATUS(P, S) = st;				\
			P.running = 0;					\
			vc_errno();					\
			if (st == -1)					\
				drop = 1;				\
			else if (!Q.running) {				\
				drop = 1;				\
				over = PROTO_CONN_CLOSED;		\
			}						\
			rc = CALL(P.cb, K, P.cookie);			\
			vc_reach("direction finished");			\
		} while (0)
		case 5:			/* A direction finishes. */
			FINISHED(g.p0, g.p1, kn.pcb0, kn.st0);
			break;
		default:
			FINISHED(g.p1, g.p0, kn.pcb1, kn.st1);
			break;
		}
		if (g.fatal) {
			vc_assert(rc != 0, "a failing step is reported");
			drop = 1;
			over = PROTO_CONN_ERROR;
		}
		vc_assert(g.dead == drop, "the connection is torn down exactly when it is over");
		if (g.dead) {
			vc_assert((g.reason == PROTO_CONN_CLOSED) == (over == PROTO_CONN_CLOSED), "the owner learns whether the connection ended normally");
			vc_assert(g.fatal || rc == g.rc, "the owner's result is passed on");
			vc_assert(vc_live == 0, "all memory is freed");
			if (over == PROTO_CONN_CLOSED)
				vc_reach("closed");
			return;
		}
		vc_assert(rc == 0, "a live connection is no error");
		vc_assert(g.sopen && (g.topen == g.cdone), "sockets stay open");
		vc_assert(g.sasheld == g.cpend, "addresses are freed once connected");
		vc_assert(g.cpend || g.hpend || g.hok, "handshake under way");
		vc_assert(!(g.cdone && g.hok) == !(g.p0.live && g.p1.live), "both directions run once connected and keyed");
		vc_assert(!(g.cdone && g.hok) == !(g.p0.live || g.p1.live), "no direction runs before");
	}
	vc_assert(0, "the connection ends");
}
