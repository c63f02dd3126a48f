/*
 * proto_pipe.c over the contracts of the buffered reader, packet functions
 * and network writes.  The state a pipe has while it waits for input is the
 * same after every round (apart from old buffer contents), so ROUNDS rounds
 * from the beginning cover histories of any length.
 */
#include "vc_alloc.h"
#include "stub_misc.h"
#include "lib/proto/proto_pipe.c"
#undef malloc
#undef free

struct proto_keys { int x; };
struct netbuf_read { int x; };
#ifndef ROUNDS
#define ROUNDS 2
#endif
#ifndef INMAX
#define INMAX (9 * 1060 + 500)
#endif

static struct {
	struct proto_keys k;
	struct netbuf_read R;
	int app, sin, sout, decr, status;
	void * P;
	int reader;		/* The reader exists. */
	int wait; size_t waitlen; int (* wcb)(void *, int); void * wcookie;
	int write; const uint8_t * wbuf; size_t wlen; int (* cb)(void *, ssize_t); void * cookie;
	/* The current round. */
	uint8_t * in; size_t inlen, inpos;	/* Input offered, and used so far. */
	uint8_t * out; size_t outpos;		/* Output produced. */
#ifdef VC_NATIVE
	uint8_t copy[12 * 1060];
#endif
	int bad;		/* A packet was rejected. */
	size_t cons;		/* Input consumed. */
	int neterr, fatal, told, cancelled, rc, shut;
} g;
static uint8_t inbuf[INMAX];
#ifdef VC_NATIVE
#define UNCHANGED() (memcmp(g.out, g.copy, g.outpos) == 0)
#else
#define UNCHANGED() 1
#endif

static void
produce(uint8_t * obuf, size_t n)
{

	if (g.outpos == 0)
		g.out = obuf;
	else
		vc_assert(obuf == g.out + g.outpos, "output is contiguous and in order");
#ifdef VC_NATIVE
	/* A run also follows the contents (the proof follows where they are). */
	{
		size_t i;

		for (i = 0; i < n; i++)
			obuf[i] = g.copy[g.outpos + i] = (uint8_t)((g.outpos + i) * 37 + 11);
	}
#endif
	g.outpos += n;
}
static void
input(const uint8_t * ibuf, size_t n)
{

	vc_assert(g.in != NULL && ibuf == g.in + g.inpos, "input is used in order, each byte once");
	vc_assert(n <= g.inlen - g.inpos, "no more is used than has been read");
	vc_assert(!g.bad, "nothing is processed after a rejected packet");
	g.inpos += n;
}
void
proto_crypt_enc(uint8_t * ibuf, size_t len, uint8_t obuf[PCRYPT_ESZ], struct proto_keys * k)
{

	vc_assert(!g.decr && k == &g.k, "encryption with the given keys");
	vc_requires(len > 0 && len <= PCRYPT_MAXDSZ, "message length");
	vc_requires(VC_R(ibuf, len) && VC_RW(obuf, PCRYPT_ESZ), "packet buffers");
	input(ibuf, len);
	produce(obuf, PCRYPT_ESZ);
}
ssize_t
proto_crypt_dec(uint8_t ibuf[PCRYPT_ESZ], uint8_t * obuf, struct proto_keys * k)
{
	size_t n;

	vc_assert(g.decr && k == &g.k, "decryption with the given keys");
	vc_requires(VC_RW(ibuf, PCRYPT_ESZ), "packet");
	vc_requires(VC_RW(obuf, PCRYPT_MAXDSZ), "room for a message");
	input(ibuf, PCRYPT_ESZ);
	if (nd_bool()) {
		g.bad = 1;
		return (-1);
	}
	n = (size_t)nd_range(1, PCRYPT_MAXDSZ);
	produce(obuf, n);
	return ((ssize_t)n);
}

struct netbuf_read *
netbuf_read_init(int s)
{

	vc_assert(s == g.sin, "the reader is on the input socket");
	vc_requires(!g.reader, "one reader");
	if (nd_bool()) {
		g.fatal = 1;
		return (NULL);
	}
	g.reader = 1;
	return (&g.R);
}
int
netbuf_read_wait(struct netbuf_read * R, size_t len, int (* cb)(void *, int), void * cookie)
{

	vc_requires(R == &g.R && g.reader && !g.wait, "idle reader");
	vc_assert(len == (g.decr ? PCRYPT_ESZ : 1), "waits for a whole packet, or any data");
	vc_assert(!g.write && g.outpos == 0, "reading resumes once everything is handed over");
	if (nd_bool()) {
		g.fatal = 1;
		return (-1);
	}
	g.wait = 1;
	g.waitlen = len;
	g.wcb = cb;
	g.wcookie = cookie;
	return (0);
}
void
netbuf_read_wait_cancel(struct netbuf_read * R)
{

	vc_requires(R == &g.R && g.reader, "reader");
	g.wait = 0;
}
void
netbuf_read_peek(struct netbuf_read * R, uint8_t ** data, size_t * datalen)
{

	vc_requires(R == &g.R && g.reader && !g.wait, "reader");
	g.in = inbuf;
	*data = g.in;
	*datalen = g.inlen;
}
void
netbuf_read_consume(struct netbuf_read * R, size_t len)
{

	vc_requires(R == &g.R && g.reader, "reader");
	vc_assert(len <= g.inpos - g.cons, "only bytes which were used are consumed");
	g.cons += len;
}
void
netbuf_read_free(struct netbuf_read * R)
{

	vc_requires(R == &g.R && g.reader && !g.wait, "idle reader");
	g.reader = 0;
}
static int tok;
void *
network_write(int fd, const uint8_t * buf, size_t len, size_t min, int (* cb)(void *, ssize_t), void * cookie)
{

	vc_assert(fd == g.sout, "output goes to the output socket");
	vc_requires(!g.write && len > 0, "one write of at least a byte");
	vc_assert(!g.shut && !g.bad, "nothing is written after a rejected packet or the end");
	vc_assert(buf == g.out && len == g.outpos && min == len, "exactly what was produced is written");
	vc_assert(UNCHANGED(), "what was produced is written unchanged");
	if (nd_bool()) {
		g.fatal = 1;
		return (NULL);
	}
	g.write = 1;
	g.wbuf = buf;
	g.wlen = len;
	g.cb = cb;
	g.cookie = cookie;
	return (&tok);
}
void
network_write_cancel(void * t)
{

	vc_requires(t == &tok && g.write, "pending write");
	g.write = 0;
}
int
vc_shutdown(int s, int how)
{
	static const int e[] = { EBADF, EINVAL, ENOTSOCK, ENOTCONN, ECONNRESET, EPIPE, ENOBUFS };

	vc_assert(s == g.sout && how == SHUT_WR, "the output's write side is shut down");
	vc_assert(!g.write && g.outpos == 0, "only once all earlier data is handed over");
	vc_assert(!g.shut, "once");
	g.shut = 1;
	if (nd_bool()) {
		unsigned int i = (unsigned int)nd_range(0, 6);

		errno = e[i];
		if (i < 3)
			g.fatal = 1;
		else if (i > 4)
			g.neterr = 1;
		return (-1);
	}
	return (0);
}
int shutdown(int s, int how) { return (vc_shutdown(s, how)); }

static void
cancel(void)
{

	g.cancelled = 1;
	proto_pipe_cancel(g.P);
	vc_assert(!g.wait && !g.write && !g.reader && vc_live == 0, "cancelling releases everything");
}

/* The owner of the pipe: may cancel it at once. */
static int
owner(void * cookie)
{

	vc_assert(cookie == &g.app && !g.cancelled && !g.told, "the owner is told once, and not after cancellation");
	vc_assert(!g.wait && !g.write, "nothing is pending when the owner is told");
	g.told = 1;
	if (g.bad || g.neterr)
		vc_assert(g.status == -1, "errors make the status failure");
	else
		vc_assert(g.status == 0 && g.shut, "end of input makes the status end-of-stream");
	if (nd_bool())
		cancel();
	g.rc = nd_int();
	return (g.rc);
}

/* After a callback: returns nonzero when this history ends. */
static int
after(int rc)
{

	if (g.told) {
		vc_assert(rc == g.rc, "the owner's result is passed on");
		vc_assert(!g.wait && !g.write, "a finished direction does nothing more");
		vc_assert(g.cancelled || g.status != 1, "status");
		if (!g.cancelled)
			cancel();
		if (g.status == 0)
			vc_reach("end of stream");
		else
			vc_reach("failure");
		return (1);
	}
	if (rc != 0) {
		vc_assert(rc == -1 && g.fatal, "an error return means a step failed");
		vc_reach("fatal");
		return (1);
	}
	vc_assert(!g.fatal && !g.bad && !g.neterr && !g.shut, "every failure is acted upon");
	vc_assert(g.status == 1, "status unchanged");
	return (0);
}

void
harness(void)
{
	int n, st, rc;
	ssize_t len;

	g.status = 1;
	g.decr = DECR ? (int)nd_range(1, 7) : 0;
	g.sin = nd_int();
	g.sout = nd_int();
	g.P = proto_pipe(g.sin, g.sout, g.decr, &g.k, &g.status, owner, &g.app);
	if (g.P == NULL) {
		vc_assert(g.fatal || vc_nfail, "a pipe starts unless a step fails");
		vc_assert(!g.wait && !g.reader && vc_live == 0, "a pipe which did not start leaves nothing behind");
		vc_reach("not started");
		return;
	}
	vc_assert(!g.fatal && vc_nfail == 0, "a failing step is reported");
	for (n = 0; n < ROUNDS; n++) {
		vc_assert(g.wait && !g.write, "waiting for input");
		if (nd_bool()) {
			cancel();
			vc_reach("cancelled while reading");
			return;
		}
		st = (int)nd_range(0, 2) - 1;
		g.wait = 0;
		g.inlen = 0;
		g.inpos = g.outpos = 0;
		g.in = NULL;
		g.cons = 0;
		if (st == 0)
			g.inlen = (size_t)nd_range(g.waitlen, INMAX);
		if (st == -1)
			g.neterr = 1;
		vc_errno();
		rc = (g.wcb)(g.wcookie, st);
		if (after(rc))
			return;
		vc_assert(g.write, "what was read is passed on");
		vc_assert(st == 0 && g.inpos > 0 && g.cons == g.inpos, "exactly the bytes which were used are consumed");
		if (nd_bool()) {
			cancel();
			vc_reach("cancelled while writing");
			return;
		}
		vc_assert(UNCHANGED(), "data being written does not change");
		len = (ssize_t)g.wlen;
		if (nd_bool()) {
			len = (ssize_t)nd_range(0, g.wlen) - 1;
			g.neterr = 1;
		}
		g.write = 0;
		g.outpos = 0;
		vc_errno();
		rc = (g.cb)(g.cookie, len);
		if (after(rc))
			return;
	}
	vc_reach("rounds");
}
