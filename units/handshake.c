/*
 * proto_handshake.c as a state machine, over the contracts of the network
 * operations, the randomness source and the handshake cryptography.  The
 * harness takes every interleaving of completions, with every outcome, and
 * may cancel at every point; a handshake has at most four operations, so
 * this is complete.
 */
#include "vc_alloc.h"
#include "stub_misc.h"
#include "lib/proto/proto_handshake.c"
#undef malloc
#undef free

struct proto_secret { uint8_t K[32]; };
struct proto_keys { int x; };
#ifndef EVENTS
#define EVENTS 5
#endif

struct op { int pending; uint8_t * buf; size_t len, min; int (* cb)(void *, ssize_t); void * cookie; };
static struct {
	struct op r, w;
	struct proto_secret K;
	struct proto_keys c, s;
	int app;		/* The application's cookie. */
	int sock, decr, nopfs, requirepfs;
	uint8_t nl[32], nr[32], yhl[288], yhr[288], x[32], dl[32], dr[32];
	int nonce, dhmac, gen, valid, keys;	/* Steps done. */
	size_t inpos, outpos;	/* Bytes received from, and sent to, the peer. */
	int netfail, fatal;	/* The peer or network failed; a step of ours did. */
	int reports, gotkeys, cancelled, rc;
} g;

static void
nd_bytes(uint8_t * p, size_t n)
{
	size_t i;

	for (i = 0; i < n; i++)
		p[i] = nd_u8();
}
/*
 * The code under contract only moves whole buffers.  The proof follows the
 * first, one inner and the last byte of each; a native run follows all.
 */
static int
same(const uint8_t * a, const uint8_t * b, size_t n)
{
#ifdef VC_NATIVE
	return (memcmp(a, b, n) == 0);
#else
	return (a[0] == b[0] && a[17] == b[17] && (n == 32 ? a[31] == b[31] : a[287] == b[287]));
#endif
}
static void
put(uint8_t * a, const uint8_t * b, size_t n)
{
#ifdef VC_NATIVE
	memcpy(a, b, n);
#else
	a[0] = b[0];
	a[17] = b[17];
	if (n == 32)
		a[31] = b[31];
	else
		a[287] = b[287];
#endif
}

/* Contracts of the randomness source and the cryptography. */
int
crypto_entropy_read(uint8_t * buf, size_t len)
{

	vc_requires(VC_RW(buf, len), "random buffer");
	vc_assert(len == 32 && !g.nonce, "one 32-byte nonce is drawn");
	if (nd_bool()) {
		g.fatal = 1;
		return (-1);
	}
	put(buf, g.nl, 32);
	g.nonce = 1;
	return (0);
}
void
proto_crypt_dhmac(const struct proto_secret * K, const uint8_t * nl, const uint8_t * nr, uint8_t * dl, uint8_t * dr, int decr)
{

	vc_requires(VC_R(K, 32) && VC_R(nl, 32) && VC_R(nr, 32) && VC_RW(dl, 32) && VC_RW(dr, 32), "dhmac buffers");
	vc_assert(K == &g.K && (!decr) == (!g.decr), "the secret and role are those of the connection");
	vc_assert(g.inpos >= 32 && same(nl, g.nl, 32) && same(nr, g.nr, 32), "MAC keys are those of the exchanged nonces");
	put(dl, g.dl, 32);
	put(dr, g.dr, 32);
	g.dhmac = 1;
}
int
proto_crypt_dh_validate(const uint8_t * yh, const uint8_t * dr, int requirepfs)
{

	vc_requires(VC_R(yh, 288) && VC_R(dr, 32), "validation buffers");
	vc_assert(g.inpos == 320 && same(yh, g.yhr, 288), "the peer's whole message is validated");
	vc_assert(g.dhmac && same(dr, g.dr, 32), "under the peer's MAC key of the exchanged nonces");
	vc_assert((!requirepfs) == (!g.requirepfs), "forward secrecy is required if configured");
	if (nd_bool()) {
		g.netfail = 1;
		return (1);
	}
	g.valid = 1;
	return (0);
}
int
proto_crypt_dh_generate(uint8_t * yh, uint8_t * x, const uint8_t * dl, int nopfs)
{

	vc_requires(VC_RW(yh, 288) && VC_RW(x, 32) && VC_R(dl, 32), "generation buffers");
	vc_assert(g.dhmac && same(dl, g.dl, 32), "our value is sent under our MAC key of the exchanged nonces");
	vc_assert((!nopfs) == (!g.nopfs), "forward secrecy is used as configured");
	vc_assert(!g.gen, "one value is generated");
	if (nd_bool()) {
		g.fatal = 1;
		return (-1);
	}
	put(yh, g.yhl, 288);
	if (!nopfs)
		put(x, g.x, 32);
	g.gen = 1;
	return (0);
}
int
proto_crypt_mkkeys(const struct proto_secret * K, const uint8_t * nl, const uint8_t * nr, const uint8_t * yh, const uint8_t * x,
    int nopfs, int decr, struct proto_keys ** c, struct proto_keys ** s)
{

	vc_requires(VC_R(K, 32) && VC_R(nl, 32) && VC_R(nr, 32) && VC_R(yh, 288) && VC_R(x, 32), "key derivation buffers");
	vc_assert(K == &g.K && (!decr) == (!g.decr) && (!nopfs) == (!g.nopfs), "the secret, role and mode are those of the connection");
	vc_assert(g.valid, "keys are made only after the peer's message passed validation");
	vc_assert(g.gen, "keys are made only with our own value generated");
	vc_assert(same(nl, g.nl, 32) && same(nr, g.nr, 32) && same(yh, g.yhr, 288), "keys are made from what was exchanged and validated");
	vc_assert(g.nopfs || same(x, g.x, 32), "keys are made with our secret exponent");
	vc_assert(!g.keys, "keys are made once");
	if (nd_bool()) {
		g.fatal = 1;
		return (-1);
	}
	*c = &g.c;
	*s = &g.s;
	g.keys = 1;
	return (0);
}
void proto_crypt_free(struct proto_keys * k) { vc_assert(0, "keys are handed over, not freed"); }

/* Contracts of the network operations (P15). */
static int rtok, wtok;
static void *
start(struct op * o, void * tok, int fd, uint8_t * buf, size_t len, size_t min, int (* cb)(void *, ssize_t), void * cookie)
{

	vc_assert(fd == g.sock, "operations are on the connection's socket");
	vc_requires(!o->pending, "one operation per direction at a time");
	vc_requires(len > 0 && min <= len, "lengths");
	vc_requires(VC_R(buf, len), "buffer");
	if (nd_bool()) {
		g.fatal = 1;
		return (NULL);
	}
	o->pending = 1;
	o->buf = buf;
	o->len = len;
	o->min = min;
	o->cb = cb;
	o->cookie = cookie;
	return (tok);
}
void *
network_read(int fd, uint8_t * buf, size_t len, size_t min, int (* cb)(void *, ssize_t), void * cookie)
{

	vc_assert(g.inpos + len <= 320, "no byte beyond the handshake is read");
	return (start(&g.r, &rtok, fd, buf, len, min, cb, cookie));
}
void *
network_write(int fd, const uint8_t * buf, size_t len, size_t min, int (* cb)(void *, ssize_t), void * cookie)
{

	vc_assert((g.outpos == 0 && len == 32 && same(buf, g.nl, 32) && g.nonce) ||
	    (g.outpos == 32 && len == 288 && g.gen && same(buf, g.yhl, 288)), "our nonce, then our authenticated value, are sent");
	return (start(&g.w, &wtok, fd, (uint8_t *)(uintptr_t)buf, len, min, cb, cookie));
}
void
network_read_cancel(void * tok)
{

	vc_assert(tok == &rtok && g.r.pending, "only a pending read is cancelled");
	g.r.pending = 0;
}
void
network_write_cancel(void * tok)
{

	vc_assert(tok == &wtok && g.w.pending, "only a pending write is cancelled");
	g.w.pending = 0;
}

/* The application. */
static int
report(void * cookie, struct proto_keys * c, struct proto_keys * s)
{

	vc_assert(cookie == &g.app, "the application's cookie");
	vc_assert(!g.cancelled, "nothing is reported after cancellation");
	vc_assert(g.reports == 0, "the result is reported once");
	vc_assert(!g.r.pending && !g.w.pending, "nothing is pending once the result is reported");
	g.reports++;
	if (c != NULL || s != NULL) {
		vc_assert(c == &g.c && s == &g.s && g.keys, "the keys of both directions are reported");
		vc_assert(g.valid && g.inpos == 320 && g.outpos == 320, "keys only once both messages are exchanged and the peer's is valid");
		vc_assert(!g.netfail, "no keys after a failure");
		g.gotkeys = 1;
	} else {
		vc_assert(g.netfail || g.fatal, "failure is reported only after a failure");
		vc_assert(!g.keys, "keys are not lost");
	}
	g.rc = nd_int();
	return (g.rc);
}

void
harness(void)
{
	void * H;
	int n, rc;

	nd_bytes(g.nl, 32); nd_bytes(g.nr, 32); nd_bytes(g.x, 32); nd_bytes(g.dl, 32); nd_bytes(g.dr, 32);
	nd_bytes(g.yhl, 288); nd_bytes(g.yhr, 288);
	g.sock = nd_int();
	g.decr = nd_bool() ? (int)nd_range(1, 7) : 0;
	g.nopfs = nd_bool() ? (int)nd_range(1, 7) : 0;
	g.requirepfs = nd_bool() ? (int)nd_range(1, 7) : 0;
	H = proto_handshake(g.sock, g.decr, g.nopfs, g.requirepfs, &g.K, report, &g.app);
	if (H == NULL) {
		vc_assert(g.fatal || vc_nfail, "a handshake starts unless a step fails");
		vc_assert(g.reports == 0 && !g.r.pending && !g.w.pending && vc_live == 0, "a handshake which did not start leaves nothing behind");
		vc_reach("not started");
		return;
	}
	vc_assert(!g.fatal && vc_nfail == 0, "a failing step is reported");
	for (n = 0; n < EVENTS; n++) {
		struct op o;
		ssize_t len;
		int full;

		vc_assert(g.r.pending || g.w.pending, "the handshake never stalls");
		if (nd_bool()) {
			g.cancelled = 1;
			proto_handshake_cancel(H);
			vc_assert(g.reports == 0 && !g.r.pending && !g.w.pending && vc_live == 0, "cancelling releases everything and reports nothing");
			vc_reach("cancelled");
			return;
		}
		full = !nd_bool();
		if (!g.w.pending || (g.r.pending && nd_bool())) {
			o = g.r;
			g.r.pending = 0;
			if (full) {
				vc_assert((g.inpos == 0 && o.len == 32) || (g.inpos == 32 && o.len == 288), "messages are read whole");
				put(o.buf, g.inpos == 0 ? g.nr : g.yhr, g.inpos == 0 ? 32 : 288);
				g.inpos += o.len;
			}
		} else {
			o = g.w;
			g.w.pending = 0;
			if (full) {
				vc_assert(same(o.buf, g.outpos == 0 ? g.nl : g.yhl, o.len == 32 ? 32 : 288), "what is being sent does not change");
				g.outpos += o.len;
			}
		}
		len = (ssize_t)o.len;
		if (!full) {
			g.netfail = 1;
			len = (ssize_t)nd_range(0, o.len) - 1;
		}
		vc_errno();
		rc = (o.cb)(o.cookie, len);
		if (g.reports) {
			vc_assert(rc == g.rc, "the application's status is passed on");
			vc_assert(vc_live == 0, "nothing leaked");
			if (g.gotkeys) {
				if (g.decr)
					vc_reach("keys, server");
				else
					vc_reach("keys, client");
			} else
				vc_reach("failure reported");
			return;
		}
		if (rc != 0) {
			/* The event loop ends, and the program with it. */
			vc_assert(rc == -1 && g.fatal, "an error return means a step failed");
			vc_reach("fatal");
			return;
		}
		vc_assert(!g.fatal && !g.netfail, "every failure is acted upon");
	}
	vc_assert(0, "the handshake ends after its four operations");
}
