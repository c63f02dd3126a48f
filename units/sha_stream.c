/*
 * Streaming SHA-256 (libcperciva/alg/sha256.c) over an abstract compression
 * function (the compression functions themselves: sha_xform.c).
 *
 * The message is M[0], M[1], ...; g.pos is one arbitrary position in it and
 * g.s its byte.  The state invariant INV(ctx) says that ctx represents the
 * first g.c bytes of M:
 *   ctx->count is 8 * c; the c/64 full blocks have been compressed, in order,
 *   ctx->state being the last result; the other bytes are in ctx->buf.
 * Each harness starts from an arbitrary state satisfying INV, so what it
 * shows holds after any history of calls.
 */
#include "vc.h"
#define VC_HW
static struct {
	int live;		/* Ghost bookkeeping on. */
	uint64_t c;		/* Bytes of M absorbed (8 * c < 2^64). */
	uint64_t pos;		/* Arbitrary position in M. */
	uint8_t s;		/* M[pos], as padded when finishing. */
	uint64_t nblk;		/* Next block to be compressed. */
	uint32_t st[8];		/* Result of the last compression. */
	int shani, ssse3, sse2;	/* CPU features. */
	size_t inlen;		/* Length of the input given. */
} g;
static uint8_t * inbuf;		/* The input: M[g.c] .. M[g.c + g.inlen - 1]. */
#ifdef VC_CBMC
/* Byte at p; the input's bytes are known by their position only. */
static uint8_t
at(const uint8_t * p)
{

	if (inbuf != NULL && __CPROVER_same_object(p, inbuf))
		return (g.c + (uint64_t)(p - inbuf) == g.pos ? g.s : nd_u8());
	return (*p);
}
#else
#define at(p) (*(p))
#endif

#ifdef VC_CBMC
/*
 * memcpy, as far as position vc_q of the buffer vc_buf is concerned: copies
 * into that buffer are exact at vc_q and leave anything elsewhere.
 */
static uint8_t * vc_buf;
static size_t vc_q;
static void *
vc_memcpy(void * d, const void * s, size_t n)
{
	uint8_t * dd = d, v;
	size_t off;

	vc_requires(n == 0 || (VC_RW(d, n) && VC_R(s, n)), "memcpy regions");
	if (n == 0)
		return (d);
	if (vc_buf != NULL && __CPROVER_same_object(d, vc_buf) && dd >= vc_buf) {
		off = (size_t)(dd - vc_buf);
		v = vc_buf[vc_q];
		if (vc_q >= off && vc_q - off < n)
			v = at((const uint8_t *)s + (vc_q - off));
		__CPROVER_havoc_slice(vc_buf, 64);
		vc_buf[vc_q] = v;
		return (d);
	}
	if (inbuf != NULL && __CPROVER_same_object(s, inbuf)) {
		vc_requires(n <= 64, "no more than a block is copied");
		for (off = 0; off < 64; off++)
			if (off < n)
				dd[off] = at((const uint8_t *)s + off);
		return (d);
	}
	return (memcpy(d, s, n));
}
#define memcpy vc_memcpy
#endif
#include "libcperciva/alg/sha256.c"
#undef memcpy
#include "stub_misc.h"
#undef Ch
#undef Maj
#include "fips_sha256.h"


int cpusupport_x86_shani_detect_1(void) { return (g.shani); }
int cpusupport_x86_ssse3_detect_1(void) { return (g.ssse3); }
int cpusupport_x86_sse2_detect_1(void) { return (g.sse2); }
int cpusupport_x86_shani_present_1, cpusupport_x86_shani_init_1;
int cpusupport_x86_ssse3_present_1, cpusupport_x86_ssse3_init_1;
int cpusupport_x86_sse2_present_1, cpusupport_x86_sse2_init_1;

/* Contract of the compression functions. */
static void
T(uint32_t state[8], const uint8_t block[64])
{
	int i;

	vc_requires(VC_RW(state, 32), "compression state");
	vc_requires(VC_R(block, 64), "compression block");
	if (!g.live) {
		/* Self-test: the real function of constants. */
		fips_compress(state, block);
		return;
	}
	vc_assert(state[0] == g.st[0] && state[1] == g.st[1] && state[2] == g.st[2] && state[3] == g.st[3] &&
	    state[4] == g.st[4] && state[5] == g.st[5] && state[6] == g.st[6] && state[7] == g.st[7],
	    "each compression starts from the previous result");
	if (g.pos / 64 == g.nblk)
		vc_assert(at(&block[g.pos % 64]) == g.s, "the right byte is compressed at every position");
	g.nblk++;
	for (i = 0; i < 8; i++)
		state[i] = g.st[i] = nd_u32();
}

void
SHA256_Transform_shani(uint32_t state[static restrict 8],
    const uint8_t block[static restrict 64])
{
	vc_assert(g.shani && g.ssse3, "SHANI code is used only on CPUs which have it");
	T(state, block);
}

void
SHA256_Transform_sse2(uint32_t state[static restrict 8],
    const uint8_t block[static restrict 64], uint32_t W[static restrict 64],
    uint32_t S[static restrict 8])
{
	vc_assert(g.sse2, "SSE2 code is used only on CPUs which have it");
	vc_requires(VC_RW(W, 256) && VC_RW(S, 32), "work space");
	W[nd_range(0, 63)] = nd_u32();
	S[nd_range(0, 7)] = nd_u32();
	T(state, block);
}

/* Choose CPU features and run the one-time initialisation. */
static void
setup(SHA256_CTX * ctx)
{
	int i;

	g.live = 0;
#ifdef F_SHANI
	g.shani = g.ssse3 = 1;
	g.sse2 = 0;
#else
	g.sse2 = 1;
	g.shani = g.ssse3 = 0;
#endif
	SHA256_Init(ctx);
	for (i = 0; i < 8; i++) {
		vc_assert(ctx->state[i] == fips_H0[i], "initial state equals FIPS 180-4");
		g.st[i] = fips_H0[i];
	}
	vc_assert(ctx->count == 0, "no bits hashed initially");
	g.c = g.nblk = 0;
	g.live = 1;
}

static void
track(SHA256_CTX * ctx)
{
#ifdef VC_CBMC
	vc_buf = ctx->buf;
	vc_q = g.pos % 64;
#endif
}

/* An arbitrary state satisfying INV. */
static void
state_any(SHA256_CTX * ctx)
{
	int i;

	g.c = nd_range(0, ((uint64_t)1 << 61) - 1);
	g.pos = nd_u64();
	g.s = nd_u8();
	ctx->count = g.c << 3;
	for (i = 0; i < 8; i++)
		ctx->state[i] = g.st[i] = nd_u32();
	nd_fill(ctx->buf, 64);
	g.nblk = g.c / 64;
	if (g.pos / 64 == g.nblk && g.pos < g.c)
		vc_assume(ctx->buf[g.pos % 64] == g.s);
	g.live = 1;
	track(ctx);
}

static void
state_check(const SHA256_CTX * ctx, uint64_t c)
{
	int i;

	vc_assert(ctx->count == c << 3, "bit count");
	vc_assert(g.nblk == c / 64, "every complete block is compressed exactly once");
	for (i = 0; i < 8; i++)
		vc_assert(ctx->state[i] == g.st[i], "state is the last compression result");
	if (g.pos / 64 == g.nblk && g.pos < c)
		vc_assert(ctx->buf[g.pos % 64] == g.s, "the incomplete block is buffered");
}

static size_t
any_len(void)
{
#ifdef MAXLEN
	return (nd_range(0, MAXLEN));
#else
	return (nd_range(0, (uint64_t)1 << 50));
#endif
}

static uint8_t *
any_in(size_t len)
{
	uint8_t * in = malloc(len);

	vc_assume(in != NULL);
	g.inlen = len;
	inbuf = in;
#ifdef VC_NATIVE
	nd_fill(in, len);
	if (g.pos >= g.c && g.pos - g.c < len)
		in[g.pos - g.c] = g.s;
#endif
	return (in);
}

#define PADBLK(c) (((c) + 9 + 63) / 64)
/* The padded byte at pos. */
static uint8_t
padbyte(uint64_t c, uint8_t s)
{
	uint64_t e = 64 * PADBLK(c);

	if (g.pos < c)
		return (s);
	if (g.pos == c)
		return (0x80);
	if (g.pos < e - 8)
		return (0);
	if (g.pos < e)
		return ((uint8_t)((c << 3) >> (8 * (e - 1 - g.pos))));
	return (s);
}

void
harness(void)
{
	uint8_t * in, dig[32];
	size_t len, i;
#ifdef U_HMAC
	HMAC_SHA256_CTX h;
	SHA256_CTX * ctx = &h.ictx;
#else
	SHA256_CTX ctx_, * ctx = &ctx_;
#endif

	setup(ctx);
#if defined(U_UPDATE)
	state_any(ctx);
	len = any_len();
	in = any_in(len);
	vc_assume(g.c + len < (uint64_t)1 << 61);
#ifdef U_HMAC
	SHA256_CTX o0 = h.octx;
	HMAC_SHA256_Update(&h, in, len);
	i = nd_range(0, sizeof(o0) - 1);
	vc_assert(((uint8_t *)&o0)[i] == ((uint8_t *)&h.octx)[i], "outer state untouched");
#else
	SHA256_Update(ctx, in, len);
#endif
	state_check(ctx, g.c + len);
	vc_reach("updated");
	if (len >= 128)
		vc_reach("several blocks");
	if (len == 0)
		vc_reach("nothing");
#elif defined(U_FINAL)
	state_any(ctx);
	/* Blocks still to come hold padding. */
	{
		uint8_t s0 = g.s;
		g.s = padbyte(g.c, s0);
	}
	SHA256_Final(dig, ctx);
	vc_assert(g.nblk == PADBLK(g.c), "message, padding and length are compressed, nothing else");
	for (i = 0; i < 32; i++)
		vc_assert(dig[i] == (uint8_t)(g.st[i / 4] >> (24 - 8 * (i % 4))), "digest is the final state");
	for (i = 0; i < sizeof(*ctx); i++)
		vc_assert(((uint8_t *)ctx)[i] == 0, "SHA256_Final erases the context");
	vc_reach("finished");
	if (g.c % 64 == 55)
		vc_reach("one padding block");
	if (g.c % 64 == 56)
		vc_reach("two padding blocks");
#elif defined(U_BUF)
	g.c = 0;
	g.nblk = 0;
	len = any_len();
	g.pos = nd_u64();
	g.s = nd_u8();
	in = any_in(len);
	g.s = padbyte(len, g.s);
	for (i = 0; i < 8; i++)
		g.st[i] = fips_H0[i];
	SHA256_Buf(in, len, dig);
	vc_assert(g.nblk == PADBLK(len), "message, padding and length are compressed, nothing else");
	for (i = 0; i < 32; i++)
		vc_assert(dig[i] == (uint8_t)(g.st[i / 4] >> (24 - 8 * (i % 4))), "digest is the final state");
	vc_reach("hashed");
#endif
}
