/*
 * crypto_entropy.c over the contract of HMAC-SHA256 (P06), of the operating
 * system's generator (entropy.c) and of RDRAND.  HMAC is an arbitrary
 * function; SP 800-90A's HMAC_DRBG is computed beside the code from the same
 * seeds and must give the same output and state.  The proof starts from an
 * arbitrary state.
 */
#include "stub_misc.h"
#include "cpusupport.h"
#undef cpusupport_x86_rdrand
#define cpusupport_x86_rdrand() vc_rdrand()
static int vc_rdrand(void);
#include "libcperciva/crypto/crypto_entropy.c"
#ifdef VC_NATIVE
#define BLK 140000
#else
#define BLK 70
#endif
#ifndef CALLS
#define CALLS 300
#endif
#define MSG 96

/* The HMAC being computed. */
static uint8_t h_key[32], h_msg[MSG];
static size_t h_len;
static int h_open, nhmac;
/* Seeds obtained during this request. */
static uint8_t g_seed[4][48], g_rd[4][32];
static size_t g_seedlen[4];
static int g_rdon[4];
static struct { int nseed, failed, hw, fail, rdok; size_t want; } g;
/* HMAC_DRBG's state. */
static struct { uint8_t K[32], V[32]; uint32_t ctr; int inst; } S;
#ifdef VC_NATIVE
#define FAILS() nd_bool()
#define RDFAILS() nd_bool()
#else
/* These are constant in each case, which keeps the cases simple. */
#define FAILS() g.fail
#define RDFAILS() (!g.rdok)
#endif

#ifdef VC_NATIVE
static void
prf(const uint8_t * K, const uint8_t * m, size_t n, uint8_t * out)
{
	uint64_t h = 0xcbf29ce484222325ULL, k;

	for (k = 0; k < 32; k++)
		h = (h ^ K[k]) * 0x100000001b3ULL;
	for (k = 0; k < n; k++)
		h = (h ^ m[k]) * 0x100000001b3ULL;
	for (k = 0; k < 32; k++) {
		h = (h ^ (h >> 29)) * 0xbf58476d1ce4e5b9ULL;
		out[k] = (uint8_t)(h >> 40);
	}
}
#else
typedef unsigned __CPROVER_bitvector[256] b256;
typedef unsigned __CPROVER_bitvector[768] b768;
b256 __CPROVER_uninterpreted_hmac(b256, b768, size_t);
static void
prf(const uint8_t * K, const uint8_t * m, size_t n, uint8_t * out)
{
	b256 k = 0, r;
	b768 v = 0;
	size_t i;

	for (i = 0; i < 32; i++)
		k = (k << 8) | K[i];
	for (i = 0; i < n; i++)
		v = (v << 8) | m[i];
	r = __CPROVER_uninterpreted_hmac(k, v, n);
	for (i = 0; i < 32; i++)
		out[i] = (uint8_t)(r >> (8 * i));
}
#endif
void
HMAC_SHA256_Init(HMAC_SHA256_CTX * ctx, const void * K, size_t Klen)
{
	size_t i;

	(void)ctx;
	vc_requires(!h_open, "one HMAC at a time");
	vc_assert(Klen == 32, "the key is 256 bits");
	h_open = 1;
	h_len = 0;
	for (i = 0; i < 32; i++)
		h_key[i] = ((const uint8_t *)K)[i];
}
void
HMAC_SHA256_Update(HMAC_SHA256_CTX * ctx, const void * p, size_t n)
{
	size_t i;

	(void)ctx;
	vc_requires(h_open, "HMAC context");
	vc_assert(n <= MSG - h_len, "no more than V, a byte and the seed is hashed");
	for (i = 0; i < n; i++)
		h_msg[h_len + i] = ((const uint8_t *)p)[i];
	h_len += n;
}
void
HMAC_SHA256_Final(uint8_t d[32], HMAC_SHA256_CTX * ctx)
{

	(void)ctx;
	vc_requires(h_open, "HMAC context");
	prf(h_key, h_msg, h_len, d);
	h_open = 0;
	nhmac++;
}
void
HMAC_SHA256_Buf(const void * K, size_t Klen, const void * in, size_t len, uint8_t d[32])
{
	HMAC_SHA256_CTX c;

	HMAC_SHA256_Init(&c, K, Klen);
	HMAC_SHA256_Update(&c, in, len);
	HMAC_SHA256_Final(d, &c);
}
int
entropy_read(uint8_t * buf, size_t len)
{
	size_t i;

	vc_requires(len <= 48 && VC_RW(buf, len), "entropy buffer");
	vc_assume(g.nseed < 4);
	for (i = 0; i < len; i++)
		buf[i] = g_seed[g.nseed][i] = nd_u8();
	if (FAILS()) {
		g.failed = 1;	/* Part of it may have been read. */
		return (-1);
	}
	g_seedlen[g.nseed++] = len;
	return (0);
}
static int
vc_rdrand(void)
{

	return (g.hw);
}
int
generate_seed_rdrand(unsigned int * buf, size_t n)
{
	size_t i;

	vc_requires(n == 8 && VC_RW(buf, 32), "RDRAND buffer");
	vc_assert(g.hw, "RDRAND is used only where there is one");
	vc_assume(g.nseed > 0 && g.nseed <= 4);
	for (i = 0; i < 32; i++)
		((uint8_t *)buf)[i] = g_rd[g.nseed - 1][i] = nd_u8();
	if (RDFAILS())
		return (1);
	g_rdon[g.nseed - 1] = 1;
	return (0);
}

/* SP 800-90A, 10.1.2. */
static void
H(int b, const uint8_t * data, size_t n, uint8_t * out)
{
	uint8_t m[MSG], k[32];
	size_t i;

	for (i = 0; i < 32; i++) {
		k[i] = S.K[i];
		m[i] = S.V[i];
	}
	m[32] = (uint8_t)b;
	for (i = 0; i < n; i++)
		m[33 + i] = data[i];
	prf(k, m, b < 0 ? 32 : 33 + n, out);
}
static void
s_update(const uint8_t * data, size_t n)
{

	H(0, data, n, S.K);
	H(-1, NULL, 0, S.V);
	if (n > 0) {
		H(1, data, n, S.K);
		H(-1, NULL, 0, S.V);
	}
}
static void
s_seeded(int i)
{

	if (g_rdon[i])
		s_update(g_rd[i], 32);
	S.ctr = 1;
}
static void
request(void)
{
	static uint8_t buf[BLK];
	size_t n, i, k, m, j;
	int rc, used = 0;

	g.nseed = g.failed = h_open = nhmac = 0;
	for (i = 0; i < 4; i++)
		g_rdon[i] = 0;
#ifdef VC_NATIVE
	g.hw = nd_bool();
	n = nd_range(0, 30) ? (size_t)nd_range(0, 100) : (size_t)nd_range(0, BLK);
#else
	n = g.want;
#endif
	rc = crypto_entropy_read(buf, n);
	vc_assert((rc != 0) == g.failed, "a failure of the operating system's generator, and nothing else, is reported");
	/* What HMAC_DRBG would have done with the seeds obtained. */
	if (!S.inst && g.nseed > 0) {
		vc_assert(g_seedlen[0] == 48, "seeded with 256 bits and a nonce");
		for (i = 0; i < 32; i++) {
			S.K[i] = 0;
			S.V[i] = 1;
		}
		s_update(g_seed[0], 48);
		s_seeded(0);
		S.inst = 1;
		used = 1;
	}
	for (i = 0; i < n && S.inst; i += m) {
		m = n - i > 65536 ? 65536 : n - i;
		/* Reseeding early does no harm. */
		if (used < g.nseed && (S.ctr > 256 || i + m >= n)) {
			vc_assert(g_seedlen[used] == 32, "reseeded with 256 bits");
			s_update(g_seed[used], 32);
			s_seeded(used);
			used++;
		}
		if (rc != 0 && S.ctr > 256)
			break;		/* Reseeding failed. */
		vc_assert(S.ctr <= 256, "reseeded at least every 256 requests");
		for (k = 0; k < m; k += 32) {
			H(-1, NULL, 0, S.V);
			for (j = 0; j < 32; j++)
				if (k + j < m && rc == 0)
					vc_assert(buf[i + k + j] == S.V[j], "the output is HMAC_DRBG's");
		}
		s_update(NULL, 0);
		S.ctr++;
	}
	if (rc == 0)
		vc_assert(S.inst && used == g.nseed, "the output is produced from a seeded state");
#ifndef VC_NATIVE
	if (rc == 0)
		vc_reach("output");
	else
		vc_reach("failure");
	vc_assert((instantiated != 0) == S.inst, "LEMMA state");
	if (S.inst) {
		vc_assert(drbg.reseed_counter == S.ctr, "LEMMA state");
		for (i = 0; i < 32; i++)
			vc_assert(drbg.Key[i] == S.K[i] && drbg.V[i] == S.V[i], "LEMMA state");
	}
#endif
}
#ifdef VC_NATIVE
void
harness(void)
{
	int i;

	for (i = 0; i < CALLS; i++)
		request();
}
#else
/* From an arbitrary state: not yet seeded (0), seeded (1), to be reseeded (2). */
static void
from(int state, size_t want, int hw, int rdok, int fail)
{
	int i;

	g.want = want;
	g.hw = hw;
	g.rdok = rdok;
	g.fail = fail;
	S.inst = instantiated = state != 0;
	if (S.inst) {
		if (state == 1)
			drbg.reseed_counter = (uint32_t)nd_range(1, 256);
		else
			drbg.reseed_counter = 257;
		S.ctr = drbg.reseed_counter;
		for (i = 0; i < 32; i++) {
			drbg.Key[i] = S.K[i] = nd_u8();
			drbg.V[i] = S.V[i] = nd_u8();
		}
	}
	request();
}
#ifndef CASES
#define CASES 0
#endif
void
harness(void)
{

#if CASES == 0
	switch (nd_range(0, 3)) {
	case 0: from(0, 33, 0, 0, 0); break;
	case 1: from(0, 32, 1, 0, 0); break;
	case 2: from(0, 32, 1, 1, 1); break;
	default: from(0, 1, 1, 1, 0); break;
	}
#elif CASES == 1
	switch (nd_range(0, 3)) {
	case 0: from(1, 1, 1, 1, 1); break;
	case 1: from(1, 32, 1, 1, 1); break;
	case 2: from(1, 0, 1, 1, 1); break;
	default: from(1, 70, 1, 1, 1); break;
	}
#else
	switch (nd_range(0, 3)) {
	case 0: from(2, 32, 0, 0, 0); break;
	case 1: from(2, 33, 1, 1, 0); break;
	case 2: from(2, 48, 1, 0, 0); break;
	default: from(2, 16, 1, 1, 1); break;
	}
#endif
}
#endif
