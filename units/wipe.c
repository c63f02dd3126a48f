/*
 * Erasure of working storage.  The compression function (or block cipher) and
 * memcpy report which storage holds secrets; the storage which is neither the
 * caller's nor global must be overwritten by insecure_memzero after its last
 * such use, before the operation returns or before it is freed.
 */
#include <errno.h>
#define VC_WIPE
#include "vc_alloc.h"
static void * vc_memcpy(void *, const void *, size_t);
#define memcpy vc_memcpy
#if !defined(U_CTR) && !defined(U_SECRET)
#include "libcperciva/alg/sha256.c"
#endif
#ifdef U_CTR
#include "libcperciva/crypto/crypto_aesctr.c"
#endif
#undef memcpy
#undef malloc
#undef calloc
#undef free
void libcperciva_warn(const char * fmt, ...) { (void)fmt; }
void libcperciva_warnx(const char * fmt, ...) { (void)fmt; }
static void vc_memzero(volatile void *, size_t);
extern void (* volatile insecure_memzero_ptr)(volatile void *, size_t);
void (* volatile insecure_memzero_ptr)(volatile void *, size_t) = vc_memzero;

/* Does [p, p + n) lie within [q, q + m)? */
static int
within(const void * p, size_t n, const void * q, size_t m)
{
#ifdef VC_CBMC
	if (!__CPROVER_same_object(p, q))
		return (0);
	return (__CPROVER_POINTER_OFFSET(p) >= __CPROVER_POINTER_OFFSET(q) &&
	    __CPROVER_POINTER_OFFSET(p) - __CPROVER_POINTER_OFFSET(q) + n <= m);
#else
	return ((uintptr_t)p >= (uintptr_t)q && (uintptr_t)p - (uintptr_t)q + n <= m);
#endif
}

/* Storage in use, and not overwritten since. */
#define NS 24
static const void * at[NS];
static size_t len[NS];
static int dirty[NS], ns, live;
/* The caller's storage. */
#define NX 8
static const void * xa[NX];
static size_t xl[NX];
static int nx;
static void mine(const void * p, size_t n) { xa[nx] = p; xl[nx++] = n; }

static void
secret(const void * p, size_t n)
{
	int k;

	if (!live || n == 0)
		return;
	for (k = 0; k < nx; k++)
		if (within(p, 1, xa[k], xl[k]))
			return;
	for (k = 0; k < ns; k++)
		if (within(p, n, at[k], len[k])) {
			dirty[k] = 1;
			return;
		}
	vc_assert(ns < NS, "LEMMA number of places");
	vc_assume(ns < NS);
	at[ns] = p;
	len[ns] = n;
	dirty[ns++] = 1;
}
static void
vc_memzero(volatile void * p, size_t n)
{
	int k;

	vc_requires(VC_RW((void *)p, n), "insecure_memzero buffer");
	memset((void *)p, 0, n);
	for (k = 0; k < ns; k++)
		if (within(at[k], len[k], (void *)p, n))
			dirty[k] = 0;
}
static void *
vc_memcpy(void * d, const void * s, size_t n)
{

	/* A few bytes are a counter or a length. */
	if (n >= 16)
		secret(s, n);
	secret(d, n);
#ifdef U_PB
	/* The same, but kinder to the prover. */
	if (n == sizeof(HMAC_SHA256_CTX)) {
		*(HMAC_SHA256_CTX *)d = *(const HMAC_SHA256_CTX *)s;
		return (d);
	}
#endif
	return (memcpy(d, s, n));
}
static void
clean(void)
{
	int k;

	for (k = 0; k < ns; k++)
		vc_assert(!dirty[k], "working storage is overwritten");
	ns = 0;
	live = 0;
}
static void * freeing;
static size_t freelen;
static void
vc_on_free(void * p)
{
	size_t i = (size_t)nd_range(0, freelen - 1);

	vc_assert(p == freeing, "what is freed is the object");
	vc_assert(((uint8_t *)p)[i] == 0, "an object is overwritten before it is freed");
	vc_reach("freed");
}

#ifdef U_CTR
void
crypto_aes_encrypt_block(const uint8_t in[16], uint8_t out[16], const struct crypto_aes_key * key)
{

	(void)key;
	secret(in, 16);
	secret(out, 16);
	nd_fill(out, 16);
}
int crypto_aes_can_use_intrinsics(void) { return (0); }
static int cipher(void) { return (0); }
void
harness(void)
{
	static uint8_t in[80], out[80], keyrec[16];
	const struct crypto_aes_key * key = (const void *)keyrec;
	struct crypto_aesctr * s;

	(void)cipher;
	mine(in, sizeof(in));
	mine(out, sizeof(out));
	mine(keyrec, sizeof(keyrec));
	live = 1;
	crypto_aesctr_buf(key, nd_u64(), in, out, LEN);
	clean();
	s = crypto_aesctr_init(key, nd_u64());
	if (s != NULL) {
		crypto_aesctr_stream(s, in, out, (size_t)nd_range(0, 40));
		freeing = s;
		freelen = sizeof(*s);
		crypto_aesctr_free(s);
	}
	vc_assert(vc_live == 0, "everything is freed");
	crypto_aesctr_free(NULL);
	vc_reach("end");
}
#else
int cpusupport_x86_shani_detect_1(void) { return (0); }
int cpusupport_x86_ssse3_detect_1(void) { return (0); }
int cpusupport_x86_sse2_detect_1(void) { return (1); }
int cpusupport_x86_shani_present_1, cpusupport_x86_shani_init_1;
int cpusupport_x86_ssse3_present_1, cpusupport_x86_ssse3_init_1;
int cpusupport_x86_sse2_present_1, cpusupport_x86_sse2_init_1;
#ifndef FIXED
#define FIXED 0	/* 1: the contents of messages are not examined. */
#endif
static void
comp(uint32_t state[8], const uint8_t block[64])
{
	int i;

	(void)block;
	for (i = 0; i < 8; i++)
		state[i] = FIXED ? 0x5a5a5a5a ^ state[i] : nd_u32();
}
#include "ref_sha.h"
void
SHA256_Transform_shani(uint32_t state[static restrict 8], const uint8_t block[static restrict 64])
{

	secret(state, 32);
	secret(block, 64);
	if (live)
		comp(state, block);
	else
		fips_compress(state, block);
}
void
SHA256_Transform_sse2(uint32_t state[static restrict 8],
    const uint8_t block[static restrict 64], uint32_t W[static restrict 64],
    uint32_t S[static restrict 8])
{

	secret(W, 256);
	secret(S, 32);
	SHA256_Transform_shani(state, block);
}
void
harness(void)
{
	static uint8_t K[100], M[150], out[80];
	static SHA256_CTX c;
	static HMAC_SHA256_CTX h;
	size_t i;

	if (!FIXED) {
		nd_fill(K, sizeof(K));
		nd_fill(M, sizeof(M));
	}
	mine(K, sizeof(K));
	mine(M, sizeof(M));
	mine(out, sizeof(out));
	mine(&c, sizeof(c));
	mine(PAD, sizeof(PAD));
	mine(initial_state, sizeof(initial_state));
	mine(&h, sizeof(h));
	SHA256_Init(&c);
#if U_SHA
	live = 1;
	SHA256_Update(&c, M, 150);
	clean();
	live = 1;
	SHA256_Final(out, &c);
	clean();
	for (i = 0; i < sizeof(c); i++)
		vc_assert(((uint8_t *)&c)[i] == 0, "a finished hash is overwritten");
	live = 1;
	SHA256_Buf(M, 150, out);
	clean();
#elif U_HMAC == 1
	live = 1;
	HMAC_SHA256_Init(&h, K, KN);
	clean();
	live = 1;
	HMAC_SHA256_Update(&h, M, 150);
	clean();
	live = 1;
	HMAC_SHA256_Final(out, &h);
	clean();
	for (i = 0; i < sizeof(h); i++)
		vc_assert(((uint8_t *)&h)[i] == 0, "a finished MAC is overwritten");
#elif U_HMAC == 2
	(void)i;
	live = 1;
	HMAC_SHA256_Buf(K, KN, M, 100, out);
	clean();
#else
	(void)i;
	live = 1;
	PBKDF2_SHA256(K, 32, M, U_PB_SALT, U_PB_C, out, U_PB_LEN);
	clean();
#endif
	vc_reach("end");
}
#endif
