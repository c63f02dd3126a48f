/*
 * HMAC-SHA256 and PBKDF2-SHA256 (libcperciva/alg/sha256.c) against RFC 2104
 * and RFC 8018, over an uninterpreted compression function: for all keys,
 * messages, passwords and salts of the given lengths.
 */
#include "vc.h"
#define VC_HW
#include "libcperciva/alg/sha256.c"
#include "stub_misc.h"
#undef Ch
#undef Maj
#include "ref_sha.h"

static int live;
int cpusupport_x86_shani_detect_1(void) { return (1); }
int cpusupport_x86_ssse3_detect_1(void) { return (1); }
int cpusupport_x86_sse2_detect_1(void) { return (0); }
int cpusupport_x86_shani_present_1, cpusupport_x86_shani_init_1;
int cpusupport_x86_ssse3_present_1, cpusupport_x86_ssse3_init_1;
int cpusupport_x86_sse2_present_1, cpusupport_x86_sse2_init_1;
void
SHA256_Transform_shani(uint32_t state[static restrict 8],
    const uint8_t block[static restrict 64])
{
	vc_requires(VC_RW(state, 32) && VC_R(block, 64), "compression arguments");
	if (live)
		F(state, block);
	else
		fips_compress(state, block);
}
void
SHA256_Transform_sse2(uint32_t state[static restrict 8],
    const uint8_t block[static restrict 64], uint32_t W[static restrict 64],
    uint32_t S[static restrict 8])
{
	(void)state; (void)block; (void)W; (void)S;
	vc_assert(0, "SSE2 code is used only on CPUs which have it");
}

#ifndef KN
#define KN 32
#endif
static uint8_t K[KN + 1], M[MN + 1], A[160], B[160];

void
harness(void)
{
	SHA256_CTX c;
	HMAC_SHA256_CTX h;
	size_t i;

	nd_fill(K, sizeof(K));
	nd_fill(M, sizeof(M));
	SHA256_Init(&c);
	live = 1;
#ifdef U_PBKDF2
	/* Exactly ON bytes are written. */
	A[ON] = 0x5a;
	PBKDF2_SHA256(K, KN, M, MN, CN, A, ON);
	ref_pbkdf2(K, KN, M, MN, CN, B, ON);
	vc_assert(A[ON] == 0x5a, "nothing is written beyond the requested output");
	for (i = 0; i < ON; i++)
		vc_assert(A[i] == B[i], "PBKDF2 equals RFC 8018");
#else
#ifdef U_HBUF
	HMAC_SHA256_Buf(K, KN, M, MN, A);
#else
	HMAC_SHA256_Init(&h, K, KN);
	HMAC_SHA256_Update(&h, M, SPLIT);
	HMAC_SHA256_Update(&h, M + SPLIT, MN - SPLIT);
	HMAC_SHA256_Final(A, &h);
	for (i = 0; i < sizeof(h); i++)
		vc_assert(((uint8_t *)&h)[i] == 0, "HMAC_SHA256_Final erases the context");
#endif
	ref_hmac(K, KN, M, MN, B);
	for (i = 0; i < 32; i++)
		vc_assert(A[i] == B[i], "HMAC equals RFC 2104");
#endif
	vc_reach("computed");
}
