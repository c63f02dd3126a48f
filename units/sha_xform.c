/*
 * The SHA-256 compression function against FIPS 180-4, all implementations.
 * Portable: through the public interface, by hashing one whole block into an
 * arbitrary chaining state.  Accelerated: the exported transform functions.
 */
#include "vc.h"
#ifdef U_SSE2
#define CPUSUPPORT_X86_SSE2 1
#include "libcperciva/alg/sha256_sse2.c"
#elif defined(U_SHANI)
#define CPUSUPPORT_X86_SHANI 1
#define CPUSUPPORT_X86_SSSE3 1
#define VC_RNDS2_GHOST
#include "libcperciva/alg/sha256_shani.c"
#else
#include "libcperciva/alg/sha256.c"
#include "stub_misc.h"
#endif
#undef Ch
#undef Maj
#include "fips_sha256.h"

#ifdef U_SHANI
/*
 * SHA256RNDS2 performs two FIPS rounds (Intel SDM).  As far as this unit is
 * concerned a round pair is an unknown function of the working variables and
 * two words: the j-th use must be given the j-th working variables and the
 * j-th words plus constants, and produces new working variables.
 */
static int gj;			/* Round pairs done. */
static uint32_t gs[8];		/* Working variables a .. h. */
static uint32_t gW[64];		/* Message schedule used so far. */

__m128i
_mm_sha256rnds2_epu32(__m128i cdgh, __m128i abef, __m128i k)
{
	__m128i r;

	vc_assert(gj < 32, "LEMMA no more than 64 rounds");
	vc_assert(abef.w[3] == gs[0] && abef.w[2] == gs[1] && abef.w[1] == gs[4] && abef.w[0] == gs[5] &&
	    cdgh.w[3] == gs[2] && cdgh.w[2] == gs[3] && cdgh.w[1] == gs[6] && cdgh.w[0] == gs[7],
	    "LEMMA rounds chain their working variables");
	gW[2 * gj] = k.w[0] - fips_K[2 * gj];
	gW[2 * gj + 1] = k.w[1] - fips_K[2 * gj + 1];
	gj++;
	gs[2] = gs[0]; gs[3] = gs[1]; gs[6] = gs[4]; gs[7] = gs[5];
	gs[0] = r.w[3] = nd_u32(); gs[1] = r.w[2] = nd_u32();
	gs[4] = r.w[1] = nd_u32(); gs[5] = r.w[0] = nd_u32();
	return (r);
}
#endif

void
harness(void)
{
	uint32_t st[8];
	uint32_t * out;
	uint8_t block[64];
	int i;
#ifdef U_SSE2
	uint32_t state[8], W[64], S[8];
	out = state;
#elif defined(U_SHANI)
	uint32_t state[8];
	out = state;
#else
	SHA256_CTX ctx;
	SHA256_Init(&ctx);
	for (i = 0; i < 8; i++)
		vc_assert(ctx.state[i] == fips_H0[i], "initial state equals FIPS 180-4");
	vc_assert(ctx.count == 0, "no bits hashed initially");
	out = ctx.state;
#endif
	for (i = 0; i < 8; i++) {
		out[i] = st[i] = nd_u32();
#ifdef U_SHANI
		gs[i] = st[i];
#endif
	}
	for (i = 0; i < 64; i++)
		block[i] = nd_u8();
#ifdef U_SSE2
	SHA256_Transform_sse2(state, block, W, S);
#elif defined(U_SHANI)
	SHA256_Transform_shani(state, block);
#else
	SHA256_Update(&ctx, block, 64);
	vc_assert(ctx.count == 512, "512 bits hashed");
#endif
#ifdef U_SSE2
	/*
	 * Two groups of obligations: each schedule word against its FIPS
	 * recurrence over the schedule the code itself built, and the rounds
	 * against FIPS over that same schedule.
	 */
#ifdef PART_SCHED
	for (i = 0; i < 16; i++)
		vc_assert(W[i] == (((uint32_t)block[4 * i] << 24) | ((uint32_t)block[4 * i + 1] << 16) |
		    ((uint32_t)block[4 * i + 2] << 8) | (uint32_t)block[4 * i + 3]), "schedule starts with the block");
	for (i = 16; i < 64; i++)
		vc_assert(W[i] == W[i - 16] + W[i - 7] + F_s0(W[i - 15]) + F_s1(W[i - 2]), "schedule equals FIPS 180-4");
	vc_reach("scheduled");
	return;
#else
	fips_rounds(st, W);
#endif
#elif defined(U_SHANI)
	vc_assert(gj == 32, "64 rounds are performed");
	for (i = 0; i < 16; i++)
		vc_assert(gW[i] == (((uint32_t)block[4 * i] << 24) | ((uint32_t)block[4 * i + 1] << 16) |
		    ((uint32_t)block[4 * i + 2] << 8) | (uint32_t)block[4 * i + 3]), "schedule starts with the block");
	for (i = 16; i < 64; i++)
		vc_assert(gW[i] == gW[i - 16] + F_s0(gW[i - 15]) + gW[i - 7] + F_s1(gW[i - 2]), "schedule equals FIPS 180-4");
	for (i = 0; i < 8; i++)
		st[i] += gs[i];
#else
	fips_compress(st, block);
#endif
#ifndef PART_SCHED
	for (i = 0; i < 8; i++)
		vc_assert(out[i] == st[i], "compression equals FIPS 180-4");
	vc_reach("compressed");
#endif
}
