/*
 * SHA-256 padding, RFC 2104 HMAC and RFC 8018 PBKDF2, written from the
 * standards over an abstract compression function F.  Messages are given as
 * a byte array; all lengths are constants here.
 */
#ifndef REF_SHA_H_
#define REF_SHA_H_
#include "vc.h"
#include "fips_sha256.h"
#ifdef VC_CBMC
#define UF(k) uint32_t __CPROVER_uninterpreted_F##k(uint32_t, uint32_t, uint32_t, uint32_t, uint32_t, uint32_t, uint32_t, uint32_t, \
    uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t)
UF(0); UF(1); UF(2); UF(3); UF(4); UF(5); UF(6); UF(7);
static uint64_t
w8(const uint8_t * p)
{
	return ((uint64_t)p[0] | ((uint64_t)p[1] << 8) | ((uint64_t)p[2] << 16) | ((uint64_t)p[3] << 24) |
	    ((uint64_t)p[4] << 32) | ((uint64_t)p[5] << 40) | ((uint64_t)p[6] << 48) | ((uint64_t)p[7] << 56));
}
static void
F(uint32_t s[8], const uint8_t b[64])
{
	uint32_t a0 = s[0], a1 = s[1], a2 = s[2], a3 = s[3], a4 = s[4], a5 = s[5], a6 = s[6], a7 = s[7];
	uint64_t b0 = w8(b), b1 = w8(b + 8), b2 = w8(b + 16), b3 = w8(b + 24), b4 = w8(b + 32), b5 = w8(b + 40), b6 = w8(b + 48), b7 = w8(b + 56);
#define AP(k) s[k] = __CPROVER_uninterpreted_F##k(a0, a1, a2, a3, a4, a5, a6, a7, b0, b1, b2, b3, b4, b5, b6, b7)
	AP(0); AP(1); AP(2); AP(3); AP(4); AP(5); AP(6); AP(7);
}
#else
#define F fips_compress
#endif

#define REF_MAX 1024
/*
 * Finish SHA-256 over a message of which the first n0 bytes (a multiple of
 * 64) gave state s, and the remaining n bytes are m.
 */
static void
ref_finish(const uint32_t s0[8], size_t n0, const uint8_t * m0, size_t n, uint8_t out[32])
{
	uint8_t m[REF_MAX];
	uint32_t s[8];
	size_t i, t = (n + 9 + 63) / 64 * 64;

	for (i = 0; i < t; i++)
		m[i] = i < n ? m0[i] : i == n ? 0x80 : i < t - 8 ? 0 : (uint8_t)(((uint64_t)(n0 + n) * 8) >> (8 * (t - 1 - i)));
	for (i = 0; i < 8; i++)
		s[i] = s0[i];
	for (i = 0; i < t; i += 64)
		F(s, &m[i]);
	for (i = 0; i < 32; i++)
		out[i] = (uint8_t)(s[i / 4] >> (24 - 8 * (i % 4)));
}

/* The states after the inner and outer key pads. */
static void
ref_key(const uint8_t * k, size_t kn, uint32_t si[8], uint32_t so[8])
{
	uint8_t kk[64], b[64];
	size_t i;

	for (i = 0; i < 64; i++)
		kk[i] = 0;
	if (kn > 64)
		ref_finish(fips_H0, 0, k, kn, kk);
	else
		for (i = 0; i < kn; i++)
			kk[i] = k[i];
	for (i = 0; i < 8; i++)
		si[i] = so[i] = fips_H0[i];
	for (i = 0; i < 64; i++)
		b[i] = kk[i] ^ 0x36;
	F(si, b);
	for (i = 0; i < 64; i++)
		b[i] = kk[i] ^ 0x5c;
	F(so, b);
}

static void
ref_hmac(const uint8_t * k, size_t kn, const uint8_t * m, size_t n, uint8_t out[32])
{
	uint32_t si[8], so[8];
	uint8_t ih[32];

	ref_key(k, kn, si, so);
	ref_finish(si, 64, m, n, ih);
	ref_finish(so, 64, ih, 32, out);
}

static void
ref_pbkdf2(const uint8_t * p, size_t pn, const uint8_t * s, size_t sn, uint64_t c, uint8_t * out, size_t on)
{
	uint32_t si[8], so[8], ss[8];
	uint8_t b[68], U[32], ih[32], T[32];
	size_t i, j, k, full = sn / 64 * 64;

	ref_key(p, pn, si, so);
	/* The salt's complete blocks are common to all PRF calls. */
	for (j = 0; j < 8; j++)
		ss[j] = si[j];
	for (j = 0; j < full; j += 64)
		F(ss, &s[j]);
	for (i = 0; i * 32 < on; i++) {
		for (j = full; j < sn; j++)
			b[j - full] = s[j];
		for (j = 0; j < 4; j++)
			b[sn - full + j] = (uint8_t)((i + 1) >> (24 - 8 * j));
		ref_finish(ss, 64 + full, b, sn - full + 4, ih);
		ref_finish(so, 64, ih, 32, U);
		for (j = 0; j < 32; j++)
			T[j] = U[j];
		for (k = 2; k <= c; k++) {
			ref_finish(si, 64, U, 32, ih);
			ref_finish(so, 64, ih, 32, U);
			for (j = 0; j < 32; j++)
				T[j] ^= U[j];
		}
		for (j = 0; j < 32 && i * 32 + j < on; j++)
			out[i * 32 + j] = T[j];
	}
}
#endif
