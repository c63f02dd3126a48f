/*
 * x86 vector intrinsics used by libcperciva, in plain C, after the Intel
 * Software Developer's Manual.  Used only by goto-cc (the native replay uses
 * the compiler's own).  tools/test_intrin.sh compares each with the CPU.
 */
#ifndef VC_INTRIN_H_
#define VC_INTRIN_H_
#include <stddef.h>
#include <stdint.h>
#include <string.h>

typedef struct { uint32_t w[4]; } __m128i;	/* w[0] is bits 31:0. */
typedef __m128i __m128;
typedef __m128i __m128d;
#define _MM_SHUFFLE(d, c, b, a) (((d) << 6) | ((c) << 4) | ((b) << 2) | (a))

static inline uint8_t vcb(__m128i a, int i) { return ((uint8_t)(a.w[i / 4] >> (8 * (i % 4)))); }
#define VCW4(b, i) ((uint32_t)(b)[i] | ((uint32_t)(b)[i + 1] << 8) | ((uint32_t)(b)[i + 2] << 16) | ((uint32_t)(b)[i + 3] << 24))
static inline __m128i vcfromb(const uint8_t b[16])
{
	__m128i r;
	r.w[0] = VCW4(b, 0); r.w[1] = VCW4(b, 4); r.w[2] = VCW4(b, 8); r.w[3] = VCW4(b, 12);
	return (r);
}
/* Word accesses: keeps the formulas small (x86 is little-endian and allows unaligned access). */
static inline __m128i _mm_loadu_si128(const __m128i * p)
{
	const uint32_t * q = (const uint32_t *)p;
	__m128i r;
	r.w[0] = q[0]; r.w[1] = q[1]; r.w[2] = q[2]; r.w[3] = q[3];
	return (r);
}
static inline __m128i _mm_load_si128(const __m128i * p) { return (_mm_loadu_si128(p)); }
static inline void _mm_storeu_si128(__m128i * p, __m128i a)
{
	uint32_t * q = (uint32_t *)p;
	q[0] = a.w[0]; q[1] = a.w[1]; q[2] = a.w[2]; q[3] = a.w[3];
}
static inline void _mm_store_si128(__m128i * p, __m128i a) { _mm_storeu_si128(p, a); }
static inline __m128i _mm_loadu_si64(const void * p)
{
	const uint8_t * b = p;
	__m128i r;
	r.w[0] = VCW4(b, 0); r.w[1] = VCW4(b, 4); r.w[2] = 0; r.w[3] = 0;
	return (r);
}
static inline __m128i _mm_loadl_epi64(const __m128i * p) { return (_mm_loadu_si64(p)); }
static inline __m128d _mm_load_sd(const double * p) { return (_mm_loadu_si64(p)); }
static inline __m128i _mm_castpd_si128(__m128d a) { return (a); }
static inline __m128i _mm_castps_si128(__m128 a) { return (a); }
static inline __m128 _mm_castsi128_ps(__m128i a) { return (a); }
static inline __m128 _mm_move_ss(__m128 a, __m128 b) { a.w[0] = b.w[0]; return (a); }
static inline __m128i _mm_setzero_si128(void) { __m128i r = {{0, 0, 0, 0}}; return (r); }
static inline __m128i _mm_set_epi32(int d, int c, int b, int a) { __m128i r = {{(uint32_t)a, (uint32_t)b, (uint32_t)c, (uint32_t)d}}; return (r); }
static inline __m128i _mm_set_epi8(char b15, char b14, char b13, char b12, char b11, char b10, char b9, char b8,
    char b7, char b6, char b5, char b4, char b3, char b2, char b1, char b0)
{
	uint8_t b[16] = { (uint8_t)b0, (uint8_t)b1, (uint8_t)b2, (uint8_t)b3, (uint8_t)b4, (uint8_t)b5, (uint8_t)b6, (uint8_t)b7,
	    (uint8_t)b8, (uint8_t)b9, (uint8_t)b10, (uint8_t)b11, (uint8_t)b12, (uint8_t)b13, (uint8_t)b14, (uint8_t)b15 };
	return (vcfromb(b));
}
#define VC_MAP4(E) __m128i r; r.w[0] = E(0); r.w[1] = E(1); r.w[2] = E(2); r.w[3] = E(3); return (r)
#define VC_E(i) (a.w[i] + b.w[i])
static inline __m128i _mm_add_epi32(__m128i a, __m128i b) { VC_MAP4(VC_E); }
#undef VC_E
#define VC_E(i) (a.w[i] ^ b.w[i])
static inline __m128i _mm_xor_si128(__m128i a, __m128i b) { VC_MAP4(VC_E); }
#undef VC_E
#define VC_E(i) (a.w[i] | b.w[i])
static inline __m128i _mm_or_si128(__m128i a, __m128i b) { VC_MAP4(VC_E); }
#undef VC_E
#define VC_E(i) (a.w[i] & b.w[i])
static inline __m128i _mm_and_si128(__m128i a, __m128i b) { VC_MAP4(VC_E); }
#undef VC_E
#define VC_E(i) (n > 31 || n < 0 ? 0 : a.w[i] << n)
static inline __m128i _mm_slli_epi32(__m128i a, int n) { VC_MAP4(VC_E); }
#undef VC_E
#define VC_E(i) (n > 31 || n < 0 ? 0 : a.w[i] >> n)
static inline __m128i _mm_srli_epi32(__m128i a, int n) { VC_MAP4(VC_E); }
#undef VC_E
#define VC_E(i) (n > 15 || n < 0 ? 0 : (((a.w[i] & 0xffff) << n) & 0xffff) | ((a.w[i] >> 16) << (n + 16)))
static inline __m128i _mm_slli_epi16(__m128i a, int n) { VC_MAP4(VC_E); }
#undef VC_E
#define VC_E(i) (n > 15 || n < 0 ? 0 : ((a.w[i] & 0xffff) >> n) | (((a.w[i] >> 16) >> n) << 16))
static inline __m128i _mm_srli_epi16(__m128i a, int n) { VC_MAP4(VC_E); }
#undef VC_E
static inline __m128i _mm_srli_epi64(__m128i a, int n)
{
	__m128i r;
	uint64_t l = (uint64_t)a.w[0] | ((uint64_t)a.w[1] << 32), h = (uint64_t)a.w[2] | ((uint64_t)a.w[3] << 32);
	l = n > 63 || n < 0 ? 0 : l >> n; h = n > 63 || n < 0 ? 0 : h >> n;
	r.w[0] = (uint32_t)l; r.w[1] = (uint32_t)(l >> 32); r.w[2] = (uint32_t)h; r.w[3] = (uint32_t)(h >> 32);
	return (r);
}
static inline __m128i vcshl(__m128i a, int n)	/* Bytes. */
{
	uint8_t b[16];
	int i;
	for (i = 0; i < 16; i++) b[i] = (i - n >= 0 && n >= 0) ? vcb(a, i - n) : 0;
	return (vcfromb(b));
}
static inline __m128i vcshr(__m128i a, int n)
{
	uint8_t b[16];
	int i;
	for (i = 0; i < 16; i++) b[i] = (i + n < 16 && n >= 0) ? vcb(a, i + n) : 0;
	return (vcfromb(b));
}
/* Whole-word shifts are done word by word to keep the formulas small. */
static inline __m128i _mm_slli_si128(__m128i a, int n)
{
	__m128i r = {{0, 0, 0, 0}};
	int i;
	if (n < 0 || n % 4) return (vcshl(a, n));
	for (i = n / 4; i < 4; i++) r.w[i] = a.w[i - n / 4];
	return (r);
}
static inline __m128i _mm_srli_si128(__m128i a, int n)
{
	__m128i r = {{0, 0, 0, 0}};
	int i;
	if (n < 0 || n % 4) return (vcshr(a, n));
	for (i = 0; i + n / 4 < 4; i++) r.w[i] = a.w[i + n / 4];
	return (r);
}
#define _mm_bslli_si128 _mm_slli_si128
#define _mm_bsrli_si128 _mm_srli_si128
#define VC_E(i) (a.w[(m >> (2 * i)) & 3])
static inline __m128i _mm_shuffle_epi32(__m128i a, int m) { VC_MAP4(VC_E); }
#undef VC_E
#define VCH(a, i) (((a).w[(i) / 2] >> (16 * ((i) % 2))) & 0xffff)
static inline __m128i _mm_shufflelo_epi16(__m128i a, int m)
{
	__m128i r = a;
	r.w[0] = VCH(a, m & 3) | (VCH(a, (m >> 2) & 3) << 16);
	r.w[1] = VCH(a, (m >> 4) & 3) | (VCH(a, (m >> 6) & 3) << 16);
	return (r);
}
static inline __m128i _mm_shufflehi_epi16(__m128i a, int m)
{
	__m128i r = a;
	r.w[2] = VCH(a, 4 + (m & 3)) | (VCH(a, 4 + ((m >> 2) & 3)) << 16);
	r.w[3] = VCH(a, 4 + ((m >> 4) & 3)) | (VCH(a, 4 + ((m >> 6) & 3)) << 16);
	return (r);
}
static inline __m128i _mm_unpacklo_epi64(__m128i a, __m128i b) { __m128i r = {{a.w[0], a.w[1], b.w[0], b.w[1]}}; return (r); }
static inline __m128i _mm_unpackhi_epi64(__m128i a, __m128i b) { __m128i r = {{a.w[2], a.w[3], b.w[2], b.w[3]}}; return (r); }
/* SSSE3. */
static inline __m128i _mm_shuffle_epi8(__m128i a, __m128i m)
{
	uint8_t b[16];
	int i;
	for (i = 0; i < 16; i++) b[i] = (vcb(m, i) & 0x80) ? 0 : vcb(a, vcb(m, i) & 15);
	return (vcfromb(b));
}
static inline __m128i _mm_alignr_epi8(__m128i a, __m128i b, int n)
{
	uint8_t r[16];
	int i;
	for (i = 0; i < 16; i++)
		r[i] = i + n < 16 ? vcb(b, i + n) : i + n < 32 ? vcb(a, i + n - 16) : 0;
	return (vcfromb(r));
}
/* SHA. */
#define VCR(x, n) (((x) >> (n)) | ((x) << (32 - (n))))
#define VCs0(x) (VCR(x, 7) ^ VCR(x, 18) ^ ((x) >> 3))
#define VCs1(x) (VCR(x, 17) ^ VCR(x, 19) ^ ((x) >> 10))
#define VCS0(x) (VCR(x, 2) ^ VCR(x, 13) ^ VCR(x, 22))
#define VCS1(x) (VCR(x, 6) ^ VCR(x, 11) ^ VCR(x, 25))
#define VCCH(x, y, z) (((x) & ((y) ^ (z))) ^ (z))
#define VCMAJ(x, y, z) (((x) & ((y) | (z))) | ((y) & (z)))
static inline __m128i _mm_sha256msg1_epu32(__m128i a, __m128i b)
{
	__m128i r = {{a.w[0] + VCs0(a.w[1]), a.w[1] + VCs0(a.w[2]), a.w[2] + VCs0(a.w[3]), a.w[3] + VCs0(b.w[0])}};
	return (r);
}
static inline __m128i _mm_sha256msg2_epu32(__m128i a, __m128i b)
{
	__m128i r;
	r.w[0] = a.w[0] + VCs1(b.w[2]);
	r.w[1] = a.w[1] + VCs1(b.w[3]);
	r.w[2] = a.w[2] + VCs1(r.w[0]);
	r.w[3] = a.w[3] + VCs1(r.w[1]);
	return (r);
}
#ifdef VC_RNDS2_GHOST
__m128i _mm_sha256rnds2_epu32(__m128i cdgh, __m128i abef, __m128i k);
#else
static inline __m128i _mm_sha256rnds2_epu32(__m128i cdgh, __m128i abef, __m128i k)
{
	uint32_t A = abef.w[3], B = abef.w[2], C = cdgh.w[3], D = cdgh.w[2];
	uint32_t E = abef.w[1], F = abef.w[0], G = cdgh.w[1], H = cdgh.w[0], t1, t2;
	__m128i r;
	t1 = H + VCS1(E) + VCCH(E, F, G) + k.w[0];
	t2 = VCS0(A) + VCMAJ(A, B, C);
	H = G; G = F; F = E; E = D + t1; D = C; C = B; B = A; A = t1 + t2;
	t1 = H + VCS1(E) + VCCH(E, F, G) + k.w[1];
	t2 = VCS0(A) + VCMAJ(A, B, C);
	H = G; G = F; F = E; E = D + t1; D = C; C = B; B = A; A = t1 + t2;
	r.w[3] = A; r.w[2] = B; r.w[1] = E; r.w[0] = F;
	return (r);
}
#endif
/* AES; the S-box is an uninterpreted function (it is the same in the standard). */
#ifdef VC_SBOX
#define vc_sbox(x) VC_SBOX(x)
#else
uint8_t __CPROVER_uninterpreted_sbox(uint8_t);
#define vc_sbox(x) __CPROVER_uninterpreted_sbox(x)
#endif
static inline uint8_t vc_xtime(uint8_t x) { return ((uint8_t)((uint8_t)(x << 1) ^ ((x & 0x80) ? 0x1b : 0))); }
/* SubBytes then ShiftRows: byte r + 4c of the result is S(byte r + 4((c + r) mod 4)). */
static inline void vc_subshift(const uint8_t in[16], uint8_t out[16])
{
	int r, c;
	for (c = 0; c < 4; c++)
		for (r = 0; r < 4; r++)
			out[r + 4 * c] = vc_sbox(in[r + 4 * ((c + r) % 4)]);
}
static inline void vc_mix(const uint8_t in[16], uint8_t out[16])
{
	int c;
	for (c = 0; c < 4; c++) {
		uint8_t a = in[4 * c], b = in[4 * c + 1], d = in[4 * c + 2], e = in[4 * c + 3];
		out[4 * c] = vc_xtime(a) ^ vc_xtime(b) ^ b ^ d ^ e;
		out[4 * c + 1] = a ^ vc_xtime(b) ^ vc_xtime(d) ^ d ^ e;
		out[4 * c + 2] = a ^ b ^ vc_xtime(d) ^ vc_xtime(e) ^ e;
		out[4 * c + 3] = vc_xtime(a) ^ a ^ b ^ d ^ vc_xtime(e);
	}
}
static inline uint32_t vc_subword(uint32_t x)
{
	return ((uint32_t)vc_sbox((uint8_t)x) | ((uint32_t)vc_sbox((uint8_t)(x >> 8)) << 8) |
	    ((uint32_t)vc_sbox((uint8_t)(x >> 16)) << 16) | ((uint32_t)vc_sbox((uint8_t)(x >> 24)) << 24));
}
#ifdef VC_AES_GHOST
/* The unit supplies these, with their contracts. */
__m128i _mm_aesenc_si128(__m128i a, __m128i k);
__m128i _mm_aesenclast_si128(__m128i a, __m128i k);
__m128i vc_keygenassist(__m128i a, int rcon);
#define _mm_aeskeygenassist_si128(a, rcon) vc_keygenassist(a, rcon)
#else
static inline __m128i _mm_aesenc_si128(__m128i a, __m128i k)
{
	uint8_t s[16], t[16], u[16];
	_mm_storeu_si128((__m128i *)s, a);
	vc_subshift(s, t);
	vc_mix(t, u);
	return (_mm_xor_si128(vcfromb(u), k));
}
static inline __m128i _mm_aesenclast_si128(__m128i a, __m128i k)
{
	uint8_t s[16], t[16];
	_mm_storeu_si128((__m128i *)s, a);
	vc_subshift(s, t);
	return (_mm_xor_si128(vcfromb(t), k));
}
static inline __m128i _mm_aeskeygenassist_si128(__m128i a, int rcon)
{
	uint32_t s1 = vc_subword(a.w[1]), s3 = vc_subword(a.w[3]);
	__m128i r = {{s1, VCR(s1, 8) ^ (uint32_t)rcon, s3, VCR(s3, 8) ^ (uint32_t)rcon}};
	return (r);
}
#endif
#endif
