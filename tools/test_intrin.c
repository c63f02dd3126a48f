/* Prints every intrinsic's results on pseudo-random inputs; compiled once with
 * the compiler's headers and once with lib/intrin: the outputs must agree. */
#include <stdio.h>
#include <stdint.h>
#include <string.h>
#ifdef SHIM
static uint8_t sb[256];
#define VC_SBOX(x) sb[x]
static void mksb(void) { /* S-box from the field definition. */
	uint8_t p = 1, q = 1, x;
	do { p = (uint8_t)(p ^ (p << 1) ^ ((p & 0x80) ? 0x1b : 0)); q ^= q << 1; q ^= q << 2; q ^= q << 4; if (q & 0x80) q ^= 0x09;
	x = (uint8_t)(q ^ ((q << 1) | (q >> 7)) ^ ((q << 2) | (q >> 6)) ^ ((q << 3) | (q >> 5)) ^ ((q << 4) | (q >> 4))); sb[p] = x ^ 0x63; } while (p != 1);
	sb[0] = 0x63; }
#else
static void mksb(void) {}
#endif
#include <immintrin.h>
static uint64_t st = 88172645463325252ULL;
static __m128i rnd(void) { uint8_t b[16]; int i; for (i = 0; i < 16; i++) { st ^= st << 13; st ^= st >> 7; st ^= st << 17; b[i] = (uint8_t)(st >> 24); } return (_mm_loadu_si128((const __m128i *)b)); }
static void out(const char * n, __m128i x) { uint8_t b[16]; int i; _mm_storeu_si128((__m128i *)b, x); printf("%s ", n); for (i = 0; i < 16; i++) printf("%02x", b[i]); printf("\n"); }
#define T1(f) out(#f, f(a))
#define T2(f) out(#f, f(a, b))
#define TI(f, n) out(#f #n, f(a, n))
int main(void) { int i; mksb(); for (i = 0; i < 2000; i++) { __m128i a = rnd(), b = rnd(), c = rnd(); uint8_t m[16]; _mm_storeu_si128((__m128i *)m, a);
T2(_mm_add_epi32); T2(_mm_xor_si128); T2(_mm_or_si128); T2(_mm_and_si128); T2(_mm_unpacklo_epi64); T2(_mm_unpackhi_epi64); T2(_mm_shuffle_epi8);
TI(_mm_slli_epi32, 5); TI(_mm_slli_epi32, 25); TI(_mm_srli_epi32, 3); TI(_mm_srli_epi32, 18); TI(_mm_slli_epi16, 8); TI(_mm_srli_epi16, 8); TI(_mm_slli_epi16, 3); TI(_mm_srli_epi16, 3);
TI(_mm_srli_epi64, 17); TI(_mm_srli_epi64, 19); TI(_mm_slli_si128, 4); TI(_mm_slli_si128, 8); TI(_mm_srli_si128, 8); TI(_mm_srli_si128, 4); TI(_mm_slli_si128, 3); TI(_mm_srli_si128, 5);
TI(_mm_shuffle_epi32, 0x1b); TI(_mm_shuffle_epi32, 0xff); TI(_mm_shuffle_epi32, 0xaa); TI(_mm_shuffle_epi32, 0x50); TI(_mm_shuffle_epi32, 0x88); TI(_mm_shufflelo_epi16, 0xb1); TI(_mm_shufflehi_epi16, 0xb1); TI(_mm_shufflelo_epi16, 0x1b);
out("align", _mm_alignr_epi8(a, b, 4)); out("align9", _mm_alignr_epi8(a, b, 9)); T2(_mm_sha256msg1_epu32); T2(_mm_sha256msg2_epu32); out("rnds2", _mm_sha256rnds2_epu32(a, b, c));
T2(_mm_aesenc_si128); T2(_mm_aesenclast_si128); TI(_mm_aeskeygenassist_si128, 0x1b); TI(_mm_aeskeygenassist_si128, 0);
out("movess", _mm_castps_si128(_mm_move_ss(_mm_castsi128_ps(a), _mm_castsi128_ps(b)))); { __m128i z = _mm_loadu_si64(m); out("l64", _mm_unpacklo_epi64(z, z)); } out("set32", _mm_set_epi32(1, -2, 3, (int)m[0])); out("set8", _mm_set_epi8(12,13,14,15,8,9,10,11,4,5,6,7,0,1,2,(char)m[1])); } return 0; }
