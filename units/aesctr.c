/*
 * AES-CTR streams (crypto_aesctr.c, crypto_aesctr_shared.c and, with U_NI,
 * crypto_aesctr_aesni.c), over an abstract block cipher.
 *
 * g.pos is one arbitrary byte position of the stream and g.ks the 16
 * keystream bytes of its block, AES(key, be64(nonce) || be64(pos / 16));
 * every other block is arbitrary.  The harness starts from an arbitrary
 * stream state satisfying INV, so any history of calls is covered.
 */
#include "vc.h"
#include "libcperciva/crypto/crypto_aesctr.c"
#include "stub_misc.h"
#ifdef U_NI
#include <wmmintrin.h>
#endif

static struct {
	uint64_t nonce;
	uint64_t pos;
	uint8_t ks[16];
	const struct crypto_aes_key * key;
	int wiped;
} g;
#define BE64(x, i) ((uint8_t)((uint64_t)(x) >> (56 - 8 * ((i) % 8))))

/* Contract of the block cipher. */
static void
block(const uint8_t in[16], uint8_t out[16], const void * key)
{
	uint64_t n = 0, c = 0;
	int i;

	vc_requires(VC_R(in, 16) && VC_RW(out, 16), "block arguments");
	vc_assert(key == (const void *)g.key, "the stream's key is used");
	for (i = 0; i < 8; i++) {
		n = (n << 8) | in[i];
		c = (c << 8) | in[8 + i];
	}
	vc_assert(n == g.nonce, "each counter block starts with the big-endian nonce");
#ifdef VC_CBMC
	for (i = 0; i < 16; i++) {
		uint8_t x = nd_u8();
		out[i] = c == g.pos / 16 ? g.ks[i] : x;
	}
#else
	memcpy(out, g.ks, 16);
	if (c != g.pos / 16)
		out[0] ^= 0x55;
#endif
}

void
crypto_aes_encrypt_block(const uint8_t in[16], uint8_t out[16],
    const struct crypto_aes_key * key)
{
	block(in, out, key);
}

#ifdef U_NI
int crypto_aes_can_use_intrinsics(void) { return (1); }
__m128i
crypto_aes_encrypt_block_aesni_m128i(__m128i in, const void * key)
{
	uint8_t a[16], b[16];

	_mm_storeu_si128((__m128i *)a, in);
	block(a, b, key);
	return (_mm_loadu_si128((const __m128i *)b));
}
#else
int crypto_aes_can_use_intrinsics(void) { return (0); }
#endif

#ifndef MAXLEN
#define MAXLEN 80
#endif
static uint8_t in[MAXLEN], in0[MAXLEN], out[MAXLEN + 16];

void
harness(void)
{
	struct crypto_aesctr S;
	uint64_t c, b;
	size_t len, i, q;
	uint8_t * op, o;
	struct crypto_aes_key * dummy = malloc(1);

	vc_assume(dummy != NULL);
	g.key = dummy;
	g.nonce = nd_u64();
	g.pos = nd_u64();
	nd_fill(g.ks, 16);
	nd_fill(in, MAXLEN);
	nd_fill(out, MAXLEN + 16);
#ifdef LEN
	len = LEN;
#else
	len = nd_range(0, MAXLEN);
#endif
#ifdef INPLACE
	op = in;
#else
	op = out;
#endif
#ifdef U_BUF
	c = 0;
#else
	crypto_aesctr_init2(&S, g.key, g.nonce);
	vc_assert(S.bytectr == 0 && S.pblk[15] == 0xff && S.key == g.key, "a new stream starts at position 0");
	for (i = 0; i < 8; i++)
		vc_assert(S.pblk[i] == BE64(g.nonce, i), "a new stream has its nonce");
	/* Any state satisfying INV. */
	c = nd_u64();
	vc_assume(c <= UINT64_MAX - MAXLEN);
	S.bytectr = c;
	nd_fill(S.buf, 16);
	nd_fill(&S.pblk[8], 8);
	b = (c - 1) / 16;
	if (c == 0)
		vc_assume(S.pblk[15] == 0xff);
	else
		for (i = 8; i < 16; i++)
			vc_assume(S.pblk[i] == BE64(b, i));
	if (c % 16 != 0 && c / 16 == g.pos / 16)
		for (i = 0; i < 16; i++)
			vc_assume(S.buf[i] == g.ks[i]);
#endif
	/* The byte of interest, and a byte which must not change. */
	vc_assume(len == 0 || (g.pos >= c && g.pos - c < len));
	i = len ? (size_t)(g.pos - c) : 0;
	o = in[i];
	q = nd_range(0, MAXLEN - 1);
	vc_assume(q >= len);
#ifndef INPLACE
	q += nd_range(0, 16);
#endif
	{
	uint8_t keep = op[q];
#ifdef U_BUF
	crypto_aesctr_buf(g.key, g.nonce, in, op, len);
#else
	crypto_aesctr_stream(&S, in, op, len);
#endif
	vc_assert(op[q] == keep, "nothing outside the output is written");
	}
	if (len > 0)
		vc_assert(op[i] == (o ^ g.ks[g.pos % 16]), "each byte is combined with the standard keystream byte");
#ifndef U_BUF
	vc_assert(S.bytectr == c + len, "position advances by the length");
	vc_assert(S.key == g.key, "key kept");
	for (i = 0; i < 8; i++)
		vc_assert(S.pblk[i] == BE64(g.nonce, i), "nonce kept");
	c += len;
	b = (c - 1) / 16;
	if (c == 0)
		vc_assert(S.pblk[15] == 0xff, "state invariant");
	else
		for (i = 8; i < 16; i++)
			vc_assert(S.pblk[i] == BE64(b, i), "state invariant: last counter block");
	if (len > 0 && c % 16 != 0 && c / 16 == g.pos / 16)
		for (i = 0; i < 16; i++)
			vc_assert(S.buf[i] == g.ks[i], "state invariant: unused keystream");
#endif
	vc_reach("processed");
#ifndef LEN
	if (len == 1)
		vc_reach("one byte");
	if (len > 33)
		vc_reach("several blocks");
#endif
	free(dummy);
}
