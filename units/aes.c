/*
 * AES (crypto_aes.c, crypto_aes_aesni.c).
 * U_NI: the AES-NI key expansion and encryption against FIPS-197, for every
 *   key and block.
 * U_DISPATCH: which implementation is used, and with what.
 */
#define VC_HW
#define VC_WIPE
#include "vc_alloc.h"
#include "stub_misc.h"

static size_t wipe_len;		/* Objects being freed must be zero so far. */
static void
vc_on_free(void * p)
{
	size_t i = nd_size();

	if (wipe_len != 0 && i < wipe_len)
		vc_assert(((uint8_t *)p)[i] == 0, "key material is erased before it is freed");
}

#ifdef U_NI
/*
 * The S-box and round transformation are opaque: the ghost versions of the
 * AES instructions below check that the j-th one is applied to what FIPS-197
 * applies it to at that point, and return the value which FIPS-197 gets.
 */
#define VC_AES_GHOST
#include "libcperciva/crypto/crypto_aes_aesni.c"
#undef malloc
#undef free

static struct {
	uint32_t w[60];		/* FIPS-197 key schedule, little-endian words. */
	uint32_t t[15][2];	/* SubWord of the words it is applied to. */
	__m128i s[15];		/* State before each round. */
	int nkg, nenc;
	int nk, nr;
} g;
#define STEP(c, msg) do { vc_assert(c, "LEMMA " msg); vc_assume(c); } while (0)
static int
eq(__m128i a, const uint32_t * w)
{
	return (a.w[0] == w[0] && a.w[1] == w[1] && a.w[2] == w[2] && a.w[3] == w[3]);
}

/* Call j = 1, 2, ... is applied to the last complete 4 words of schedule. */
__m128i
vc_keygenassist(__m128i a, int rcon)
{
	int j = ++g.nkg;
	__m128i r;

	STEP(j <= (g.nk == 4 ? 10 : 13), "key schedule step");
	STEP(eq(a, &g.w[g.nk == 4 ? 4 * (j - 1) : 4 * j]), "key schedule step works on the previous round key");
	r.w[0] = g.t[j][0];
	r.w[1] = VCR(g.t[j][0], 8) ^ (uint32_t)rcon;
	r.w[2] = g.t[j][1];
	r.w[3] = VCR(g.t[j][1], 8) ^ (uint32_t)rcon;
	return (r);
}

__m128i
_mm_aesenc_si128(__m128i a, __m128i k)
{
	int r = ++g.nenc;

	STEP(r < g.nr, "number of rounds");
	STEP(eq(a, g.s[r - 1].w), "round works on the previous state");
	STEP(eq(k, &g.w[4 * r]), "round uses its round key");
	return (g.s[r]);
}

__m128i
_mm_aesenclast_si128(__m128i a, __m128i k)
{
	int r = ++g.nenc;

	STEP(r == g.nr, "last round");
	STEP(eq(a, g.s[r - 1].w), "last round works on the previous state");
	STEP(eq(k, &g.w[4 * r]), "last round uses the last round key");
	return (g.s[r]);
}

void
harness(void)
{
	uint8_t key[32], in[16], out[16], rcon = 1;
	uint32_t t;
	void * k;
	int i, j;

	for (i = 0; i < KL; i++)
		key[i] = nd_u8();
	for (i = 0; i < 16; i++)
		in[i] = nd_u8();
	for (i = 0; i < 15; i++) {
		g.t[i][0] = nd_u32();
		g.t[i][1] = nd_u32();
		for (j = 0; j < 4; j++)
			g.s[i].w[j] = nd_u32();
	}
	/* FIPS-197 section 5.2; t[j][1] is SubWord of the word which the j-th call looks at. */
	g.nk = KL / 4;
	g.nr = g.nk + 6;
	for (i = 0; i < g.nk; i++)
		g.w[i] = (uint32_t)key[4 * i] | ((uint32_t)key[4 * i + 1] << 8) | ((uint32_t)key[4 * i + 2] << 16) | ((uint32_t)key[4 * i + 3] << 24);
	for (; i < 4 * (g.nr + 1); i++) {
		t = g.w[i - 1];
		/* Word i - 1 is the last word of round key (i - 1) / 4. */
		j = g.nk == 4 ? (i - 1) / 4 + 1 : (i - 1) / 4;
		if (i % g.nk == 0) {	/* SubWord(RotWord(t)) ^ Rcon */
			t = VCR(g.t[j][1], 8) ^ rcon;
			rcon = vc_xtime(rcon);
		} else if (g.nk > 6 && i % g.nk == 4)	/* SubWord(t) */
			t = g.t[j][1];
		g.w[i] = g.w[i - g.nk] ^ t;
	}
	for (i = 0; i < 4; i++)
		g.s[0].w[i] = ((uint32_t)in[4 * i] | ((uint32_t)in[4 * i + 1] << 8) | ((uint32_t)in[4 * i + 2] << 16) | ((uint32_t)in[4 * i + 3] << 24)) ^ g.w[i];
	k = crypto_aes_key_expand_aesni(key, KL);
	if (k == NULL) {
		vc_assert(vc_nfail > 0 && vc_live == 0, "key expansion fails only for lack of memory");
		vc_reach("no memory");
		return;
	}
	crypto_aes_encrypt_block_aesni(in, out, k);
	STEP(g.nenc == g.nr, "all rounds");
	for (i = 0; i < 16; i++)
		vc_assert(out[i] == (uint8_t)(g.s[g.nr].w[i / 4] >> (8 * (i % 4))), "AES-NI encryption equals FIPS-197");
	wipe_len = sizeof(struct crypto_aes_key_aesni);
	crypto_aes_key_free_aesni(k);
	vc_assert(vc_live == 0, "nothing leaked");
	crypto_aes_key_free_aesni(NULL);
	vc_reach("encrypted");
}
#endif

#ifdef U_DISPATCH
#include "libcperciva/crypto/crypto_aes.c"
#undef malloc
#undef free

static struct {
	int feature;		/* The CPU has AES-NI. */
	int hwgood;		/* AES-NI code passes its self-test. */
	int live;		/* Self-test over. */
	uint8_t key[32];
	size_t klen;
	void * hwkey;
	int nhw, nsw, nhwfree, nswset;
	const uint8_t * in;
	uint8_t * out;
} g;
static uint8_t hwobj[8];

int cpusupport_x86_aesni_detect_1(void) { return (g.feature); }
int cpusupport_x86_aesni_present_1, cpusupport_x86_aesni_init_1;

static const struct aes_test * selftest;
static size_t selflen;

void *
crypto_aes_key_expand_aesni(const uint8_t * key, size_t len)
{
	size_t i = nd_range(0, 31);

	vc_assert(g.feature, "AES-NI is used only on CPUs which have it");
	vc_assert(len == 16 || len == 32, "key length");
	vc_requires(VC_R(key, len), "key");
	if (!g.live) {
		selflen = len;
		return (hwobj);
	}
	vc_assert(g.hwgood, "AES-NI is used only after its self-test passed");
	vc_assert(len == g.klen && (i >= len || key[i] == g.key[i]), "the given key is expanded");
	if (nd_bool())
		return (NULL);
	g.hwkey = hwobj;
	return (hwobj);
}

void
crypto_aes_encrypt_block_aesni(const uint8_t in[16], uint8_t out[16], const void * key)
{
	vc_assert(g.feature, "AES-NI is used only on CPUs which have it");
	vc_assert(key == hwobj, "AES-NI is used only with keys expanded for it");
	if (!g.live) {
		memcpy(out, testcases[selflen == 16 ? 0 : 1].ctext, 16);
		if (!g.hwgood)
			out[3] ^= 1;
		return;
	}
	vc_assert(in == g.in && out == g.out, "the given block is encrypted");
	g.nhw++;
}

void
crypto_aes_key_free_aesni(void * key)
{
	if (!g.live)
		return;
	vc_assert(key == NULL || key == hwobj, "AES-NI frees only its own keys");
	g.nhwfree++;
}

int
AES_set_encrypt_key(const unsigned char * userKey, const int bits, AES_KEY * key)
{
	size_t i = nd_range(0, 31);

	vc_requires(VC_RW(key, sizeof(AES_KEY)), "expanded key");
	nd_fill(key, sizeof(AES_KEY));
	if (!g.live) {
		selflen = (size_t)bits / 8;
		return (0);
	}
	vc_assert(bits == (int)(8 * g.klen) && (i >= g.klen || userKey[i] == g.key[i]), "the given key and length are handed to the AES library");
	g.nswset++;
	return (nd_bool() ? -1 : 0);
}

void
AES_encrypt(const unsigned char * in, unsigned char * out, const AES_KEY * key)
{
	vc_requires(VC_R(in, 16) && VC_RW(out, 16) && VC_R(key, sizeof(AES_KEY)), "block");
	vc_assert((const void *)key != (const void *)hwobj, "the AES library never sees an AES-NI key");
	if (!g.live) {
		memcpy(out, testcases[selflen == 16 ? 0 : 1].ctext, 16);
		return;
	}
	vc_assert(in == g.in && out == g.out, "the given block is encrypted");
	g.nsw++;
}

void
harness(void)
{
	struct crypto_aes_key * k;
	uint8_t in[16], out[16];
	int hw, nmemfail;

	g.feature = nd_bool();
	g.hwgood = nd_bool();
	nd_fill(g.key, 32);
	g.klen = nd_bool() ? 16 : 32;
	g.in = in;
	g.out = out;
	hw = crypto_aes_can_use_intrinsics();
	vc_assert(hw == (g.feature && g.hwgood ? 1 : 0), "intrinsics exactly when available and tested");
	vc_assert(vc_live == 0, "the self-test releases its memory");
	g.live = 1;
	nmemfail = vc_nfail;
	k = crypto_aes_key_expand(g.key, g.klen);
	vc_assert(crypto_aes_can_use_intrinsics() == hw, "the choice never changes");
	if (k == NULL) {
		vc_assert(vc_live == 0, "a failed expansion leaks nothing");
		vc_reach("expansion fails");
		crypto_aes_key_free(NULL);
		return;
	}
	vc_assert(hw ? g.hwkey != NULL : g.nswset == 1, "the key is expanded by the implementation in use");
	crypto_aes_encrypt_block(in, out, k);
	vc_assert(g.nhw == hw && g.nsw == !hw, "one implementation encrypts the block");
	wipe_len = hw ? 0 : sizeof(AES_KEY);
	crypto_aes_key_free(k);
	vc_assert(vc_live == 0 && g.nhwfree == hw, "the key is freed");
	if (hw)
		vc_reach("hardware");
	else if (g.feature)
		vc_reach("self-test failed");
	else
		vc_reach("software");
}
#endif
