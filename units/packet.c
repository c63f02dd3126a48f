/*
 * Packet encryption and acceptance (lib/proto/proto_crypt.c), contracts for
 * proto_crypt_enc and proto_crypt_dec.
 *
 * Callees are replaced by executable contracts: AES-CTR adds an unknown
 * keystream KS(key, nonce); HMAC-SHA256 is an unknown function of (key,
 * message).  Both are tracked at one arbitrary position g.pos, which the
 * prover chooses: what holds for it holds for every byte.
 */
#include "vc.h"
#include "lib/proto/proto_crypt.c"
#include "stub_misc.h"

#define CTLEN (PCRYPT_MAXDSZ + 4)

static struct {
	size_t pos;		/* Arbitrary position in 0 .. CTLEN + 8. */
	uint8_t ks;		/* Keystream byte at pos. */
	uint8_t ksl[4];		/* Keystream bytes at 1024 .. 1027. */
	int nctr;		/* Calls to crypto_aesctr_buf. */
	const struct crypto_aes_key * ctrkey;
	uint64_t ctrnonce;
	int nmac;		/* Calls to HMAC_SHA256_Final. */
	uint64_t mackey;	/* Which key the MAC was computed with. */
	uint64_t maclen;	/* Length of the MACed message. */
	uint8_t macat;		/* Byte at pos of the MACed message. */
	uint8_t dig[32];	/* The resulting MAC. */
} g;

/* Ghost view of an HMAC context. */
struct ghmac {
	uint64_t key;
	uint64_t len;
	uint8_t at;
};

/* Contract of crypto_aesctr_buf (proved in unit aesctr). */
void
crypto_aesctr_buf(const struct crypto_aes_key * key, uint64_t nonce,
    const uint8_t * in, uint8_t * out, size_t len)
{
	uint8_t b, l[4];
	size_t i;

	vc_requires(len == CTLEN, "stream covers data and length");
	vc_requires(VC_R(in, len), "aesctr input");
	vc_requires(VC_RW(out, len), "aesctr output");
	g.nctr++;
	g.ctrkey = key;
	g.ctrnonce = nonce;
	b = in[g.pos < CTLEN ? g.pos : 0];
	memcpy(l, &in[PCRYPT_MAXDSZ], 4);
	__CPROVER_havoc_slice(out, CTLEN);
	for (i = 0; i < 4; i++)
		vc_assume(out[PCRYPT_MAXDSZ + i] == (l[i] ^ g.ksl[i]));
	if (g.pos < CTLEN)
		vc_assume(out[g.pos] == (b ^ g.ks));
}

/* Contracts of the HMAC functions (proved in unit hmac). */
void
HMAC_SHA256_Update(HMAC_SHA256_CTX * ctx, const void * in, size_t len)
{
	struct ghmac * c = (struct ghmac *)ctx;

	vc_requires(VC_R(in, len), "HMAC input");
	if (g.pos >= c->len && g.pos - c->len < len)
		c->at = ((const uint8_t *)in)[g.pos - c->len];
	c->len += len;
}

void
HMAC_SHA256_Final(uint8_t digest[32], HMAC_SHA256_CTX * ctx)
{
	struct ghmac * c = (struct ghmac *)ctx;

	vc_requires(VC_RW(digest, 32), "HMAC output");
	g.nmac++;
	g.mackey = c->key;
	g.maclen = c->len;
	g.macat = c->at;
	memcpy(digest, g.dig, 32);
	__CPROVER_havoc_slice(ctx, sizeof(*ctx));
}

#define GH(k) ((const struct ghmac *)&(k)->ctx_init)
#define BE64(x, i) ((uint8_t)((uint64_t)(x) >> (56 - 8 * (i))))
#define BE32(x, i) ((uint8_t)((uint32_t)(x) >> (24 - 8 * (i))))
/* Byte i of the plaintext block: data, zero padding, length. */
#define PLAIN(p, len, i) \
    ((i) < (len) ? (p)[(i) < (len) ? (i) : 0] : \
    (i) < PCRYPT_MAXDSZ ? 0 : BE32(len, (i) - PCRYPT_MAXDSZ))
#define SAME32(a, b) ( \
    ((const uint64_t *)(a))[0] == ((const uint64_t *)(b))[0] && \
    ((const uint64_t *)(a))[1] == ((const uint64_t *)(b))[1] && \
    ((const uint64_t *)(a))[2] == ((const uint64_t *)(b))[2] && \
    ((const uint64_t *)(a))[3] == ((const uint64_t *)(b))[3])

#ifdef U_ENC
void
c_enc(uint8_t * ibuf, size_t len, uint8_t obuf[PCRYPT_ESZ],
    struct proto_keys * k)
__CPROVER_requires(len <= PCRYPT_MAXDSZ)
__CPROVER_requires(__CPROVER_is_fresh(ibuf, len))
__CPROVER_requires(__CPROVER_is_fresh(obuf, PCRYPT_ESZ))
__CPROVER_requires(__CPROVER_is_fresh(k, sizeof(*k)))
__CPROVER_requires(GH(k)->len == 0 && g.nmac == 0 && g.nctr == 0)
__CPROVER_requires(g.pos < CTLEN + 8)
__CPROVER_requires(g.pos < PCRYPT_MAXDSZ || g.pos >= CTLEN || g.ks == g.ksl[g.pos - PCRYPT_MAXDSZ])
__CPROVER_assigns(__CPROVER_object_upto(obuf, PCRYPT_ESZ), k->pnum, g)
/* Keystream: this connection's key, this packet's number. */
__CPROVER_ensures(g.nctr == 1 && g.ctrkey == k->k_aes && g.ctrnonce == __CPROVER_old(k->pnum))
/* Ciphertext of data || zeroes || be32(len). */
__CPROVER_ensures(g.pos < CTLEN ==> obuf[g.pos] == (PLAIN(ibuf, len, g.pos) ^ g.ks))
/* MAC of ciphertext || be64(packet number), under this connection's key. */
__CPROVER_ensures(g.nmac == 1 && g.mackey == GH(k)->key && g.maclen == CTLEN + 8)
__CPROVER_ensures(g.pos < CTLEN ==> g.macat == obuf[g.pos])
__CPROVER_ensures(g.pos >= CTLEN ==> g.macat == BE64(__CPROVER_old(k->pnum), g.pos - CTLEN))
__CPROVER_ensures(SAME32(&obuf[CTLEN], g.dig))
/* The next packet has the next number. */
__CPROVER_ensures(k->pnum == __CPROVER_old(k->pnum) + 1)
;

void
harness(void)
{
	uint8_t * ibuf;
	size_t len;
	uint8_t * obuf;
	struct proto_keys * k;

	nd_fill(&g, sizeof(g));
	proto_crypt_enc(ibuf, len, obuf, k);
	vc_reach("proto_crypt_enc returns");
	if (len == 0)
		vc_reach("empty packet");
	if (len == PCRYPT_MAXDSZ)
		vc_reach("full packet");
}
#endif

#ifdef U_DEC
static uint8_t o_ct;		/* ibuf[pos] before the call. */
static uint8_t o_len[4];	/* ibuf[1024 .. 1027] before the call. */
static uint8_t o_mac[32];	/* ibuf[1028 .. 1059] before the call. */
static uint8_t * o_obuf;

#define LENB(i) ((uint32_t)(o_len[i] ^ g.ksl[i]) << (24 - 8 * (i)))
#define DLEN (LENB(0) | LENB(1) | LENB(2) | LENB(3))
#define MACOK SAME32(o_mac, g.dig)

ssize_t
c_dec(uint8_t ibuf[PCRYPT_ESZ], uint8_t * obuf, struct proto_keys * k)
__CPROVER_requires(__CPROVER_is_fresh(ibuf, PCRYPT_ESZ))
__CPROVER_requires(__CPROVER_is_fresh(obuf, PCRYPT_MAXDSZ))
__CPROVER_requires(__CPROVER_is_fresh(k, sizeof(*k)))
__CPROVER_requires(GH(k)->len == 0 && g.nmac == 0 && g.nctr == 0)
__CPROVER_requires(g.pos < CTLEN + 8)
__CPROVER_requires(g.pos < PCRYPT_MAXDSZ || g.pos >= CTLEN || g.ks == g.ksl[g.pos - PCRYPT_MAXDSZ])
__CPROVER_requires(g.pos < CTLEN ==> o_ct == ibuf[g.pos])
__CPROVER_requires(o_len[0] == ibuf[1024] && o_len[1] == ibuf[1025] && o_len[2] == ibuf[1026] && o_len[3] == ibuf[1027])
__CPROVER_requires(SAME32(o_mac, &ibuf[CTLEN]))
__CPROVER_assigns(__CPROVER_object_upto(ibuf, PCRYPT_ESZ), __CPROVER_object_upto(obuf, PCRYPT_MAXDSZ), k->pnum, g)
/* The MAC is computed over ciphertext || be64(next number), with our key. */
__CPROVER_ensures(g.nmac == 1 && g.mackey == GH(k)->key && g.maclen == CTLEN + 8)
__CPROVER_ensures(g.pos < CTLEN ==> g.macat == o_ct)
__CPROVER_ensures(g.pos >= CTLEN ==> g.macat == BE64(__CPROVER_old(k->pnum), g.pos - CTLEN))
/* Reject anything else; reject an impossible length. */
__CPROVER_ensures(!MACOK ==> __CPROVER_return_value == -1)
__CPROVER_ensures((MACOK && (DLEN == 0 || DLEN > PCRYPT_MAXDSZ)) ==> __CPROVER_return_value == -1)
/* Accept the genuine packet and deliver exactly its data. */
__CPROVER_ensures((MACOK && DLEN != 0 && DLEN <= PCRYPT_MAXDSZ) ==> __CPROVER_return_value == (ssize_t)DLEN)
__CPROVER_ensures((__CPROVER_return_value != -1 && g.pos < (size_t)__CPROVER_return_value) ==> obuf[g.pos] == (o_ct ^ g.ks))
__CPROVER_ensures(__CPROVER_return_value != -1 ==> (g.nctr == 1 && g.ctrkey == k->k_aes && g.ctrnonce == __CPROVER_old(k->pnum)))
__CPROVER_ensures(__CPROVER_return_value != -1 ==> k->pnum == __CPROVER_old(k->pnum) + 1)
;

#include "libcperciva/crypto/crypto_verify_bytes.c"

void
harness(void)
{
	uint8_t * ibuf;
	uint8_t * obuf;
	struct proto_keys * k;
	ssize_t rc;

	nd_fill(&g, sizeof(g));
	nd_fill(o_len, 4);
	nd_fill(o_mac, 32);
	o_ct = nd_u8();
	rc = proto_crypt_dec(ibuf, obuf, k);
	if (rc == -1)
		vc_reach("rejected");
	if (rc == 1)
		vc_reach("one byte accepted");
	if (rc == PCRYPT_MAXDSZ)
		vc_reach("full packet accepted");
	if (rc == -1 && MACOK)
		vc_reach("bad length rejected");
}
#endif
