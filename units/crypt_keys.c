/*
 * Handshake cryptography (proto_crypt.c, crypto_dh.c).
 * U_KEYS: proto_crypt_dhmac, proto_crypt_mkkeys, mkkeypair over the contracts
 *   of PBKDF2, crypto_dh_compute, AES key expansion and HMAC initialization.
 * U_VALIDATE: proto_crypt_dh_validate with the real crypto_dh_sanitycheck,
 *   crypto_verify_bytes and group constant.
 * U_DH: proto_crypt_dh_generate and crypto_dh.c over an algebraic contract
 *   of OpenSSL's BIGNUM functions.
 */
#include "vc_alloc.h"
#include "stub_misc.h"
#include "rfc3526.h"
#include "libcperciva/alg/sha256.h"

static void
nd_bytes(uint8_t * p, size_t n)
{
	size_t i;

	for (i = 0; i < n; i++)
		p[i] = nd_u8();
}

static int
same(const uint8_t * a, const uint8_t * b, size_t n)
{
	size_t i;
	int r = 1;

	for (i = 0; i < n; i++)
		if (a[i] != b[i])
			r = 0;
	return (r);
}

static int
zeros(const uint8_t * a, size_t n)
{
	size_t i;
	int r = 1;

	for (i = 0; i < n; i++)
		if (a[i] != 0)
			r = 0;
	return (r);
}

static struct {
	uint8_t K[32], nc[32], ns[32];	/* Secret, client's and server's nonce. */
	uint8_t yh[288], x[32], y[256];	/* Peer's message, our exponent, shared value. */
	uint8_t dk1[64], dk2[128];	/* What PBKDF2 derives. */
	uint8_t mackey[32], mac[32];
	int nopfs;
	int npbkdf2, ndh, nfail;
} g;

#ifdef U_KEYS
#include "libcperciva/crypto/crypto_verify_bytes.c"
#include "lib/proto/proto_crypt.c"
#undef malloc
#undef free

struct crypto_aes_key { uint8_t key[32]; size_t len; };

void
PBKDF2_SHA256(const uint8_t * passwd, size_t passwdlen, const uint8_t * salt,
    size_t saltlen, uint64_t c, uint8_t * buf, size_t dkLen)
{
	size_t i;

	vc_requires(VC_R(passwd, passwdlen) && VC_R(salt, saltlen) && VC_RW(buf, dkLen), "PBKDF2 buffers");
	vc_assert(passwdlen == 32 && same(passwd, g.K, 32), "keys are derived from the secret");
	vc_assert(c == 1, "one iteration");
	vc_assert(saltlen == 64 || saltlen == 320, "salt is the nonces, or the nonces and the shared value");
	vc_assert(same(salt, g.nc, 32) && same(&salt[32], g.ns, 32), "salt starts with the client's, then the server's nonce");
	if (saltlen == 320) {
		if (g.nopfs)
			vc_assert(zeros(&salt[64], 255) && salt[319] == 1, "without forward secrecy the shared value is 1");
		else
			vc_assert(g.ndh == 1 && same(&salt[64], g.y, 256), "the salt ends with the shared value");
	}
	vc_assert(dkLen <= (saltlen == 64 ? 64 : 128), "bytes derived");
	for (i = 0; i < dkLen; i++)
		buf[i] = saltlen == 64 ? g.dk1[i] : g.dk2[i];
}

int
crypto_dh_compute(const uint8_t pub[CRYPTO_DH_PUBLEN],
    const uint8_t priv[CRYPTO_DH_PRIVLEN], uint8_t key[CRYPTO_DH_KEYLEN])
{

	vc_requires(VC_R(pub, 256) && VC_R(priv, 32) && VC_RW(key, 256), "crypto_dh_compute buffers");
	vc_assert(!g.nopfs, "no exponentiation without forward secrecy");
	vc_assert(same(pub, g.yh, 256) && same(priv, g.x, 32), "the peer's value is raised to our exponent");
	if (nd_bool()) {
		g.nfail++;
		return (-1);
	}
	memcpy(key, g.y, 256);
	g.ndh = 1;
	return (0);
}

struct crypto_aes_key *
crypto_aes_key_expand(const uint8_t * key, size_t len)
{
	struct crypto_aes_key * k;

	vc_requires(len == 16 || len == 32, "AES key length");
	vc_requires(VC_R(key, len), "AES key");
	if ((k = vc_malloc(sizeof(*k))) == NULL)
		return (NULL);
	memcpy(k->key, key, len);
	k->len = len;
	return (k);
}

void
crypto_aes_key_free(struct crypto_aes_key * k)
{

	vc_free(k);
}

/* The context is represented by the key it is made from. */
void
HMAC_SHA256_Init(HMAC_SHA256_CTX * ctx, const void * K, size_t Klen)
{

	vc_requires(VC_RW(ctx, sizeof(*ctx)) && VC_R(K, Klen), "HMAC context");
	vc_assert(Klen == 32, "HMAC key length");
	memset(ctx, 0, sizeof(*ctx));
	memcpy(ctx, K, 32);
}
/* Not reached from the functions under contract here. */
void HMAC_SHA256_Buf(const void * K, size_t Klen, const void * in, size_t len, uint8_t d[32]) { vc_assert(0, "no other HMAC"); }
void HMAC_SHA256_Update(HMAC_SHA256_CTX * c, const void * in, size_t len) { vc_assert(0, "no other HMAC"); }
void HMAC_SHA256_Final(uint8_t d[32], HMAC_SHA256_CTX * c) { vc_assert(0, "no other HMAC"); }
void SHA256_Init(SHA256_CTX * c) { }
void SHA256_Update(SHA256_CTX * c, const void * in, size_t len) { }
void SHA256_Final(uint8_t d[32], SHA256_CTX * c) { }
void crypto_aesctr_buf(const struct crypto_aes_key * k, uint64_t n, const uint8_t * in, uint8_t * out, size_t len) { }
int crypto_dh_sanitycheck(const uint8_t p[256]) { return (0); }
int crypto_dh_generate(uint8_t a[256], uint8_t b[32]) { return (0); }

static void
chk(struct proto_keys * k, const uint8_t * dk, const char * who)
{

	vc_assert(k->k_aes->len == 32 && same(k->k_aes->key, dk, 32), "AES-256 key is its 32 bytes of the derived key");
	vc_assert(same((const uint8_t *)&k->ctx_init, &dk[32], 32), "MAC key is its 32 bytes of the derived key");
	vc_assert(k->pnum == 0, "packets are numbered from 0");
}

void
harness(void)
{
	struct proto_secret K;
	struct proto_keys * c = NULL, * s = NULL;
	uint8_t l[32], r[32], nl[32], nr[32];
	int decr = nd_bool() ? (int)nd_range(1, 255) : 0, rc;

	nd_bytes(g.K, 32);
	nd_bytes(g.nc, 32);
	nd_bytes(g.ns, 32);
	nd_bytes(g.yh, 288);
	nd_bytes(g.x, 32);
	nd_bytes(g.y, 256);
	nd_bytes(g.dk1, 64);
	nd_bytes(g.dk2, 128);
	g.nopfs = nd_bool();
	memcpy(K.K, g.K, 32);
	memcpy(nl, decr ? g.ns : g.nc, 32);
	memcpy(nr, decr ? g.nc : g.ns, 32);

	proto_crypt_dhmac(&K, nl, nr, l, r, decr);
	vc_assert(same(decr ? r : l, g.dk1, 32), "the client's MAC key is the first half of the derived key");
	vc_assert(same(decr ? l : r, &g.dk1[32], 32), "the server's MAC key is the second half of the derived key");
	vc_assert(same(K.K, g.K, 32), "secret unchanged");

	rc = proto_crypt_mkkeys(&K, nl, nr, g.yh, g.x, g.nopfs, decr, &c, &s);
	if (rc != 0) {
		vc_assert(rc == -1 && g.nfail + vc_nfail > 0, "failure only if an operation failed");
		vc_assert(vc_live == 0, "failure leaves nothing behind");
		vc_reach("failure");
		return;
	}
	vc_assert(g.nfail == 0 && vc_nfail == 0, "a failing operation is reported");
	chk(c, g.dk2, "client-to-server");
	chk(s, &g.dk2[64], "server-to-client");
	vc_assert(c != s && c->k_aes != s->k_aes, "the directions share nothing");
	proto_crypt_free(c);
	proto_crypt_free(s);
	proto_crypt_free(NULL);
	vc_assert(vc_live == 0, "keys can be released");
	vc_reach("keys");
}
#endif

#ifdef U_VALIDATE
#include "libcperciva/crypto/crypto_verify_bytes.c"
#include "libcperciva/crypto/crypto_dh_group14.c"
#include "vc_bn.h"
#include "libcperciva/crypto/crypto_dh.c"
#include "lib/proto/proto_crypt.c"
#undef malloc
#undef free

void
HMAC_SHA256_Buf(const void * K, size_t Klen, const void * in, size_t len, uint8_t d[32])
{

	vc_requires(VC_R(K, Klen) && VC_R(in, len) && VC_RW(d, 32), "HMAC buffers");
	vc_assert(Klen == 32 && same(K, g.mackey, 32), "the MAC is made with the handshake MAC key");
	vc_assert(len == 256 && same(in, g.yh, 256), "the MAC covers exactly the value");
	memcpy(d, g.mac, 32);
}
void HMAC_SHA256_Init(HMAC_SHA256_CTX * c, const void * K, size_t len) { }
void HMAC_SHA256_Update(HMAC_SHA256_CTX * c, const void * in, size_t len) { }
void HMAC_SHA256_Final(uint8_t d[32], HMAC_SHA256_CTX * c) { }
void SHA256_Init(SHA256_CTX * c) { }
void SHA256_Update(SHA256_CTX * c, const void * in, size_t len) { }
void SHA256_Final(uint8_t d[32], SHA256_CTX * c) { }
void PBKDF2_SHA256(const uint8_t * p, size_t pl, const uint8_t * s, size_t sl, uint64_t c, uint8_t * b, size_t l) { }
void crypto_aesctr_buf(const struct crypto_aes_key * k, uint64_t n, const uint8_t * in, uint8_t * out, size_t len) { }
struct crypto_aes_key * crypto_aes_key_expand(const uint8_t * k, size_t l) { return (NULL); }
void crypto_aes_key_free(struct crypto_aes_key * k) { }

void
harness(void)
{
	uint8_t yh[288], key[32];
	int pfs = nd_bool() ? (int)nd_range(1, 255) : 0;
	int below = 0, decided = 0, ok, rc, i;

	nd_bytes(g.mackey, 32);
	nd_bytes(g.mac, 32);
#ifdef VC_NATIVE
	{	/* Near the boundaries, mostly. */
		int w = (int)nd_range(0, 3), d = (int)nd_range(0, 255), m = nd_bool();

		nd_bytes(g.yh, 288);
		if (w == 0)
			memset(g.yh, 0, 256), g.yh[d] = (uint8_t)nd_range(0, 3);
		if (w == 1)
			memcpy(g.yh, rfc3526_14, 256);
		if (w == 2)
			memcpy(g.yh, rfc3526_14, 256), g.yh[d] += (uint8_t)nd_range(0, 2) - 1;
		memcpy(&g.yh[256], g.mac, 32);
		if (m)
			g.yh[256 + d % 32] ^= (uint8_t)nd_u8();
	}
#else
	nd_bytes(g.yh, 288);
#endif
	memcpy(yh, g.yh, 288);
	memcpy(key, g.mackey, 32);
	for (i = 0; i < 256; i++)
		if (!decided && yh[i] != rfc3526_14[i]) {
			below = yh[i] < rfc3526_14[i];
			decided = 1;
		}
	ok = same(&yh[256], g.mac, 32) && below && !(pfs && zeros(yh, 255) && yh[255] == 1);
	rc = proto_crypt_dh_validate(yh, key, pfs);
	vc_assert((rc == 0) == ok, "accepted exactly when authentic, below the modulus, and not 1 if forward secrecy is required");
	vc_assert(same(yh, g.yh, 288) && same(key, g.mackey, 32), "the message is not changed");
	if (rc == 0)
		vc_reach("accepted");
	else if (same(&yh[256], g.mac, 32) && below)
		vc_reach("one refused");
	else if (same(&yh[256], g.mac, 32))
		vc_reach("too large");
	else
		vc_reach("not authentic");
}
#endif

#ifdef U_DH
#include "libcperciva/crypto/crypto_verify_bytes.c"
#include "libcperciva/crypto/crypto_dh_group14.c"
#include "vc_bn.h"
#include "libcperciva/crypto/crypto_dh.c"
#include "lib/proto/proto_crypt.c"
#undef malloc
#undef free

static uint8_t * hmac_at;
void
HMAC_SHA256_Buf(const void * K, size_t Klen, const void * in, size_t len, uint8_t d[32])
{

	vc_requires(VC_R(K, Klen) && VC_R(in, len) && VC_RW(d, 32), "HMAC buffers");
	vc_assert(Klen == 32 && same(K, g.mackey, 32), "the MAC is made with the handshake MAC key");
	vc_assert(len == 256, "the MAC covers the value");
	if (g.nopfs)
		vc_assert(zeros(in, 255) && ((const uint8_t *)in)[255] == 1, "the MAC is of the value 1");
	else
		vc_assert(bn_is_res(in), "the MAC is of the generated value");
	memcpy(d, g.mac, 32);
}
void HMAC_SHA256_Init(HMAC_SHA256_CTX * c, const void * K, size_t len) { }
void HMAC_SHA256_Update(HMAC_SHA256_CTX * c, const void * in, size_t len) { }
void HMAC_SHA256_Final(uint8_t d[32], HMAC_SHA256_CTX * c) { }
void SHA256_Init(SHA256_CTX * c) { }
void SHA256_Update(SHA256_CTX * c, const void * in, size_t len) { }
void SHA256_Final(uint8_t d[32], SHA256_CTX * c) { }
void PBKDF2_SHA256(const uint8_t * p, size_t pl, const uint8_t * s, size_t sl, uint64_t c, uint8_t * b, size_t l) { }
void crypto_aesctr_buf(const struct crypto_aes_key * k, uint64_t n, const uint8_t * in, uint8_t * out, size_t len) { }
struct crypto_aes_key * crypto_aes_key_expand(const uint8_t * k, size_t l) { return (NULL); }
void crypto_aes_key_free(struct crypto_aes_key * k) { }

void
harness(void)
{
	uint8_t yh[288], x[32], pub[256], key[256];
	int rc, what = (int)nd_range(0, 2);

	nd_bytes(g.mackey, 32);
	nd_bytes(g.mac, 32);
	bn_setup();
	if (what == 2) {
		/* Agreement: the peer's value to the power of our exponent. */
		memcpy(x, bn.priv, 32);
		memcpy(pub, bn.pub, 256);
		bn.havepriv = 1;
		bn.base = BN_BASE_PUB;
		rc = crypto_dh_compute(pub, x, key);
		vc_assert(same(pub, bn.pub, 256) && same(x, bn.priv, 32), "inputs unchanged");
		vc_assert((rc == 0) == (bn.nfail == 0) && (rc == 0 || rc == -1), "fails exactly when a step failed");
		vc_assert(bn.live == 0, "nothing leaked");
		if (rc == 0) {
			vc_assert(bn.exported == 1 && bn_is_res(key), "the key is the 256-byte big-endian result");
			vc_reach("agreed");
		}
		return;
	}
	/* Generation. */
	g.nopfs = what == 1;
	bn.base = BN_BASE_TWO;
	rc = proto_crypt_dh_generate(yh, x, g.mackey, g.nopfs ? (int)nd_range(1, 255) : 0);
	vc_assert((rc == 0) == (bn.nfail == 0) && (rc == 0 || rc == -1), "fails exactly when a step failed");
	vc_assert(bn.live == 0, "nothing leaked");
	if (rc != 0) {
		vc_reach("failed");
		return;
	}
	vc_assert(same(&yh[256], g.mac, 32), "the value is followed by its MAC");
	if (g.nopfs) {
		vc_assert(zeros(yh, 255) && yh[255] == 1, "without forward secrecy the value is 1");
		vc_reach("one");
		return;
	}
	vc_assert(bn.havepriv && same(x, bn.priv, 32), "the exponent is 32 fresh random bytes");
	vc_assert(bn.exported == 1 && bn_is_res(yh), "the value is the 256-byte big-endian result");
	vc_reach("generated");
}
#endif
