#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/sha.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "oracle.h"

unsigned long or_tries;
static uint64_t st;

void or_sha256(const uint8_t * in, size_t len, uint8_t out[32])
{
	EVP_Digest(in, len, out, NULL, EVP_sha256(), NULL);
}
void or_hmac(const uint8_t * k, size_t klen, const uint8_t * in, size_t len, uint8_t out[32])
{
	unsigned int n;
	HMAC(EVP_sha256(), k, (int)klen, in, len, out, &n);
}
void or_pbkdf2(const uint8_t * p, size_t plen, const uint8_t * s, size_t slen, uint64_t c, uint8_t * out, size_t outlen)
{
	PKCS5_PBKDF2_HMAC((const char *)p, (int)plen, s, (int)slen, (int)c, EVP_sha256(), (int)outlen, out);
}
void or_aes(const uint8_t * key, size_t klen, const uint8_t in[16], uint8_t out[16])
{
	EVP_CIPHER_CTX * c = EVP_CIPHER_CTX_new();
	int n;
	EVP_EncryptInit_ex(c, klen == 32 ? EVP_aes_256_ecb() : EVP_aes_128_ecb(), NULL, key, NULL);
	EVP_CIPHER_CTX_set_padding(c, 0);
	EVP_EncryptUpdate(c, out, &n, in, 16);
	EVP_CIPHER_CTX_free(c);
}
void or_ctr(const uint8_t * key, size_t klen, uint64_t nonce, const uint8_t * in, uint8_t * out, size_t len)
{
	size_t i, j;
	uint8_t blk[16], ks[16];
	for (i = 0; i < len; i++) {
		if (i % 16 == 0) {
			for (j = 0; j < 8; j++) {
				blk[j] = (uint8_t)(nonce >> (56 - 8 * j));
				blk[8 + j] = (uint8_t)((uint64_t)(i / 16) >> (56 - 8 * j));
			}
			or_aes(key, klen, blk, ks);
		}
		out[i] = in[i] ^ ks[i % 16];
	}
}
uint64_t or_rnd(void)
{
	if (!st) {
		const char * s = getenv("VC_SEED");
		st = (s ? strtoull(s, NULL, 10) : 1) * 0x9e3779b97f4a7c15ULL + 1;
	}
	st ^= st << 13; st ^= st >> 7; st ^= st << 17;
	return (st * 0x2545F4914F6CDD1DULL);
}
void or_fill(void * p, size_t n)
{
	uint8_t * b = p;
	while (n--) *b++ = (uint8_t)(or_rnd() >> 32);
}
void or_done(void) { printf("TRIES %lu\n", or_tries); exit(0); }
void or_fail(const char * fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	printf("TRIES %lu\nVIOLATED: ", or_tries);
	vprintf(fmt, ap);
	va_end(ap);
	printf("\n");
	exit(1);
}
void or_hex(const char * name, const void * p, size_t n)
{
	const uint8_t * b = p;
	printf("%s=", name);
	while (n--) printf("%02x", *b++);
	printf("\n");
}
