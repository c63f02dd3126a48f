/* Independent reference implementations (OpenSSL) used only to replay. */
#ifndef ORACLE_H_
#define ORACLE_H_
#include <stddef.h>
#include <stdint.h>
void or_sha256(const uint8_t * in, size_t len, uint8_t out[32]);
void or_hmac(const uint8_t * k, size_t klen, const uint8_t * in, size_t len, uint8_t out[32]);
void or_pbkdf2(const uint8_t * p, size_t plen, const uint8_t * s, size_t slen, uint64_t c, uint8_t * out, size_t outlen);
/* AES-CTR with be64 nonce || be64 block counter, from byte 0. */
void or_ctr(const uint8_t * key, size_t klen, uint64_t nonce, const uint8_t * in, uint8_t * out, size_t len);
void or_aes(const uint8_t * key, size_t klen, const uint8_t in[16], uint8_t out[16]);
uint64_t or_rnd(void);
void or_fill(void * p, size_t n);
extern unsigned long or_tries;
void or_done(void);	/* Print the number of tries; exit 0. */
void or_fail(const char * fmt, ...);	/* Report a violation; exit 1. */
void or_hex(const char * name, const void * p, size_t n);
#endif
