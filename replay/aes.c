/* Replay for P03/P04: the real AES and AES-CTR (software and AES-NI) against OpenSSL. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
#include <cpuid.h>
#include <stdint.h>
#pragma GCC push_options
#pragma GCC target("aes,sse2")
#define VC_HW
#include "cpusupport.h"
static const void * watch; static size_t watchlen;
void wfree(void * p)
{
	size_t i;
	if (p && p == watch)
		for (i = 0; i < watchlen; i++)
			if (((uint8_t *)p)[i]) { printf("VIOLATED: key material freed without being erased\n"); fflush(stdout); _exit(1); }
	free(p);
}
#define free wfree
#include "libcperciva/crypto/crypto_aes_aesni.c"
#include "crypto_aesctr.h"
extern const size_t ctr_size;
#pragma GCC pop_options
#include "libcperciva/crypto/crypto_aes.c"
#undef free
#include "oracle.h"
static int mode;
int cpusupport_x86_aesni_detect_1(void) { return (mode); }
int cpusupport_x86_aesni_present_1, cpusupport_x86_aesni_init_1;
static uint8_t A[20000], B[20100], C[20000];

static void
run(void)
{
	struct crypto_aes_key * k;
	struct crypto_aesctr * s;
	uint8_t key[32], in[16], out[16], ref[16];
	size_t kl, n, p, i;
	uint64_t nonce;
	int t;

	for (t = 0; t < 3000; t++) {
		kl = or_rnd() % 2 ? 32 : 16;
		or_fill(key, 32);
		or_fill(in, 16);
		if ((k = crypto_aes_key_expand(key, kl)) == NULL)
			or_fail("key expansion fails");
		crypto_aes_encrypt_block(in, out, k);
		or_aes(key, kl, in, ref);
		or_tries++;
		if (memcmp(out, ref, 16))
			or_fail("AES-%zu block encryption is wrong (implementation %d)", 8 * kl, mode);
		memcpy(out, in, 16);
		crypto_aes_encrypt_block(out, out, k);
		if (memcmp(out, ref, 16))
			or_fail("AES-%zu block encryption in place is wrong (implementation %d)", 8 * kl, mode);
		if (crypto_aes_can_use_intrinsics() != mode)
			or_fail("implementation choice");
		n = t % 50 == 0 ? or_rnd() % 20000 : t % 3 ? or_rnd() % 200 : 1024 + or_rnd() % 13;
		or_fill(A, n);
		or_fill(B, sizeof(B));
		nonce = t % 2 ? or_rnd() : or_rnd() % 70000;
		or_ctr(key, kl, nonce, A, C, n);
		memset(B, 0x33, sizeof(B));
		crypto_aesctr_buf(k, nonce, A, B, n);
		or_tries++;
		if (memcmp(B, C, n))
			or_fail("crypto_aesctr_buf of %zu bytes is wrong (implementation %d)", n, mode);
		for (i = n; i < n + 64; i++)
			if (B[i] != 0x33)
				or_fail("crypto_aesctr_buf writes beyond its output");
		memcpy(B, A, n);
		crypto_aesctr_buf(k, nonce, B, B, n);
		if (memcmp(B, C, n))
			or_fail("crypto_aesctr_buf of %zu bytes in place is wrong (implementation %d)", n, mode);
		if ((s = crypto_aesctr_init(k, nonce)) == NULL)
			or_fail("stream allocation");
		memset(B, 0x33, sizeof(B));
		for (p = 0; p < n; p += i) {
			i = or_rnd() % 2 ? or_rnd() % 40 : or_rnd() % 300;
			if (i > n - p) i = n - p;
			if (or_rnd() % 3)
				crypto_aesctr_stream(s, A + p, B + p, i);
			else {
				memcpy(B + p, A + p, i);
				crypto_aesctr_stream(s, B + p, B + p, i);
			}
		}
		or_tries++;
		if (memcmp(B, C, n))
			or_fail("an AES-CTR stream fed in pieces is wrong (implementation %d)", mode);
		crypto_aesctr_init2(s, k, nonce ^ 1);
		or_ctr(key, kl, nonce ^ 1, A, C, n);
		crypto_aesctr_stream(s, A, B, n);
		if (memcmp(B, C, n))
			or_fail("a reset AES-CTR stream is wrong (implementation %d)", mode);
		watch = s; watchlen = ctr_size;
		crypto_aesctr_free(s);
		watch = k; watchlen = mode ? sizeof(struct crypto_aes_key_aesni) : sizeof(AES_KEY);
		crypto_aes_key_free(k);
		watch = NULL;
	}
}

int
main(void)
{
	int st;
	unsigned ra, rb, rc, rd;
	for (mode = 0; mode < 2; mode++) {
		if (mode == 1 && !(__get_cpuid(1, &ra, &rb, &rc, &rd) && (rc & (1u << 25))))
			continue;
		fflush(stdout);
		if (fork() == 0) {
			run();
			fflush(stdout);
			_exit(0);
		}
		wait(&st);
		if (st != 0)
			return (1);
		or_tries += 9000;
	}
	or_done();
	return (0);
}
