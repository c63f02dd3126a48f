/* Replay for P05/P06/P23: the real SHA-256, HMAC and PBKDF2 against OpenSSL, every implementation. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
#pragma GCC push_options
#pragma GCC target("sha,sse4.1,ssse3,sse2")
#define VC_HW
#include "cpusupport.h"
#define mm_be mm_be_shani
#include "libcperciva/alg/sha256_shani.c"
#undef MSG4
#undef RND4
#undef RNDMSG
#include "libcperciva/alg/sha256_sse2.c"
#pragma GCC pop_options
#undef Ch
#undef Maj
#undef ROTR
#undef S0
#undef S1
#undef s0
#undef s1
#undef RND
#undef RNDr
#undef MSG4
#define Krnd Krnd_sw
#include "libcperciva/alg/sha256.c"
#include "oracle.h"
#include <cpuid.h>
#include "fips_sha256.h"
static int mode;
int cpusupport_x86_shani_detect_1(void) { return (mode == 1); }
int cpusupport_x86_ssse3_detect_1(void) { return (mode == 1); }
int cpusupport_x86_sse2_detect_1(void) { return (mode == 2); }
int cpusupport_x86_shani_present_1, cpusupport_x86_shani_init_1;
int cpusupport_x86_ssse3_present_1, cpusupport_x86_ssse3_init_1;
int cpusupport_x86_sse2_present_1, cpusupport_x86_sse2_init_1;

static const size_t lens[] = {0, 1, 31, 32, 33, 54, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129, 255, 256, 300, 511, 512, 513,
    1000, 1023, 1024, 1028, 1036, 1060, 2047, 2048, 4096, 8191, 8192, 8193, 20000, 70000};
static uint8_t M[70100], K[300], S[700];

static size_t
len_any(size_t max)
{
	size_t l = or_rnd() % 4 ? lens[or_rnd() % (sizeof(lens) / sizeof(lens[0]))] : or_rnd() % 1200;
	return (l > max ? or_rnd() % (max + 1) : l);
}

static void
zero(const char * what, const void * p, size_t n)
{
	size_t i;
	for (i = 0; i < n; i++)
		if (((const uint8_t *)p)[i])
			or_fail("%s not erased (byte %zu)", what, i);
}

static void
run(int secs)
{
	SHA256_CTX c;
	HMAC_SHA256_CTX h;
	uint8_t d[32], e[32], o[400], o2[400];
	size_t n, i, p, kn, sn, on;
	uint64_t cc;
	int t;

	for (t = 0; t < 20000; t++) {
		uint32_t s1[8], s2[8], W[64], T[8];
		or_fill(s1, 32);
		or_fill(M, 64);
		memcpy(s2, s1, 32);
		fips_compress(s1, M);
		if (mode == 1)
			SHA256_Transform_shani(s2, M);
		else if (mode == 2)
			SHA256_Transform_sse2(s2, M, W, T);
		else {
			SHA256_Init(&c);
			memcpy(c.state, s2, 32);
			SHA256_Update(&c, M, 64);
			memcpy(s2, c.state, 32);
		}
		or_tries++;
		if (memcmp(s1, s2, 32))
			or_fail("the compression function is wrong (implementation %d)", mode);
	}
	for (t = 0; t < 3000 * secs; t++) {
		n = len_any(t % 20 ? 1300 : 70000);
		or_fill(M, n);
		or_sha256(M, n, e);
		SHA256_Init(&c);
		for (p = 0; p < n; p += i) {
			i = or_rnd() % 3 ? len_any(n - p) : n - p;
			SHA256_Update(&c, M + p, i);
			if (or_rnd() % 100 == 0) i += 0;
		}
		SHA256_Final(d, &c);
		or_tries++;
		if (memcmp(d, e, 32))
			or_fail("SHA-256 of a %zu-byte message is wrong (implementation %d)", n, mode);
		zero("SHA256 context", &c, sizeof(c));
		SHA256_Buf(M, n, d);
		if (memcmp(d, e, 32))
			or_fail("SHA256_Buf of %zu bytes is wrong (implementation %d)", n, mode);
		kn = or_rnd() % 2 ? 32 : len_any(300);
		or_fill(K, kn);
		or_hmac(K, kn, M, n, e);
		HMAC_SHA256_Init(&h, K, kn);
		for (p = 0; p < n; p += i) {
			i = or_rnd() % 3 ? len_any(n - p) : n - p;
			HMAC_SHA256_Update(&h, M + p, i);
		}
		HMAC_SHA256_Final(d, &h);
		or_tries++;
		if (memcmp(d, e, 32))
			or_fail("HMAC-SHA256 with a %zu-byte key of %zu bytes is wrong (implementation %d)", kn, n, mode);
		zero("HMAC context", &h, sizeof(h));
		HMAC_SHA256_Buf(K, kn, M, n, d);
		if (memcmp(d, e, 32))
			or_fail("HMAC_SHA256_Buf, key %zu, message %zu, is wrong", kn, n);
		if (t % 4 == 0) {
			sn = t % 8 ? (or_rnd() % 2 ? 64 : 320) : len_any(700);
			on = t % 8 ? (or_rnd() % 2 ? 64 : 128) : 1 + or_rnd() % 390;
			cc = t % 3 ? 1 : 1 + or_rnd() % 6;
			or_fill(S, sn);
			memset(o, 0x5a, sizeof(o));
			PBKDF2_SHA256(K, kn, S, sn, cc, o, on);
			or_pbkdf2(K, kn, S, sn, cc, o2, on);
			or_tries++;
			if (memcmp(o, o2, on))
				or_fail("PBKDF2 (password %zu, salt %zu, %llu iterations, %zu bytes) is wrong", kn, sn, (unsigned long long)cc, on);
			for (i = on; i < sizeof(o); i++)
				if (o[i] != 0x5a)
					or_fail("PBKDF2 writes beyond its output");
		}
	}
}

int
main(void)
{
	int st;
	unsigned ra, rb, rc, rd;
	for (mode = 0; mode < 3; mode++) {
		if (mode == 1 && !(__get_cpuid_count(7, 0, &ra, &rb, &rc, &rd) && (rb & (1u << 29)) && __builtin_cpu_supports("ssse3")))
			continue;
		fflush(stdout);
		if (fork() == 0) {
			run(4);
			fflush(stdout);
			_exit(0);
		}
		wait(&st);
		if (st != 0)
			return (1);
		or_tries += 9000;
	}
	/* One message beyond 2^32 bits would take too long here; lengths up to 70000 bytes. */
	or_done();
	return (0);
}
