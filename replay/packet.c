/* Replay for P01/P02: the real packet code against OpenSSL. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "lib/proto/proto_crypt.c"
#include "crypto_entropy.h"
#include "oracle.h"
int crypto_entropy_read(uint8_t * b, size_t n) { or_fill(b, n); return (0); }

static const uint64_t pnums[] = {0, 1, 2, 3, 255, 256, 257, 65535, 65536, 65537, 0x7fffffff, 0x80000000, 0xffffffff,
    0x100000000ULL, 0x1000000ffULL, 0xffffffffffULL, 0x123456789abcdefULL, 0xfffffffffffffffeULL};
#define NP (sizeof(pnums) / sizeof(pnums[0]))
static uint8_t dk[128];
static uint8_t in[1024], out[1060], exp_[1060], buf[1060], dec[1024], pl[1028];

static void
expect(const uint8_t * k, uint64_t pnum, const uint8_t * p, size_t len)
{
	uint8_t m[1036];
	int i;
	memset(pl, 0, 1028);
	memcpy(pl, p, len > 1024 ? 1024 : len);
	for (i = 0; i < 4; i++) pl[1024 + i] = (uint8_t)(len >> (24 - 8 * i));
	or_ctr(k, 32, pnum, pl, exp_, 1028);
	memcpy(m, exp_, 1028);
	for (i = 0; i < 8; i++) m[1028 + i] = (uint8_t)(pnum >> (56 - 8 * i));
	or_hmac(k + 32, 32, m, 1036, exp_ + 1028);
}

static void
one(struct proto_keys * E, struct proto_keys * D, const uint8_t * k, uint64_t pnum, size_t len)
{
	ssize_t rc;
	int t;
	size_t pos;
	uint8_t bit;
	or_fill(in, sizeof(in));
	if (or_rnd() % 4 == 0) memset(in, 0, sizeof(in));
	expect(k, pnum, in, len);
	or_tries++;
	if (E->pnum != pnum || D->pnum != pnum)
		or_fail("packet number is %llu/%llu, expected %llu", (unsigned long long)E->pnum, (unsigned long long)D->pnum, (unsigned long long)pnum);
	or_fill(out, sizeof(out));
	proto_crypt_enc(in, len, out, E);
	if (memcmp(out, exp_, 1060)) {
		for (pos = 0; out[pos] == exp_[pos]; pos++) ;
		or_fail("packet %llu of a %zu-byte message differs from the documented format at byte %zu", (unsigned long long)pnum, len, pos);
	}
	/* Corrupt every MAC byte and some others: must be rejected. */
	for (t = 0; t < 40; t++) {
		memcpy(buf, exp_, 1060);
		pos = t < 32 ? 1028 + (size_t)t : or_rnd() % 1060;
		bit = (uint8_t)(1 << (or_rnd() % 8));
		buf[pos] ^= bit;
		D->pnum = pnum;
		or_tries++;
		if ((rc = proto_crypt_dec(buf, dec, D)) != -1)
			or_fail("packet %llu with byte %zu changed by 0x%02x accepted (length %zd)", (unsigned long long)pnum, pos, bit, rc);
	}
	/* Swapped bytes in the MAC. */
	memcpy(buf, exp_, 1060);
	buf[1028] ^= 0x55; buf[1040] ^= 0x55;
	D->pnum = pnum;
	if (proto_crypt_dec(buf, dec, D) != -1) or_fail("packet with two compensating MAC changes accepted");
	/* Replay of neighbouring packet numbers. */
	for (t = -2; t <= 2; t++) {
		if (t == 0) continue;
		expect(k, pnum + (uint64_t)t, in, len ? len : 1);
		memcpy(buf, exp_, 1060);
		D->pnum = pnum;
		or_tries++;
		if (proto_crypt_dec(buf, dec, D) != -1) or_fail("packet %llu accepted as packet %llu", (unsigned long long)(pnum + (uint64_t)t), (unsigned long long)pnum);
	}
	/* Same low bits, different high bits. */
	for (t = 8; t < 64; t += 8) {
		expect(k, pnum ^ (1ULL << t), in, len ? len : 1);
		memcpy(buf, exp_, 1060);
		D->pnum = pnum;
		or_tries++;
		if (proto_crypt_dec(buf, dec, D) != -1) or_fail("packet %llu accepted as packet %llu", (unsigned long long)(pnum ^ (1ULL << t)), (unsigned long long)pnum);
	}
	expect(k, pnum, in, len);
	memcpy(buf, exp_, 1060);
	memset(dec, 0xa5, 1024);
	D->pnum = pnum;
	rc = proto_crypt_dec(buf, dec, D);
	if (len == 0 && rc != -1) or_fail("packet with length 0 accepted (%zd)", rc);
	if (len && rc != (ssize_t)len) or_fail("genuine packet %llu of %zu bytes gives %zd", (unsigned long long)pnum, len, rc);
	if (len && memcmp(dec, in, len)) or_fail("genuine packet %llu of %zu bytes decrypts to other data", (unsigned long long)pnum, len);
	if (len && D->pnum != pnum + 1) or_fail("next packet number after %llu is %llu", (unsigned long long)pnum, (unsigned long long)D->pnum);
}

int
main(void)
{
	static const uint32_t badlen[] = {0, 1025, 1028, 1060, 2048, 65537, 0x01000001, 0x7fffffff, 0x80000001, 0xffffffff, 0x100, 0x10000};
	struct proto_keys * E, * D;
	size_t i, len, b;
	ssize_t rc;
	for (i = 0; i < 2; i++) {
		or_fill(dk, sizeof(dk));
		E = mkkeypair(dk);
		D = mkkeypair(dk);
		if (!E || !D) or_fail("key setup failed");
		if (getenv("VC_len")) {
			len = strtoul(getenv("VC_len"), NULL, 10);
			if (len <= 1024) { one(E, D, dk, 0, len); E->pnum = D->pnum = 0; }
		}
		/* Consecutive packets from the start. */
		for (b = 0; b < 300; b++) one(E, D, dk, b, (b * 7) % 1025);
		for (b = 0; b < NP; b++)
			for (len = 0; len <= 1024; len += (len < 20 || len > 1000) ? 1 : 57 + or_rnd() % 64) {
				E->pnum = D->pnum = pnums[b];
				one(E, D, dk, pnums[b], len);
			}
		for (b = 0; b < sizeof(badlen) / sizeof(badlen[0]); b++) {
			if (badlen[b] > 0 && badlen[b] <= 1024) continue;
			D->pnum = 7;
			expect(dk, 7, in, badlen[b]);
			memcpy(buf, exp_, 1060);
			or_tries++;
			if ((rc = proto_crypt_dec(buf, dec, D)) != -1) or_fail("packet with length field %u accepted: %zd", badlen[b], rc);
		}
		proto_crypt_free(E);
		proto_crypt_free(D);
	}
	or_done();
	return (0);
}
