/*
 * Contracts of OpenSSL's BIGNUM functions, as algebra: a number is one of
 *   LIN   c + t * 2^256 + p * priv + b * blind  (integer coefficients),
 *   MOD   the group modulus,
 *   BASE  the peer's public value,
 *   POW   base^LIN mod the group modulus,
 *   NONE  anything else.
 * Every function may fail; what is alive is counted.
 */
#ifndef VC_BN_H_
#define VC_BN_H_
#include "vc.h"
#include <openssl/bn.h>
#include <openssl/err.h>
enum { BN_K_NONE, BN_K_LIN, BN_K_MOD, BN_K_BASE, BN_K_POW };
enum { BN_BASE_TWO = 1, BN_BASE_PUB };
struct bignum_st { int kind; long c, t, p, b; int base; };
struct bignum_ctx { int x; };
static struct {
	uint8_t priv[32], blind[32], pub[256], res[256];
	int rlen;		/* Significant bytes of res. */
	int j;			/* The (arbitrary) byte of res which is followed. */
	int havepriv, nblind;
	int base;		/* Which base the caller must use. */
	int exported, nfail, live;
} bn;

static int
bn_same(const uint8_t * a, const uint8_t * b, int n)
{
	int i, r = 1;

	for (i = 0; i < n; i++)
		if (a[i] != b[i])
			r = 0;
	return (r);
}
static void
bn_setup(void)
{
	int i;

	for (i = 0; i < 32; i++) {
		bn.priv[i] = nd_u8();
		bn.blind[i] = nd_u8();
	}
	bn.rlen = (int)nd_range(0, 256);
	bn.j = (int)nd_range(0, 255);
	for (i = 0; i < 256; i++) {
		bn.pub[i] = nd_u8();
		bn.res[i] = nd_u8();
		if (i < 256 - bn.rlen)
			bn.res[i] = 0;
		if (i == 256 - bn.rlen && bn.res[i] == 0)
			bn.res[i] = 1;
	}
	/* A public value which passed validation is not the modulus. */
	vc_assume(!bn_same(bn.pub, rfc3526_14, 256));
	/* Values are told apart by content. */
	vc_assume(bn.priv[0] != bn.blind[0]);
}
/* The proof follows one arbitrary byte of the result; a run checks all. */
static int
bn_is_res(const uint8_t * a)
{
#ifdef VC_NATIVE
	return (bn_same(a, bn.res, 256));
#else
	return (a[bn.j] == bn.res[bn.j]);
#endif
}
static void
bn_put(unsigned char * to, int tolen)	/* Big-endian, tolen bytes. */
{
	int i;

#ifdef VC_NATIVE
	for (i = 0; i < tolen; i++)
		to[i] = tolen - i <= 256 ? bn.res[256 - tolen + i] : 0;
#else
	i = bn.j - (256 - tolen);
	if (i >= 0 && i < tolen)
		to[i] = bn.res[bn.j];
#endif
}
static int
bn_fails(void)
{

	if (!nd_bool())
		return (0);
	bn.nfail++;
	return (1);
}

/* Contract of the randomness source (P21): fills the buffer, or fails. */
int
crypto_entropy_read(uint8_t * buf, size_t len)
{

	vc_requires(VC_RW(buf, len), "random buffer");
	vc_assert(len == 32, "256 random bits");
	if (bn_fails())
		return (-1);
	if (!bn.havepriv) {
		memcpy(buf, bn.priv, 32);
		bn.havepriv = 1;
	} else {
		vc_assert(bn.nblind == 0, "one blinding value");
		memcpy(buf, bn.blind, 32);
		bn.nblind++;
	}
	return (0);
}

BIGNUM *
BN_new(void)
{
	BIGNUM * r;

	if (bn_fails())
		return (NULL);
	r = calloc(1, sizeof(*r));
	vc_assume(r != NULL);
	bn.live++;
	r->kind = BN_K_LIN;
	return (r);
}
BIGNUM *
BN_bin2bn(const unsigned char * s, int len, BIGNUM * ret)
{
	BIGNUM * r = ret;

	vc_requires(len >= 0 && VC_R(s, (size_t)len), "BN_bin2bn buffer");
	if (r == NULL && (r = BN_new()) == NULL)
		return (NULL);
	r->c = r->t = r->p = r->b = 0;
	r->kind = BN_K_NONE;
	if (len == 32 && bn.havepriv && bn_same(s, bn.priv, 32)) {
		r->kind = BN_K_LIN;
		r->p = 1;
	} else if (len == 32 && bn.nblind && bn_same(s, bn.blind, 32)) {
		r->kind = BN_K_LIN;
		r->b = 1;
	} else if (len == 33 && s[0] == 1) {
		int i, z = 1;

		for (i = 1; i < 33; i++)
			if (s[i])
				z = 0;
		if (z) {
			r->kind = BN_K_LIN;
			r->t = 1;
		}
	} else if (len == 256 && bn.base == BN_BASE_PUB && s[0] == bn.pub[0] && bn_same(s, bn.pub, 256)) {
		r->kind = BN_K_BASE;
	} else if (len == 256 && bn_same(s, rfc3526_14, 256)) {
		r->kind = BN_K_MOD;
	}
	return (r);
}
static int
bn_lin(BIGNUM * r, const BIGNUM * a, const BIGNUM * b, long f)
{
	int ok = a->kind == BN_K_LIN && b->kind == BN_K_LIN;

	if (bn_fails())
		return (0);
	r->c = a->c + f * b->c;
	r->t = a->t + f * b->t;
	r->p = a->p + f * b->p;
	r->b = a->b + f * b->b;
	r->kind = ok ? BN_K_LIN : BN_K_NONE;
	return (1);
}
int BN_add(BIGNUM * r, const BIGNUM * a, const BIGNUM * b) { return (bn_lin(r, a, b, 1)); }
int BN_sub(BIGNUM * r, const BIGNUM * a, const BIGNUM * b) { return (bn_lin(r, a, b, -1)); }
int BN_lshift1(BIGNUM * r, const BIGNUM * a) { return (bn_lin(r, a, a, 1)); }
int
BN_lshift(BIGNUM * r, const BIGNUM * a, int n)
{
	if (n == 256 && a->kind == BN_K_LIN && a->t == 0 && a->p == 0 && a->b == 0) {
		long c = a->c;
		if (bn_fails())
			return (0);
		r->kind = BN_K_LIN; r->c = r->p = r->b = 0; r->t = c;
		return (1);
	}
	if (n == 258 && a->kind == BN_K_LIN && a->t == 0 && a->p == 0 && a->b == 0) {
		long c = a->c;
		if (bn_fails())
			return (0);
		r->kind = BN_K_LIN; r->c = r->p = r->b = 0; r->t = 4 * c;
		return (1);
	}
	return (bn_lin(r, a, a, n >= 0 && n < 40 ? (1L << n) - 1 : 0));
}
int BN_set_word(BIGNUM * a, BN_ULONG w) { if (bn_fails()) return (0); a->kind = BN_K_LIN; a->t = a->p = a->b = 0; a->c = (long)w; return (1); }
void BN_zero_ex(BIGNUM * a) { a->kind = BN_K_LIN; a->t = a->p = a->b = a->c = 0; }
int
BN_set_bit(BIGNUM * a, int n)
{
	if (bn_fails())
		return (0);
	if (a->kind == BN_K_LIN && a->c == 0 && a->b == 0 && n == 256 && a->t == 0)
		a->t = 1;
	else if (a->kind == BN_K_LIN && a->c == 0 && a->b == 0 && n == 258 && a->t == 0)
		a->t = 4;
	else
		a->kind = BN_K_NONE;
	return (1);
}
BIGNUM * BN_copy(BIGNUM * a, const BIGNUM * b) { if (bn_fails()) return (NULL); *a = *b; return (a); }
BIGNUM * BN_dup(const BIGNUM * a) { BIGNUM * r = BN_new(); if (r != NULL) *r = *a; return (r); }
int
BN_mod_exp(BIGNUM * r, const BIGNUM * a, const BIGNUM * p, const BIGNUM * m, BN_CTX * ctx)
{
	int base;

	vc_assert(m->kind == BN_K_MOD, "arithmetic is modulo the group 14 prime");
	vc_assert(ctx != NULL, "BN context");
	vc_assert(p->kind == BN_K_LIN, "exponent");
	vc_assert(p->t + (p->p < 0 ? p->p : 0) + (p->b < 0 ? p->b : 0) >= (p->c < 0), "exponents are not negative");
	base = a->kind == BN_K_BASE ? BN_BASE_PUB : (a->kind == BN_K_LIN && a->c == 2 && a->t == 0 && a->p == 0 && a->b == 0) ? BN_BASE_TWO : 0;
	vc_assert(base == bn.base, "the right number is raised");
	if (bn_fails())
		return (0);
	r->c = p->c; r->t = p->t; r->p = p->p; r->b = p->b;
	r->kind = BN_K_POW;
	r->base = base;
	return (1);
}
int BN_mod_exp_mont_consttime(BIGNUM * r, const BIGNUM * a, const BIGNUM * p, const BIGNUM * m, BN_CTX * ctx, BN_MONT_CTX * mt) { return (BN_mod_exp(r, a, p, m, ctx)); }
int BN_mod_exp_mont(BIGNUM * r, const BIGNUM * a, const BIGNUM * p, const BIGNUM * m, BN_CTX * ctx, BN_MONT_CTX * mt) { return (BN_mod_exp(r, a, p, m, ctx)); }
int
BN_mod_mul(BIGNUM * r, const BIGNUM * a, const BIGNUM * b, const BIGNUM * m, BN_CTX * ctx)
{

	vc_assert(m->kind == BN_K_MOD, "arithmetic is modulo the group 14 prime");
	vc_assert(a->kind == BN_K_POW && b->kind == BN_K_POW && a->base == b->base, "two powers of the base are multiplied");
	if (bn_fails())
		return (0);
	r->c = a->c + b->c; r->t = a->t + b->t; r->p = a->p + b->p; r->b = a->b + b->b;
	r->base = a->base;
	r->kind = BN_K_POW;
	return (1);
}
/* The number being exported is base^(2^258 + priv). */
static void
bn_result(const BIGNUM * a)
{

	vc_assert(a->kind == BN_K_POW && a->base == bn.base, "the result is a power of the base");
	vc_assert(a->c == 0 && a->t == 4 && a->p == 1 && a->b == 0, "the exponent is 2^258 + the private value");
}
int BN_num_bits(const BIGNUM * a) { bn_result(a); return (bn.rlen == 0 ? 0 : 8 * bn.rlen - (int)nd_range(0, 7)); }
int
BN_bn2bin(const BIGNUM * a, unsigned char * to)
{

	bn_result(a);
	vc_requires(VC_RW(to, (size_t)bn.rlen), "result buffer");
	bn_put(to, bn.rlen);
	bn.exported++;
	return (bn.rlen);
}
int
BN_bn2binpad(const BIGNUM * a, unsigned char * to, int tolen)
{

	bn_result(a);
	vc_requires(tolen >= 0 && VC_RW(to, (size_t)tolen), "result buffer");
	if (tolen < bn.rlen)
		return (-1);
	bn_put(to, tolen);
	bn.exported++;
	return (tolen);
}
void BN_free(BIGNUM * a) { if (a != NULL) { vc_assert(!(a->kind == BN_K_LIN && (a->p || a->b)), "secret exponents are cleared when freed"); bn.live--; free(a); } }
void BN_clear_free(BIGNUM * a) { if (a != NULL) { bn.live--; free(a); } }
void BN_clear(BIGNUM * a) { BN_zero_ex(a); }
BN_CTX *
BN_CTX_new(void)
{
	BN_CTX * c;

	if (bn_fails())
		return (NULL);
	c = calloc(1, sizeof(*c));
	vc_assume(c != NULL);
	bn.live++;
	return (c);
}
BN_CTX * BN_CTX_secure_new(void) { return (BN_CTX_new()); }
void BN_CTX_free(BN_CTX * c) { if (c != NULL) { bn.live--; free(c); } }
unsigned long ERR_get_error(void) { return (1); }
char * ERR_error_string(unsigned long e, char * buf) { static char s[2]; return (s); }
#endif
