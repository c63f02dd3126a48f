/*
 * proto_crypt_secret and proto_crypt_secret_free over the contracts of stdio
 * and of SHA-256 (P05).  What has been read and hashed is one number, so the
 * first reads stand for all; where the bytes lie is followed in the proof,
 * their values natively.  The secret is observed where it is used: as the
 * password of the first key derivation.
 */
#include <stdio.h>
#define VC_WIPE 1
#include "vc_alloc.h"
#include "stub_misc.h"
#undef stdin
#undef feof
#undef ferror
#undef clearerr
#define stdin vc_stdin
#define fopen vc_fopen
#define fread vc_fread
#define feof vc_feof
#define ferror vc_ferror
#define fclose vc_fclose
extern FILE * vc_stdin;
FILE * vc_fopen(const char *, const char *);
size_t vc_fread(void *, size_t, size_t, FILE *);
int vc_feof(FILE *), vc_ferror(FILE *), vc_fclose(FILE *);
#include "lib/proto/proto_crypt.c"
#undef malloc
#undef free
#ifndef READS
#define READS 3
#endif
#ifdef VC_NATIVE
#define LEMMA(c, m) do { } while (0)
#define AT(p) ((uint8_t)(((p) * 2654435761u) >> 9))
#else
#define LEMMA(c, m) vc_assert(c, "LEMMA " m)
#endif

static struct {
	const char * name;
	int std, open, closed, eof, err, openerr, reads;
	uint64_t got, hashed;
	uint64_t off; const uint8_t * buf;
	SHA256_CTX * ctx; int done;
	uint8_t digest[32];
	int used;
	long f, in;
} g;
FILE * vc_stdin = (FILE *)&g.in;
#define F ((FILE *)&g.f)

static void
vc_on_free(void * p)
{
	size_t i;

	/* The secret is the only object allocated. */
	for (i = 0; i < 32; i++)
		vc_assert(((uint8_t *)p)[i] == 0, "a secret is erased before its memory is released");
}
FILE *
vc_fopen(const char * name, const char * mode)
{

	vc_assert(!g.std && !g.open && !g.closed && name == g.name && mode[0] == 'r' && mode[1] != '+', "the key file is opened for reading");
	if (nd_bool()) {
		vc_errno();
		g.openerr = 1;
		return (NULL);
	}
	g.open = 1;
	return (F);
}
#define CHECKF(f) vc_assert((f) == (g.std ? vc_stdin : F) && (g.std || (g.open && !g.closed)), "the open key file is used")
size_t
vc_fread(void * buf, size_t size, size_t n, FILE * f)
{
	size_t r;

	CHECKF(f);
	vc_assert(size == 1 && n > 0, "bytes are read");
	vc_requires(VC_RW(buf, n), "read buffer");
	vc_assume(g.reads++ < READS + 2);
	if (g.eof || g.err)
		return (0);
	switch (g.reads > READS ? 1 : nd_range(0, 3)) {
	case 0:
		g.err = 1;
		vc_errno();
		r = (size_t)nd_range(0, n - 1);
		break;
	case 1:
		g.eof = 1;
		r = (size_t)nd_range(0, n - 1);
		break;
	default:
		r = n;
	}
#ifdef VC_NATIVE
	{
		size_t i;

		for (i = 0; i < r; i++)
			((uint8_t *)buf)[i] = AT(g.got + i);
	}
#endif
	if (r > 0) {
		LEMMA(g.got == g.hashed, "what was read is hashed before more is read");
		g.buf = buf;
		g.off = g.got;
		g.got += r;
	}
	return (r);
}
int
vc_feof(FILE * f)
{

	CHECKF(f);
	return (g.eof);
}
int
vc_ferror(FILE * f)
{

	CHECKF(f);
	return (g.err);
}
int
vc_fclose(FILE * f)
{

	vc_assert(!g.std, "standard input is left open");
	CHECKF(f);
	g.closed = 1;
	vc_errno();
	return (nd_bool() ? -1 : 0);
}
void
SHA256_Init(SHA256_CTX * ctx)
{

	vc_requires(VC_RW(ctx, sizeof(SHA256_CTX)), "SHA256 context");
	g.ctx = ctx;
	g.hashed = 0;
	g.done = 0;
	vc_assert(g.got == 0, "hashing begins with the first byte");
}
void
SHA256_Update(SHA256_CTX * ctx, const void * p, size_t n)
{

	vc_requires(ctx == g.ctx && !g.done, "SHA256 context");
	vc_requires(VC_R(p, n), "SHA256 input");
	vc_assert(n <= g.got - g.hashed, "only bytes of the file are hashed, each once");
#ifdef VC_NATIVE
	{
		size_t i;

		for (i = 0; i < n; i++)
			vc_assert(((const uint8_t *)p)[i] == AT(g.hashed + i), "bytes are hashed in order");
	}
#endif
	LEMMA(n == 0 || (const uint8_t *)p == g.buf + (g.hashed - g.off), "bytes are hashed in order");
	g.hashed += n;
}
void
SHA256_Final(uint8_t d[32], SHA256_CTX * ctx)
{
	int i;

	vc_requires(ctx == g.ctx && !g.done, "SHA256 context");
	vc_requires(VC_RW(d, 32), "SHA256 digest");
	g.done = 1;
	for (i = 0; i < 32; i++)
		d[i] = g.digest[i];
}
void
PBKDF2_SHA256(const uint8_t * pw, size_t pwlen, const uint8_t * salt, size_t saltlen, uint64_t c, uint8_t * buf, size_t len)
{
	size_t i;

	(void)salt; (void)saltlen; (void)c;
	vc_assert(pwlen == 32, "the secret is 32 bytes");
	for (i = 0; i < 32; i++)
		vc_assert(pw[i] == g.digest[i], "the secret is the digest");
	g.used = 1;
	nd_fill(buf, len);
}
void
harness(void)
{
	struct proto_secret * K;
	uint8_t nonce[32], m1[32], m2[32];
	int i;

	g.std = nd_bool();
	g.name = g.std ? "-" : "keyfile";
	for (i = 0; i < 32; i++)
		g.digest[i] = nd_u8();
	K = proto_crypt_secret(g.name);
	if (K == NULL) {
		vc_assert(g.openerr || g.err || vc_nfail, "a readable key file is accepted");
		vc_assert(vc_live == 0, "nothing is left behind");
		vc_assert(!g.open || g.closed, "the file is closed");
		vc_reach("no secret");
		return;
	}
	vc_assert(!g.openerr && !g.err, "a failing open or read gives no secret");
	vc_assert(g.eof && g.hashed == g.got && g.done, "the whole file is hashed");
	vc_assert(g.std || g.closed, "the file is closed");
	memset(nonce, 0, 32);
	proto_crypt_dhmac(K, nonce, nonce, m1, m2, nd_bool());
	vc_assert(g.used, "the secret is used");
	proto_crypt_secret_free(K);
	vc_assert(vc_live == 0, "nothing is left behind");
	proto_crypt_secret_free(NULL);
	vc_reach("secret");
}
