/*
 * Native execution of a unit: nd_*() replay the verifier's values (VC_VALUES)
 * or take seeded random ones (VC_SEED, VC_BATCH runs, one process each).
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
#include "vc.h"

static uint64_t * vals, st;
static size_t nvals, pos;
static int replaying, bias, small;

static uint64_t
rnd(void)
{

	st ^= st << 13;
	st ^= st >> 7;
	st ^= st << 17;
	return (st * 0x2545F4914F6CDD1DULL);
}

uint64_t
vc_nd(const char * kind, uint64_t lo, uint64_t hi)
{
	uint64_t v, r;

	if (replaying) {
		v = pos < nvals ? vals[pos] : lo;
		pos++;
		if (v < lo || v > hi)
			vc_native_skip();
		return (v);
	}
	r = rnd() >> 8;
	if (kind[0] == 'b')
		return ((r % (uint64_t)bias) == 0);
	if (kind[0] == 'i') {
		switch (r % 5) {
		case 0: return (0);
		case 1: return (0xffffffffULL);
		case 2: return ((uint32_t)(r >> 8) % 16);
		case 3: return ((uint32_t)(r >> 8) % 2 ? (uint32_t)-(int)((r >> 9) % 16) : 1);
		default: return ((uint32_t)(r >> 8));
		}
	}
	if (hi - lo == UINT64_MAX) {
		switch (r % 4) {
		case 0: return ((r >> 8) % 4);
		case 1: return ((r >> 8) % 300);
		case 2: return (UINT64_MAX - (r >> 8) % 300);
		default: return (rnd());
		}
	}
	switch (r % (uint64_t)small) {
	case 0: return (lo);
	case 1: return (hi);
	case 2: return (lo + (r >> 8) % (hi - lo + 1 > 4 ? 4 : hi - lo + 1));
	default: return (lo + (r >> 8) % (hi - lo + 1));
	}
}

void
vc_native_fail(const char * what)
{

	printf("VIOLATED: %s\n", what);
	fflush(stdout);
	_exit(1);
}

void
vc_native_skip(void)
{

	_exit(77);
}

void
vc_native_blob(void * p, size_t n)
{
	uint8_t * b = p;

	if (replaying && st == 0)
		st = 88172645463325252ULL;
	while (n--)
		*b++ = (uint8_t)(rnd() >> 24);
}

void VC_ENTRY(void);

int
main(void)
{
	const char * s;
	uint64_t seed, batch, i, useful = 0;
	int status;
	pid_t p;

	if ((s = getenv("VC_VALUES")) != NULL) {
		FILE * f = fopen(s, "r");
		unsigned long long v;

		vals = calloc(1000000, sizeof(*vals));
		while (f != NULL && nvals < 1000000 && fscanf(f, "%llu", &v) == 1)
			vals[nvals++] = v;
		replaying = 1;
		if (fork() == 0) {
			VC_ENTRY();
			fflush(stdout);
			_exit(0);
		}
		wait(&status);
		if (WIFEXITED(status) && (WEXITSTATUS(status) == 0 || WEXITSTATUS(status) == 77))
			return (0);
		printf("replay of the verifier's values ends with status 0x%x\n", status);
		return (1);
	}
	s = getenv("VC_SEED");
	seed = s ? strtoull(s, NULL, 10) : 1;
	s = getenv("VC_BATCH");
	batch = s ? strtoull(s, NULL, 10) : 100;
	for (i = 0; i < batch; i++) {
		fflush(stdout);
		if ((p = fork()) == 0) {
			static const int b[] = { 2, 2, 3, 8, 40 };

			st = (seed * 1000003 + i) * 0x9e3779b97f4a7c15ULL + 1;
			rnd();
			rnd();
			bias = b[rnd() % 5];
			small = rnd() % 2 ? 4 : 1000;
			alarm(20);
			VC_ENTRY();
			fflush(stdout);
			_exit(0);
		}
		if (p == -1)
			continue;
		waitpid(p, &status, 0);
		if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
			useful++;
		else if (!(WIFEXITED(status) && WEXITSTATUS(status) == 77)) {
			printf("run %llu of seed %llu ends with status 0x%x\n", (unsigned long long)i, (unsigned long long)seed, status);
			return (1);
		}
	}
	printf("TRIES %llu\n", (unsigned long long)useful);
	return (0);
}
