/*
 * CPU feature detection (libcperciva/cpusupport): each feature is reported
 * exactly when the CPU's own identification says so (Intel SDM vol. 2, CPUID).
 */
#include "vc.h"
#define VC_HW
#include "libcperciva/cpusupport/cpusupport_x86_aesni.c"
#include "libcperciva/cpusupport/cpusupport_x86_rdrand.c"
#include "libcperciva/cpusupport/cpusupport_x86_shani.c"
#include "libcperciva/cpusupport/cpusupport_x86_sse2.c"
#include "libcperciva/cpusupport/cpusupport_x86_ssse3.c"

static struct { unsigned int max; unsigned int l1[4], l7[4]; } cpu;

/* Executing cpuid: leaves beyond the largest return data of no meaning. */
int
vc_cpuid_raw(unsigned int leaf, unsigned int sub, unsigned int * a, unsigned int * b, unsigned int * c, unsigned int * d)
{

	if (leaf > cpu.max || (leaf != 0 && leaf != 1 && leaf != 7) || (leaf == 7 && sub != 0)) {
		*a = nd_u32(); *b = nd_u32(); *c = nd_u32(); *d = nd_u32();
	} else if (leaf == 0) {
		*a = cpu.max; *b = nd_u32(); *c = nd_u32(); *d = nd_u32();
	} else {
		unsigned int * l = leaf == 1 ? cpu.l1 : cpu.l7;
		*a = l[0]; *b = l[1]; *c = l[2]; *d = l[3];
	}
	return (1);
}

/* The compiler's wrapper: fails if the leaf does not exist. */
int
vc_cpuid(unsigned int leaf, unsigned int sub, unsigned int * a, unsigned int * b, unsigned int * c, unsigned int * d)
{

	if (leaf > cpu.max)
		return (0);
	return (vc_cpuid_raw(leaf, sub, a, b, c, d));
}

#define CHECK(f, has) do {							\
	int h = (has) ? 1 : 0;							\
	vc_assert(cpusupport_x86_ ## f() == h, #f " is reported exactly when the CPU has it");	\
	vc_assert(cpusupport_x86_ ## f() == h, #f " is reported the same every time");	\
	if (h)									\
		vc_reach("has " #f);						\
	else									\
		vc_reach("lacks " #f);						\
} while (0)

void
harness(void)
{
	int i;

	cpu.max = nd_u32();
	for (i = 0; i < 4; i++) {
		cpu.l1[i] = nd_u32();
		cpu.l7[i] = nd_u32();
	}
	CHECK(aesni, cpu.max >= 1 && (cpu.l1[2] & (1u << 25)));
	CHECK(rdrand, cpu.max >= 1 && (cpu.l1[2] & (1u << 30)));
	CHECK(ssse3, cpu.max >= 1 && (cpu.l1[2] & (1u << 9)));
	CHECK(sse2, cpu.max >= 1 && (cpu.l1[3] & (1u << 26)));
	CHECK(shani, cpu.max >= 7 && (cpu.l7[1] & (1u << 29)));
}
