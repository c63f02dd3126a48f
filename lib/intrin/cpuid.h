/* cpuid, with the values of the CPU under consideration supplied by the unit. */
#ifndef VC_CPUID_H_
#define VC_CPUID_H_
int vc_cpuid(unsigned int leaf, unsigned int sub, unsigned int * a, unsigned int * b, unsigned int * c, unsigned int * d);
#define __get_cpuid(l, a, b, c, d) vc_cpuid(l, 0, a, b, c, d)
#define __get_cpuid_count(l, s, a, b, c, d) vc_cpuid(l, s, a, b, c, d)
#define __cpuid_count(l, s, a, b, c, d) ((void)vc_cpuid_raw(l, s, &(a), &(b), &(c), &(d)))
#define __cpuid(l, a, b, c, d) ((void)vc_cpuid_raw(l, 0, &(a), &(b), &(c), &(d)))
int vc_cpuid_raw(unsigned int leaf, unsigned int sub, unsigned int * a, unsigned int * b, unsigned int * c, unsigned int * d);
#endif
