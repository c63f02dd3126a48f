/*
 * parsenum.h over the contracts of strtoumax, strtoimax and strtod: for every
 * outcome of the conversion, bounds and type, a number is accepted exactly if
 * it is the whole string and within the bounds.  The string itself is short;
 * what it denotes is arbitrary.
 */
#include <math.h>
#include "stub_misc.h"
#include "vc_strto.h"
#include "libcperciva/util/parsenum.h"
#define LEN 4
static char s[LEN + 1];
static struct vc_num num;
static struct vc_num *
vc_num_find(const char * t)
{

	vc_assert(t == s, "the given string is converted");
	return (&num);
}
/* The number written is neg ? -mag : mag. */
static uint64_t mag;
static int
atleast(intmax_t min)
{

	if (num.neg && mag != 0)
		return (min < 0 && mag <= (uint64_t)-(min + 1) + 1);
	return (min <= 0 || mag >= (uint64_t)min);
}
static int
atmost(intmax_t max)
{

	if (num.neg && mag != 0)
		return (max >= 0 ? 1 : mag >= (uint64_t)-(max + 1) + 1);
	return (max >= 0 && mag <= (uint64_t)max);
}
static int
whole(void)
{

	return (num.used == num.len && num.len > 0 && !num.range);
}
static void
text(void)
{
	size_t i, k;

	for (i = 0; i < LEN; i++) {
		static const char c[] = { '\0', '1', '-', ' ', '\t', 'x', '.', '+' };

		s[i] = c[nd_range(0, 7)];
	}
	s[LEN] = '\0';
	for (i = 0; i < LEN && s[i] != '\0'; i++)
		continue;
	num.len = i;
	/* A number: space, sign, at least one more character. */
	for (k = 0; k < num.len && (s[k] == ' ' || s[k] == '\t'); k++)
		continue;
	num.neg = k < num.len && s[k] == '-';
	k += k < num.len && (s[k] == '-' || s[k] == '+');
	num.used = (size_t)nd_range(0, num.len);
	vc_assume(num.used == 0 || num.used > k);
	num.range = nd_bool();
	mag = nd_u64();
	if (num.used != num.len)
		mag = 1;	/* Not the number written; whatever it is. */
}
#define RES(ok, x, val) do {								\
	if (ok) {									\
		vc_assert(rc == 0, "a number within bounds is accepted");		\
		vc_assert((x) == (val), "the accepted value is the number written");	\
		vc_reach("accepted");							\
	} else {									\
		vc_assert(rc != 0, "anything else is refused");				\
		vc_assert(errno != 0, "the reason is given");				\
		vc_reach("refused");							\
	}										\
} while (0)

void
harness(void)
{
	int rc;

	text();
#if defined(T_SIZE) || defined(T_U32)
#ifdef T_SIZE
	size_t x;
#else
	uint32_t x;
#endif
	num.u = num.neg ? -mag : mag;
	vc_errno();
	rc = PARSENUM(&x, s);
	RES(whole() && (!num.neg || mag == 0) && mag <= (T)-1, x, mag);
#elif defined(T_U)
	T x;
	intmax_t min = (intmax_t)nd_u64(), max = (intmax_t)nd_u64();

	/* The bounds are those of a value of this type. */
	vc_assume(min >= 0 && max >= 0 && (uintmax_t)max <= (T)-1);
	num.u = num.neg ? -mag : mag;
	vc_errno();
	rc = PARSENUM(&x, s, min, max);
	RES(whole() && atleast(min) && atmost(max), x, mag);
#elif defined(T_PORT)
	long x;

	num.base = 10;
	vc_assume(mag <= (uint64_t)INTMAX_MAX);
	num.i = num.neg ? -(intmax_t)mag : (intmax_t)mag;
	vc_errno();
	rc = PARSENUM_EX(&x, s, 1, 65535, 10, 0);
	RES(whole() && atleast(1) && atmost(65535), x, num.i);
#elif defined(T_S)
	T x;
	intmax_t min = (intmax_t)nd_u64(), max = (intmax_t)nd_u64();

	vc_assume(min >= -(intmax_t)(((uintmax_t)1 << (8 * sizeof(T) - 1)) - 1) - 1 && max <= (intmax_t)(((uintmax_t)1 << (8 * sizeof(T) - 1)) - 1));
	vc_assume(mag <= (uint64_t)INTMAX_MAX);
	num.i = num.neg ? -(intmax_t)mag : (intmax_t)mag;
	vc_errno();
	rc = PARSENUM(&x, s, min, max);
	RES(whole() && atleast(min) && atmost(max), x, num.i);
#else
	/* The delays -o and -r: not negative. */
	double x;
	union { uint64_t u; double d; } b;

	b.u = mag;
	num.d = b.d;
	vc_errno();
	rc = PARSENUM(&x, s, 0, INFINITY);
	if (whole() && b.d == b.d && b.d >= 0.0) {
		vc_assert(rc == 0, "a number within bounds is accepted");
		vc_assert(x == b.d, "the accepted value is the number written");
		vc_reach("accepted");
	} else {
		vc_assert(rc != 0, "anything else is refused");
		vc_reach("refused");
	}
#endif
}
