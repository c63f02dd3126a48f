/*
 * strtoumax, strtoimax and strtod as contracts: what a string denotes is
 * arbitrary but fixed: how much of it is a number, which, and whether it is
 * out of range for the type.
 */
#ifndef VC_STRTO_H_
#define VC_STRTO_H_
#include <ctype.h>
#include <inttypes.h>
#include "vc.h"
static int
vc_isspace(int c)
{

	return (c == ' ' || (c >= '\t' && c <= '\r'));
}
#undef isspace
#define isspace vc_isspace
struct vc_num {
	const char * text;	/* The string (compared by content). */
	size_t len, used;	/* Its length; length of the number at its start. */
	int range;		/* The number does not fit the type. */
	int neg;		/* It starts with a minus sign. */
	uintmax_t u;
	intmax_t i;
	double d;
	int base;		/* Base it is to be read in. */
};
static struct vc_num * vc_num_find(const char * s);
uintmax_t
vc_strtoumax(const char * s, char ** end, int base)
{
	struct vc_num * n = vc_num_find(s);

	vc_assert(base == n->base, "numbers are read in the documented base");
	if (end != NULL)
		*end = (char *)(uintptr_t)s + n->used;
	if (n->used == 0)
		return (0);
	if (n->range) {
		errno = ERANGE;
		return (UINTMAX_MAX);
	}
	return (n->u);
}
intmax_t
vc_strtoimax(const char * s, char ** end, int base)
{
	struct vc_num * n = vc_num_find(s);

	vc_assert(base == n->base, "numbers are read in the documented base");
	if (end != NULL)
		*end = (char *)(uintptr_t)s + n->used;
	if (n->used == 0)
		return (0);
	if (n->range) {
		errno = ERANGE;
		return (n->neg ? INTMAX_MIN : INTMAX_MAX);
	}
	return (n->i);
}
double
vc_strtod(const char * s, char ** end)
{
	struct vc_num * n = vc_num_find(s);

	if (end != NULL)
		*end = (char *)(uintptr_t)s + n->used;
	if (n->used == 0)
		return (0);
	if (n->range)
		errno = ERANGE;
	return (n->d);
}
#define strtoumax vc_strtoumax
#define strtoimax vc_strtoimax
#define strtod vc_strtod
#endif
