/*
 * Contract of mpool.h: allocation returns a record nobody else holds, or
 * NULL; freeing gives it back.  (Proved in units/mpool.c.)
 */
#ifndef MPOOL_H_
#define MPOOL_H_
#include <assert.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "ctassert.h"
#define MPOOL(name, type, size)						\
static inline type * mpool_##name##_malloc(void)			\
{									\
	type * p = vc_malloc(sizeof(type));				\
	return (p);							\
}									\
static inline void mpool_##name##_free(type * p) { vc_free(p); }	\
struct mpool_##name##_dummy
#endif
