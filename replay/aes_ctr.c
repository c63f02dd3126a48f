/* The AES-CTR half of replay/aes.c (its file-scope names clash with the AES half). */
#pragma GCC push_options
#pragma GCC target("aes,sse2")
#define VC_HW
#include <stdlib.h>
void wfree(void *);
#define free wfree
#include "libcperciva/crypto/crypto_aesctr.c"
const size_t ctr_size = sizeof(struct crypto_aesctr);
