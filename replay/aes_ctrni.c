#pragma GCC target("aes,sse2")
#define VC_HW
#include "libcperciva/crypto/crypto_aesctr_aesni.c"
