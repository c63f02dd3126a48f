/* FIPS 180-4 section 6.2.2, written from the standard. */
#ifndef FIPS_SHA256_H_
#define FIPS_SHA256_H_
static const uint32_t fips_K[64] = {
	0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5,
	0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
	0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da,
	0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
	0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85,
	0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
	0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3,
	0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2
};
static const uint32_t fips_H0[8] = {
	0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19
};
#define F_ROTR(x, n) (((x) >> (n)) | ((x) << (32 - (n))))
#define F_CH(x, y, z) (((x) & ((y) ^ (z))) ^ (z))
#define F_MAJ(x, y, z) (((x) & ((y) | (z))) | ((y) & (z)))
#define F_S0(x) (F_ROTR(x, 2) ^ F_ROTR(x, 13) ^ F_ROTR(x, 22))
#define F_S1(x) (F_ROTR(x, 6) ^ F_ROTR(x, 11) ^ F_ROTR(x, 25))
#define F_s0(x) (F_ROTR(x, 7) ^ F_ROTR(x, 18) ^ ((x) >> 3))
#define F_s1(x) (F_ROTR(x, 17) ^ F_ROTR(x, 19) ^ ((x) >> 10))

/* The 64 rounds and the final addition, for a given message schedule. */
static void
fips_rounds(uint32_t H[8], const uint32_t W[64])
{
	uint32_t a, b, c, d, e, f, g, h, T1, T2;
	int t;

	a = H[0]; b = H[1]; c = H[2]; d = H[3]; e = H[4]; f = H[5]; g = H[6]; h = H[7];
	for (t = 0; t < 64; t++) {
		T1 = h + F_S1(e) + F_CH(e, f, g) + fips_K[t] + W[t];
		T2 = F_S0(a) + F_MAJ(a, b, c);
		h = g; g = f; f = e; e = d + T1; d = c; c = b; b = a; a = T1 + T2;
	}
	H[0] += a; H[1] += b; H[2] += c; H[3] += d; H[4] += e; H[5] += f; H[6] += g; H[7] += h;
}
static void
fips_compress(uint32_t H[8], const uint8_t M[64])
{
	uint32_t W[64];
	int t;

	for (t = 0; t < 16; t++)
		W[t] = ((uint32_t)M[4 * t] << 24) | ((uint32_t)M[4 * t + 1] << 16) |
		    ((uint32_t)M[4 * t + 2] << 8) | (uint32_t)M[4 * t + 3];
	for (t = 16; t < 64; t++)
		W[t] = F_s1(W[t - 2]) + W[t - 7] + F_s0(W[t - 15]) + W[t - 16];
	fips_rounds(H, W);
}
#endif
