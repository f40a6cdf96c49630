#include "bits.h"
void decompress(const uint64_t *in, uint64_t inOffset, const uint64_t *ilen, uint64_t *out, uint64_t outOffset, uint64_t *olen,
		uint64_t numChunks, const uint64_t *map, int *ret);
size_t _Z13get_global_idj(unsigned d) { return 0; }
static uint8_t d[8192], o[8192] __attribute__((aligned(8)));
int main(void) {
	/* 65 blocks of data, then an I2 index exactly at the write position of the 512-byte ring */
	for (int k = 0; k < 520; k++) d[k] = (uint8_t)(rnd() >> 7);
	for (int b = 0; b < 65; b++) { put(0, 5); put(be(d + 8 * b, 8), 64); }
	put(1, 5); put(be(d, 4), 32); put(be(d + 4, 2), 16); put(4, 8);	/* D4 D2 I2: bytes 8..9 of the previous round */
	memcpy(d + 520, d, 6); memcpy(d + 526, d + 8, 2);
	uint64_t ilen = finish(d, 528), olen = sizeof o; int ret = 99;
	decompress((const uint64_t *)W, 0, &ilen, (uint64_t *)o, 0, &olen, 1, NULL, &ret);
	CHECK(ret == 0 && olen == 528 && !memcmp(o, d, 528));
	return 0;
}
