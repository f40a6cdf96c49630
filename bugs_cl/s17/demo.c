#include "bits.h"
void decompress(const uint64_t *in, uint64_t inOffset, const uint64_t *ilen, uint64_t *out, uint64_t outOffset, uint64_t *olen,
		uint64_t numChunks, const uint64_t *map, int *ret);
static size_t gid;
size_t _Z13get_global_idj(unsigned d) { return gid; }
static uint8_t d[4][16], in[4 * 8192] __attribute__((aligned(8))), o[4 * 8192] __attribute__((aligned(8)));
int main(void) {
	uint64_t ilen[4], olen[4], map[2] = {3, 1}; int ret[4];
	for (int c = 0; c < 4; c++) {
		memset(W, 0, 256); wn = 0;
		for (int k = 0; k < 16; k++) d[c][k] = (uint8_t)rnd();
		put(0, 5); put(be(d[c], 8), 64); put(0, 5); put(be(d[c] + 8, 8), 64);
		ilen[c] = finish(d[c], 16); memcpy(in + 8192 * c, W, ilen[c]);
		olen[c] = 8192; ret[c] = 99;
	}
	/* only chunks 3 and 1 are in the list */
	for (gid = 0; gid < 8; gid++) decompress((const uint64_t *)in, 0, ilen, (uint64_t *)o, 0, olen, 2, map, ret);
	for (int c = 0; c < 4; c++) {
		if (c & 1) CHECK(ret[c] == 0 && olen[c] == 16 && !memcmp(o + 8192 * c, d[c], 16));
		else CHECK(ret[c] == 99 && olen[c] == 8192);
	}
	return 0;
}
