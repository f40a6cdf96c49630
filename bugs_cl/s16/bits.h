/* tiny independent 842 bit writer and CRC for demonstrations */
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
static uint8_t W[1 << 20] __attribute__((aligned(64)));
static size_t wn; /* bits written */
static void put(uint64_t v, int n) {
	for (int i = n - 1; i >= 0; i--, wn++)
		if ((v >> i) & 1) W[wn >> 3] |= 0x80 >> (wn & 7);
}
static uint32_t crc_bits(const uint8_t *p, size_t n) {
	uint32_t c = 0;
	for (size_t i = 0; i < n; i++) {
		c ^= (uint32_t)p[i] << 24;
		for (int k = 0; k < 8; k++) c = (c & 0x80000000u) ? (c << 1) ^ 0x04c11db7u : c << 1;
	}
	return c;
}
/* end template, CRC of the data, padding; returns the length in bytes */
static size_t finish(const uint8_t *p, size_t n) {
	put(0x1e, 5); put(crc_bits(p, n), 32);
	while (wn % 64) wn++;
	return wn / 8;
}
static uint64_t be(const uint8_t *p, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v = v << 8 | p[i]; return v; }
static uint32_t rs = 12345;
static uint32_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 17; rs ^= rs << 5; return rs; }
#define CHECK(c) do { if (!(c)) { printf("failed: %s (line %d)\n", #c, __LINE__); exit(1); } } while (0)
