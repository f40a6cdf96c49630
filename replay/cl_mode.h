// The OpenCL kernel, compiled for this machine (replay/build.py), called as the
// device runtime would: one work item at a time.
#pragma once
extern "C" {
void decompress(const uint64_t *in, unsigned long inOffset, const unsigned long *ilen, uint64_t *out, unsigned long outOffset,
		unsigned long *olen, unsigned long numChunks, const unsigned long *chunkShuffleMap, int *returnValues);
unsigned long verif_chunk_size(void); unsigned long verif_chunk_stride(void);
size_t _Z13get_global_idj(unsigned);
}
static unsigned long g_cs = 65536, g_stride = 65536; static size_t g_gid;
unsigned long verif_chunk_size(void) { return g_cs; }
unsigned long verif_chunk_stride(void) { return g_stride; }
size_t _Z13get_global_idj(unsigned) { return g_gid; }

static int cl_dec(const uint8_t *in, size_t ilen, uint8_t *out, size_t *olen) {
	unsigned long *l = new unsigned long[2]{ilen, *olen}; int *r = new int(4711);
	g_gid = 0; g_cs = g_stride = 65536;
	decompress((const uint64_t *)in, 0, l, (uint64_t *)out, 0, l + 1, 1, nullptr, r);
	*olen = l[1]; int ret = *r;
	delete[] l; delete r;
	return ret;
}
static void cl_grid(Rng &R) {
	size_t n = 1 + R(5);
	std::vector<Bytes> ins(n); size_t mx = 8, mo = 8;
	for (auto &i : ins) { i = make_stream(R, false, true); i.resize(i.size() / 8 * 8); if (i.size() > mx) mx = i.size(); }
	std::vector<unsigned long> il(n), ol(n), map(n); std::vector<int> rets(n, 4711); std::vector<RefResult> ref(n);
	std::vector<size_t> caps(n);
	for (size_t i = 0; i < n; i++) {
		RefResult f = ref_decode(ins[i].data(), ins[i].size() * 8, 1u << 22, false, true);
		caps[i] = R.p(70) ? f.out.size() + R(40) : R(f.out.size() + 1);
		if (caps[i] > mo) mo = caps[i];
		ref[i] = ref_decode(ins[i].data(), ins[i].size() * 8, caps[i], false, true);
	}
	g_cs = (mo + 7) / 8 * 8 + 8 * R(4); g_stride = mx + 8 * R(4);
	size_t io = 8 * R(4), oo = 8 * R(4);
	std::vector<uint64_t> in((io + g_stride * n) / 8, 0x5555555555555555ull), out((oo + g_cs * n) / 8 + 2, 0xa5a5a5a5a5a5a5a5ull);
	for (size_t i = 0; i < n; i++) { memcpy((uint8_t *)in.data() + io + i * g_stride, ins[i].data(), ins[i].size()); il[i] = ins[i].size(); ol[i] = caps[i]; map[i] = i; }
	for (size_t i = n; i > 1; i--) std::swap(map[i - 1], map[R(i)]);
	bool um = R.p(40), ur = R.p(80), uo = true; size_t some = um && R.p(30) ? 1 + R(n) : n;
	g_desc = fmt("kernel: %zu chunks (%zu in the list), chunk size %lu, stride %lu, offsets %zu and %zu%s", n, some, g_cs, g_stride, io, oo, um ? ", shuffled" : "");
	for (auto &b : ins) g_desc += "\nchunk: " + hex(b, 500);
	auto in0 = in; auto il0 = il; auto ol0 = ol;
	size_t items = some + R(9);
	for (size_t k = 0; k < items; k++) { g_gid = k; decompress(in.data(), io, il.data(), out.data(), oo, ol.data(), some, um ? map.data() : nullptr, ur ? rets.data() : nullptr); }
	if (in != in0 || il != il0) violation("memory", "an input array was changed");
	std::set<size_t> done; for (size_t k = 0; k < some; k++) done.insert(um ? map[k] : k);
	uint8_t *o = (uint8_t *)out.data(); std::vector<bool> own(out.size() * 8, false);
	for (size_t i = 0; i < n; i++) {
		std::string got = fmt("chunk %zu: result %d, length %lu", i, rets[i], ol[i]);
		if (!done.count(i)) { if (ol[i] != ol0[i] || rets[i] != 4711) violation("func", got + ", but it is not in the list"); continue; }
		for (size_t k = 0; k < caps[i]; k++) own[oo + i * g_cs + k] = true;
		RefResult &x = ref[i];
		if (ur && (rets[i] == 0) != x.ok) violation("func", got + (x.ok ? " for a well-formed stream" : " for an invalid stream or one that does not fit: " + x.why));
		if (x.ok && ol[i] != x.out.size()) violation("olen", got + fmt(" instead of length %zu", x.out.size()));
		if (!x.ok && ol[i]) violation("errlen", got + ": an error must report length 0");
		if (ur && !x.ok && x.good && !x.fits && rets[i] != -ENOSPC) violation("enospc", got + " instead of the no-space error");
		if (x.ok && memcmp(o + oo + i * g_cs, x.out.data(), x.out.size())) violation("func", got + ", but the output differs");
	}
	(void)uo;
	for (size_t k = 0; k < own.size(); k++) if (!own[k] && o[k] != 0xa5) violation("memory", fmt("byte %zu of the output buffer is outside every chunk and was changed", k));
}
static void cl_case(Rng &R) {
	ref_crc_unchecked = true;
	if (R.p(30)) cl_grid(R);
	else dec_case(cl_dec, "OpenCL kernel", true, R);
}
