// Streams: the real worker threads over a scripted implementation (any result
// per chunk) or the real optimized one.
#pragma once
#include <lib842/stream/comp.h>
#include <lib842/stream/decomp.h>
#include <iostream>
#include <mutex>
#include <condition_variable>
#include <algorithm>
namespace st = lib842::stream;
static constexpr size_t CS = st::CHUNK_SIZE, NC = st::NUM_CHUNKS_PER_BLOCK, BS = CS * NC;
struct Done {
	std::mutex m; std::condition_variable c; int n = 0; bool v = false;
	void set(bool b) { std::lock_guard<std::mutex> l(m); v = b; n++; c.notify_all(); }
	bool wait() { std::unique_lock<std::mutex> l(m); c.wait(l, [&] { return n > 0; }); return v; }
};
static std::ostream &quiet() { static std::ostream o(nullptr); return o; }

struct Chunk { size_t size = 0; int ret = 0; size_t olen = 0; Bytes data; int calls = 0; };	// scripted behaviour of one chunk
struct Script {
	std::mutex m;
	std::vector<std::vector<Chunk>> b; std::vector<int> extra;	// per block; extra: result although no chunk failed
	std::vector<size_t> at;						// block position in the destination or source
	uint8_t *base = nullptr; std::vector<const uint8_t *> buf; std::vector<size_t> pad;
	bool real = false;
};
static Script *S;
static uint8_t pat(size_t b, size_t c, size_t k) { return (uint8_t)(b * 37 + c * 11 + k * 7 + (k >> 8) + 1); }

static int mock_dec(size_t n, int *rets, const uint8_t *in, size_t is, const size_t *il, uint8_t *out, size_t os, size_t *ol) {
	int ret = 0, extra = 0;
	for (size_t e = 0; e < n; e++) {
		if (il[e] == SIZE_MAX) continue;
		size_t d = (size_t)(out + e * os - S->base), q = d / BS, j = d % BS / CS, b = 0;
		while (b < S->at.size() && S->at[b] != q * BS) b++;
		if (d % CS || b == S->at.size()) violation("func", fmt("chunk decompressed to offset %zu of the destination", d));
		Chunk &c = S->b[b][j];
		if (c.size == 0 || c.size == CS) violation("func", fmt("block %zu chunk %zu (size %zu) is passed to the decompressor", b, j, c.size));
		if (in + e * is != S->buf[b] + j * S->pad[b]) violation("func", fmt("block %zu chunk %zu: wrong input pointer", b, j));
		if (il[e] != c.size) violation("func", fmt("block %zu chunk %zu: length %zu instead of %zu", b, j, il[e], c.size));
		if (ol[e] != CS) violation("func", fmt("block %zu chunk %zu: capacity %zu", b, j, ol[e]));
		{ std::lock_guard<std::mutex> l(S->m); if (c.calls++) violation("func", fmt("block %zu chunk %zu is decompressed twice", b, j)); }
		if (!c.ret) for (size_t k = 0; k < c.olen; k++) out[e * os + k] = pat(b, j, k);
		rets[e] = c.ret; ol[e] = c.ret ? 0 : c.olen;
		if (!ret && c.ret && c.ret != -ENOSPC) ret = c.ret;
		extra = S->extra[b];
	}
	return ret ? ret : extra;
}
static int mock_comp(size_t n, int *rets, const uint8_t *in, size_t is, const size_t *il, uint8_t *out, size_t os, size_t *ol) {
	int ret = 0, extra = 0;
	for (size_t e = 0; e < n; e++) {
		if (il[e] == SIZE_MAX) continue;
		size_t d = (size_t)(in + e * is - S->base), b = d / BS, j = d % BS / CS;
		if (d % CS || b >= S->b.size()) violation("func", fmt("chunk compressed from offset %zu of the source", d));
		Chunk &c = S->b[b][j];
		if (il[e] != CS) violation("func", fmt("block %zu chunk %zu: length %zu", b, j, il[e]));
		if (ol[e] < st::COMPRESSIBLE_THRESHOLD) violation("func", fmt("block %zu chunk %zu: capacity %zu is below the threshold", b, j, ol[e]));
		{ std::lock_guard<std::mutex> l(S->m); if (c.calls++) violation("func", fmt("block %zu chunk %zu is compressed twice", b, j)); }
		int r = c.ret; if (!r && c.olen > ol[e]) r = -ENOSPC;
		c.ret = r;
		if (!r) for (size_t k = 0; k < c.olen; k++) out[e * os + k] = pat(b, j, k);
		else for (size_t k = 0; k < 100 && k < ol[e]; k++) out[e * os + k] = 0x99;
		rets[e] = r; ol[e] = r ? c.size : c.olen;
		if (!ret && r && r != -ENOSPC) ret = r;
		extra = S->extra[b];
	}
	return ret ? ret : extra;
}
static int no_call(const uint8_t *, size_t, uint8_t *, size_t *) { violation("func", "the single-chunk function is called"); return 0; }

static void strdec_op(Rng &R, st::DataDecompressionStream &s, bool real) {
	Script sc; S = &sc; sc.real = real;
	size_t nb = 1 + R(3), total = nb + R(2);
	Box dst(total * BS, 0, 0x77); sc.base = dst.p;
	std::vector<size_t> pos(total); for (size_t i = 0; i < total; i++) pos[i] = i;
	for (size_t i = total; i > 1; i--) std::swap(pos[i - 1], pos[R(i)]);
	std::vector<Bytes> src(nb);
	std::vector<st::Block> bl(nb); bool bad = false;
	int mode = (int)R(4);	// 0, 1: no failure, 2: one failing chunk, 3: any
	size_t fb = R(nb), fj = R(NC);
	g_desc += fmt("; %s implementation; %zu blocks:", real ? "optimized software" : "scripted", nb);
	for (size_t b = 0; b < nb; b++) {
		size_t at = pos[b] * BS;
		sc.at.push_back(at); sc.b.emplace_back(NC); sc.extra.push_back(0);
		bl[b].offset = at; bl[b].chunk_padding = R.p(50) ? CS : CS + 64 * R(4); sc.pad.push_back(bl[b].chunk_padding);
		int mix = (int)R(5); bool any = false, anysrc = false;
		g_desc += fmt("\n block at %zu, padding %zu:", at, sc.pad[b]);
		for (size_t j = 0; j < NC; j++) {
			Chunk &c = sc.b[b][j];
			int k = mix == 0 ? 0 : mix == 1 ? 1 : mix == 2 ? 2 : (int)R(3);
			bool fail = mode == 3 ? R.p(4) : mode == 2 && b == fb && j == fj;
			if (fail) k = 2;
			static const size_t sz[] = {1, 8, 100, CS / 2, st::COMPRESSIBLE_THRESHOLD};
			c.size = k == 0 ? 0 : k == 1 ? CS : sz[R(5)];
			c.olen = CS;
			if (k == 2 && fail) {
				switch (R(4)) { case 0: c.ret = -EINVAL; break; case 1: c.ret = -ENOSPC; break; case 2: c.olen = R.p(50) ? CS - 1 : R(CS); break; default: c.ret = 1 + (int)R(90); }
				bad = true;
			}
			if (k == 1) anysrc = true;
			if (k == 2) any = true;
			g_desc += c.size == 0 ? std::string(" -") : c.size == CS ? std::string(" =") : fmt(" %zu", c.size) + (c.ret || c.olen != CS ? fmt("(%d,%zu)", c.ret, c.olen) : std::string());
		}
		if (anysrc) { src[b].resize(BS); for (size_t k = 0; k < BS; k += 8) { uint64_t v = R.next(); memcpy(&src[b][k], &v, 8); } }
		bl[b].source = anysrc ? src[b].data() : nullptr;
		sc.buf.push_back(nullptr);
		if (any || R.p(50)) {
			uint8_t *p = bl[b].allocate_buffer(64, sc.pad[b]); sc.buf[b] = p;
			if (real) for (size_t j = 0; j < NC; j++) {
				Chunk &c = sc.b[b][j];
				if (c.size == 0 || c.size == CS) continue;
				bool f = c.ret || c.olen != CS;
				size_t want_len = c.olen; c.ret = 0;
				Bytes raw(f && want_len != CS ? want_len / 8 * 8 : CS); c.data.assign(CS, 0);
				int v = (int)R(256); for (size_t k = 0; k < raw.size(); k++) raw[k] = (uint8_t)(k % 64 < 40 ? v : k >> 3);
				c.size = st::COMPRESSIBLE_THRESHOLD;
				if (optsw842_compress(raw.data(), raw.size(), p + j * sc.pad[b], &c.size)) { f = true; c.size = 8; }
				if (f && want_len == CS) p[j * sc.pad[b] + R(c.size)] ^= (uint8_t)(1 << R(8));
				size_t l = CS; Bytes o(CS, 0x77);
				int r = optsw842_decompress(p + j * sc.pad[b], c.size, o.data(), &l);
				c.ret = r; c.olen = l; c.data = o; c.data.resize(r ? 0 : l);
			}
		}
		for (size_t j = 0; j < NC; j++) bl[b].sizes[j] = sc.b[b][j].size;
	}
	bad = false;
	for (auto &b : sc.b) for (auto &c : b) if (c.size && c.size != CS && (c.ret || c.olen != CS)) bad = true;
	s.start(dst.p);
	for (size_t b = 0; b < nb; b++) if (!s.push_block(std::move(bl[b])) && !bad) violation("func", "a block is rejected although nothing failed");
	Done d; s.finalize(false, [&](bool ok) { d.set(ok); });
	bool ok = d.wait();
	if (ok && bad) violation("func", "success is reported although a chunk failed or has another length than a chunk");
	if (!ok && !bad) violation("func", "failure is reported although every chunk was decompressed");
	std::vector<bool> mine(total);
	for (size_t b = 0; b < nb; b++) {
		mine[sc.at[b] / BS] = true;
		for (size_t j = 0; j < NC; j++) {
			Chunk &c = sc.b[b][j]; uint8_t *p = dst.p + sc.at[b] + j * CS;
			for (size_t k = 0; k < CS; k++) {
				bool w = true;
				if (c.size == 0) w = p[k] == 0x77;
				else if (bad) break;
				else if (c.size == CS) w = p[k] == src[b][j * CS + k];
				else w = p[k] == (real ? c.data[k] : pat(b, j, k));
				if (!w) violation("func", fmt("block at %zu, chunk %zu (size %zu): byte %zu of the destination is wrong", sc.at[b], j, c.size, k));
			}
			if (!bad && !real && c.calls != (c.size && c.size != CS)) violation("func", fmt("block at %zu, chunk %zu: %d calls", sc.at[b], j, c.calls));
		}
	}
	for (size_t q = 0; q < total; q++) if (!mine[q]) for (size_t k = 0; k < BS; k++) if (dst.p[q * BS + k] != 0x77) violation("func", "bytes outside the pushed blocks were changed");
}
static void strdec_case(Rng &R) {
	bool real = R.p(30);
	lib842_implementation impl = {no_call, no_call, mock_comp, mock_dec, 8, 64};
	int th = 1 + (int)R(3), ops = 1 + (int)R(2);
	g_desc = fmt("decompression stream with %d threads", th);
	st::DataDecompressionStream s(real ? *get_optsw842_implementation() : impl, th, st::thread_policy::use_defaults, quiet, quiet);
	if (R.p(50)) s.wait_until_ready();
	while (ops-- > 0) strdec_op(R, s, real);
}

static void strcomp_op(Rng &R, st::DataCompressionStream &s, bool real) {
	Script sc; S = &sc; sc.real = real;
	size_t nb = 1 + R(3), tail = R.p(50) ? 0 : R(BS);
	Box src(nb * BS + tail); sc.base = src.p;
	for (size_t k = 0; k + 8 <= src.n; k += 8) { uint64_t v = R.next(); if (real && k / CS % 3) v = k >> 9; memcpy(src.p + k, &v, 8); }
	bool bad = false; int mode = (int)R(4); size_t fb = R(nb), fj = R(NC);
	g_desc += fmt("; %s implementation; %zu blocks:", real ? "optimized software" : "scripted", nb);
	for (size_t b = 0; b < nb; b++) {
		sc.b.emplace_back(NC); sc.extra.push_back(0);
		int mix = (int)R(4);
		g_desc += fmt("\n block %zu:", b);
		for (size_t j = 0; j < NC; j++) {
			Chunk &c = sc.b[b][j];
			static const size_t sz[] = {1, 8, 1000, CS / 2, st::COMPRESSIBLE_THRESHOLD - 1, st::COMPRESSIBLE_THRESHOLD, st::COMPRESSIBLE_THRESHOLD + 1, CS - 1, CS, CS};
			c.olen = sz[R(mix == 0 ? 5 : mix == 1 ? 10 : mix == 2 ? 7 : 8)]; if (mix == 2 && R.p(50)) c.olen = CS;
			c.size = R.p(50) ? 0 : sz[R(10)];	// length reported with an error
			if (R.p(mix == 1 ? 50 : 15)) c.ret = -ENOSPC;
			if (mode == 3 ? R.p(2) : mode == 2 && b == fb && j == fj) { c.ret = R.p(50) ? -EINVAL : 1 + (int)R(100); bad |= !real; }
			g_desc += fmt(" %zu", c.olen) + (c.ret ? fmt("(%d,%zu)", c.ret, c.size) : std::string());
		}
		if (mode == 1 && b == fb && R.p(40) && !real) { sc.extra[b] = -EIO; bad = true; g_desc += " fails as a whole"; }
	}
	std::mutex m; std::vector<st::Block> got;
	s.start(src.p, src.n, [&](st::Block &&b) { std::lock_guard<std::mutex> l(m); got.push_back(std::move(b)); });
	Done d; s.finalize(false, [&](bool ok) { d.set(ok); });
	bool ok = d.wait();
	if (ok && bad) violation("func", "success is reported although compression failed");
	if (!ok && !bad) violation("func", "failure is reported although no chunk failed hard");
	std::vector<int> seen(nb);
	for (auto &b : got) {
		if (b.offset == SIZE_MAX) { if (!bad) violation("func", "a block is marked as failed"); continue; }
		if (b.offset % BS || b.offset / BS >= nb) violation("func", fmt("block with offset %zu", b.offset));
		size_t q = b.offset / BS;
		if (seen[q]++) violation("func", fmt("block %zu is delivered twice", q));
		for (size_t j = 0; j < NC; j++) {
			Chunk &c = sc.b[q][j];
			Bytes o; size_t want_len; const uint8_t *w = nullptr;
			if (real) {
				o.resize(CS); size_t l = CS;
				int r = optsw842_compress(src.p + q * BS + j * CS, CS, o.data(), &l);
				want_len = !r && l <= st::COMPRESSIBLE_THRESHOLD ? l : CS; o.resize(r ? 0 : l); w = o.data();
			} else {
				if (c.ret && c.ret != -ENOSPC || sc.extra[q]) violation("func", fmt("block %zu is not marked as failed", q));
				want_len = !c.ret && c.olen <= st::COMPRESSIBLE_THRESHOLD ? c.olen : CS;
			}
			if (b.sizes[j] != want_len) violation("func", fmt("block %zu chunk %zu: size %zu instead of %zu", q, j, b.sizes[j], want_len));
			const uint8_t *p = b.get_chunk(j);
			if (!p) violation("func", fmt("block %zu chunk %zu: no data", q, j));
			for (size_t k = 0; k < want_len; k++) {
				uint8_t x = want_len == CS ? src.p[q * BS + j * CS + k] : real ? w[k] : pat(q, j, k);
				if (p[k] != x) violation("func", fmt("block %zu chunk %zu (size %zu): byte %zu is wrong", q, j, want_len, k));
			}
		}
	}
	if (ok) for (size_t q = 0; q < nb; q++) if (!seen[q]) violation("func", fmt("block %zu is missing", q));
}
static void strcomp_case(Rng &R) {
	bool real = R.p(15);
	lib842_implementation impl = {no_call, no_call, mock_comp, mock_dec, 8, (size_t)1 << (3 + R(8))};
	int th = 1 + (int)R(3), ops = 1 + (int)R(2);
	g_desc = fmt("compression stream with %d threads", th);
	st::DataCompressionStream s(real ? *get_optsw842_implementation() : impl, th, st::thread_policy::use_defaults, quiet, quiet);
	if (R.p(50)) s.wait_until_ready();
	while (ops-- > 0) strcomp_op(R, s, real);
}
