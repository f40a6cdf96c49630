// Replays the contracts of /repo's entry points on generated inputs, against
// the reference in ref842.h.  Used (a) to find a concrete failing input after
// an obligation failed and (b) as a bounded stand-in where the verifier cannot
// bring the code in reach.  Deterministic in (mode, seed, index).
//
//   harness MODE SEED SECONDS PROCS OUT [CLASS,CLASS...]   search
//   harness MODE SEED only INDEX OUT                       one case again
#include "ref842.h"
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <cstdarg>
#include <csignal>
#include <ctime>
#include <unistd.h>
#include <pthread.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <map>
#include <set>
#include <functional>
#include <lib842/sw.h>
#include "common/crc32.h"

extern "C" {
void __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void *, size_t), void (*f)(const volatile void *)) __attribute__((weak));
void __sanitizer_set_report_path(const char *) __attribute__((weak));
void *h_malloc(size_t n); void *h_calloc(size_t a, size_t b); void h_free(void *p);
}
static int g_fill = 0;
static bool g_count = false;
static std::set<const volatile void *> *g_live;
static void hook_m(const volatile void *p, size_t) { if (g_count) { g_count = false; g_live->insert(p); g_count = true; } }
static void hook_f(const volatile void *p) { if (g_count) { g_count = false; g_live->erase(p); g_count = true; } }
// the library's own heap memory starts with varying contents
void *h_malloc(size_t n) { void *p = malloc(n); if (p) memset(p, g_fill ? 0x5a : 0xa7, n); return p; }
void *h_calloc(size_t a, size_t b) { return calloc(a, b); }
void h_free(void *p) { free(p); }
static void __attribute__((noinline)) stir(int f) { volatile uint8_t a[16384]; for (size_t i = 0; i < sizeof a; i++) a[i] = f ? 0x33 : 0xcc; }

struct Shared { volatile uint64_t index; volatile int state; char cls[24]; char msg[4096]; };
static Shared *sh;
static std::string g_desc;
static std::set<std::string> g_classes;
static bool want(const char *c) { return g_classes.empty() || g_classes.count(c); }
static void violation(const char *cls, const std::string &m) {
	if (!want(cls)) return;
	snprintf(sh->cls, sizeof sh->cls, "%s", cls);
	snprintf(sh->msg, sizeof sh->msg, "%s\n%s", m.c_str(), g_desc.c_str());
	sh->state = 2;
	_exit(3);
}
static std::string hex(const Bytes &b, size_t max = 700) {
	std::string s; char t[4];
	for (size_t i = 0; i < b.size() && i < max; i++) { snprintf(t, 4, "%02x", b[i]); s += t; }
	if (b.size() > max) s += "...";
	return s;
}
static std::string fmt(const char *f, ...) { char b[1024]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }

// exact-size heap object, so that any access outside it is reported
struct Box {
	uint8_t *raw, *p; size_t n, pad;
	Box(size_t n_, size_t mis = 0, int fill = 0) : n(n_), pad(mis) {
		raw = (uint8_t *)aligned_alloc(16, 16 * ((n + mis + 15) / 16) + 16);
		free(raw); raw = (uint8_t *)malloc(n + mis ? n + mis : 1); // malloc is 16-byte aligned
		p = raw + mis; memset(p, fill, n);
	}
	~Box() { free(raw); }
	Box(const Box &) = delete;
};

typedef int (*fn_t)(const uint8_t *, size_t, uint8_t *, size_t *);
struct Run { int ret; size_t olen; Bytes out; bool tail_ok; size_t leaks; };
static Run run(fn_t f, const Bytes &in, size_t cap, int fill, size_t mi = 0, size_t mo = 0, bool memcap = true) {
	Box i(in.size(), mi), o(cap, mo, fill ? 0x11 : 0xee);
	if (!in.empty()) memcpy(i.p, in.data(), in.size());
	Run r; r.olen = cap;
	g_fill = fill; stir(fill);
	g_live->clear(); g_count = true;
	r.ret = f(i.p, in.size(), o.p, &r.olen);
	g_count = false; r.leaks = g_live->size();
	if (!in.empty() && memcmp(i.p, in.data(), in.size())) violation("memory", "the input buffer was changed");
	r.out.assign(o.p, o.p + (r.olen <= cap ? r.olen : cap));
	return r;
}

// ---------------------------------------------------------------- decoders
static Bytes make_stream(Rng &R, bool sd, bool opt) {
	Gen g(R, sd && R.p(60));
	static const int sizes[] = {0, 1, 2, 4, 8, 14, 20, 40};
	int n = R.p(15) ? (int)R(700) + 60 : sizes[R(8)] + (int)R(4);
	bool wild = R.p(25);
	if (R.p(25)) for (int k = (int)R(9); k-- > 0;) { if (g.out.size() >= 8) g.repeat(64 - (int)R(3)); else g.tmpl(0, 0); }
	if (wild && R.p(10)) g.repeat(1 + (int)R(64));
	for (int k = 0; k < n; k++) {
		if (wild && R.p(3)) { g.w.put(R.p(50) ? 0x1a : 0x1f, 5); }
		if (wild && R.p(3)) { g.w.put(0x1d, 5); g.w.put(R.p(50) ? 0 : R(8), 3); }
		g.step(wild);
	}
	if (!R.p(wild ? 20 : 2)) {
		g.w.put(0x1e, 5);
		uint32_t c = ref_crc(g.out.data(), g.out.size());
		if (R.p(wild ? 15 : 2)) c ^= R.p(50) ? 1u << R(32) : (uint32_t)R.next();
		g.w.put(c, 32);
	}
	int k = (int)R(100);
	if (k < 60) while (g.w.b.size() % 8) g.w.b.push_back(0);
	else if (k < 70) for (int j = (int)R(40); j-- > 0;) g.w.b.push_back((uint8_t)R.next());
	if (wild || R.p(10)) {
		int m = (int)R(6);
		Bytes &b = g.w.b;
		if (m == 0) for (int j = 1 + (int)R(4); j-- > 0 && !b.empty();) b[R(b.size())] ^= (uint8_t)(1 << R(8));
		if (m == 1 && !b.empty()) b.resize(R(b.size()));
		if (m == 2 && !b.empty()) b.resize(b.size() - (R(b.size()) < 12 ? R(b.size()) : R(12)) % b.size());
		if (m == 3) { for (auto &x : b) if (R.p(3)) x = (uint8_t)R.next(); }
		if (m == 4) { b.resize(R(40)); for (auto &x : b) x = (uint8_t)R.next(); }
	}
	return g.w.b;
}
static void dec_case(fn_t f, const char *name, bool opt, Rng &R) {
	bool sd = !opt;
	Bytes in = make_stream(R, R.p(opt ? 4 : 100), opt);
	if (ref_crc_unchecked) in.resize(in.size() / 8 * 8);
	uint64_t nbits = opt ? in.size() / 8 * 64 : in.size() * 8ull;
	RefResult full = ref_decode(in.data(), nbits, 1u << 22, sd, true);
	uint64_t L = full.out.size();
	std::vector<uint64_t> caps;
	caps.push_back(L + (R.p(50) ? R(80) : 0));
	if (L) { caps.push_back(L - 1); caps.push_back(L - (R(L) % (R.p(50) ? 9 : 520))); caps.push_back(R(L)); }
	if (!full.ok) caps.push_back(L + 4096);
	if (R.p(8)) caps.push_back(L + (1u << 16));
	for (uint64_t cap : caps) {
		RefResult x = ref_decode(in.data(), nbits, cap, sd, true);
		g_desc = fmt("%s: input %zu bytes, capacity %zu; reference: %s, output %zu bytes\ninput: ", name, in.size(), (size_t)cap, x.ok ? "well formed" : x.why.c_str(), x.out.size()) + hex(in);
		Run a = run(f, in, cap, 0);
		std::string got = fmt("returned %d with length %zu", a.ret, a.olen);
		if (a.leaks) violation("leak", got + " and did not free memory");
		if (a.ret != 0 && a.olen != 0) violation("errlen", got + ": an error must report length 0");
		if (a.ret == 0 && a.olen > cap) violation("bounds", got + ": more than the capacity");
		if (x.ok) {
			if (a.ret == -ENOSPC) violation("enospc", got + " although the output fits");
			if (a.ret != 0) violation("func", got + " for a well-formed stream");
			if (a.olen != x.out.size()) violation("olen", got + fmt(" instead of length %zu", x.out.size()));
			if (a.out != x.out) { size_t i = 0; while (a.out[i] == x.out[i]) i++; violation("func", got + fmt(", output differs at byte %zu", i)); }
		} else {
			if (x.good && !x.fits) {
				if (a.ret == 0) violation("enospc", got + " although the output does not fit");
				if (a.ret != -ENOSPC) violation("enospc", got + " instead of the no-space error");
			}
			if (a.ret == 0) violation("func", got + " for an invalid stream");
			if (a.ret > 0) violation("func", got + ": errors are negative");
			if (x.fits && a.ret == -ENOSPC) violation("enospc", got + ": no-space although the output so far fits");
		}
		if (R.p(30)) {
			Run b = run(f, in, cap, 1);
			if (a.ret != b.ret || a.olen != b.olen || a.out != b.out) violation("state", got + fmt("; a second call returned %d with length %zu", b.ret, b.olen));
		}
	}
}

// ---------------------------------------------------------------- compressors
static Bytes make_data(Rng &R, bool opt) {
	Bytes d;
	int style = (int)R(10);
	size_t target = R.p(50) ? R(200) : R.p(60) ? R(3000) : R(9000);
	if (R.p(4)) target = 0;
	std::vector<uint16_t> alpha; for (int i = 0; i < 2 + (int)R(style < 5 ? 30 : 700); i++) alpha.push_back(R.p(15) ? 0 : (uint16_t)R.next());
	auto push = [&](uint64_t v, int n) { for (int k = n - 1; k >= 0; k--) d.push_back((uint8_t)(v >> (8 * k))); };
	auto copy = [&](int n) {
		if (d.size() < (size_t)n) { push(R.next(), n); return; }
		size_t maxd = d.size() - n, dist;
		static const size_t edges[] = {8, 16, 504, 512, 520, 1024, 2040, 2048, 2056, 2064};
		size_t here = d.size();
		if (R.p(40)) { dist = edges[R(10)] + R(5) * 2 - 4; } else if (R.p(50)) dist = R(560); else dist = R(2300);
		if (dist < (size_t)n) dist = n;
		if (dist > here) dist = here - R(maxd + 1);
		size_t o = here - dist; if (R.p(85)) o = o / n * n; if (o + n > here) o = here - n;
		for (int k = 0; k < n; k++) d.push_back(d[o + k]);
	};
	while (d.size() < target) {
		int c = (int)R(100);
		if (style == 9) { push(R.next(), 8); continue; }
		if (c < 6) { for (int k = 1 + (int)R(R.p(10) ? 200 : 5); k-- > 0;) push(0, 8); }
		else if (c < 14 && d.size() >= 8) { int reps = R.p(30) ? 62 + (int)R(6) : R.p(20) ? 126 + (int)R(6) : 1 + (int)R(6); if (style > 6) reps = 1 + (int)R(3); while (reps-- > 0) for (int k = 0; k < 8; k++) d.push_back(d[d.size() - 8]); }
		else {
			// one block, piece by piece
			if (c < 30) copy(8);
			else for (int h = 0; h < 2; h++) {
				if (R.p(30)) copy(4);
				else for (int q = 0; q < 2; q++) {
					if (R.p(45)) copy(2);
					else if (R.p(40)) push(alpha[R(alpha.size())], 2);
					else push(R.next() & 0xffff, 2);
				}
			}
		}
	}
	d.resize(target < d.size() && !opt ? target : d.size() / 8 * 8);
	if (!opt && R.p(60)) d.resize(d.size() / 8 * 8);
	if (!opt && R.p(40)) for (int k = (int)R(8); k-- > 0;) d.push_back((uint8_t)R.next());
	return d;
}
static void enc_case(fn_t f, const char *name, bool opt, Rng &R) {
	Bytes in = make_data(R, opt);
	bool reject = opt && in.size() && R.p(3);
	if (reject) in.resize(in.size() - 1 - R(7));
	size_t blocks = in.size() / 8, tail = in.size() % 8;
	size_t bound = (69 * blocks + (tail ? 8 + 8 * tail : 0) + 37 + 63) / 64 * 8;
	g_desc = fmt("%s: input %zu bytes, capacity %zu\ninput: ", name, in.size(), bound) + hex(in, 1800);
	Run a = run(f, in, bound, 0);
	std::string got = fmt("returned %d with length %zu", a.ret, a.olen);
	if (a.leaks) violation("leak", got + fmt(" and left %zu allocations", a.leaks));
	if (reject) {
		if (a.ret >= 0) violation("func", got + " for a length that is not a multiple of 8");
		if (a.olen) violation("errlen", got + ": an error must report length 0");
		return;
	}
	if (a.ret != 0 && a.olen != 0) violation("errlen", got + ": an error must report length 0");
	size_t S = 0;
	auto check = [&](const Run &a, const std::string &got, size_t cap) {
		if (a.olen > cap) violation("bounds", got + ": more than the capacity");
		if (a.olen % 8) violation("std", got + ": not a multiple of 8 bytes");
		RefResult x = ref_decode(a.out.data(), a.out.size() * 8, in.size(), true, true);
		if (!x.ok) violation("func", got + ", but the stream is not well formed or too long: " + x.why);
		if (x.out != in) violation("func", got + ", but the stream decodes to other data");
		if (a.out.size() != (x.bits + 63) / 64 * 8) violation("std", got + ": more than padding after the checksum");
		for (uint64_t b = x.bits; b < a.out.size() * 8; b++) if (a.out[b >> 3] >> (7 - (b & 7)) & 1) violation("std", got + ": padding bits are not zero");
		for (size_t k = 0; k < x.ops.size(); k++) if (x.ops[k].op == 0x1d && (!tail || opt || k + 2 != x.ops.size() || (size_t)x.ops[k].arg != tail)) violation("std", got + ": short data template inside the stream");
		if (x.bits > 69 * blocks + (tail ? 8 + 8 * tail : 0) + 37) violation("size", got + ": larger than 69 bits per 8 bytes");
	};
	if (a.ret != 0) {
		violation("size", got + ": the stream needs more than 69 bits per 8 bytes");
		violation("enospc", got + " although 69 bits per 8 bytes are available");
		Run b = run(f, in, 2 * bound + 4096, 0);
		got = fmt("returned %d with length %zu (capacity %zu)", b.ret, b.olen, 2 * bound + 4096);
		if (b.ret) { violation("enospc", got); violation("func", got); return; }
		check(b, got, 2 * bound + 4096);
		return;
	}
	S = a.olen;
	check(a, got, bound);
	std::vector<size_t> caps = {S, S - 1, S - 8, S + R(8), R(S), R(S)};
	if (R.p(50)) caps.push_back(S - (R(S) < 64 ? R(S) : R(64)) % S);
	if (R.p(5) && S < 400) for (size_t c = 0; c < S; c++) caps.push_back(c);
	for (size_t cap : caps) {
		if ((ssize_t)cap < 0) continue;
		g_desc = fmt("%s: input %zu bytes, capacity %zu (complete stream: %zu bytes)\ninput: ", name, in.size(), cap, S) + hex(in, 1800);
		Run b = run(f, in, cap, (int)R(2));
		got = fmt("returned %d with length %zu", b.ret, b.olen);
		if (b.leaks) violation("leak", got + fmt(" and left %zu allocations", b.leaks));
		if (b.ret && b.olen) violation("errlen", got + ": an error must report length 0");
		if (cap / 8 * 8 >= S) {
			if (b.ret) violation("enospc", got + " although the stream fits");
			if (b.ret == 0) check(b, got, cap);
			if (b.ret == 0 && b.out != a.out) violation("state", got + ": other output than with a larger buffer");
		} else {
			if (b.ret == 0) { check(b, got, cap); violation("enospc", got + " although the stream does not fit"); }
			if (b.ret != -ENOSPC) violation("enospc", got + " instead of the no-space error");
		}
	}
	if (R.p(40)) {
		Run b = run(f, in, bound, 1);
		if (a.ret != b.ret || a.olen != b.olen || a.out != b.out) violation("state", got + fmt("; a second call returned %d with length %zu or other output", b.ret, b.olen));
	}
}

// ---------------------------------------------------------------- checksum
static void crc_case(Rng &R) {
	size_t n = R.p(60) ? R(80) : R(5000), mis = R(9);
	Box b(n, mis);
	for (size_t i = 0; i < n; i++) b.p[i] = R.p(20) ? 0 : (uint8_t)R.next();
	uint32_t want_ = ref_crc(b.p, n);
	g_desc = fmt("crc32_be(0, buffer at alignment %zu, %zu)", mis & 7, n);
	Bytes save(b.p, b.p + n);
	uint32_t got = crc32_be(0, b.p, n);
	if (got != want_) violation("func", fmt("checksum %08x instead of %08x", got, want_));
	if (n && memcmp(save.data(), b.p, n)) violation("memory", "buffer changed");
}

// ---------------------------------------------------------------- alignment
static void align_case(Rng &R) {
	bool comp = R.p(50);
	size_t mi = R(8), mo = R(8); if (!mi && !mo) mi = 1 + R(7);
	Bytes in = comp ? make_data(R, R.p(85)) : make_stream(R, R.p(40), false);
	size_t cap;
	if (comp) { cap = R.p(60) ? in.size() * 2 + 64 : R(in.size() + 8); }
	else { RefResult x = ref_decode(in.data(), in.size() * 8, 1u << 22, true, true); cap = R.p(60) ? x.out.size() + R(16) : R(x.out.size() + 1); }
	fn_t f = comp ? optsw842_compress : optsw842_decompress, s = comp ? sw842_compress : sw842_decompress;
	g_desc = fmt("optsw842_%scompress: input %zu bytes at alignment %zu, output at alignment %zu, capacity %zu\ninput: ", comp ? "" : "de", in.size(), mi, mo, cap) + hex(in, 1800);
	Run a = run(f, in, cap, 0, mi, mo), b = run(s, in, cap, 1, mi, mo);
	std::string got = fmt("returned %d with length %zu, portable implementation %d with length %zu", a.ret, a.olen, b.ret, b.olen);
	if (a.leaks) violation("leak", got);
	if (comp && in.size() % 8) { if (a.ret >= 0 || a.olen) violation("func", got + ": a length that is not a multiple of 8 must be rejected"); return; }
	if (a.ret != b.ret || a.olen != b.olen || a.out != b.out) violation("func", got);
}

// ---------------------------------------------------------------- chunks
static void chunk_case(Rng &R, uint64_t idx) {
	typedef int (*cf_t)(size_t, int *, const uint8_t *, size_t, const size_t *, uint8_t *, size_t, size_t *);
	int which = (int)R(4);
	bool comp = which & 1, opt = which & 2;
	cf_t cf = comp ? (opt ? optsw842_compress_chunked : sw842_compress_chunked) : (opt ? optsw842_decompress_chunked : sw842_decompress_chunked);
	const lib842_implementation *im = opt ? get_optsw842_implementation() : get_sw842_implementation();
	if (R.p(50)) cf = comp ? im->compress_chunked : im->decompress_chunked;
	fn_t f = comp ? (opt ? optsw842_compress : sw842_compress) : (opt ? optsw842_decompress : sw842_decompress);
	size_t n = R.p(5) ? 0 : 1 + R(6);
	bool huge = idx % 40 == 7, many = !huge && R.p(3);
	if (huge) n = 2 + R(2);
	if (many) n = 257 + R(300);
	std::vector<Bytes> ins(n); std::vector<size_t> il(n), ol(n); std::vector<int> rets(n), r2(n);
	size_t mx = 0, mo = 0;
	for (size_t i = 0; i < n; i++) {
		ins[i] = many ? Bytes(8 * R(4)) : comp ? make_data(R, R.p(opt ? 95 : 50)) : make_stream(R, R.p(30), opt);
		il[i] = R.p(20) ? SIZE_MAX : ins[i].size();
		ol[i] = R.p(70) ? 2 * ins[i].size() + 600 : R(ins[i].size() + 1);
		if (!comp && R.p(70)) ol[i] = 1 << 14;
		if (many) ol[i] = R(48);
		rets[i] = 12345; if (ins[i].size() > mx) mx = ins[i].size();
		if (ol[i] > mo) mo = ol[i];
	}
	size_t is = mx + R(3) * 8, os = mo + R(3) * 8;
	if (opt || R.p(50)) { is = (is + 7) & ~7ull; os = (os + 7) & ~7ull; }
	if (huge) { if (R.p(70)) is += (1ull << 32) - 64 * R(3) * 8; if (R.p(70)) os += (1ull << 31) * (1 + R(3)); }
	size_t inb = is * n + 64, outb = os * n + 64;
	uint8_t *in, *out;
	Box *bi = nullptr, *bo = nullptr;
	if (huge) {
		in = (uint8_t *)mmap(0, inb, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		out = (uint8_t *)mmap(0, outb, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (in == MAP_FAILED || out == MAP_FAILED) return;
	} else { bi = new Box(inb); bo = new Box(outb, 0, 0x77); in = bi->p; out = bo->p; }
	for (size_t i = 0; i < n; i++) if (!ins[i].empty()) memcpy(in + i * is, ins[i].data(), ins[i].size());
	std::vector<size_t> ol0 = ol;
	g_desc = fmt("%s842_%scompress_chunked: %zu chunks, strides %zu and %zu; lengths/capacities:", opt ? "optsw" : "sw", comp ? "" : "de", n, is, os);
	for (size_t i = 0; i < n && i < 12; i++) g_desc += fmt(" %zd/%zu", il[i], ol[i]);
	int ret = cf(n, rets.data(), in, is, il.data(), out, os, ol.data());
	int want_ = 0;
	for (size_t i = 0; i < n; i++) {
		if (il[i] == SIZE_MAX) {
			if (rets[i] != 12345 || ol[i] != ol0[i]) violation("func", fmt("skipped chunk %zu was changed (result %d, length %zu)", i, rets[i], ol[i]));
			for (size_t k = 0; !huge && k < os; k++) if (out[i * os + k] != 0x77) violation("func", fmt("output of skipped chunk %zu was changed", i));
			continue;
		}
		// same alignment as in the chunked call
		Box a(ins[i].size(), ((uintptr_t)in + i * is) & 7), o(ol0[i], ((uintptr_t)out + i * os) & 7, 0x77);
		if (!ins[i].empty()) memcpy(a.p, ins[i].data(), ins[i].size());
		size_t l = ol0[i];
		int r = f(a.p, ins[i].size(), o.p, &l);
		if (rets[i] != r || ol[i] != l) violation("func", fmt("chunk %zu: result %d, length %zu; single call: %d, %zu", i, rets[i], ol[i], r, l));
		if (l && memcmp(o.p, out + i * os, l)) violation("func", fmt("chunk %zu: output differs from a single call", i));
		if (!want_ && r && r != -ENOSPC) want_ = r;
	}
	if (ret != want_) violation("func", fmt("returned %d instead of %d", ret, want_));
	if (huge) { munmap(in, inb); munmap(out, outb); }
	delete bi; delete bo;
}

// ---------------------------------------------------------------- concurrency and history
// (built with the thread sanitizer: a race on anything shared is reported in any schedule)
static void conc_case(Rng &R) {
	struct Job { fn_t f; Bytes in; size_t cap; Run r; };
	static const fn_t fs[] = {sw842_compress, sw842_decompress, optsw842_compress, optsw842_decompress};
	static const char *names[] = {"sw842_compress", "sw842_decompress", "optsw842_compress", "optsw842_decompress"};
	int n = 2 + (int)R(3), same = R.p(60) ? (int)R(4) : -1;
	std::vector<Job> js(n);
	g_desc = "calls on disjoint buffers:";
	for (auto &j : js) {
		int w = same >= 0 ? same : (int)R(4);
		j.f = fs[w];
		j.in = w & 1 ? make_stream(R, w == 1, w == 3) : make_data(R, w == 2);
		j.cap = w & 1 ? (R.p(80) ? 1 << 14 : R(2000)) : R.p(80) ? 2 * j.in.size() + 64 : R(j.in.size() + 1);
		g_desc += fmt(" %s (%zu bytes, capacity %zu)", names[w], j.in.size(), j.cap);
	}
	for (auto &j : js) g_desc += "\ninput: " + hex(j.in, 600);
	auto call = [](Job &j, Run &r, int fill) {
		Box i(j.in.size()), o(j.cap, 0, fill);
		if (!j.in.empty()) memcpy(i.p, j.in.data(), j.in.size());
		r.olen = j.cap;
		r.ret = j.f(i.p, j.in.size(), o.p, &r.olen);
		r.out.assign(o.p, o.p + (r.olen <= j.cap ? r.olen : j.cap));
	};
	auto differ = [](const Run &a, const Run &b) { return a.ret != b.ret || a.olen != b.olen || a.out != b.out; };
	for (auto &j : js) call(j, j.r, 0);
	for (int k = n - 1; k >= 0; k--) {
		Run b; g_fill = 1; stir(1); call(js[k], b, 1);
		if (differ(js[k].r, b)) violation("state", fmt("call %d gives another result after other calls (%d with length %zu, then %d with length %zu)", k + 1, js[k].r.ret, js[k].r.olen, b.ret, b.olen));
	}
	struct T { Job *j; Run r; pthread_t t; bool bad; };
	std::vector<T> ts(n);
	struct Ctx { decltype(call) *c; decltype(differ) *d; T *t; pthread_barrier_t *b; };
	pthread_barrier_t bar; pthread_barrier_init(&bar, 0, n);
	std::vector<Ctx> cs(n);
	for (int k = 0; k < n; k++) {
		ts[k].j = &js[k]; ts[k].bad = false; cs[k] = {&call, &differ, &ts[k], &bar};
		pthread_create(&ts[k].t, 0, [](void *x) -> void * {
			Ctx *c = (Ctx *)x;
			pthread_barrier_wait(c->b);
			for (int i = 0; i < 3 && !c->t->bad; i++) { (*c->c)(*c->t->j, c->t->r, 0); c->t->bad = (*c->d)(c->t->j->r, c->t->r); }
			return nullptr;
		}, &cs[k]);
	}
	for (auto &t : ts) pthread_join(t.t, 0);
	for (int k = 0; k < n; k++) if (ts[k].bad) violation("state", fmt("call %d gives another result when the calls run concurrently (%d with length %zu instead of %d with length %zu)", k + 1, ts[k].r.ret, ts[k].r.olen, js[k].r.ret, js[k].r.olen));
}

#ifdef WITH_STREAM
#include "stream_modes.h"
#endif
#ifdef WITH_THREADS
#include <numeric>
#include "thread_mode.h"
#endif
#ifdef WITH_CL
#include "cl_mode.h"
#endif

#ifdef WITH_HW
#include "hw_mode.h"
#endif

static void one(const std::string &mode, uint64_t seed, uint64_t i) {
	Rng R(seed * 1000003 + 17, i);
	if (mode == "swdec") dec_case(sw842_decompress, "sw842_decompress", false, R);
	else if (mode == "optdec") dec_case(optsw842_decompress, "optsw842_decompress", true, R);
	else if (mode == "swenc") enc_case(sw842_compress, "sw842_compress", false, R);
	else if (mode == "optenc") enc_case(optsw842_compress, "optsw842_compress", true, R);
	else if (mode == "crc") crc_case(R);
	else if (mode == "align") align_case(R);
	else if (mode == "conc") conc_case(R);
	else if (mode == "chunked") chunk_case(R, i);
#ifdef WITH_STREAM
	else if (mode == "strdec") strdec_case(R);
	else if (mode == "strcomp") strcomp_case(R);
#endif
#ifdef WITH_THREADS
	else if (mode == "thr" || mode == "thrt") thr_case(R);
#endif
#ifdef WITH_CL
	else if (mode == "cl") cl_case(R);
#endif
#ifdef WITH_HW
	else if (mode == "hw" || mode == "hw0") hw_case(R);
#endif
	else { fprintf(stderr, "unknown mode\n"); _exit(9); }
}

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void on_alarm(int) {
	snprintf(sh->cls, sizeof sh->cls, "hang"); snprintf(sh->msg, sizeof sh->msg, "no end after 20 s\n%s", g_desc.c_str());
	sh->state = 2; _exit(4);
}

int main(int argc, char **argv) {
	if (argc < 6) return 9;
	std::string mode = argv[1], out = argc > 6 && strcmp(argv[3], "only") ? argv[5] : argv[5];
	uint64_t seed = strtoull(argv[2], 0, 10);
	bool only = !strcmp(argv[3], "only");
	uint64_t first = only ? strtoull(argv[4], 0, 10) : 0;
	int procs = only ? 1 : atoi(argv[4]);
	double secs = only ? 60 : atof(argv[3]);
	if (argc > 6) { std::string c = argv[6], t; for (char ch : c + ",") { if (ch == ',') { if (!t.empty()) g_classes.insert(t); t.clear(); } else t += ch; } }
	g_live = new std::set<const volatile void *>;
	if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(hook_m, hook_f);
	Shared *all = (Shared *)mmap(0, sizeof(Shared) * procs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	double t0 = now();
	int null = open("/dev/null", O_WRONLY);
	std::map<pid_t, int> kids;
	for (int k = 0; k < procs; k++) {
		pid_t p = fork();
		if (p == 0) {
			sh = &all[k];
			dup2(null, 1); dup2(null, 2);
			std::string lp = out + fmt(".asan.%d", k);
			if (__sanitizer_set_report_path) __sanitizer_set_report_path(lp.c_str());
			signal(SIGALRM, on_alarm);
			uint64_t i = only ? first : k;
			do {
				sh->index = i; sh->state = 1; g_desc = "";
				alarm(20);
				one(mode, seed, i);
				i += procs;
			} while (!only && now() - t0 < secs);
			sh->index = i; sh->state = 0;
			_exit(0);
		}
		kids[p] = k;
	}
	int found = -1; uint64_t cases = 0; uint64_t best = ~0ull; std::string text;
	while (!kids.empty()) {
		int st; pid_t p = wait(&st);
		if (p < 0) break;
		int k = kids[p]; kids.erase(p);
		Shared &s = all[k];
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { cases += only ? 1 : s.index / procs; continue; }
		std::string cls, msg;
		if (s.state == 2) { cls = s.cls; msg = s.msg; }
		else {
			cls = (mode == "conc" || mode == "thrt") && WIFEXITED(st) && WEXITSTATUS(st) == 66 ? "state" : "memory";
			if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGTERM)) { cls = "killed"; msg = "killed"; }
			else msg = fmt("process ended abnormally (%s %d)", WIFSIGNALED(st) ? "signal" : "exit status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
			FILE *f = fopen((out + fmt(".asan.%d.%d", k, (int)p)).c_str(), "r");
			if (f) { char b[6000]; size_t n = fread(b, 1, sizeof b - 1, f); b[n] = 0; msg += "\n"; msg += b; fclose(f); }
		}
		unlink((out + fmt(".asan.%d.%d", k, (int)p)).c_str());
		if (cls == "killed") continue;
		if (!g_classes.empty() && !g_classes.count(cls)) { fprintf(stderr, "other class %s\n", cls.c_str()); continue; }
		if (s.index < best) { best = s.index; found = k; text = "class " + cls + "\nmode " + mode + fmt("\nseed %llu\nindex %llu\n", (unsigned long long)seed, (unsigned long long)s.index) + msg + "\n"; }
		for (auto &q : kids) kill(q.first, SIGTERM);
	}
	for (int k = 0; k < procs; k++) unlink((out + fmt(".asan.%d", k)).c_str());
	FILE *f = fopen(out.c_str(), "w");
	if (f) { if (found >= 0) fputs(text.c_str(), f); else fprintf(f, "cases %llu\n", (unsigned long long)cases); fclose(f); }
	return found >= 0 ? 1 : 0;
}
