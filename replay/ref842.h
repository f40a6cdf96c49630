// Reference 842 format (independent of /repo), used to replay failed obligations
// against the real code and for bounded stand-ins.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
typedef std::vector<uint8_t> Bytes;

static const char *const REF_T[26] = {
	"D8", "D4D2I2", "D4I2D2", "D4I2I2", "D4I4", "D2I2D4", "D2I2D2I2", "D2I2I2D2", "D2I2I2I2", "D2I2I4",
	"I2D2D4", "I2D4I2", "I2D2I2D2", "I2D2I2I2", "I2D2I4", "I2I2D4", "I2I2D2I2", "I2I2I2D2", "I2I2I2I2", "I2I2I4",
	"I4D4", "I4D2I2", "I4I2D2", "I4I2I2", "I4I4", "I8"};
static inline int ref_ibits(int n) { return n == 4 ? 9 : 8; }
static inline uint64_t ref_fifo(int n) { return n == 2 ? 512 : 2048; }

static inline uint32_t ref_crc(const uint8_t *p, size_t n) {
	uint32_t c = 0;
	for (size_t i = 0; i < n; i++) {
		c ^= (uint32_t)p[i] << 24;
		for (int k = 0; k < 8; k++) c = (c & 0x80000000u) ? (c << 1) ^ 0x04C11DB7u : c << 1;
	}
	return c;
}
// ring-buffer index -> absolute offset, -1 if it refers to data not yet produced
static inline int64_t ref_resolve(uint64_t i, int n, uint64_t len) {
	uint64_t F = ref_fifo(n), total = len & ~7ull, off = i * n;
	if (total > F) {
		uint64_t section = total / F * F, pos = total - section;
		if (off >= pos) section -= F;
		off += section;
	}
	return off + n <= total ? (int64_t)off : -1;
}

struct RefOp { int op; uint64_t bit; uint64_t out; int arg; };
struct RefResult {
	bool ok = false;        // well formed and fits
	bool good = false;      // the template at the stopping point was valid (so only space was missing)
	bool fits = true;       // ... and its output fits
	Bytes out;
	uint64_t bits = 0;      // bits up to and including the checksum
	std::vector<RefOp> ops;
	std::string why;
};
static bool ref_crc_unchecked = false;     // the OpenCL kernel reads the checksum only
static RefResult ref_decode(const uint8_t *d, uint64_t nbits, uint64_t cap, bool shortdata, bool crc) {
	RefResult r;
	uint64_t pos = 0;
	bool trunc = false;
	auto get = [&](int n) -> uint64_t {
		uint64_t v = 0;
		if (pos + n > nbits) { trunc = true; pos = nbits; return 0; }
		for (int k = 0; k < n; k++, pos++) v = v << 1 | (d[pos >> 3] >> (7 - (pos & 7)) & 1);
		return v;
	};
	auto stop = [&](bool good, bool fits, const char *why) { r.good = good; r.fits = fits; r.why = why; return r; };
	for (;;) {
		uint64_t at = pos;
		int op = (int)get(5);
		if (trunc) return stop(false, true, "truncated");
		uint64_t L = r.out.size();
		if (op < 26) {
			Bytes t; bool bad = false;
			for (const char *s = REF_T[op]; *s; s += 2) {
				int n = s[1] - '0';
				if (*s == 'D') { uint64_t v = get(8 * n); for (int k = n - 1; k >= 0; k--) t.push_back((uint8_t)(v >> (8 * k))); }
				else {
					uint64_t i = get(ref_ibits(n));
					int64_t o = ref_resolve(i, n, L + t.size());
					if (o < 0) { bad = true; o = 0; for (int k = 0; k < n; k++) t.push_back(0); continue; }
					for (int k = 0; k < n; k++) t.push_back((uint64_t)o + k < L ? r.out[o + k] : t[o + k - L]);
				}
			}
			bool good = !trunc && !bad, fits = L + 8 <= cap;
			if (!good || !fits) return stop(good, fits, trunc ? "truncated" : bad ? "forward reference" : "no space");
			r.ops.push_back({op, at, L, 0});
			r.out.insert(r.out.end(), t.begin(), t.end());
		} else if (op == 0x1b) {
			uint64_t n = get(6) + 1;
			bool good = !trunc && L >= 8, fits = L + 8 * n <= cap;
			if (!good || !fits) return stop(good, fits || trunc, trunc ? "truncated" : L < 8 ? "nothing to repeat" : "no space");
			r.ops.push_back({op, at, L, (int)n});
			for (uint64_t k = 0; k < 8 * n; k++) r.out.push_back(r.out[r.out.size() - 8]);
		} else if (op == 0x1c) {
			if (L + 8 > cap) return stop(true, false, "no space");
			r.ops.push_back({op, at, L, 0});
			r.out.insert(r.out.end(), 8, 0);
		} else if (op == 0x1d && shortdata) {
			uint64_t n = get(3); Bytes t;
			for (uint64_t k = 0; k < n; k++) t.push_back((uint8_t)get(8));
			bool good = !trunc && n, fits = L + n <= cap;
			if (!good || !fits) return stop(good, fits, trunc ? "truncated" : !n ? "empty short data" : "no space");
			r.ops.push_back({op, at, L, (int)n});
			r.out.insert(r.out.end(), t.begin(), t.end());
		} else if (op == 0x1e) {
			r.ops.push_back({op, at, L, 0});
			if (crc) {
				uint32_t c = (uint32_t)get(32);
				if (trunc) return stop(false, true, "truncated checksum");
				if (!ref_crc_unchecked && c != ref_crc(r.out.data(), L)) return stop(false, true, "checksum");
			}
			r.ok = r.good = true; r.bits = pos;
			return r;
		} else return stop(false, true, "undefined template");
	}
}

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t a, uint64_t b) : s(a * 0x9E3779B97F4A7C15ull + b * 0xD1342543DE82EF95ull + 0x1234567) { for (int i = 0; i < 3; i++) next(); }
	uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	uint64_t operator()(uint64_t n) { return n ? next() % n : 0; }
	bool p(int percent) { return (int)(*this)(100) < percent; }
};

struct BitW {
	Bytes b; uint64_t n = 0;
	void put(uint64_t v, int k) { for (int i = k - 1; i >= 0; i--) { if (!(n & 7)) b.push_back(0); if (v >> i & 1) b[n >> 3] |= (uint8_t)(0x80 >> (n & 7)); n++; } }
};

// random stream of templates; sometimes with a deliberate flaw
struct Gen {
	BitW w; Bytes out; Rng &R; bool sd;
	std::vector<std::string> log;
	Gen(Rng &r, bool s) : R(r), sd(s) {}
	uint64_t index(int n, uint64_t len, bool bad) {
		uint64_t m = 1u << ref_ibits(n), i = 0;
		uint64_t total = len & ~7ull;
		for (int t = 0; t < 24; t++) {
			i = R(m);
			if (total < ref_fifo(n) && total) i = R.p(30) ? (total / n - 1 - R(total / n < 4 ? total / n : 4)) % m : R(total / n) % m;
			else if (R.p(40) && total) {   // around the current ring position
				uint64_t pos = total % ref_fifo(n);
				i = ((pos / n) + m + R(7) - 3) % m;
			}
			if (bad) { i = R.p(70) ? (total / n + R(3)) % m : R(m); return i; }
			if (ref_resolve(i, n, len) >= 0) return i;
		}
		return i;
	}
	void tmpl(int op, int bad) {
		w.put(op, 5);
		Bytes t; uint64_t L = out.size();
		for (const char *s = REF_T[op]; *s; s += 2) {
			int n = s[1] - '0';
			if (*s == 'D') { uint64_t v = R.next(); if (R.p(10)) v = 0; if (n < 8) v &= (1ull << (8 * n)) - 1; w.put(v, 8 * n); for (int k = n - 1; k >= 0; k--) t.push_back((uint8_t)(v >> (8 * k))); }
			else {
				uint64_t i = index(n, L + t.size(), bad && R.p(50));
				w.put(i, ref_ibits(n));
				int64_t o = ref_resolve(i, n, L + t.size());
				for (int k = 0; k < n; k++) t.push_back(o < 0 ? 0 : (uint64_t)o + k < L ? out[o + k] : t[o + k - L]);
			}
		}
		out.insert(out.end(), t.begin(), t.end());
	}
	void repeat(int n) { w.put(0x1b, 5); w.put(n - 1, 6); for (int k = 0; k < 8 * n; k++) out.push_back(out.size() >= 8 ? out[out.size() - 8] : 0); }
	void zeros() { w.put(0x1c, 5); out.insert(out.end(), 8, 0); }
	void shortd(int n) { w.put(0x1d, 5); w.put(n, 3); for (int k = 0; k < n; k++) { uint8_t c = (uint8_t)R.next(); w.put(c, 8); out.push_back(c); } }
	bool haveidx(int op, uint64_t len) { for (const char *s = REF_T[op]; *s; s += 2) if (*s == 'I' && (len & ~7ull) < (uint64_t)(s[1] - '0')) return false; return true; }
	void step(bool wild) {
		int c = (int)R(100);
		if (c < 9 && out.size() >= 8) repeat(R.p(40) ? 1 + (int)R(3) : R.p(30) ? 64 - (int)R(2) : 1 + (int)R(64));
		else if (c < 14) zeros();
		else if (c < 22 && sd) shortd(1 + (int)R(7));
		else {
			int op = (int)R(26);
			for (int t = 0; t < 20 && !haveidx(op, out.size()); t++) op = (int)R(26);
			if (!haveidx(op, out.size())) op = 0;
			tmpl(op, wild && R.p(15));
		}
	}
};
