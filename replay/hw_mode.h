// The kernel-crypto backend over a scripted device.
#pragma once
#include <crypto/cryptodev.h>
#include <lib842/hw.h>
#include <cstdarg>
extern "C" {
extern uint8_t __start_hwbss[] __attribute__((weak)), __stop_hwbss[] __attribute__((weak)), __start_hwdata[] __attribute__((weak)), __stop_hwdata[] __attribute__((weak));
}
struct Dev {
	std::set<std::string> fails; int err = 5;
	int fd = 0; uint32_t ses = 0; bool open = false, session = false, once = false, key = false; void *tss = nullptr; unsigned keyv = 0;
	uint16_t mask = 0;
	// the expected request
	bool expect = false, ok = false; int sent = 0; bool single = false;
	uint16_t op; size_t n, is, os; const uint8_t *in; uint8_t *out; int *rets; std::vector<size_t> il, ol; std::vector<int> r; std::vector<uint32_t> d;
};
static Dev *D;
static bool no(const char *n) { if (!D->fails.count(n)) return false; errno = D->err; return true; }
static int fderr(int fd) { if (!D->open || fd != D->fd) violation("func", fmt("descriptor %d is used instead of %d", fd, D->fd)); return 0; }
extern "C" {
int h_open(const char *, int, ...) { if (no("open")) return -1; if (D->open) D->fd++; D->open = true; D->session = false; return D->fd; } // a descriptor may be left open, its session with it
int h_open64(const char *p, int f, ...) { return h_open(p, f); }
int h_fcntl(int fd, int, ...) { fderr(fd); return no("fcntl") ? -1 : 0; }
int h_fcntl64(int fd, int, ...) { return h_fcntl(fd, 0); }
int h_close(int fd) { fderr(fd); D->open = D->session = false; return no("close") ? -1 : 0; }
int h_access(const char *, int) { return no("access") ? -1 : 0; }
void h_call_once(void *, void (*f)(void)) { if (!D->once) { D->once = true; f(); } }
int h_pthread_once(void *p, void (*f)(void)) { h_call_once(p, f); return 0; }
int h_tss_create(unsigned *k, void (*)(void *)) { if (no("tss_create")) return 1; D->key = true; *k = D->keyv; return 0; }
static void keyed(unsigned k) { if (!D->key || k != D->keyv) violation("func", "thread-specific storage is used without a key"); }
int h_tss_set(unsigned k, void *p) { keyed(k); if (no("tss_set")) return 1; D->tss = p; return 0; }
void *h_tss_get(unsigned k) { keyed(k); return D->tss; }
int h_pthread_key_create(unsigned *k, void (*f)(void *)) { return h_tss_create(k, f); }
int h_pthread_setspecific(unsigned k, void *p) { return h_tss_set(k, p); }
void *h_pthread_getspecific(unsigned k) { return h_tss_get(k); }
int h_ioctl(int fd, unsigned long req, ...) {
	va_list a; va_start(a, req); void *p = va_arg(a, void *); va_end(a);
	fderr(fd);
	if (req == CIOCGSESSION) {
		session_op *s = (session_op *)p;
		if (s->compr != CRYPTO_842) violation("func", "the session is not for 842");
		if (no("GSESSION")) return -1;
		if (D->session) violation("func", "two sessions");
		D->session = true; s->ses = D->ses; return 0;
	}
	if (!D->session) violation("func", "no session");
#ifdef CIOCGSESSINFO
	if (req == CIOCGSESSINFO) {
		session_info_op *s = (session_info_op *)p;
		if (s->ses != D->ses) violation("func", "another session is asked about");
		if (no("GSESSINFO")) return -1;
		s->alignmask = D->mask; return 0;
	}
#endif
	if (req == CIOCFSESSION) { if (*(uint32_t *)p != D->ses) violation("func", "another session is released"); D->session = false; return no("FSESSION") ? -1 : 0; }
	if (req != CIOCCRYPT) violation("func", fmt("ioctl %#lx", req));
	crypt_op *c = (crypt_op *)p;
	if (!D->expect) return 0;
	if (D->sent++) violation("func", "the request is submitted twice");
	if (!D->ok) violation("func", "a request that does not fit the device is submitted");
	if (c->ses != D->ses || c->op != D->op || c->flags) violation("func", fmt("request with session %u, operation %u, flags %u", c->ses, c->op, c->flags));
	if (c->numchunks != D->n || c->len != (uint64_t)D->is * D->n || c->dlen != (uint64_t)D->os * D->n) violation("func", fmt("request with %u chunks, %u bytes in, %u bytes out", c->numchunks, c->len, c->dlen));
	if (c->src != D->in || c->dst != D->out) violation("func", "request with other buffers");
	if (!D->single && c->chunkrets != D->rets) violation("func", "request with another result array");
	for (size_t i = 0; i < D->n; i++) {
		uint32_t l = D->il[i] == SIZE_MAX ? UINT32_MAX : (uint32_t)D->il[i];
		if (c->chunklens[i] != l) violation("func", fmt("chunk %zu: length %u instead of %u", i, c->chunklens[i], l));
		if (l != UINT32_MAX && c->chunkdlens[i] != D->ol[i]) violation("func", fmt("chunk %zu: capacity %u instead of %zu", i, c->chunkdlens[i], D->ol[i]));
	}
	bool bad = no("CRYPT");
	for (size_t i = 0; i < D->n; i++) if (D->il[i] != SIZE_MAX || bad) { c->chunkrets[i] = D->r[i]; c->chunkdlens[i] = D->d[i]; }
	return bad ? -1 : 0;
}
}
static void hw_case(Rng &R) {
	static std::vector<uint8_t> data0;
	if (data0.empty() && __start_hwdata) data0.assign(__start_hwdata, __stop_hwdata);
	if (__start_hwbss) memset(__start_hwbss, 0, __stop_hwbss - __start_hwbss);
	if (__start_hwdata) memcpy(__start_hwdata, data0.data(), data0.size());
	Dev dev; D = &dev;
	dev.fd = (int)R(1000); dev.ses = (uint32_t)R.next(); dev.keyv = (unsigned)R(64) + 1; dev.err = 1 + (int)R(130);
	int lg = R.p(30) ? 0 : (int)R(17); dev.mask = (uint16_t)((1u << lg) - 1);
#ifndef CIOCGSESSINFO
	lg = 0; dev.mask = 0;
#endif
	static const char *names[] = {"open", "fcntl", "GSESSION", "GSESSINFO", "tss_create", "tss_set", "CRYPT", "FSESSION", "close"};
	int ops = 1 + (int)R(4);
	g_desc = fmt("kernel-crypto backend, alignment %u", dev.mask + 1u);
	while (ops-- > 0) {
		dev.fails.clear();
		if (R.p(30)) { dev.fails.insert(names[R(9)]); if (R.p(20)) dev.fails.insert(names[R(9)]); }
		stir((int)R(2));
		bool chunked = R.p(65); dev.single = !chunked;
		dev.op = R.p(50) ? COP_ENCRYPT : COP_DECRYPT;
		size_t n = chunked ? (R.p(10) ? CRYPTODEV_COMP_MAX_CHUNKS + (size_t)R(3) : R(8)) : 1;
		auto len = [&](size_t lim) -> size_t {
			switch (R(24)) {
			case 0: return UINT32_MAX; case 1: return (size_t)UINT32_MAX + 1 + R(5); case 2: return UINT32_MAX - 1; case 3: return SIZE_MAX - 1; case 4: return (size_t)1 << (32 + R(31));
			default: return R(lim + 1); }
		};
		dev.n = n; dev.is = len(n ? UINT32_MAX / n : 70000); dev.os = len(n ? UINT32_MAX / n : 70000);
		if (n && R.p(15)) { size_t *s = R.p(50) ? &dev.is : &dev.os; *s = UINT32_MAX / n + R(3); }
		dev.in = (const uint8_t *)(((uintptr_t)1 << 40) + (R.p(80) ? R(1000) << lg : R(1 << 20)));
		dev.out = (uint8_t *)(((uintptr_t)1 << 41) + (R.p(80) ? R(1000) << lg : R(1 << 20)));
		bool tame = R.p(50);
		std::vector<size_t> il(n), ol(n); std::vector<int> rets(n), rets0; dev.r.assign(n, 0); dev.d.assign(n, 0);
		for (size_t i = 0; i < n; i++) {
			il[i] = R.p(15) ? SIZE_MAX : tame ? R(70000) : len(70000); ol[i] = tame ? R(70000) : len(70000);
			rets[i] = (int)R(1000) + 1000; dev.r[i] = R.p(60) ? 0 : -(int)R(40); dev.d[i] = (uint32_t)R.next();
		}
		if (!chunked) { il[0] = dev.is; ol[0] = dev.os; }
		rets0 = rets; dev.rets = rets.data(); dev.il = il; dev.ol = ol;
		bool strict = n <= CRYPTODEV_COMP_MAX_CHUNKS && (!n || (dev.is <= UINT32_MAX / n && dev.os <= UINT32_MAX / n)) && !((uintptr_t)dev.in & dev.mask) && !((uintptr_t)dev.out & dev.mask);
		dev.ok = strict;
		for (size_t i = 0; i < n; i++) {
			if (il[i] != SIZE_MAX && (il[i] > UINT32_MAX - 1 || ol[i] > UINT32_MAX)) dev.ok = strict = false;
			if (ol[i] > UINT32_MAX) strict = false;
		}
		dev.sent = 0; dev.expect = true;
		std::string d = fmt("%s%s, %zu chunks, strides %zu and %zu, buffers %p %p", dev.op == COP_ENCRYPT ? "compress" : "decompress", chunked ? "_chunked" : "", n, dev.is, dev.os, dev.in, dev.out);
		for (size_t i = 0; i < n && i < 20; i++) d += fmt(" [%zu %zu]", il[i], ol[i]);
		for (auto &f : dev.fails) d += " failing: " + f;
		g_desc += "\n" + d;
		std::vector<size_t> ol2 = ol; int r;
		if (chunked) r = (dev.op == COP_ENCRYPT ? hw842_compress_chunked : hw842_decompress_chunked)(n, rets.data(), dev.in, dev.is, il.data(), dev.out, dev.os, ol2.data());
		else r = (dev.op == COP_ENCRYPT ? hw842_compress : hw842_decompress)(dev.in, dev.is, dev.out, ol2.data());
		dev.expect = false;
		bool env = !dev.key || !dev.tss || (dev.sent && dev.fails.count("CRYPT"));
		if (env) { if (!r) violation("func", "success although the device failed"); continue; }
		if (!dev.sent) {
			if (n && strict) violation("func", fmt("a request that fits the device was refused with %d", r));
			if (n && !r) violation("func", "success without a request");
			continue;
		}
		int want_ = chunked ? 0 : dev.r[0];
		if (r != want_) violation("func", fmt("result %d instead of %d", r, want_));
		for (size_t i = 0; i < n; i++) {
			bool skip = il[i] == SIZE_MAX;
			size_t w = skip ? ol[i] : dev.d[i];
			if (ol2[i] != w) violation("func", fmt("chunk %zu: output length %zu instead of %zu", i, ol2[i], w));
			if (chunked && rets[i] != (skip ? rets0[i] : dev.r[i])) violation("func", fmt("chunk %zu: result %d", i, rets[i]));
		}
	}
	free(dev.tss);
}
