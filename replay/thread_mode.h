// Streams under random schedules: scripted block results and delays, cancellation,
// destruction at any point, epochs.  The library's mutex calls come here and are
// delayed at random.
#pragma once
#include <lib842/stream/comp.h>
#include <lib842/stream/decomp.h>
#include <iostream>
#include <memory>
#include <mutex>
#include <condition_variable>
#include <atomic>
#include <thread>
#include <unistd.h>
#include <sched.h>
#include <pthread.h>
namespace st = lib842::stream;
static constexpr size_t CS = st::CHUNK_SIZE, NC = st::NUM_CHUNKS_PER_BLOCK, BS = CS * NC;

static std::atomic<uint64_t> t_seed{1};
static std::atomic<int> t_noise{0};
static uint64_t t_rand() {
	static thread_local uint64_t s = 0;
	if (!s) s = t_seed.fetch_add(0x9e3779b97f4a7c15ull) | 1;
	s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s;
}
static void t_delay() {
	int n = t_noise.load(std::memory_order_relaxed);
	if (!n) return;
	uint64_t r = t_rand() >> 8;
	if (r % 8 == 0) sched_yield();
	else if (r % 64 == 1 && n > 1) usleep((r >> 8) % 200);
}
extern "C" int h_pthread_mutex_lock(pthread_mutex_t *m) { t_delay(); return pthread_mutex_lock(m); }
extern "C" int h_pthread_mutex_unlock(pthread_mutex_t *m) { int r = pthread_mutex_unlock(m); t_delay(); return r; }

struct Op {	// one operation of a stream
	std::mutex m; std::condition_variable c;
	int done = 0; bool ok = false;
	std::vector<int> fails, handled, emitted;		// per block
	int active = 0, nfailed = 0, emissions = 0;
	bool over = false, free_order = false, comp; int L = -1; uint8_t *base;
	size_t nb;
	void finished(bool v) {
		std::lock_guard<std::mutex> l(m);
		if (done++) violation("func", "the completion callback is called twice");
		if (over) violation("func", "the completion callback is called after the stream was destroyed");
		if (active) violation("func", fmt("the completion callback is called while %d blocks are being handled", active));
		ok = v;
		if (!free_order && !nfailed) {
			for (size_t b = 0; b < nb; b++) {
				if (!handled[b]) violation("func", fmt("the completion callback is called before block %zu is handled", b));
				if (comp && !emitted[b]) violation("func", fmt("the completion callback is called before block %zu is emitted", b));
			}
		}
		if (comp && emissions != std::accumulate(handled.begin(), handled.end(), 0)) violation("func", "a block that was handled is not emitted before the completion callback");
		if (v == (nfailed > 0)) violation("func", v ? "the completion callback reports success although a block failed" : "the completion callback reports a failure although no block failed");
		c.notify_all();
	}
	bool begin(size_t b) {
		if (b >= nb) violation("func", fmt("block %zu of %zu is handled", b, nb));
		{
			std::lock_guard<std::mutex> l(m);
			if (over) violation("func", "a block is handled after the stream was destroyed");
			if (done) violation("func", "a block is handled after the completion callback");
			if (handled[b]++) violation("func", fmt("block %zu is handled twice", b));
			active++;
		}
		t_delay();
		if (t_noise && t_rand() % 16 == 0) usleep(t_rand() % 500);
		std::lock_guard<std::mutex> l(m);
		if (!comp) active--;
		if (fails[b]) nfailed++;
		return fails[b];
	}
	void emit(st::Block &&k) {
		t_delay();
		std::lock_guard<std::mutex> l(m);
		if (over) violation("func", "a block is emitted after the stream was destroyed");
		if (done) violation("func", "a block is emitted after the completion callback");
		active--; emissions++;
		if (k.offset == SIZE_MAX) { if (!nfailed) violation("func", "a block is marked as failed although none failed"); return; }
		size_t b = k.offset / BS;
		if (k.offset % BS || b >= nb || !handled[b]) violation("func", fmt("a block with offset %zu is emitted", k.offset));
		if (fails[b]) violation("func", fmt("block %zu failed but is emitted as good", b));
		if (emitted[b]++) violation("func", fmt("block %zu is emitted twice", b));
		if (L >= 0 && !free_order && !nfailed)
			for (size_t e = 0; e < b; e++)
				if ((e * BS) >> L < k.offset >> L && !emitted[e]) violation("func", fmt("block %zu is emitted before block %zu, with epochs of %zu blocks", b, e, ((size_t)1 << L) / BS));
	}
};
static std::atomic<Op *> T;
static int t_dec(size_t n, int *rets, const uint8_t *, size_t, const size_t *il, uint8_t *out, size_t, size_t *ol) {
	Op *o = T.load();
	if (!o) { violation("func", "a block is handled although no operation is running"); return 0; }
	bool f = o->begin((size_t)(out - o->base) / BS);
	for (size_t e = 0; e < n; e++) { if (il[e] == SIZE_MAX) continue; rets[e] = 0; ol[e] = CS; }
	return f ? -EINVAL : 0;
}
static int t_comp(size_t n, int *rets, const uint8_t *in, size_t, const size_t *, uint8_t *, size_t, size_t *ol) {
	Op *o = T.load();
	if (!o) { violation("func", "a block is handled although no operation is running"); return 0; }
	bool f = o->begin((size_t)(in - o->base) / BS);
	for (size_t e = 0; e < n; e++) { rets[e] = 0; ol[e] = CS; }
	return f ? -EINVAL : 0;
}
static int t_none(const uint8_t *, size_t, uint8_t *, size_t *) { violation("func", "the single-chunk function is called"); return 0; }
static std::ostream &t_log() { t_delay(); static std::ostream o(nullptr); return o; }

template <class S> static void thr_start(S &s, Op &o, size_t size);
template <> void thr_start(st::DataCompressionStream &s, Op &o, size_t size) { s.start(o.base, size, [&o](st::Block &&b) { o.emit(std::move(b)); }); }
template <> void thr_start(st::DataDecompressionStream &s, Op &o, size_t) { s.start(o.base); }
static void thr_push(st::DataCompressionStream &, Op &, size_t) {}
static void thr_push(st::DataDecompressionStream &s, Op &o, size_t b) {
	st::Block k; k.offset = b * BS; k.chunk_padding = CS; k.source = nullptr;
	for (size_t j = 0; j < NC; j++) k.sizes[j] = j ? 0 : 8;
	k.allocate_buffer(64, 64);
	bool r = s.push_block(std::move(k));
	std::lock_guard<std::mutex> l(o.m);
	if (!r && !o.nfailed) violation("func", "a block is rejected although none failed");
}
static void thr_epoch(st::DataCompressionStream &s, size_t n) { s.set_offset_sync_epoch_multiple(n); }
static void thr_epoch(st::DataDecompressionStream &, size_t) {}

template <class S> static void thr_stream(Rng &R, bool comp) {
	lib842_implementation impl = {t_none, t_none, t_comp, t_dec, 8, 64};
	int th = 1 + (int)R(R.p(20) ? 12 : 4), ops = (int)R(5), quit = R.p(40) ? (int)R(4) : 9;
	static uint8_t *mem = (uint8_t *)mmap(0, (size_t)1 << 32, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	g_desc += fmt("\n%s stream with %d threads:", comp ? "compression" : "decompression", th);
	std::vector<std::unique_ptr<Op>> all;
	T = nullptr;
	{
		std::unique_ptr<S> s(new S(impl, (unsigned)th, st::thread_policy::use_defaults, t_log, t_log));
		if (R.p(50)) s->wait_until_ready();
		for (int k = 0; k < ops; k++) {
			bool last = k == ops - 1;
			int q = last ? quit : 9;	// 0: destroyed after start, 1: while blocks are pushed, 2: after finalize
			all.emplace_back(new Op); Op &o = *all.back();
			o.nb = R(4) == 0 ? R(2) : R(24); o.comp = comp; o.base = mem;
			size_t tail = comp && R.p(50) ? R(BS) : 0;
			o.fails.assign(o.nb, 0); o.handled.assign(o.nb, 0); o.emitted.assign(o.nb, 0);
			bool bad = o.nb && R.p(25), cancel = R.p(20);
			if (bad) for (int i = 0; i <= (int)R(3); i++) o.fails[R(o.nb)] = 1;
			if (comp) { o.L = R.p(60) ? 20 + (int)R(4) : -1; if (o.L == 20 + 3 && R.p(30)) o.L = 40; thr_epoch(*s, o.L < 0 ? 0 : (size_t)1 << o.L); }
			o.free_order = cancel || q < 9;
			g_desc += fmt(" [%zu blocks", o.nb) + (tail ? fmt(" and %zu bytes", tail) : std::string()) + (o.L >= 0 ? fmt(", epochs of 2^%d", o.L) : std::string()) + (bad ? ", failing:" : "");
			if (bad) for (size_t b = 0; b < o.nb; b++) if (o.fails[b]) g_desc += fmt(" %zu", b);
			g_desc += std::string(cancel ? ", cancelled" : "") + (q == 0 ? ", destroyed after start" : q == 1 ? ", destroyed while blocks are pushed" : q == 2 ? ", destroyed after finalize" : "") + "]";
			T = &o;
			thr_start(*s, o, o.nb * BS + tail);
			if (q == 0) break;
			std::vector<size_t> order(o.nb);
			for (size_t b = 0; b < o.nb; b++) order[b] = b;
			for (size_t b = o.nb; b > 1; b--) if (!comp) std::swap(order[b - 1], order[R(b)]);
			size_t npush = q == 1 && o.nb ? R(o.nb) : o.nb;
			for (size_t b = 0; b < npush; b++) { thr_push(*s, o, order[b]); if (R.p(10)) usleep((useconds_t)R(300)); }
			if (q == 1) { if (R.p(50)) usleep((useconds_t)R(1000)); break; }
			if (R.p(40)) usleep((useconds_t)R(R.p(20) ? 3000 : 300));
			s->finalize(cancel, [&o](bool ok) { t_delay(); o.finished(ok); });
			if (q == 2) { if (R.p(50)) usleep((useconds_t)R(1000)); break; }
			std::unique_lock<std::mutex> l(o.m);
			o.c.wait(l, [&] { return o.done; });
		}
		if (R.p(20)) usleep((useconds_t)R(500));
		s.reset();
	}
	for (auto &o : all) { std::lock_guard<std::mutex> l(o->m); o->over = true; }
	for (size_t k = 0; k < all.size(); k++)
		if (!all[k]->done && !(k + 1 == all.size() && quit < 3)) violation("func", "the completion callback is not called");
	T = nullptr;
}
static void thr_case(Rng &R) {
	t_seed = R.next() | 1; t_noise = (int)R(3);
	g_desc = fmt("delays %d", t_noise.load());
	for (int k = 0; k < 10; k++) {
		if (R.p(55)) thr_stream<st::DataCompressionStream>(R, true);
		else thr_stream<st::DataDecompressionStream>(R, false);
	}
}
