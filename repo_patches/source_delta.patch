From 2cb80cb762c44fefd8d9320f58bd969cbc8d6f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:59:19 +0000
Subject: [PATCH 01/11] fix: sw842 decompressor: repeat needs eight previous
 bytes, not one

After a short data template of one to seven bytes, a repeat template read
before the start of the output buffer.
---
 src/serial/842_decompress.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serial/842_decompress.c b/src/serial/842_decompress.c
index 580b9ba..6895583 100644
--- a/src/serial/842_decompress.c
+++ b/src/serial/842_decompress.c
@@ -328,7 +328,7 @@ int sw842_decompress(const uint8_t *in, size_t ilen,
 			if (ret)
 				return ret;
 
-			if (p.out == out) /* no previous bytes */
+			if (p.out - out < 8) /* no previous 8 bytes */
 				return -EINVAL;
 
 			/* copy rep + 1 */
-- 
2.43.0


From 6b2fddad57a943d5302dab5ac5fb0578340e770f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:00:00 +0000
Subject: [PATCH 02/11] fix: optsw842_compress: report zero length for an
 invalid input length

The documented contract is that *olen is 0 on every error.
---
 src/serial_optimized/842_compress.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/serial_optimized/842_compress.cpp b/src/serial_optimized/842_compress.cpp
index c790a4a..9e9e242 100644
--- a/src/serial_optimized/842_compress.cpp
+++ b/src/serial_optimized/842_compress.cpp
@@ -574,6 +574,7 @@ int optsw842_compress(const uint8_t *in, size_t ilen,
 		fprintf(stderr,
 			"Can only compress multiples of 8 bytes, but len is len %zu (%% 8 = %zu)\n",
 			ilen, ilen % 8);
+		*olen = 0;
 		return -EINVAL;
 	}
 
-- 
2.43.0


From a479412a09ac20e50f59331ceff9ef33c70f4143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:00:00 +0000
Subject: [PATCH 03/11] fix: optsw842_compress: do not read the input when it
 is empty

---
 src/serial_optimized/842_compress.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/serial_optimized/842_compress.cpp b/src/serial_optimized/842_compress.cpp
index 9e9e242..3bda016 100644
--- a/src/serial_optimized/842_compress.cpp
+++ b/src/serial_optimized/842_compress.cpp
@@ -588,7 +588,7 @@ int optsw842_compress(const uint8_t *in, size_t ilen,
 
 	std::fill(std::begin(p->hashes), std::end(p->hashes), 0);
 
-	uint64_t last, next;
+	uint64_t last = 0, next;
 	uint8_t repeat_count = 0;
 
 	std::fill(std::begin(p->hashTable16), std::end(p->hashTable16), NO_ENTRY);
@@ -607,7 +607,8 @@ int optsw842_compress(const uint8_t *in, size_t ilen,
 		*olen = 0;
 
 		/* make initial 'last' different so we don't match the first time */
-		last = ~read64(p->in);
+		if (p->ilen > 7)
+			last = ~read64(p->in);
 
 		while (p->ilen > 7) {
 			next = read64(p->in);
-- 
2.43.0


From 8dda172ef76c0c2420a9dbc8eee3fbc47190866c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:00:00 +0000
Subject: [PATCH 04/11] fix: chunked functions: use size_t for chunk numbers
 and buffer offsets

Offsets wrapped around at 4 GiB, so chunks beyond it were read from and
written to the wrong place.
---
 src/common/trivial_chunked.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/trivial_chunked.h b/src/common/trivial_chunked.h
index e69c43a..9511324 100644
--- a/src/common/trivial_chunked.h
+++ b/src/common/trivial_chunked.h
@@ -13,7 +13,7 @@ int chunked_compress_func(size_t numchunks, int *rets, \
 			  const uint8_t *in, size_t istride, const size_t *ilens, \
 			  uint8_t *out, size_t ostride, size_t *olens) { \
 	int ret = 0; \
-	for (unsigned int i = 0, soffset = 0, doffset = 0; \
+	for (size_t i = 0, soffset = 0, doffset = 0; \
 	     i < numchunks; \
 	     i++, soffset += istride, doffset += ostride) { \
 		if (ilens[i] == SIZE_MAX) \
-- 
2.43.0


From 5200c3e77091708b0e7cb49023527c4f577b0487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:00:48 +0000
Subject: [PATCH 05/11] fix: chunked functions: return the error they compute

A chunk failing with anything but no-space set ret, but 0 was returned.
---
 src/common/trivial_chunked.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/trivial_chunked.h b/src/common/trivial_chunked.h
index 9511324..f78592d 100644
--- a/src/common/trivial_chunked.h
+++ b/src/common/trivial_chunked.h
@@ -25,7 +25,7 @@ int chunked_compress_func(size_t numchunks, int *rets, \
 			ret = rets[i]; \
 	} \
  \
-	return 0; \
+	return ret; \
 }
 
 #define LIB842_DEFINE_TRIVIAL_CHUNKED_DECOMPRESS LIB842_DEFINE_TRIVIAL_CHUNKED_COMPRESS
-- 
2.43.0


From 2e1f60794c523d9e1eee195760d11926af03e258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:00:48 +0000
Subject: [PATCH 06/11] fix: Block::get_chunk: uncompressed chunks need source
 data

The assertion was inverted and aborted for every block produced by
DataCompressionStream that has an uncompressible chunk.
---
 include/lib842/stream/block.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lib842/stream/block.h b/include/lib842/stream/block.h
index 9790384..5339b45 100644
--- a/include/lib842/stream/block.h
+++ b/include/lib842/stream/block.h
@@ -50,7 +50,7 @@ struct Block {
 		if (sizes[chunk_no] == 0) // Chunk not present ('gap')
 			return nullptr;
 		if (sizes[chunk_no] == CHUNK_SIZE) { // Uncompressible chunk - read from source
-			assert(source == nullptr);
+			assert(source != nullptr);
 			return static_cast<const uint8_t *>(source) + chunk_no * CHUNK_SIZE;
 		}
 		return chunk_buffer.get() + chunk_no * chunk_padding;
-- 
2.43.0


From d2c1009aa76665c85c559620131620d46cd5f141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:00:48 +0000
Subject: [PATCH 07/11] fix: decompression stream: report bad chunks instead of
 aborting

Skipped chunks left their result uninitialized, and a chunk that did not
fit or was too short aborted the process (or, with NDEBUG, was reported
as a success) instead of failing the operation.
---
 src/stream/DataDecompressionStream.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/stream/DataDecompressionStream.cpp b/src/stream/DataDecompressionStream.cpp
index 03aaf73..7975bdb 100644
--- a/src/stream/DataDecompressionStream.cpp
+++ b/src/stream/DataDecompressionStream.cpp
@@ -212,6 +212,8 @@ bool DataDecompressionStream::handle_block(const Block &block,
 	std::array<int, NUM_CHUNKS_PER_BLOCK> chunk_rets;
 	std::array<size_t, NUM_CHUNKS_PER_BLOCK> input_chunk_sizes, output_chunk_sizes;
 	output_chunk_sizes.fill(CHUNK_SIZE);
+	// The entries of the chunks that are skipped below are not written
+	chunk_rets.fill(0);
 
 	for (size_t i = 0; i < NUM_CHUNKS_PER_BLOCK; i++) {
 		if (block.sizes[i] == 0) {
@@ -248,8 +250,8 @@ bool DataDecompressionStream::handle_block(const Block &block,
 #endif
 
 	for (size_t i = 0; i < NUM_CHUNKS_PER_BLOCK; i++) {
-		assert(chunk_rets[i] == 0);
-		assert(output_chunk_sizes[i] == CHUNK_SIZE);
+		if (chunk_rets[i] != 0 || output_chunk_sizes[i] != CHUNK_SIZE)
+			return false;
 	}
 
 	return true;
-- 
2.43.0


From 56a03bf44748b6c9dfcbf1cf7cffaece083fe304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:01:30 +0000
Subject: [PATCH 08/11] fix: OpenCL decompressor reads 2 bytes past the output
 for 2-byte index references

do_op always loaded two 16-bit words; for an index to 2 bytes at the end of
a full output buffer the second one lies behind the buffer.  Load the second
word only for references to 4 bytes (it is shifted out otherwise).
---
 src/ocl/decompress.cl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocl/decompress.cl b/src/ocl/decompress.cl
index 12794e7..d6c1204 100644
--- a/src/ocl/decompress.cl
+++ b/src/ocl/decompress.cl
@@ -248,7 +248,7 @@ static inline void do_op(struct sw842_param_decomp *p, uint8_t op)
 			__global uint16_t *ostart16 =
 				(__global uint16_t *)p->ostart;
 			value = (((uint64_t)swap_be_to_native16(ostart16[offset])) << 48) |
-				(((uint64_t)swap_be_to_native16(ostart16[offset + 1])) << 32);
+				(((uint64_t)swap_be_to_native16(ostart16[offset + (dst_size >> 2)])) << 32);
 			value >>= (WSIZE - (dst_size << 3));
 		}
 		output_word |= value
-- 
2.43.0


From 1f87dffff26761581667bc0aebb8baee2c212972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:09:04 +0000
Subject: [PATCH 09/11] fix: cryptodev: keep the error when the thread-specific
 key cannot be created

The error was overwritten by 0, so that the backend went on with a key that was
never created (and so possibly with somebody else's value as its context).
---
 src/cryptodev/842_interface.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/cryptodev/842_interface.c b/src/cryptodev/842_interface.c
index ce414e8..8b517df 100644
--- a/src/cryptodev/842_interface.c
+++ b/src/cryptodev/842_interface.c
@@ -219,8 +219,6 @@ static void create_thread_ctx_key()
 {
 	if (tss_create(&thread_ctx_key, destroy_thread_ctx) != thrd_success)
 		thread_ctx_key_err = -ENOMEM;
-
-	thread_ctx_key_err = 0;
 }
 
 static int get_thread_cryptodev_ctx(struct cryptodev_ctx **rctx)
-- 
2.43.0


From f962451ace244fb827d6ee7799db3a4d698caa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:09:04 +0000
Subject: [PATCH 10/11] fix: cryptodev: without session information there is no
 alignment to require

alignmask was left uninitialized when the header does not define CIOCGSESSINFO.
---
 src/cryptodev/842_interface.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cryptodev/842_interface.c b/src/cryptodev/842_interface.c
index 8b517df..662da92 100644
--- a/src/cryptodev/842_interface.c
+++ b/src/cryptodev/842_interface.c
@@ -81,6 +81,8 @@ static int c842_ctx_init(struct cryptodev_ctx *ctx)
 	}
 #endif
 	ctx->alignmask = siop.alignmask;
+#else
+	ctx->alignmask = 0;
 #endif
 
 	return 0;
-- 
2.43.0


From 70c879bc8e3c31c367322d00d0815074fd240749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:32:23 +0000
Subject: [PATCH 11/11] fix: make the quit flag of the streams atomic

The worker loops read _quit without holding the mutex while the destructor
writes it: a data race (undefined behaviour; the compiler may hoist the read
and the thread never quits).
---
 include/lib842/stream/comp.h   | 2 +-
 include/lib842/stream/decomp.h | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/lib842/stream/comp.h b/include/lib842/stream/comp.h
index c545dc5..0140b8c 100644
--- a/include/lib842/stream/comp.h
+++ b/include/lib842/stream/comp.h
@@ -112,7 +112,7 @@ private:
 	detail::barrier _finalize_barrier;
 
 	// If set to true, causes the compression threads to quit (for cleanup)
-	bool _quit;
+	std::atomic<bool> _quit;
 
 	unsigned _offset_sync_epoch_multiple_log2;
 };
diff --git a/include/lib842/stream/decomp.h b/include/lib842/stream/decomp.h
index 7b8d808..4942737 100644
--- a/include/lib842/stream/decomp.h
+++ b/include/lib842/stream/decomp.h
@@ -15,6 +15,7 @@
 #include <lib842/stream/block.h>
 #include <lib842/common.h>
 
+#include <atomic>
 #include <condition_variable>
 #include <mutex>
 #include <thread>
@@ -110,7 +111,7 @@ private:
 	detail::barrier _finalize_barrier;
 
 	// If set to true, causes the decompression threads to quit (for cleanup)
-	bool _quit;
+	std::atomic<bool> _quit;
 };
 
 } // namespace stream
-- 
2.43.0

