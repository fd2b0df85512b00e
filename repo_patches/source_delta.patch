From 695077f49c593a74e19e86d82aa7fd6c26a34c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:53 +0000
Subject: [PATCH 01/23] fix: sw842_decompress: reject a repeat of fewer than 8
 previous bytes

A short data operation followed by a repeat operation read up to
7 bytes before the start of the output buffer.
---
 src/serial/842_decompress.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/serial/842_decompress.c b/src/serial/842_decompress.c
index 580b9ba..2cc3ed8 100644
--- a/src/serial/842_decompress.c
+++ b/src/serial/842_decompress.c
@@ -328,7 +328,10 @@ int sw842_decompress(const uint8_t *in, size_t ilen,
 			if (ret)
 				return ret;
 
-			if (p.out == out) /* no previous bytes */
+			/* less than 8 previous bytes (can be 1 to 7
+			 * if only short data has been written so far)
+			 */
+			if (p.out - out < 8)
 				return -EINVAL;
 
 			/* copy rep + 1 */
-- 
2.43.0


From faf4b6f6f8cf41ecd033c45ae23c16e18b59cc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:53 +0000
Subject: [PATCH 02/23] fix: optsw842_compress: report a size of 0 for
 unsupported input lengths

The documented behaviour is that the output size is 0 on error.
---
 src/serial_optimized/842_compress.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/serial_optimized/842_compress.cpp b/src/serial_optimized/842_compress.cpp
index c790a4a..9e9e242 100644
--- a/src/serial_optimized/842_compress.cpp
+++ b/src/serial_optimized/842_compress.cpp
@@ -574,6 +574,7 @@ int optsw842_compress(const uint8_t *in, size_t ilen,
 		fprintf(stderr,
 			"Can only compress multiples of 8 bytes, but len is len %zu (%% 8 = %zu)\n",
 			ilen, ilen % 8);
+		*olen = 0;
 		return -EINVAL;
 	}
 
-- 
2.43.0


From 6e3f555784b50b767d1c20d58add0a30ffb91a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:53 +0000
Subject: [PATCH 03/23] fix: optsw842_compress: do not read from an empty input
 buffer

---
 src/serial_optimized/842_compress.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serial_optimized/842_compress.cpp b/src/serial_optimized/842_compress.cpp
index 9e9e242..2eb1708 100644
--- a/src/serial_optimized/842_compress.cpp
+++ b/src/serial_optimized/842_compress.cpp
@@ -607,7 +607,7 @@ int optsw842_compress(const uint8_t *in, size_t ilen,
 		*olen = 0;
 
 		/* make initial 'last' different so we don't match the first time */
-		last = ~read64(p->in);
+		last = (p->ilen > 7) ? ~read64(p->in) : 0;
 
 		while (p->ilen > 7) {
 			next = read64(p->in);
-- 
2.43.0


From 913de65eb9b17d1a5ddb7ef2b5a0ef89e6cef0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:53 +0000
Subject: [PATCH 04/23] fix: chunked functions: do not truncate chunk offsets
 to 32 bits

---
 src/common/trivial_chunked.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/trivial_chunked.h b/src/common/trivial_chunked.h
index e69c43a..9511324 100644
--- a/src/common/trivial_chunked.h
+++ b/src/common/trivial_chunked.h
@@ -13,7 +13,7 @@ int chunked_compress_func(size_t numchunks, int *rets, \
 			  const uint8_t *in, size_t istride, const size_t *ilens, \
 			  uint8_t *out, size_t ostride, size_t *olens) { \
 	int ret = 0; \
-	for (unsigned int i = 0, soffset = 0, doffset = 0; \
+	for (size_t i = 0, soffset = 0, doffset = 0; \
 	     i < numchunks; \
 	     i++, soffset += istride, doffset += ostride) { \
 		if (ilens[i] == SIZE_MAX) \
-- 
2.43.0


From db5e15e573342b72d6d28730381745bcf347a9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:53 +0000
Subject: [PATCH 05/23] fix: Block::get_chunk: invert wrong assertion about the
 source data

Incompressible chunks are read from the source data, so it must be present.
---
 include/lib842/stream/block.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lib842/stream/block.h b/include/lib842/stream/block.h
index 9790384..5339b45 100644
--- a/include/lib842/stream/block.h
+++ b/include/lib842/stream/block.h
@@ -50,7 +50,7 @@ struct Block {
 		if (sizes[chunk_no] == 0) // Chunk not present ('gap')
 			return nullptr;
 		if (sizes[chunk_no] == CHUNK_SIZE) { // Uncompressible chunk - read from source
-			assert(source == nullptr);
+			assert(source != nullptr);
 			return static_cast<const uint8_t *>(source) + chunk_no * CHUNK_SIZE;
 		}
 		return chunk_buffer.get() + chunk_no * chunk_padding;
-- 
2.43.0


From ae25592de2c7b51efbc3725032443f3523c525e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:53 +0000
Subject: [PATCH 06/23] fix: DataDecompressionStream: report chunk errors
 instead of asserting

The return value of a chunk is not set if it is skipped (uncompressed or
not present chunks), so checking it caused spurious assertion failures.
On the other hand, a chunk that fails to decompress must be reported as an
error to the user, as the multi-chunk functions return 0 in that case.
---
 src/stream/DataDecompressionStream.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/stream/DataDecompressionStream.cpp b/src/stream/DataDecompressionStream.cpp
index 03aaf73..0ae40bd 100644
--- a/src/stream/DataDecompressionStream.cpp
+++ b/src/stream/DataDecompressionStream.cpp
@@ -248,8 +248,10 @@ bool DataDecompressionStream::handle_block(const Block &block,
 #endif
 
 	for (size_t i = 0; i < NUM_CHUNKS_PER_BLOCK; i++) {
-		assert(chunk_rets[i] == 0);
-		assert(output_chunk_sizes[i] == CHUNK_SIZE);
+		if (input_chunk_sizes[i] == SIZE_MAX) // Skipped, not decompressed
+			continue;
+		if (chunk_rets[i] != 0 || output_chunk_sizes[i] != CHUNK_SIZE)
+			return false;
 	}
 
 	return true;
-- 
2.43.0


From 80c803229405e2c06613c0c312c9b34ae06bda94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:53 +0000
Subject: [PATCH 07/23] fix: DataCompressionStream: keep epoch order while
 being destroyed

---
 src/stream/DataCompressionStream.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/stream/DataCompressionStream.cpp b/src/stream/DataCompressionStream.cpp
index 741be08..80ab7e3 100644
--- a/src/stream/DataCompressionStream.cpp
+++ b/src/stream/DataCompressionStream.cpp
@@ -136,6 +136,14 @@ void DataCompressionStream::loop_compress_thread(size_t thread_id) {
 						    (last_offset >> _offset_sync_epoch_multiple_log2);
 				for (size_t i = 0; i < num_epochs; i++)
 					_finalize_barrier.arrive_and_wait();
+
+				// If quitting, the barrier has been interrupted, so the
+				// blocks of previous epochs may still be in process
+				if (num_epochs > 0) {
+					std::lock_guard<std::mutex> lock(_mutex);
+					if (_quit)
+						break;
+				}
 			}
 			last_offset = offset;
 
-- 
2.43.0


From e55d37fd1809e2ee62679652bef5788153ebd2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:11 +0000
Subject: [PATCH 08/23] fix: CLDeviceDecompressor: declare decompress()
 parameters in the order they are used

The declaration and its documentation had returnValues before chunkShuffleMap,
but the implementation takes chunkShuffleMap before returnValues; a caller that
followed the header had its return values buffer used as the processing order.
---
 include/lib842/cl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/lib842/cl.h b/include/lib842/cl.h
index 9e63fe3..610ad4a 100644
--- a/include/lib842/cl.h
+++ b/include/lib842/cl.h
@@ -95,8 +95,6 @@ public:
 	*                Must be a multiple of 8.
 	* - outputChunkSizes: Specifies the maximum size to be written for each chunk.
 	*                     This is only for error-checking, and is optional (can be null).
-	* - returnValues: The error code (C errno) is written here for each chunk.
-	*                 This is only for error-checking, and is optional (can be null).
 	* - chunkShuffleMap: Determines the order in which the chunks are processed
 	*                    by the OpenCL kernel, which can influence performance
 	*                    The reason simply shuffling the order in which chunks are
@@ -108,6 +106,8 @@ public:
 	*                    chunks are processed so that all compressible (and respectively
 	*                    uncompressible) chunks are processed together can improve
 	*                    performance in those cases.
+	* - returnValues: The error code (C errno) is written here for each chunk.
+	*                 This is only for error-checking, and is optional (can be null).
 	* - events:          Event wait list before starting decompression
 	*                    (like any clEnqueueXXX OpenCL API).
 	* - event:           OpenCL event triggered after decompression finishing.
@@ -121,8 +121,8 @@ public:
 			const cl::Buffer &outputBuffer,
 			size_t outputOffset,
 			const cl::Buffer &outputChunkSizes,
-			const cl::Buffer &returnValues,
 			const cl::Buffer &chunkShuffleMap,
+			const cl::Buffer &returnValues,
 			const cl::vector<cl::Event> *events = nullptr,
 			cl::Event *event = nullptr) const;
 
-- 
2.43.0


From 9d7070da71487b664c641ac14fb1a9d1c23119bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:11 +0000
Subject: [PATCH 09/23] fix: OpenCL program cache: tolerate corrupt and
 unwritable cache files

A corrupt length in the cache file made the constructor throw (or exhaust the
memory), and so did a cache file which could not be written.
---
 src/ocl/cl842decompress.cpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/ocl/cl842decompress.cpp b/src/ocl/cl842decompress.cpp
index 3a2582c..fdddb04 100644
--- a/src/ocl/cl842decompress.cpp
+++ b/src/ocl/cl842decompress.cpp
@@ -130,6 +130,19 @@ struct program_cache
 private:
 	static constexpr const char *CACHE_PATH = "/tmp/cl842_cache.bin";
 
+	// Reads the size of the data that follows, rejecting those
+	// which can't be right since they are larger than the file itself
+	static size_t readSize(std::ifstream &in) {
+		size_t size;
+		in.read(reinterpret_cast<char *>(&size), sizeof(size));
+		auto pos = in.tellg();
+		auto end = in.seekg(0, std::ifstream::end).tellg();
+		in.seekg(pos);
+		if (size > static_cast<size_t>(end - pos))
+			in.setstate(std::ifstream::failbit);
+		return size;
+	}
+
 	void readMetadata(std::ifstream &in) {
 		in.read(reinterpret_cast<char *>(&chunkSize), sizeof(chunkSize));
 		in.read(reinterpret_cast<char *>(&chunkStride), sizeof(chunkStride));
@@ -140,8 +153,7 @@ private:
 		in.read(reinterpret_cast<char *>(&numDevices), sizeof(numDevices));
 
 		for (size_t i = 0; i < numDevices; i++) {
-			size_t length;
-			in.read(reinterpret_cast<char *>(&length), sizeof(length));
+			size_t length = readSize(in);
 			cl::string deviceName(length, '\0');
 			in.read(&deviceName[0], deviceName.size());
 			deviceNames.push_back(deviceName);
@@ -151,8 +163,7 @@ private:
 	static cl::Program::Binaries readBinaries(std::ifstream &in, size_t numDevices) {
 		cl::Program::Binaries binaries;
 		for (size_t i = 0; i < numDevices; i++) {
-			size_t size;
-			in.read(reinterpret_cast<char *>(&size), sizeof(size));
+			size_t size = readSize(in);
 			cl::vector<uint8_t> binary(size);
 			in.read(reinterpret_cast<char *>(binary.data()), binary.size());
 			binaries.push_back(binary);
@@ -260,7 +271,13 @@ void CLDeviceDecompressor::buildProgram(
 		throw;
 	}
 #ifdef LIB842_CLDECOMPRESS_USE_PROGRAM_CACHE
-	cache.set(m_program.getInfo<CL_PROGRAM_BINARIES>());
+	try {
+		cache.set(m_program.getInfo<CL_PROGRAM_BINARIES>());
+	} catch (const std::ofstream::failure &) {
+		m_debug_logger()
+			<< "Could not write lib842's OpenCL program cache"
+			<< std::endl;
+	}
 #endif
 }
 
-- 
2.43.0


From d149508678d423695e0b6af2197d5d403cf8b5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:11 +0000
Subject: [PATCH 10/23] fix: cl842_decompress: always decompress a single
 chunk, report no size on errors

Inputs larger than the (arbitrary) stride were handled as two or more chunks,
reading and writing past the end of the one-element size and return arrays.
On OpenCL errors, the output size was left at the capacity of the buffer.
---
 src/ocl/cl842decompress.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ocl/cl842decompress.cpp b/src/ocl/cl842decompress.cpp
index fdddb04..486ea4b 100644
--- a/src/ocl/cl842decompress.cpp
+++ b/src/ocl/cl842decompress.cpp
@@ -480,13 +480,16 @@ int cl842_decompress(const uint8_t *in, size_t ilen,
 {
 	try {
 		static lib842::CLHostDecompressor decompressor(
-			65536, 99999 /* Doesn't matter */,
+			65536,
+			// Larger than any input, so that it's always a single chunk
+			SIZE_MAX / 4 + 1,
 			lib842::CLDecompressorInputFormat::ALWAYS_COMPRESSED_CHUNKS,
 			true, false);
 		int ret;
 		decompressor.decompress(in, ilen, &ilen, out, *olen, olen, nullptr, &ret, nullptr);
 		return ret;
 	} catch (const cl::Error &) {
+		*olen = 0;
 		// Not a great error value, but we shouldn't let C++ exceptions
 		// propagate out from the C API
 		return -ENOMEM;
-- 
2.43.0


From 6508854b7f0f686a4125818c47631a6635546404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:11 +0000
Subject: [PATCH 11/23] fix: OpenCL kernel: do not read past the end of a full
 output buffer

A 2-byte reference to the last bytes produced reads 2 bytes too many, which
was outside the output buffer if that was already full.
---
 src/ocl/decompress.cl | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ocl/decompress.cl b/src/ocl/decompress.cl
index 12794e7..eeb3b87 100644
--- a/src/ocl/decompress.cl
+++ b/src/ocl/decompress.cl
@@ -210,6 +210,12 @@ static inline void do_op(struct sw842_param_decomp *p, uint8_t op)
 #ifdef ENABLE_ERROR_HANDLING
 	if (p->errorcode != 0)
 		return;
+	// Checked before reading the references below, since a reference to the last
+	// 2 bytes also reads (and ignores) the 2 bytes which follow them
+	if ((p->out - p->ostart) * sizeof(uint64_t) + 8 > p->olen) {
+		p->errorcode = -ENOSPC;
+		return;
+	}
 #endif
 
 	for (int i = 0; i < 4; i++) {
@@ -255,12 +261,6 @@ static inline void do_op(struct sw842_param_decomp *p, uint8_t op)
 			       << (64 - (dst_size << 3) - bits);
 		bits += dst_size << 3;
 	}
-#ifdef ENABLE_ERROR_HANDLING
-	if ((p->out - p->ostart) * sizeof(uint64_t) + 8 > p->olen) {
-		p->errorcode = -ENOSPC;
-		return;
-	}
-#endif
 	*p->out++ = swap_native_to_be64(output_word);
 }
 
-- 
2.43.0


From c9f9ab5eab6085a14e49d751c61e17cbd170e0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:11 +0000
Subject: [PATCH 12/23] fix: CLHostDecompressor: keep chunks which are already
 in the destination

In the MAYBE_COMPRESSED_CHUNKS format, the chunks marked to be skipped were
overwritten with the contents of an uninitialized device buffer.
---
 src/ocl/cl842decompress.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ocl/cl842decompress.cpp b/src/ocl/cl842decompress.cpp
index 486ea4b..d82fbdf 100644
--- a/src/ocl/cl842decompress.cpp
+++ b/src/ocl/cl842decompress.cpp
@@ -443,6 +443,9 @@ void CLHostDecompressor::decompress(const uint8_t *input, size_t inputBufferSize
 					outputBufferSize != 0 ? outputBufferSize : 1);
 
 		cl::copy(m_queue, input, input + inputBufferSize, inputBuffer);
+		// Chunks marked as already present in the destination must keep their contents
+		if (m_inputFormat == CLDecompressorInputFormat::MAYBE_COMPRESSED_CHUNKS)
+			cl::copy(m_queue, output, output + outputBufferSize, outputBuffer);
 		m_deviceCompressor.decompress(m_queue, numChunks,
 					      inputBuffer, 0, inputSizesBuffer,
 					      outputBuffer, 0, outputSizesBuffer,
-- 
2.43.0


From a6e0c703c81c4e600541fbf8602e282c2dc2d20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:21:42 +0000
Subject: [PATCH 13/23] fix: CLHostDecompressor: allow an empty output buffer

Allocating a dummy buffer was not enough: copying back zero bytes also fails.
---
 src/ocl/cl842decompress.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ocl/cl842decompress.cpp b/src/ocl/cl842decompress.cpp
index d82fbdf..90aea51 100644
--- a/src/ocl/cl842decompress.cpp
+++ b/src/ocl/cl842decompress.cpp
@@ -452,7 +452,9 @@ void CLHostDecompressor::decompress(const uint8_t *input, size_t inputBufferSize
 					      chunkShuffleMapBuffer, returnValuesBuffer,
 					      nullptr, &decompressEvent);
 		decompressEvent.wait();
-		cl::copy(m_queue, outputBuffer, output, output + outputBufferSize);
+		// Likewise, avoid a CL_INVALID_VALUE if outputBufferSize == 0
+		if (outputBufferSize != 0)
+			cl::copy(m_queue, outputBuffer, output, output + outputBufferSize);
 	}
 
 	if (m_profile && time != nullptr) {
-- 
2.43.0


From 919a959b55c1c758be22d9d821423c0482e56259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:07 +0000
Subject: [PATCH 14/23] fix: OpenCL kernel: reject compressed chunks larger
 than their slot

---
 src/ocl/decompress.cl | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ocl/decompress.cl b/src/ocl/decompress.cl
index eeb3b87..407178d 100644
--- a/src/ocl/decompress.cl
+++ b/src/ocl/decompress.cl
@@ -434,6 +434,15 @@ __kernel void decompress(__global const uint64_t *RESTRICT_UNLESS_INPLACE in,
 	// (the end of the chunk matches the end of the input chunk buffer)
 	my_ilen = my_in[2]; // TODOXXX: Avoid all this marker and embeeded lengths
 			    // nonesense and just pass the lengths with ilen everywhere
+#ifdef ENABLE_ERROR_HANDLING
+	if (my_ilen > CL842_CHUNK_SIZE) {
+		if (olen)
+			olen[chunk_num] = 0;
+		if (returnValues)
+			returnValues[chunk_num] = -EINVAL;
+		return;
+	}
+#endif
 	my_in += (CL842_CHUNK_SIZE - my_in[2]) / 8;
 #endif
 	size_t my_olen = olen != NULL ? olen[chunk_num] : (size_t)-1;
-- 
2.43.0


From 3b8ecc162f470d3c3ea187df56dccb2b67387990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:34 +0000
Subject: [PATCH 15/23] fix: OpenCL kernel: do not read words which are only
 partly inside the input

---
 src/ocl/decompress.cl | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/ocl/decompress.cl b/src/ocl/decompress.cl
index 407178d..f60527e 100644
--- a/src/ocl/decompress.cl
+++ b/src/ocl/decompress.cl
@@ -128,7 +128,7 @@ static inline uint64_t read_bits(struct sw842_param_decomp *p, uint32_t n)
 		p->lookAheadBuffer[2] = p->lookAheadBuffer[3];
 		p->lookAheadBuffer[3] = p->lookAheadBuffer[4];
 		p->lookAheadBuffer[4] = p->lookAheadBuffer[5];
-		p->lookAheadBuffer[5] = ((p->in - p->istart + 6) * sizeof(uint64_t) < p->ilen) ? swap_be_to_native64(*(p->in + 6)) : 0;
+		p->lookAheadBuffer[5] = ((p->in - p->istart + 7) * sizeof(uint64_t) <= p->ilen) ? swap_be_to_native64(*(p->in + 6)) : 0;
 #else
 		p->buffer = swap_be_to_native64(*p->in);
 #endif
@@ -279,12 +279,12 @@ static inline int decompress_core(__global const uint64_t *RESTRICT_UNLESS_INPLA
 
 	p.buffer = 0;
 #ifdef USE_LOOKAHEAD_BUFFER
-	p.lookAheadBuffer[0] = ((p.in - p.istart) * sizeof(uint64_t) < p.ilen) ? swap_be_to_native64(*(p.in + 0)) : 0;
-	p.lookAheadBuffer[1] = ((p.in - p.istart + 1) * sizeof(uint64_t) < p.ilen) ? swap_be_to_native64(*(p.in + 1)) : 0;
-	p.lookAheadBuffer[2] = ((p.in - p.istart + 2) * sizeof(uint64_t) < p.ilen) ? swap_be_to_native64(*(p.in + 2)) : 0;
-	p.lookAheadBuffer[3] = ((p.in - p.istart + 3) * sizeof(uint64_t) < p.ilen) ? swap_be_to_native64(*(p.in + 3)) : 0;
-	p.lookAheadBuffer[4] = ((p.in - p.istart + 4) * sizeof(uint64_t) < p.ilen) ? swap_be_to_native64(*(p.in + 4)) : 0;
-	p.lookAheadBuffer[5] = ((p.in - p.istart + 5) * sizeof(uint64_t) < p.ilen) ? swap_be_to_native64(*(p.in + 5)) : 0;
+	p.lookAheadBuffer[0] = ((p.in - p.istart + 1) * sizeof(uint64_t) <= p.ilen) ? swap_be_to_native64(*(p.in + 0)) : 0;
+	p.lookAheadBuffer[1] = ((p.in - p.istart + 2) * sizeof(uint64_t) <= p.ilen) ? swap_be_to_native64(*(p.in + 1)) : 0;
+	p.lookAheadBuffer[2] = ((p.in - p.istart + 3) * sizeof(uint64_t) <= p.ilen) ? swap_be_to_native64(*(p.in + 2)) : 0;
+	p.lookAheadBuffer[3] = ((p.in - p.istart + 4) * sizeof(uint64_t) <= p.ilen) ? swap_be_to_native64(*(p.in + 3)) : 0;
+	p.lookAheadBuffer[4] = ((p.in - p.istart + 5) * sizeof(uint64_t) <= p.ilen) ? swap_be_to_native64(*(p.in + 4)) : 0;
+	p.lookAheadBuffer[5] = ((p.in - p.istart + 6) * sizeof(uint64_t) <= p.ilen) ? swap_be_to_native64(*(p.in + 5)) : 0;
 #endif
 	p.bits = 0;
 
-- 
2.43.0


From 589186a9d372b823d36b8284003cf92bd8531afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:43:31 +0000
Subject: [PATCH 16/23] fix: keep the error if the key of the cryptodev
 contexts cannot be created

---
 src/cryptodev/842_interface.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cryptodev/842_interface.c b/src/cryptodev/842_interface.c
index ce414e8..013cdf9 100644
--- a/src/cryptodev/842_interface.c
+++ b/src/cryptodev/842_interface.c
@@ -219,8 +219,8 @@ static void create_thread_ctx_key()
 {
 	if (tss_create(&thread_ctx_key, destroy_thread_ctx) != thrd_success)
 		thread_ctx_key_err = -ENOMEM;
-
-	thread_ctx_key_err = 0;
+	else
+		thread_ctx_key_err = 0;
 }
 
 static int get_thread_cryptodev_ctx(struct cryptodev_ctx **rctx)
-- 
2.43.0


From 4f4aec5420af7521ee58292cb31e0dacfba044ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:43:31 +0000
Subject: [PATCH 17/23] fix: initialize the alignment mask if cryptodev cannot
 report it

---
 src/cryptodev/842_interface.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cryptodev/842_interface.c b/src/cryptodev/842_interface.c
index 013cdf9..c7fd6d7 100644
--- a/src/cryptodev/842_interface.c
+++ b/src/cryptodev/842_interface.c
@@ -81,6 +81,8 @@ static int c842_ctx_init(struct cryptodev_ctx *ctx)
 	}
 #endif
 	ctx->alignmask = siop.alignmask;
+#else
+	ctx->alignmask = 0;
 #endif
 
 	return 0;
-- 
2.43.0


From 0bcf0b79313845fb53718e5c1eba398461e2ae8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:43:31 +0000
Subject: [PATCH 18/23] fix: exchange the swapped alignments of the AIX
 implementation

---
 src/aix/aix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aix/aix.c b/src/aix/aix.c
index 7f44855..91e595e 100644
--- a/src/aix/aix.c
+++ b/src/aix/aix.c
@@ -24,8 +24,8 @@ const struct lib842_implementation *get_aix842_implementation() {
 		.compress_chunked = aix842_compress_chunked,
 		.decompress_chunked = aix842_decompress_chunked,
 		// From https://www.ibm.com/support/knowledgecenter/ssw_aix_71/a_bostechref/accel_compress.html
-		.required_alignment = 4096,
-		.preferred_alignment = 128
+		.required_alignment = 128,
+		.preferred_alignment = 4096
 	};
 	return &aix842_implementation;
 };
-- 
2.43.0


From 700a6cf73677d837a6b154ddafda1d2e80f59177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:44:20 +0000
Subject: [PATCH 19/23] fix: spread threads also on machines whose CPU numbers
 have gaps

---
 src/stream/numa_spread.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/stream/numa_spread.cpp b/src/stream/numa_spread.cpp
index bf0578a..1759571 100644
--- a/src/stream/numa_spread.cpp
+++ b/src/stream/numa_spread.cpp
@@ -7,7 +7,6 @@
 
 #include <pthread.h>
 #include <numa.h>
-#include <sys/sysinfo.h>
 #ifdef LIB842_STREAM_INDEPTH_TRACE
 #include <string>
 #include <sstream>
@@ -44,7 +43,7 @@ static std::vector<cpu_set_t> get_numa_cpusets()
 		return std::vector<cpu_set_t>();
 	}
 
-	int numa_max_nodes = numa_max_node(), nprocs = get_nprocs();
+	int numa_max_nodes = numa_max_node();
 	std::unique_ptr<struct bitmask, decltype(&numa_free_cpumask)>
 		bm { numa_get_mems_allowed(), numa_free_cpumask };
 	std::unique_ptr<struct bitmask, decltype(&numa_free_cpumask)>
@@ -59,7 +58,9 @@ static std::vector<cpu_set_t> get_numa_cpusets()
 
 		cpu_set_t cpuset;
 		CPU_ZERO(&cpuset);
-		for (int c = 0; c < nprocs; c++) {
+		// Note that the CPU numbers aren't contiguous if some CPUs are offline
+		// (e.g. with SMT disabled)
+		for (unsigned int c = 0; c < cpumask->size; c++) {
 			if (!numa_bitmask_isbitset(cpumask.get(), c))
 				continue;
 
-- 
2.43.0


From e07655002299015fadb9cd2e40e8c2cd2a1bda51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:44:21 +0000
Subject: [PATCH 20/23] fix: spread threads only among NUMA nodes that have
 CPUs

---
 src/stream/numa_spread.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stream/numa_spread.cpp b/src/stream/numa_spread.cpp
index 1759571..66e10aa 100644
--- a/src/stream/numa_spread.cpp
+++ b/src/stream/numa_spread.cpp
@@ -66,6 +66,9 @@ static std::vector<cpu_set_t> get_numa_cpusets()
 
 			CPU_SET(c, &cpuset);
 		}
+		// Nodes may have only memory and no CPUs (e.g. GPU memory)
+		if (CPU_COUNT(&cpuset) == 0)
+			continue;
 		numa_cpusets.push_back(cpuset);
 	}
 
-- 
2.43.0


From 7826076a86808272d4f5ec6bee01f56b7b3d6c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:52:31 +0000
Subject: [PATCH 21/23] fix: stop the threads of a stream whose construction
 fails instead of terminating the process

---
 include/lib842/stream/comp.h           |  6 ++++++
 include/lib842/stream/decomp.h         |  6 ++++++
 src/stream/DataCompressionStream.cpp   | 12 +++++++++++-
 src/stream/DataDecompressionStream.cpp | 12 +++++++++++-
 4 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/include/lib842/stream/comp.h b/include/lib842/stream/comp.h
index c545dc5..8acc7c5 100644
--- a/include/lib842/stream/comp.h
+++ b/include/lib842/stream/comp.h
@@ -65,6 +65,12 @@ public:
 	void finalize(bool cancel, std::function<void(bool)> finalize_callback);
 
 private:
+	// Initializes everything but the threads
+	DataCompressionStream(const lib842_implementation &impl842,
+			      unsigned int num_threads,
+			      std::function<std::ostream&(void)> error_logger,
+			      std::function<std::ostream&(void)> debug_logger);
+
 	struct stats_per_thread_t {
 #ifdef LIB842_STREAM_INDEPTH_TRACE
 		size_t handled_blocks = 0;
diff --git a/include/lib842/stream/decomp.h b/include/lib842/stream/decomp.h
index 7b8d808..dae52e0 100644
--- a/include/lib842/stream/decomp.h
+++ b/include/lib842/stream/decomp.h
@@ -61,6 +61,12 @@ public:
 	void finalize(bool cancel, std::function<void(bool)> finalize_callback);
 
 private:
+	// Initializes everything but the threads
+	DataDecompressionStream(const lib842_implementation &impl842,
+				unsigned int num_threads,
+				std::function<std::ostream&(void)> error_logger,
+				std::function<std::ostream&(void)> debug_logger);
+
 	struct stats_per_thread_t {
 #ifdef LIB842_STREAM_INDEPTH_TRACE
 		size_t handled_blocks = 0;
diff --git a/src/stream/DataCompressionStream.cpp b/src/stream/DataCompressionStream.cpp
index 80ab7e3..8fb65eb 100644
--- a/src/stream/DataCompressionStream.cpp
+++ b/src/stream/DataCompressionStream.cpp
@@ -19,7 +19,6 @@ namespace stream {
 DataCompressionStream::DataCompressionStream(
 	const lib842_implementation &impl842,
 	unsigned int num_threads,
-	thread_policy thread_policy_,
 	std::function<std::ostream&(void)> error_logger,
 	std::function<std::ostream&(void)> debug_logger) :
 	_impl842(impl842),
@@ -35,6 +34,17 @@ DataCompressionStream::DataCompressionStream(
 		_error_logger() << "CHUNK_SIZE must be a multiple of the required 842 alignment" << std::endl;
 		throw std::runtime_error("CHUNK_SIZE must be a multiple of the required 842 alignment");
 	}
+}
+
+// If creating any of the threads fails, the destructor is called (since the
+// other constructor has completed), which stops the threads created before it
+DataCompressionStream::DataCompressionStream(
+	const lib842_implementation &impl842,
+	unsigned int num_threads,
+	thread_policy thread_policy_,
+	std::function<std::ostream&(void)> error_logger,
+	std::function<std::ostream&(void)> debug_logger) :
+	DataCompressionStream(impl842, num_threads, std::move(error_logger), std::move(debug_logger)) {
 	_threads.reserve(num_threads);
 	for (size_t i = 0; i < num_threads; i++)
 		_threads.emplace_back(&DataCompressionStream::loop_compress_thread, this, i);
diff --git a/src/stream/DataDecompressionStream.cpp b/src/stream/DataDecompressionStream.cpp
index 0ae40bd..5a63872 100644
--- a/src/stream/DataDecompressionStream.cpp
+++ b/src/stream/DataDecompressionStream.cpp
@@ -13,7 +13,6 @@ namespace stream {
 DataDecompressionStream::DataDecompressionStream(
 	const lib842_implementation &impl842,
 	unsigned int num_threads,
-	thread_policy thread_policy_,
 	std::function<std::ostream&(void)> error_logger,
 	std::function<std::ostream&(void)> debug_logger) :
 	_impl842(impl842),
@@ -28,6 +27,17 @@ DataDecompressionStream::DataDecompressionStream(
 		_error_logger() << "CHUNK_SIZE must be a multiple of the required 842 alignment" << std::endl;
 		throw std::runtime_error("CHUNK_SIZE must be a multiple of the required 842 alignment");
 	}
+}
+
+// If creating any of the threads fails, the destructor is called (since the
+// other constructor has completed), which stops the threads created before it
+DataDecompressionStream::DataDecompressionStream(
+	const lib842_implementation &impl842,
+	unsigned int num_threads,
+	thread_policy thread_policy_,
+	std::function<std::ostream&(void)> error_logger,
+	std::function<std::ostream&(void)> debug_logger) :
+	DataDecompressionStream(impl842, num_threads, std::move(error_logger), std::move(debug_logger)) {
 	_threads.reserve(num_threads);
 	for (size_t i = 0; i < num_threads; i++)
 		_threads.emplace_back(&DataDecompressionStream::loop_decompress_thread, this, i);
-- 
2.43.0


From 3458b0e8c5f110ff95db0a820ff718c05033ec2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:00:31 +0000
Subject: [PATCH 22/23] fix: accept data of 4 GiB and more in the reference
 implementation

The reference compressor and decompressor refused a result of more than
UINT_MAX bytes with -ENOSPC, whatever space there was. Lengths have been
size_t for long, and the optimized implementation has no such limit.
---
 src/serial/842_compress.c   | 6 ------
 src/serial/842_decompress.c | 4 ----
 2 files changed, 10 deletions(-)

diff --git a/src/serial/842_compress.c b/src/serial/842_compress.c
index 525e87e..95cb080 100644
--- a/src/serial/842_compress.c
+++ b/src/serial/842_compress.c
@@ -28,7 +28,6 @@
 #include <stdio.h>
 #include <stdbool.h>
 #include <stdint.h>
-#include <limits.h>
 #include <errno.h>
 
 struct node2_el {
@@ -669,11 +668,6 @@ skip_comp:
 		p->olen -= pad;
 	}
 
-	if (unlikely((total - p->olen) > UINT_MAX)) {
-		ret = -ENOSPC;
-		goto cleanup;
-	}
-
 	*olen = total - p->olen;
 
 	//printf("Out: %lld bits (%f bytes)\n", outbits, (outbits / 8.0f));
diff --git a/src/serial/842_decompress.c b/src/serial/842_decompress.c
index 2cc3ed8..12ade3d 100644
--- a/src/serial/842_decompress.c
+++ b/src/serial/842_decompress.c
@@ -25,7 +25,6 @@
 #include <stdio.h>
 #include <stdint.h>
 #include <string.h>
-#include <limits.h>
 #include <errno.h>
 
 struct sw842_param_decomp {
@@ -405,9 +404,6 @@ int sw842_decompress(const uint8_t *in, size_t ilen,
 		return -EINVAL;
 	}
 
-	if (unlikely((total - p.olen) > UINT_MAX))
-		return -ENOSPC;
-
 	*olen = total - p.olen;
 
 	return 0;
-- 
2.43.0


From 4feb40966ea26b685beb1499828f11e68999a7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:04 +0000
Subject: [PATCH 23/23] fix: replace the OpenCL program cache atomically

---
 src/ocl/cl842decompress.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/ocl/cl842decompress.cpp b/src/ocl/cl842decompress.cpp
index 90aea51..6f9608e 100644
--- a/src/ocl/cl842decompress.cpp
+++ b/src/ocl/cl842decompress.cpp
@@ -10,8 +10,12 @@
 #define LIB842_CLDECOMPRESS_USE_PROGRAM_CACHE
 
 #ifdef LIB842_CLDECOMPRESS_USE_PROGRAM_CACHE
+#include <atomic>
 #include <cassert>
+#include <cstdio>
 #include <fstream>
+#include <string>
+#include <unistd.h>
 #include "../common/crc32.h"
 #endif
 
@@ -121,10 +125,24 @@ struct program_cache
 	void set(const cl::Program::Binaries &binaries) const {
 		assert(deviceNames.size() == binaries.size());
 
-		std::ofstream out(CACHE_PATH, std::ofstream::out | std::ofstream::binary);
-		out.exceptions(std::ofstream::failbit | std::ofstream::badbit);
-		writeMetadata(out);
-		writeBinaries(out, binaries);
+		// Write to a temporary file first and then replace the cache at once,
+		// since it may be being read or written by others at the same time
+		static std::atomic<unsigned int> counter(0);
+		std::string tempPath = std::string(CACHE_PATH) + "." +
+			std::to_string(getpid()) + "." + std::to_string(counter++);
+		try {
+			std::ofstream out;
+			out.exceptions(std::ofstream::failbit | std::ofstream::badbit);
+			out.open(tempPath, std::ofstream::out | std::ofstream::binary);
+			writeMetadata(out);
+			writeBinaries(out, binaries);
+			out.close();
+			if (std::rename(tempPath.c_str(), CACHE_PATH) != 0)
+				out.setstate(std::ofstream::failbit);
+		} catch (const std::ofstream::failure &) {
+			std::remove(tempPath.c_str());
+			throw;
+		}
 	}
 
 private:
-- 
2.43.0

