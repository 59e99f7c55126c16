From f38f2db39638aadf76ce4c3eab30a18278ba280b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 01/34] fix: append frames completed over several calls

A frame that arrived in pieces was never taken from the frame buffer: the
caller's pointer was written instead (reading past its end), the bytes of
the last piece were counted twice, and lower resolutions never saw it.
---
 src/streaming/zarr.stream.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 1f1f8cb..7d04252 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -437,22 +437,24 @@ ZarrStream::append(const void* data_, size_t nbytes)
               std::min(bytes_of_frame - frame_buffer_offset_, bytes_remaining);
 
             memcpy(frame_buffer_.data() + frame_buffer_offset_,
-                   data + bytes_written,
+                   data,
                    bytes_to_copy);
             frame_buffer_offset_ += bytes_to_copy;
             bytes_written += bytes_to_copy;
+            data += bytes_to_copy;
 
             // ready to flush the frame buffer
             if (frame_buffer_offset_ == bytes_of_frame) {
+                frame_buffer_offset_ = 0;
+
                 const size_t bytes_written_this_frame =
-                  writers_[0]->write_frame({ data, bytes_of_frame });
+                  writers_[0]->write_frame(frame_buffer_);
                 if (bytes_written_this_frame == 0) {
                     break;
                 }
 
-                bytes_written += bytes_to_copy;
-                data += bytes_to_copy;
-                frame_buffer_offset_ = 0;
+                write_multiscale_frames_(frame_buffer_.data(),
+                                         bytes_written_this_frame);
             }
         } else if (bytes_remaining < bytes_of_frame) { // begin partial frame
             memcpy(frame_buffer_.data(), data, bytes_remaining);
-- 
2.43.0


From 234fa67040c7995a5ed667d70d8038942ff7ad3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:18 +0000
Subject: [PATCH 02/34] fix: average pixels, not bytes, and without overflow

scale_image indexed the source as bytes whatever the data type, so every
lower resolution of anything but 8-bit data was wrong. Both it and
average_two_frames computed in types that overflow or lose precision for
32/64-bit integers and extreme floats, and the size of the scaled frame
was kept in 32 bits.
---
 src/streaming/zarr.stream.cpp | 64 +++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 21 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 7d04252..d46ecd9 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -8,7 +8,9 @@
 
 #include <blosc.h>
 
+#include <cstring> // memcpy, memset
 #include <filesystem>
+#include <type_traits>
 
 #ifdef min
 #undef min
@@ -285,6 +287,24 @@ dimension_type_to_string(ZarrDimensionType type)
     }
 }
 
+// mean of the given pixels (two or four), without overflowing T
+template<typename T, typename... Ts>
+[[nodiscard]] T
+mean_of(T first, Ts... rest)
+{
+    constexpr int n = 1 + sizeof...(rest);
+
+    if constexpr (std::is_floating_point_v<T>) {
+        return static_cast<T>(((static_cast<double>(first) / n) + ... +
+                               (static_cast<double>(rest) / n)));
+    } else {
+        const T quotients = static_cast<T>(((first / n) + ... + (rest / n)));
+        const int remainders = (static_cast<int>(first % n) + ... +
+                                static_cast<int>(rest % n));
+        return static_cast<T>(quotients + remainders / n);
+    }
+}
+
 template<typename T>
 [[nodiscard]] std::byte*
 scale_image(const std::byte* const src,
@@ -301,16 +321,13 @@ scale_image(const std::byte* const src,
            bytes_of_src);
 
     const int downscale = 2;
-    constexpr auto bytes_of_type = static_cast<double>(sizeof(T));
-    const double factor = 0.25;
 
-    const auto w_pad = static_cast<double>(width + (width % downscale));
-    const auto h_pad = static_cast<double>(height + (height % downscale));
+    const size_t w_pad = width + (width % downscale);
+    const size_t h_pad = height + (height % downscale);
 
-    const auto size_downscaled =
-      static_cast<uint32_t>(w_pad * h_pad * factor * bytes_of_type);
+    const size_t size_downscaled = (w_pad / 2) * (h_pad / 2) * sizeof(T);
 
-    auto* dst = new T[size_downscaled];
+    auto* dst = new T[size_downscaled / sizeof(T)];
     EXPECT(dst,
            "Failed to allocate ",
            size_downscaled,
@@ -318,6 +335,13 @@ scale_image(const std::byte* const src,
 
     memset(dst, 0, size_downscaled);
 
+    // the source need not be aligned for T
+    const auto pixel = [src](size_t idx) {
+        T value;
+        memcpy(&value, src + idx * sizeof(T), sizeof(T));
+        return value;
+    };
+
     size_t dst_idx = 0;
     for (auto row = 0; row < height; row += downscale) {
         const bool pad_height = (row == height - 1 && height != h_pad);
@@ -326,23 +350,21 @@ scale_image(const std::byte* const src,
             size_t src_idx = row * width + col;
             const bool pad_width = (col == width - 1 && width != w_pad);
 
-            auto here = static_cast<double>(src[src_idx]);
-            auto right = static_cast<double>(
-              src[src_idx + (1 - static_cast<int>(pad_width))]);
-            auto down = static_cast<double>(
-              src[src_idx + width * (1 - static_cast<int>(pad_height))]);
-            auto diag = static_cast<double>(
-              src[src_idx + width * (1 - static_cast<int>(pad_height)) +
-                  (1 - static_cast<int>(pad_width))]);
-
-            dst[dst_idx++] =
-              static_cast<T>(factor * (here + right + down + diag));
+            const T here = pixel(src_idx);
+            const T right = pixel(src_idx + (1 - static_cast<int>(pad_width)));
+            const T down =
+              pixel(src_idx + width * (1 - static_cast<int>(pad_height)));
+            const T diag =
+              pixel(src_idx + width * (1 - static_cast<int>(pad_height)) +
+                    (1 - static_cast<int>(pad_width)));
+
+            dst[dst_idx++] = mean_of(here, right, down, diag);
         }
     }
 
     bytes_of_src = size_downscaled;
-    width = static_cast<size_t>(w_pad) / 2;
-    height = static_cast<size_t>(h_pad) / 2;
+    width = w_pad / 2;
+    height = h_pad / 2;
 
     return reinterpret_cast<std::byte*>(dst);
 }
@@ -366,7 +388,7 @@ average_two_frames(void* dst_,
 
     const auto num_pixels = bytes_of_src / sizeof(T);
     for (auto i = 0; i < num_pixels; ++i) {
-        dst[i] = static_cast<T>(0.5 * (dst[i] + src[i]));
+        dst[i] = mean_of(dst[i], src[i]);
     }
 }
 } // namespace
-- 
2.43.0


From a020d8e0d245843163ae48cf774defdf171059c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:18 +0000
Subject: [PATCH 03/34] fix: free intermediate multiscale frames

With three or more levels the averaged frame handed down to the next level
was never freed, nor was any scaled frame when a write failed.
---
 src/streaming/zarr.stream.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index d46ecd9..5f1eb9a 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -950,9 +950,13 @@ ZarrStream_s::write_multiscale_frames_(const std::byte* data,
     size_t frame_width = dimensions_->width_dim().array_size_px;
     size_t frame_height = dimensions_->height_dim().array_size_px;
 
-    std::byte* dst;
+    // the frame most recently written, the source of the next level
+    std::unique_ptr<std::byte[]> last_written;
+
     for (auto i = 1; i < writers_.size(); ++i) {
-        dst = scale(data, bytes_of_data, frame_width, frame_height);
+        std::unique_ptr<std::byte[]> scaled(
+          scale(data, bytes_of_data, frame_width, frame_height));
+        auto* dst = scaled.get();
 
         // bytes_of data is now downscaled
         // frame_width and frame_height are now the new dimensions
@@ -970,13 +974,10 @@ ZarrStream_s::write_multiscale_frames_(const std::byte* data,
             scaled_frames_[i].reset();
 
             // set up for next iteration
-            if (i + 1 < writers_.size()) {
-                data = dst;
-            } else {
-                delete[] dst;
-            }
+            last_written = std::move(scaled);
+            data = dst;
         } else {
-            scaled_frames_[i] = dst;
+            scaled_frames_[i] = scaled.release();
             break;
         }
     }
-- 
2.43.0


From db9b98509c8a2a1d8c3c4cd9b8de130128125f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 04/34] fix: index every append-dimension chunk of a shard

All chunk rows of a shard were entered in the same slots of its index, so
with more than one chunk per shard along the append dimension only the last
row could be found again.
---
 src/streaming/zarrv3.array.writer.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/streaming/zarrv3.array.writer.cpp b/src/streaming/zarrv3.array.writer.cpp
index d687076..18d72ff 100644
--- a/src/streaming/zarrv3.array.writer.cpp
+++ b/src/streaming/zarrv3.array.writer.cpp
@@ -89,6 +89,17 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
         chunk_in_shards[index].push_back(i);
     }
 
+    // a shard may hold several chunks along the append dimension: find the
+    // position in it of the chunks now in memory
+    const auto& dims = config_.dimensions;
+    size_t frames_per_layer = dims->final_dim().chunk_size_px;
+    for (auto i = 1; i < dims->ndims() - 2; ++i) {
+        frames_per_layer *= dims->at(i).array_size_px;
+    }
+    const size_t layer = (frames_written_ - 1) / frames_per_layer %
+                         dims->final_dim().shard_size_chunks;
+    const auto layer_offset = layer * chunk_buffers_.size();
+
     // write out chunks to shards
     auto write_table = is_finalizing_ || should_rollover_();
     std::latch latch(n_shards);
@@ -102,6 +113,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                                        &chunk_table,
                                        file_offset,
                                        write_table,
+                                       layer_offset,
                                        &latch,
                                        this](std::string& err) {
             bool success = false;
@@ -117,7 +129,8 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                     }
 
                     const auto internal_idx =
-                      config_.dimensions->shard_internal_index(chunk_idx);
+                      config_.dimensions->shard_internal_index(layer_offset +
+                                                               chunk_idx);
                     chunk_table.at(2 * internal_idx) = *file_offset;
                     chunk_table.at(2 * internal_idx + 1) = chunk.size();
 
-- 
2.43.0


From 5e9a9070794649b1c411806c0faaacd0f9ee721f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 05/34] fix: complete open shards and metadata when finalizing

finalize_array did nothing when no bytes were waiting to be flushed, so
shards that were filled only in part never got their index and arrays
without frames (or whose last chunk was just flushed, for Zarr v3) never
got their metadata. Shards left open were not finalized either, which on S3
means that they were never uploaded.
---
 src/streaming/array.writer.cpp        | 23 +++++++++++++++--------
 src/streaming/zarrv3.array.writer.cpp |  4 +++-
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index 0c7fd21..f3e2c10 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -395,25 +395,32 @@ zarr::ArrayWriter::compress_buffers_()
 void
 zarr::ArrayWriter::flush_()
 {
-    if (bytes_to_flush_ == 0) {
+    if (bytes_to_flush_ == 0 && !is_finalizing_) {
         return;
     }
 
-    // compress buffers and write out
-    compress_buffers_();
-    CHECK(flush_impl_());
+    // compress buffers and write out; sinks still open when finalizing must be
+    // completed even if there is nothing left to write to them
+    if (bytes_to_flush_ > 0) {
+        compress_buffers_();
+    }
+    if (bytes_to_flush_ > 0 || !data_sinks_.empty()) {
+        CHECK(flush_impl_());
+    }
 
-    const auto should_rollover = should_rollover_();
-    if (should_rollover) {
+    const auto should_rollover = should_rollover_() || is_finalizing_;
+    if (should_rollover && !data_sinks_.empty()) {
         rollover_();
     }
 
-    if (should_rollover || is_finalizing_) {
+    if (should_rollover) {
         CHECK(write_array_metadata_());
     }
 
     // reset buffers
-    make_buffers_();
+    if (!is_finalizing_) {
+        make_buffers_();
+    }
 
     // reset state
     bytes_to_flush_ = 0;
diff --git a/src/streaming/zarrv3.array.writer.cpp b/src/streaming/zarrv3.array.writer.cpp
index 18d72ff..e111fa3 100644
--- a/src/streaming/zarrv3.array.writer.cpp
+++ b/src/streaming/zarrv3.array.writer.cpp
@@ -84,7 +84,8 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
 
     // get shard indices for each chunk
     std::vector<std::vector<size_t>> chunk_in_shards(n_shards);
-    for (auto i = 0; i < chunk_buffers_.size(); ++i) {
+    const auto n_chunks = bytes_to_flush_ > 0 ? chunk_buffers_.size() : 0;
+    for (auto i = 0; i < n_chunks; ++i) {
         const auto index = config_.dimensions->shard_index_for_chunk(i);
         chunk_in_shards[index].push_back(i);
     }
@@ -119,6 +120,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
             bool success = false;
 
             try {
+                success = true;
                 for (const auto& chunk_idx : chunks) {
                     auto& chunk = chunk_buffers_.at(chunk_idx);
                     std::span data{ reinterpret_cast<std::byte*>(chunk.data()),
-- 
2.43.0


From 1880bfdbb575005918346f25f097d4e35d0504ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:05 +0000
Subject: [PATCH 06/34] fix: report chunks that could not be compressed or
 written

The result of the compression and write jobs was only handed to the error
callback of the thread pool: a failure in the last flush was never noticed,
and a shard sink that returned false left the message empty, which counts as
no error. Let the flush itself fail.
---
 src/streaming/array.writer.cpp        | 11 ++++++++++-
 src/streaming/zarrv2.array.writer.cpp | 13 ++++++++++++-
 src/streaming/zarrv3.array.writer.cpp | 15 +++++++++++++++
 3 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index f3e2c10..d526bef 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -4,6 +4,7 @@
 #include "zarr.stream.hh"
 #include "sink.creator.hh"
 
+#include <atomic>
 #include <cmath>
 #include <functional>
 #include <latch>
@@ -349,10 +350,11 @@ zarr::ArrayWriter::compress_buffers_()
     const auto bytes_per_px = bytes_of_type(config_.dtype);
 
     std::scoped_lock lock(buffers_mutex_);
+    std::atomic<bool> all_successful = true;
     std::latch latch(chunk_buffers_.size());
     for (auto& chunk : chunk_buffers_) {
         EXPECT(thread_pool_->push_job(
-                 [&params, buf = &chunk, bytes_per_px, &latch](
+                 [&params, buf = &chunk, bytes_per_px, &latch, &all_successful](
                    std::string& err) -> bool {
                      bool success = false;
                      const size_t bytes_of_chunk = buf->size();
@@ -373,6 +375,7 @@ zarr::ArrayWriter::compress_buffers_()
                                               0 /* blocksize - 0:automatic */,
                                               1);
 
+                         EXPECT(nb > 0, "Blosc returned ", nb);
                          tmp.resize(nb);
                          buf->swap(tmp);
 
@@ -381,6 +384,10 @@ zarr::ArrayWriter::compress_buffers_()
                          err = "Failed to compress chunk: " +
                                std::string(exc.what());
                      }
+
+                     if (!success) {
+                         all_successful = false;
+                     }
                      latch.count_down();
 
                      return success;
@@ -390,6 +397,8 @@ zarr::ArrayWriter::compress_buffers_()
 
     // wait for all threads to finish
     latch.wait();
+
+    EXPECT(all_successful, "Failed to compress chunks");
 }
 
 void
diff --git a/src/streaming/zarrv2.array.writer.cpp b/src/streaming/zarrv2.array.writer.cpp
index 8b620ca..268bae3 100644
--- a/src/streaming/zarrv2.array.writer.cpp
+++ b/src/streaming/zarrv2.array.writer.cpp
@@ -5,6 +5,7 @@
 
 #include <nlohmann/json.hpp>
 
+#include <atomic>
 #include <latch>
 #include <stdexcept>
 
@@ -83,6 +84,7 @@ zarr::ZarrV2ArrayWriter::flush_impl_()
 
     CHECK(data_sinks_.size() == chunk_buffers_.size());
 
+    std::atomic<bool> all_successful = true;
     std::latch latch(chunk_buffers_.size());
     {
         std::scoped_lock lock(buffers_mutex_);
@@ -92,7 +94,8 @@ zarr::ZarrV2ArrayWriter::flush_impl_()
                      std::move([&sink = data_sinks_.at(i),
                                 data_ = chunk.data(),
                                 size = chunk.size(),
-                                &latch](std::string& err) -> bool {
+                                &latch,
+                                &all_successful](std::string& err) -> bool {
                          bool success = false;
                          try {
                              std::span data{
@@ -105,6 +108,9 @@ zarr::ZarrV2ArrayWriter::flush_impl_()
                                    std::string(exc.what());
                          }
 
+                         if (!success) {
+                             all_successful = false;
+                         }
                          latch.count_down();
                          return success;
                      })),
@@ -115,6 +121,11 @@ zarr::ZarrV2ArrayWriter::flush_impl_()
     // wait for all threads to finish
     latch.wait();
 
+    if (!all_successful) {
+        LOG_ERROR("Failed to write chunks");
+        return false;
+    }
+
     return true;
 }
 
diff --git a/src/streaming/zarrv3.array.writer.cpp b/src/streaming/zarrv3.array.writer.cpp
index e111fa3..9a77828 100644
--- a/src/streaming/zarrv3.array.writer.cpp
+++ b/src/streaming/zarrv3.array.writer.cpp
@@ -6,6 +6,7 @@
 #include <nlohmann/json.hpp>
 
 #include <algorithm> // std::fill
+#include <atomic>
 #include <latch>
 #include <stdexcept>
 
@@ -103,6 +104,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
 
     // write out chunks to shards
     auto write_table = is_finalizing_ || should_rollover_();
+    std::atomic<bool> all_successful = true;
     std::latch latch(n_shards);
     for (auto i = 0; i < n_shards; ++i) {
         const auto& chunks = chunk_in_shards.at(i);
@@ -116,6 +118,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                                        write_table,
                                        layer_offset,
                                        &latch,
+                                       &all_successful,
                                        this](std::string& err) {
             bool success = false;
 
@@ -146,10 +149,17 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                                     chunk_table.size() * sizeof(uint64_t) };
                     success = sink->write(*file_offset, data);
                 }
+                if (!success) {
+                    err = "Failed to write shard";
+                }
             } catch (const std::exception& exc) {
+                success = false;
                 err = "Failed to write chunk: " + std::string(exc.what());
             }
 
+            if (!success) {
+                all_successful = false;
+            }
             latch.count_down();
             return success;
         }),
@@ -159,6 +169,11 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
     // wait for all threads to finish
     latch.wait();
 
+    if (!all_successful) {
+        LOG_ERROR("Failed to write shards");
+        return false;
+    }
+
     // reset shard tables and file offsets
     if (write_table) {
         for (auto& table : shard_tables_) {
-- 
2.43.0


From 0659c9025d79f7cbbce4e4f91b79764beef4d2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:33 +0000
Subject: [PATCH 07/34] fix: report file system errors and do not hold data
 back in file sinks

FileSink ignored a failure to open, write or flush its file, so lost data
was acknowledged. Small writes (all array metadata) also stayed in the
stream's buffer until the stream was destroyed, so that they were lost when
the process died although the frames they describe had been written.
---
 src/streaming/file.sink.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/streaming/file.sink.cpp b/src/streaming/file.sink.cpp
index 312d90c..56d2cdf 100644
--- a/src/streaming/file.sink.cpp
+++ b/src/streaming/file.sink.cpp
@@ -1,3 +1,4 @@
+#include "macros.hh"
 #include "file.sink.hh"
 
 #include <filesystem>
@@ -5,8 +6,9 @@
 namespace fs = std::filesystem;
 
 zarr::FileSink::FileSink(std::string_view filename)
-: file_(filename.data(), std::ios::binary | std::ios::trunc)
+: file_(std::string(filename), std::ios::binary | std::ios::trunc)
 {
+    EXPECT(file_.is_open(), "Failed to open file '", filename, "'");
 }
 
 bool
@@ -19,12 +21,16 @@ zarr::FileSink::write(size_t offset, std::span<const std::byte> data)
 
     file_.seekp(offset);
     file_.write(reinterpret_cast<const char*>(data.data()), bytes_of_buf);
-    return true;
+
+    // hand the data over to the system now, so that it outlives this process
+    // and a failure is noticed
+    file_.flush();
+    return file_.good();
 }
 
 bool
 zarr::FileSink::flush_()
 {
     file_.flush();
-    return true;
+    return file_.good();
 }
-- 
2.43.0


From c4afc6f80d07171def4bdae78aa606e0e4bbd6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:33 +0000
Subject: [PATCH 08/34] fix: write any number of buffers at any offset in
 VectorizedFileWriter

The offset was truncated to 32 bits, so writes past 2 GiB failed or landed in
the wrong place, more than IOV_MAX buffers were refused, and a write that
the system completed only in part was not continued.
---
 src/streaming/vectorized.file.writer.cpp | 52 ++++++++++++++++++------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/src/streaming/vectorized.file.writer.cpp b/src/streaming/vectorized.file.writer.cpp
index 18b57f8..78245ea 100644
--- a/src/streaming/vectorized.file.writer.cpp
+++ b/src/streaming/vectorized.file.writer.cpp
@@ -1,6 +1,9 @@
 #include "vectorized.file.writer.hh"
 #include "macros.hh"
 
+#include <algorithm>
+#include <cerrno>
+#include <climits>
 #include <cstring>
 
 namespace {
@@ -183,20 +186,45 @@ zarr::VectorizedFileWriter::write_vectors(
         iov->iov_len = buffers[i].size();
     }
 
-    ssize_t total_bytes = 0;
-    for (const auto& buffer : buffers) {
-        total_bytes += static_cast<ssize_t>(buffer.size());
-    }
+    // a single call takes at most IOV_MAX buffers and may write less than it
+    // was given
+    size_t first = 0;
+    while (first < iovecs.size()) {
+        if (iovecs[first].iov_len == 0) {
+            ++first;
+            continue;
+        }
+
+        const auto n_iovecs =
+          std::min(iovecs.size() - first, static_cast<size_t>(IOV_MAX));
+        const ssize_t bytes_written = pwritev(fd_,
+                                              iovecs.data() + first,
+                                              static_cast<int>(n_iovecs),
+                                              static_cast<off_t>(offset));
 
-    ssize_t bytes_written = pwritev(fd_,
-                                    iovecs.data(),
-                                    static_cast<int>(iovecs.size()),
-                                    static_cast<int>(offset));
+        if (bytes_written < 0 && errno == EINTR) {
+            continue;
+        }
+        if (bytes_written <= 0) {
+            auto error = get_last_error_as_string();
+            LOG_ERROR("Failed to write file: ", error);
+            retval = false;
+            break;
+        }
 
-    if (bytes_written != total_bytes) {
-        auto error = get_last_error_as_string();
-        LOG_ERROR("Failed to write file: ", error);
-        retval = false;
+        // skip what was written
+        offset += bytes_written;
+        auto bytes_to_skip = static_cast<size_t>(bytes_written);
+        while (first < iovecs.size() && bytes_to_skip > 0) {
+            auto& iov = iovecs[first];
+            const auto n = std::min(bytes_to_skip, iov.iov_len);
+            iov.iov_base = static_cast<std::byte*>(iov.iov_base) + n;
+            iov.iov_len -= n;
+            bytes_to_skip -= n;
+            if (iov.iov_len == 0) {
+                ++first;
+            }
+        }
     }
 #endif
     return retval;
-- 
2.43.0


From af0da863a68ad56ad1097c4c6249bcc7dda1a3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 09/34] fix: accept compression settings without a compressor

ZarrCompressor_None with a settings structure passed validation, but was
then compressed with the codec "unrecognized codec", so every flush failed.
---
 src/streaming/zarr.stream.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 5f1eb9a..de97454 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -532,7 +532,9 @@ ZarrStream_s::commit_settings_(const struct ZarrStreamSettings_s* settings)
         };
     }
 
-    if (is_compressed_acquisition(settings)) {
+    // compression settings may explicitly ask for no compression
+    if (is_compressed_acquisition(settings) &&
+        settings->compression_settings->compressor != ZarrCompressor_None) {
         compression_settings_ = {
             .compressor = settings->compression_settings->compressor,
             .codec = settings->compression_settings->codec,
-- 
2.43.0


From cffcfd6f4129479faf0fa17f216d49dc3bb68155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 10/34] fix: reject null strings in S3 settings and dimensions

They were turned into string views, which crashes.
---
 src/streaming/zarr.stream.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index de97454..e43c462 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -34,6 +34,13 @@ is_compressed_acquisition(const struct ZarrStreamSettings_s* settings)
 [[nodiscard]] bool
 validate_s3_settings(const ZarrS3Settings* settings)
 {
+    if (settings->endpoint == nullptr || settings->bucket_name == nullptr ||
+        settings->access_key_id == nullptr ||
+        settings->secret_access_key == nullptr) {
+        LOG_ERROR("Null pointer in S3 settings");
+        return false;
+    }
+
     if (zarr::is_empty_string(settings->endpoint, "S3 endpoint is empty")) {
         return false;
     }
@@ -161,6 +168,11 @@ validate_dimension(const ZarrDimensionProperties* dimension,
                    ZarrVersion version,
                    bool is_append)
 {
+    if (dimension->name == nullptr) {
+        LOG_ERROR("Null pointer: dimension name");
+        return false;
+    }
+
     if (zarr::is_empty_string(dimension->name, "Dimension name is empty")) {
         return false;
     }
-- 
2.43.0


From 1407bd201d35c1ca753c6300da82ecb2055c9f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 11/34] fix: reject dimension names that are not valid UTF-8 up
 front

Writing the metadata failed on them after the existing store had already
been removed.
---
 src/streaming/zarr.stream.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index e43c462..b4763fd 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -177,6 +177,14 @@ validate_dimension(const ZarrDimensionProperties* dimension,
         return false;
     }
 
+    // the name must be representable in the JSON metadata
+    try {
+        (void)nlohmann::json(dimension->name).dump();
+    } catch (const nlohmann::json::exception& exc) {
+        LOG_ERROR("Invalid dimension name: ", exc.what());
+        return false;
+    }
+
     if (dimension->type >= ZarrDimensionTypeCount) {
         LOG_ERROR("Invalid dimension type: ", dimension->type);
         return false;
-- 
2.43.0


From 5bc3e9ea971c49b6fee3c286e25d61d996829f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 12/34] fix: validate the store path that will be used

The path was validated as given but used without surrounding blanks, so that
"dir/ " replaced the directory itself although only its parent was meant to
be required to exist.
---
 src/streaming/zarr.stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index b4763fd..a59dd34 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -226,7 +226,7 @@ validate_settings(const struct ZarrStreamSettings_s* settings)
         LOG_ERROR("Null pointer: store_path");
         return false;
     }
-    std::string_view store_path(settings->store_path);
+    const std::string store_path = zarr::trim(settings->store_path);
 
     // we require the store path (root of the dataset) to be nonempty
     if (store_path.empty()) {
-- 
2.43.0


From 7c8672e95b563fa8303980e115ddffec94c9ec24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 13/34] fix: store an empty object when the custom metadata is
 empty

With "" as custom metadata acquire.json was left empty, which is not JSON.
---
 src/streaming/zarr.stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index a59dd34..015f980 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -538,7 +538,8 @@ ZarrStream_s::commit_settings_(const struct ZarrStreamSettings_s* settings)
     store_path_ = zarr::trim(settings->store_path);
     if (settings->custom_metadata) {
         custom_metadata_ = zarr::trim(settings->custom_metadata);
-    } else {
+    }
+    if (custom_metadata_.empty()) {
         custom_metadata_ = "{}";
     }
 
-- 
2.43.0


From c208732cf4b37891470920e50e0a86d911856f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 14/34] fix: write valid JSON to the array attributes of Zarr
 v2 stores

0/.zattrs was created but never written, and an empty file is not JSON.
---
 src/streaming/zarr.stream.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 015f980..54097e4 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -743,6 +743,15 @@ ZarrStream_s::write_base_metadata_()
         metadata["multiscales"] = make_multiscale_metadata_();
 
         metadata_key = ".zattrs";
+
+        // the array at level 0 has no attributes of its own
+        const std::string no_attributes = "{}";
+        const auto& array_sink = metadata_sinks_.at("0/.zattrs");
+        if (!array_sink ||
+            !array_sink->write(0, std::as_bytes(std::span(no_attributes)))) {
+            set_error_("Error writing array attributes");
+            return false;
+        }
     } else {
         metadata["extensions"] = nlohmann::json::array();
         metadata["metadata_encoding"] =
-- 
2.43.0


From 6336e5a186c6d31541d7e6c7e79778d2d073af85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 15/34] fix: end the multiscale pyramid when nothing can be
 halved

Chunks of size 1 never shrink, so with them the levels went on forever and
creating the stream never returned.
---
 src/streaming/array.writer.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index d526bef..8921d21 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -73,7 +73,15 @@ zarr::downsample(const ArrayWriterConfig& config,
         }
     }
 
-    return true;
+    // stop when there is nothing left to halve
+    for (auto i = 0; i < config.dimensions->ndims(); ++i) {
+        const auto& dim = downsampled_config.dimensions->at(i);
+        if (dim.type != ZarrDimensionType_Channel && dim.array_size_px > 1) {
+            return true;
+        }
+    }
+
+    return false;
 }
 
 /// Writer
-- 
2.43.0


From 85f0852ce87404ff07e97e5557555e697465ec2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 16/34] fix: compute sizes and frame positions without 32-bit
 overflow

Products of dimension sizes, sums used to round up and the number of frames
written were kept in 32 bits: geometries with large append chunks or shards
or large inner dimensions, and long streams, were laid out wrong.
---
 src/streaming/array.writer.cpp        | 7 ++++---
 src/streaming/array.writer.hh         | 2 +-
 src/streaming/zarr.common.cpp         | 6 +++---
 src/streaming/zarr.dimension.cpp      | 2 +-
 src/streaming/zarrv3.array.writer.cpp | 4 ++--
 5 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index 8921d21..b3ececb 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -27,7 +27,7 @@ zarr::downsample(const ArrayWriterConfig& config,
             downsampled_dims[i] = dim;
         } else {
             const uint32_t array_size_px =
-              (dim.array_size_px + (dim.array_size_px % 2)) / 2;
+              dim.array_size_px / 2 + dim.array_size_px % 2;
 
             const uint32_t chunk_size_px =
               dim.array_size_px == 0
@@ -36,7 +36,7 @@ zarr::downsample(const ArrayWriterConfig& config,
 
             CHECK(chunk_size_px);
             const uint32_t n_chunks =
-              (array_size_px + chunk_size_px - 1) / chunk_size_px;
+              array_size_px / chunk_size_px + (array_size_px % chunk_size_px != 0);
 
             const uint32_t shard_size_chunks =
               dim.array_size_px == 0
@@ -304,7 +304,8 @@ zarr::ArrayWriter::write_frame_to_chunks_(std::span<const std::byte> data)
                       std::min(frame_col + tile_cols, frame_cols) - frame_col;
 
                     const auto region_start = static_cast<long long>(
-                      bytes_per_px * (frame_row * frame_cols + frame_col));
+                      bytes_per_px *
+                      (static_cast<size_t>(frame_row) * frame_cols + frame_col));
                     const auto nbytes =
                       static_cast<long long>(region_width * bytes_per_px);
                     const auto region_stop = region_start + nbytes;
diff --git a/src/streaming/array.writer.hh b/src/streaming/array.writer.hh
index 076b114..a05f8f8 100644
--- a/src/streaming/array.writer.hh
+++ b/src/streaming/array.writer.hh
@@ -72,7 +72,7 @@ class ArrayWriter
 
     /// Bookkeeping
     uint64_t bytes_to_flush_;
-    uint32_t frames_written_;
+    uint64_t frames_written_;
     uint32_t append_chunk_index_;
     bool is_finalizing_;
 
diff --git a/src/streaming/zarr.common.cpp b/src/streaming/zarr.common.cpp
index f70fde0..cb2e476 100644
--- a/src/streaming/zarr.common.cpp
+++ b/src/streaming/zarr.common.cpp
@@ -76,8 +76,8 @@ zarr::chunks_along_dimension(const ZarrDimension& dimension)
 {
     EXPECT(dimension.chunk_size_px > 0, "Invalid chunk size.");
 
-    return (dimension.array_size_px + dimension.chunk_size_px - 1) /
-           dimension.chunk_size_px;
+    return dimension.array_size_px / dimension.chunk_size_px +
+           (dimension.array_size_px % dimension.chunk_size_px != 0);
 }
 
 uint32_t
@@ -89,5 +89,5 @@ zarr::shards_along_dimension(const ZarrDimension& dimension)
 
     const auto shard_size = dimension.shard_size_chunks;
     const auto n_chunks = chunks_along_dimension(dimension);
-    return (n_chunks + shard_size - 1) / shard_size;
+    return n_chunks / shard_size + (n_chunks % shard_size != 0);
 }
diff --git a/src/streaming/zarr.dimension.cpp b/src/streaming/zarr.dimension.cpp
index 4629f70..e80c9df 100644
--- a/src/streaming/zarr.dimension.cpp
+++ b/src/streaming/zarr.dimension.cpp
@@ -49,7 +49,7 @@ ArrayDimensions::chunk_lattice_index(uint64_t frame_id,
 
     // the first dimension is a special case
     if (dim_index == 0) {
-        auto divisor = dims_.front().chunk_size_px;
+        uint64_t divisor = dims_.front().chunk_size_px;
         for (auto i = 1; i < ndims() - 2; ++i) {
             const auto& dim = dims_[i];
             divisor *= dim.array_size_px;
diff --git a/src/streaming/zarrv3.array.writer.cpp b/src/streaming/zarrv3.array.writer.cpp
index 9a77828..eb26aec 100644
--- a/src/streaming/zarrv3.array.writer.cpp
+++ b/src/streaming/zarrv3.array.writer.cpp
@@ -273,8 +273,8 @@ zarr::ZarrV3ArrayWriter::should_rollover_() const
 {
     const auto& dims = config_.dimensions;
     const auto& append_dim = dims->final_dim();
-    size_t frames_before_flush =
-      append_dim.chunk_size_px * append_dim.shard_size_chunks;
+    size_t frames_before_flush = append_dim.chunk_size_px;
+    frames_before_flush *= append_dim.shard_size_chunks;
     for (auto i = 1; i < dims->ndims() - 2; ++i) {
         frames_before_flush *= dims->at(i).array_size_px;
     }
-- 
2.43.0


From 4a3a63008286a52d2da201fa142f6cb7c0979729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 17/34] fix: release everything when destroying a stream fails

A stream that could not be finalized was leaked with its threads, file
descriptors and connections, later arrays were not even tried, and an
exception from a sink escaped through the C API.
---
 src/streaming/acquire.zarr.cpp |  8 ++++++--
 src/streaming/array.writer.cpp |  9 +++++++--
 src/streaming/zarr.stream.cpp  | 22 +++++++++++++++++-----
 3 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/streaming/acquire.zarr.cpp b/src/streaming/acquire.zarr.cpp
index 3e9b183..de7585d 100644
--- a/src/streaming/acquire.zarr.cpp
+++ b/src/streaming/acquire.zarr.cpp
@@ -151,8 +151,12 @@ extern "C"
 
     void ZarrStream_destroy(struct ZarrStream_s* stream)
     {
-        if (!finalize_stream(stream)) {
-            return;
+        try {
+            if (!finalize_stream(stream)) {
+                LOG_ERROR("Failed to finalize Zarr stream");
+            }
+        } catch (const std::exception& e) {
+            LOG_ERROR("Error destroying Zarr stream: ", e.what());
         }
 
         delete stream;
diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index b3ececb..62f3d8e 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -480,8 +480,13 @@ zarr::finalize_array(std::unique_ptr<ArrayWriter>&& writer)
         return false;
     }
 
-    if (!finalize_sink(std::move(writer->metadata_sink_))) {
-        LOG_ERROR("Failed to finalize metadata sink");
+    try {
+        if (!finalize_sink(std::move(writer->metadata_sink_))) {
+            LOG_ERROR("Failed to finalize metadata sink");
+            return false;
+        }
+    } catch (const std::exception& exc) {
+        LOG_ERROR("Failed to finalize metadata sink: ", exc.what());
         return false;
     }
 
diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 54097e4..e626fe2 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -1023,16 +1023,27 @@ finalize_stream(struct ZarrStream_s* stream)
         return true;
     }
 
+    // carry on after a failure: everything else must still be written, and
+    // all resources released
+    bool success = true;
+
     if (!stream->write_group_metadata_()) {
         LOG_ERROR("Error finalizing Zarr stream: ", stream->error_);
-        return false;
+        success = false;
     }
 
     for (auto& [sink_name, sink] : stream->metadata_sinks_) {
-        if (!finalize_sink(std::move(sink))) {
+        bool finalized = false;
+        try {
+            finalized = finalize_sink(std::move(sink));
+        } catch (const std::exception& exc) {
+            LOG_ERROR("Error finalizing metadata sink: ", exc.what());
+        }
+
+        if (!finalized) {
             LOG_ERROR("Error finalizing Zarr stream. Failed to write ",
                       sink_name);
-            return false;
+            success = false;
         }
     }
     stream->metadata_sinks_.clear();
@@ -1041,7 +1052,7 @@ finalize_stream(struct ZarrStream_s* stream)
         if (!finalize_array(std::move(stream->writers_[i]))) {
             LOG_ERROR("Error finalizing Zarr stream. Failed to write array ",
                       i);
-            return false;
+            success = false;
         }
     }
     stream->writers_.clear(); // flush before shutting down thread pool
@@ -1050,8 +1061,9 @@ finalize_stream(struct ZarrStream_s* stream)
     for (auto& [_, frame] : stream->scaled_frames_) {
         if (frame) {
             delete[] *frame;
+            frame.reset();
         }
     }
 
-    return true;
+    return success;
 }
-- 
2.43.0


From 2e99c9fa20216a3cf783cae272d9353d57ab150e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 18/34] fix: guard the error message of a stream

Jobs set it from the threads of the pool while the caller's thread reads it
in append.
---
 src/streaming/zarr.stream.cpp | 25 +++++++++++++++++--------
 src/streaming/zarr.stream.hh  |  5 +++++
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index e626fe2..477bae3 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -435,10 +435,10 @@ ZarrStream::ZarrStream_s(struct ZarrStreamSettings_s* settings)
       zarr::bytes_of_frame(*dimensions_, static_cast<ZarrDataType>(dtype_)));
 
     // create the data store
-    EXPECT(create_store_(), error_);
+    EXPECT(create_store_(), get_error_());
 
     // allocate writers
-    EXPECT(create_writers_(), error_);
+    EXPECT(create_writers_(), get_error_());
 
     // allocate multiscale frame placeholders
     if (multiscale_) {
@@ -446,22 +446,23 @@ ZarrStream::ZarrStream_s(struct ZarrStreamSettings_s* settings)
     }
 
     // allocate metadata sinks
-    EXPECT(create_metadata_sinks_(), error_);
+    EXPECT(create_metadata_sinks_(), get_error_());
 
     // write base metadata
-    EXPECT(write_base_metadata_(), error_);
+    EXPECT(write_base_metadata_(), get_error_());
 
     // write group metadata
-    EXPECT(write_group_metadata_(), error_);
+    EXPECT(write_group_metadata_(), get_error_());
 
     // write external metadata
-    EXPECT(write_external_metadata_(), error_);
+    EXPECT(write_external_metadata_(), get_error_());
 }
 
 size_t
 ZarrStream::append(const void* data_, size_t nbytes)
 {
-    EXPECT(error_.empty(), "Cannot append data: ", error_.c_str());
+    const auto error = get_error_();
+    EXPECT(error.empty(), "Cannot append data: ", error);
 
     if (0 == nbytes) {
         return 0;
@@ -583,9 +584,17 @@ ZarrStream_s::commit_settings_(const struct ZarrStreamSettings_s* settings)
 void
 ZarrStream_s::set_error_(const std::string& msg)
 {
+    std::scoped_lock lock(error_mutex_);
     error_ = msg;
 }
 
+std::string
+ZarrStream_s::get_error_() const
+{
+    std::scoped_lock lock(error_mutex_);
+    return error_;
+}
+
 bool
 ZarrStream_s::create_store_()
 {
@@ -1028,7 +1037,7 @@ finalize_stream(struct ZarrStream_s* stream)
     bool success = true;
 
     if (!stream->write_group_metadata_()) {
-        LOG_ERROR("Error finalizing Zarr stream: ", stream->error_);
+        LOG_ERROR("Error finalizing Zarr stream: ", stream->get_error_());
         success = false;
     }
 
diff --git a/src/streaming/zarr.stream.hh b/src/streaming/zarr.stream.hh
index d359391..bc66dc5 100644
--- a/src/streaming/zarr.stream.hh
+++ b/src/streaming/zarr.stream.hh
@@ -10,6 +10,7 @@
 
 #include <cstddef> // size_t
 #include <memory>  // unique_ptr
+#include <mutex>
 #include <optional>
 
 struct ZarrStream_s
@@ -40,6 +41,7 @@ struct ZarrStream_s
     };
 
     std::string error_; // error message. If nonempty, an error occurred.
+    mutable std::mutex error_mutex_; // jobs report errors from their threads
 
     ZarrVersion version_;
     std::string store_path_;
@@ -77,6 +79,9 @@ struct ZarrStream_s
      */
     void set_error_(const std::string& msg);
 
+    /** @brief Get the error message. */
+    std::string get_error_() const;
+
     /** @brief Create the data store. */
     [[nodiscard]] bool create_store_();
 
-- 
2.43.0


From 875975c1404c3a34ab3d07bb96f90f3e7b9c666d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 19/34] fix: record the failure of a job before letting its
 waiter go

The jobs that create directories and files counted down the latch before
they updated the flag, which lives on the stack of the function waiting for
the latch: failures could be missed and freed memory written.
---
 src/streaming/sink.creator.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/streaming/sink.creator.cpp b/src/streaming/sink.creator.cpp
index d1343c2..c74d2f9 100644
--- a/src/streaming/sink.creator.cpp
+++ b/src/streaming/sink.creator.cpp
@@ -268,8 +268,8 @@ zarr::SinkCreator::make_dirs_(std::queue<std::string>& dir_paths)
                  [dirname, &latch, &all_successful](std::string& err) -> bool {
                      if (dirname.empty()) {
                          err = "Directory name must not be empty.";
-                         latch.count_down();
                          all_successful.fetch_and(0);
+                         latch.count_down();
                          return false;
                      }
 
@@ -279,8 +279,8 @@ zarr::SinkCreator::make_dirs_(std::queue<std::string>& dir_paths)
                      } else if (fs::exists(dirname)) {
                          err =
                            "'" + dirname + "' exists but is not a directory";
-                         latch.count_down();
                          all_successful.fetch_and(0);
+                         latch.count_down();
                          return false;
                      }
 
@@ -289,8 +289,8 @@ zarr::SinkCreator::make_dirs_(std::queue<std::string>& dir_paths)
                          if (!fs::create_directories(dirname, ec)) {
                              err = "Failed to create directory '" + dirname +
                                    "': " + ec.message();
-                             latch.count_down();
                              all_successful.fetch_and(0);
+                             latch.count_down();
                              return false;
                          }
                      }
@@ -344,8 +344,8 @@ zarr::SinkCreator::make_files_(std::queue<std::string>& file_paths,
                                "': " + exc.what();
                      }
 
-                     latch.count_down();
                      all_successful.fetch_and((char)success);
+                     latch.count_down();
 
                      return success;
                  }),
@@ -395,8 +395,8 @@ zarr::SinkCreator::make_files_(
                                "': " + exc.what();
                      }
 
-                     latch.count_down();
                      all_successful.fetch_and((char)success);
+                     latch.count_down();
 
                      return success;
                  }),
-- 
2.43.0


From f491c06f8d93edd5828c5bff665b259d197795cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 20/34] fix: do not throw from directory creation jobs

is_directory and exists throw when the path cannot be examined, and nothing
catches an exception on a thread of the pool.
---
 src/streaming/sink.creator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/streaming/sink.creator.cpp b/src/streaming/sink.creator.cpp
index c74d2f9..4adc104 100644
--- a/src/streaming/sink.creator.cpp
+++ b/src/streaming/sink.creator.cpp
@@ -273,10 +273,11 @@ zarr::SinkCreator::make_dirs_(std::queue<std::string>& dir_paths)
                          return false;
                      }
 
-                     if (fs::is_directory(dirname)) {
+                     std::error_code status_ec;
+                     if (fs::is_directory(dirname, status_ec)) {
                          latch.count_down();
                          return true;
-                     } else if (fs::exists(dirname)) {
+                     } else if (fs::exists(dirname, status_ec)) {
                          err =
                            "'" + dirname + "' exists but is not a directory";
                          all_successful.fetch_and(0);
-- 
2.43.0


From 5a4c7eca5be72bfc6bbcd25622a342afc32b7fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 21/34] fix: open sinks for files in the working directory

A relative path without a directory has an empty parent path, which can
neither be found nor created.
---
 src/streaming/sink.creator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/streaming/sink.creator.cpp b/src/streaming/sink.creator.cpp
index 4adc104..63644b3 100644
--- a/src/streaming/sink.creator.cpp
+++ b/src/streaming/sink.creator.cpp
@@ -33,7 +33,7 @@ zarr::SinkCreator::make_sink(std::string_view file_path)
 
     fs::path parent_path = path.parent_path();
 
-    if (!fs::is_directory(parent_path)) {
+    if (!parent_path.empty() && !fs::is_directory(parent_path)) {
         std::error_code ec;
         if (!fs::create_directories(parent_path, ec)) {
             LOG_ERROR("Failed to create directory '", parent_path, "': ",
-- 
2.43.0


From e756b1ee99c69fcaaccae2736a4449ede3e0badf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 22/34] fix: return S3 connections to the pool when a request
 throws

Every such failure took a connection out of the pool for good; once it was
empty all later requests waited forever. An upload that could not be started
was also taken for a running one, with an empty id.
---
 src/streaming/s3.sink.cpp      | 23 +++++++++++++++++------
 src/streaming/sink.creator.cpp |  7 ++++++-
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/streaming/s3.sink.cpp b/src/streaming/s3.sink.cpp
index 81150ab..f8ec576 100644
--- a/src/streaming/s3.sink.cpp
+++ b/src/streaming/s3.sink.cpp
@@ -128,13 +128,19 @@ zarr::S3Sink::is_multipart_upload_() const
 void
 zarr::S3Sink::create_multipart_upload_()
 {
-    multipart_upload_ = MultiPartUpload{};
-
     auto connection = connection_pool_->get_connection();
-    multipart_upload_->upload_id =
-      connection->create_multipart_object(bucket_name_, object_key_);
+
+    MultiPartUpload upload;
+    try {
+        upload.upload_id =
+          connection->create_multipart_object(bucket_name_, object_key_);
+    } catch (const std::exception&) {
+        connection_pool_->return_connection(std::move(connection));
+        throw;
+    }
 
     connection_pool_->return_connection(std::move(connection));
+    multipart_upload_ = std::move(upload);
 }
 
 bool
@@ -194,8 +200,13 @@ zarr::S3Sink::finalize_multipart_upload_()
     const auto& upload_id = multipart_upload_->upload_id;
     const auto& parts = multipart_upload_->parts;
 
-    bool retval = connection->complete_multipart_object(
-      bucket_name_, object_key_, upload_id, parts);
+    bool retval = false;
+    try {
+        retval = connection->complete_multipart_object(
+          bucket_name_, object_key_, upload_id, parts);
+    } catch (const std::exception& exc) {
+        LOG_ERROR("Error: ", exc.what());
+    }
 
     connection_pool_->return_connection(std::move(connection));
 
diff --git a/src/streaming/sink.creator.cpp b/src/streaming/sink.creator.cpp
index 63644b3..0451110 100644
--- a/src/streaming/sink.creator.cpp
+++ b/src/streaming/sink.creator.cpp
@@ -416,7 +416,12 @@ zarr::SinkCreator::bucket_exists_(std::string_view bucket_name)
     EXPECT(connection_pool_, "S3 connection pool not provided.");
 
     auto conn = connection_pool_->get_connection();
-    bool bucket_exists = conn->bucket_exists(bucket_name);
+    bool bucket_exists = false;
+    try {
+        bucket_exists = conn->bucket_exists(bucket_name);
+    } catch (const std::exception& exc) {
+        LOG_ERROR("Failed to look up bucket: ", exc.what());
+    }
 
     connection_pool_->return_connection(std::move(conn));
 
-- 
2.43.0


From fe757beea9c92eed1770345c40c1275ea2d89f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 23/34] fix: do not complete S3 objects that lack a part

A part that could not be uploaded was counted as flushed, so that the upload
went on and was completed without it.
---
 src/streaming/s3.sink.cpp | 22 ++++++++++++++++++++--
 src/streaming/s3.sink.hh  |  1 +
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/streaming/s3.sink.cpp b/src/streaming/s3.sink.cpp
index f8ec576..c09f637 100644
--- a/src/streaming/s3.sink.cpp
+++ b/src/streaming/s3.sink.cpp
@@ -22,6 +22,13 @@ zarr::S3Sink::S3Sink(std::string_view bucket_name,
 bool
 zarr::S3Sink::flush_()
 {
+    if (has_failed_) {
+        LOG_ERROR("Cannot complete object ",
+                  object_key_,
+                  ": some of its data could not be uploaded");
+        return false;
+    }
+
     if (is_multipart_upload_()) {
         const auto& parts = multipart_upload_->parts;
         if (nbytes_buffered_ > 0 && !flush_part_()) {
@@ -56,6 +63,13 @@ zarr::S3Sink::write(size_t offset, std::span<const std::byte> data)
         return true;
     }
 
+    if (has_failed_) {
+        LOG_ERROR("Cannot write to object ",
+                  object_key_,
+                  ": some of its data could not be uploaded");
+        return false;
+    }
+
     if (offset < nbytes_flushed_) {
         LOG_ERROR("Cannot write data at offset ",
                   offset,
@@ -150,6 +164,8 @@ zarr::S3Sink::flush_part_()
         return false;
     }
 
+    // data lost here must not be missing from a completed object
+    has_failed_ = true;
     if (!is_multipart_upload_()) {
         create_multipart_upload_();
     }
@@ -180,14 +196,16 @@ zarr::S3Sink::flush_part_()
         parts.push_back(part);
 
         retval = true;
+
+        nbytes_flushed_ += nbytes_buffered_;
+        nbytes_buffered_ = 0;
     } catch (const std::exception& exc) {
         LOG_ERROR("Error: ", exc.what());
     }
 
     // cleanup
     connection_pool_->return_connection(std::move(connection));
-    nbytes_flushed_ += nbytes_buffered_;
-    nbytes_buffered_ = 0;
+    has_failed_ = !retval;
 
     return retval;
 }
diff --git a/src/streaming/s3.sink.hh b/src/streaming/s3.sink.hh
index 49d2219..fa36435 100644
--- a/src/streaming/s3.sink.hh
+++ b/src/streaming/s3.sink.hh
@@ -38,6 +38,7 @@ class S3Sink : public Sink
     std::array<std::byte, max_part_size_> part_buffer_;
     size_t nbytes_buffered_{ 0 };
     size_t nbytes_flushed_{ 0 };
+    bool has_failed_{ false };
 
     std::optional<MultiPartUpload> multipart_upload_;
 
-- 
2.43.0


From aebeba52b6dc43d09d7c111aff2c0c2028b4ce99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 24/34] fix: report chunk buffers that cannot be allocated

make_buffers_ was noexcept, so running out of memory (or a geometry whose
chunks cannot fit) ended the process instead of failing the append.
---
 src/streaming/array.writer.cpp | 2 +-
 src/streaming/array.writer.hh  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index 62f3d8e..4a3cd6f 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -236,7 +236,7 @@ zarr::ArrayWriter::make_metadata_sink_()
 }
 
 void
-zarr::ArrayWriter::make_buffers_() noexcept
+zarr::ArrayWriter::make_buffers_()
 {
     LOG_DEBUG("Creating chunk buffers");
 
diff --git a/src/streaming/array.writer.hh b/src/streaming/array.writer.hh
index a05f8f8..29ada9b 100644
--- a/src/streaming/array.writer.hh
+++ b/src/streaming/array.writer.hh
@@ -84,7 +84,7 @@ class ArrayWriter
 
     [[nodiscard]] bool make_data_sinks_();
     [[nodiscard]] bool make_metadata_sink_();
-    void make_buffers_() noexcept;
+    void make_buffers_();
 
     bool should_flush_() const;
     virtual bool should_rollover_() const = 0;
-- 
2.43.0


From c5b4d49bc03eee7c2c7249075967292650f7a070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 25/34] fix: survive the failure to start a thread

Running threads were destroyed without being joined, which ends the process,
when the system refused to start another one.
---
 src/streaming/thread.pool.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/streaming/thread.pool.cpp b/src/streaming/thread.pool.cpp
index aede31d..1744f02 100644
--- a/src/streaming/thread.pool.cpp
+++ b/src/streaming/thread.pool.cpp
@@ -1,6 +1,7 @@
 #include "thread.pool.hh"
 
 #include <algorithm>
+#include <system_error>
 
 zarr::ThreadPool::ThreadPool(unsigned int n_threads, ErrorCallback&& err)
   : error_handler_{ std::move(err) }
@@ -9,7 +10,14 @@ zarr::ThreadPool::ThreadPool(unsigned int n_threads, ErrorCallback&& err)
     n_threads = std::clamp(n_threads, 1u, max_threads);
 
     for (auto i = 0; i < n_threads; ++i) {
-        threads_.emplace_back([this] { process_tasks_(); });
+        try {
+            threads_.emplace_back([this] { process_tasks_(); });
+        } catch (const std::system_error&) {
+            if (threads_.empty()) {
+                throw;
+            }
+            break; // make do with the threads there are
+        }
     }
 }
 
-- 
2.43.0


From 97df6bb86b61f3806cc65b4e40e9c2fdae5b95dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 26/34] fix: make the log level safe to change while threads
 log

It was a plain variable written by one thread and read by others.
---
 src/logger/logger.cpp | 2 +-
 src/logger/logger.hh  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/logger/logger.cpp b/src/logger/logger.cpp
index 4f7b291..0569d37 100644
--- a/src/logger/logger.cpp
+++ b/src/logger/logger.cpp
@@ -4,7 +4,7 @@
 #include <string>
 #include <thread>
 
-LogLevel Logger::current_level_ = LogLevel_Info;
+std::atomic<LogLevel> Logger::current_level_ = LogLevel_Info;
 std::mutex Logger::log_mutex_{};
 
 void
diff --git a/src/logger/logger.hh b/src/logger/logger.hh
index 4efaaf0..33d9546 100644
--- a/src/logger/logger.hh
+++ b/src/logger/logger.hh
@@ -1,5 +1,6 @@
 #include "logger.types.h"
 
+#include <atomic>
 #include <filesystem>
 #include <iostream>
 #include <mutex>
@@ -61,7 +62,7 @@ class Logger
     }
 
   private:
-    static LogLevel current_level_;
+    static std::atomic<LogLevel> current_level_;
     static std::mutex log_mutex_;
 
     static void format_arg_(std::ostream& ss) {}; // base case
-- 
2.43.0


From a02e86a1a23a828b0842619fa287ac21ef384d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 27/34] fix: keep buffered data when an S3 sink is written out
 of order

The amount of buffered data was reset to the offset of each write, which
dropped what had been buffered behind it, uploaded uninitialised bytes for a
gap and overran the buffer when the gap was larger than a part.
---
 src/streaming/s3.sink.cpp | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/streaming/s3.sink.cpp b/src/streaming/s3.sink.cpp
index c09f637..4e8154d 100644
--- a/src/streaming/s3.sink.cpp
+++ b/src/streaming/s3.sink.cpp
@@ -77,25 +77,44 @@ zarr::S3Sink::write(size_t offset, std::span<const std::byte> data)
                   nbytes_flushed_);
         return false;
     }
-    nbytes_buffered_ = offset - nbytes_flushed_;
+
+    // position of the data in the part buffer
+    size_t position = offset - nbytes_flushed_;
+    if (position > part_buffer_.size()) {
+        LOG_ERROR("Cannot write data at offset ",
+                  offset,
+                  ", too far beyond ",
+                  nbytes_flushed_ + nbytes_buffered_);
+        return false;
+    }
+
+    // any gap left by the caller reads as zeros
+    if (position > nbytes_buffered_) {
+        std::fill(part_buffer_.begin() + nbytes_buffered_,
+                  part_buffer_.begin() + position,
+                  std::byte{ 0 });
+    }
 
     size_t bytes_of_data = data.size();
     const std::byte* data_ptr = data.data();
     while (bytes_of_data > 0) {
         const auto bytes_to_write =
-          std::min(bytes_of_data, part_buffer_.size() - nbytes_buffered_);
+          std::min(bytes_of_data, part_buffer_.size() - position);
 
         if (bytes_to_write) {
-            std::copy_n(data_ptr,
-                        bytes_to_write,
-                        part_buffer_.begin() + nbytes_buffered_);
-            nbytes_buffered_ += bytes_to_write;
+            std::copy_n(
+              data_ptr, bytes_to_write, part_buffer_.begin() + position);
+            position += bytes_to_write;
             data_ptr += bytes_to_write;
             bytes_of_data -= bytes_to_write;
         }
+        nbytes_buffered_ = std::max(nbytes_buffered_, position);
 
-        if (nbytes_buffered_ == part_buffer_.size() && !flush_part_()) {
-            return false;
+        if (nbytes_buffered_ == part_buffer_.size()) {
+            if (!flush_part_()) {
+                return false;
+            }
+            position = 0;
         }
     }
 
-- 
2.43.0


From 7bfa14b64236456ec03a11ae768897c326d86d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 28/34] fix: refuse enumerators which are negative as ints

---
 src/streaming/zarr.stream.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 477bae3..e48482f 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -31,6 +31,14 @@ is_compressed_acquisition(const struct ZarrStreamSettings_s* settings)
     return nullptr != settings->compression_settings;
 }
 
+// callers in C can pass any value, including ones which are negative as ints
+template<typename E>
+[[nodiscard]] bool
+is_enumerator(E value, E count)
+{
+    return static_cast<uint32_t>(value) < static_cast<uint32_t>(count);
+}
+
 [[nodiscard]] bool
 validate_s3_settings(const ZarrS3Settings* settings)
 {
@@ -99,12 +107,12 @@ validate_filesystem_store_path(std::string_view data_root)
 [[nodiscard]] bool
 validate_compression_settings(const ZarrCompressionSettings* settings)
 {
-    if (settings->compressor >= ZarrCompressorCount) {
+    if (!is_enumerator(settings->compressor, ZarrCompressorCount)) {
         LOG_ERROR("Invalid compressor: ", settings->compressor);
         return false;
     }
 
-    if (settings->codec >= ZarrCompressionCodecCount) {
+    if (!is_enumerator(settings->codec, ZarrCompressionCodecCount)) {
         LOG_ERROR("Invalid compression codec: ", settings->codec);
         return false;
     }
@@ -185,7 +193,7 @@ validate_dimension(const ZarrDimensionProperties* dimension,
         return false;
     }
 
-    if (dimension->type >= ZarrDimensionTypeCount) {
+    if (!is_enumerator(dimension->type, ZarrDimensionTypeCount)) {
         LOG_ERROR("Invalid dimension type: ", dimension->type);
         return false;
     }
@@ -241,7 +249,7 @@ validate_settings(const struct ZarrStreamSettings_s* settings)
         return false;
     }
 
-    if (settings->data_type >= ZarrDataTypeCount) {
+    if (!is_enumerator(settings->data_type, ZarrDataTypeCount)) {
         LOG_ERROR("Invalid data type: ", settings->data_type);
         return false;
     }
-- 
2.43.0


From 9a34d46a48ebe614340851d1a8a5e2c4929442c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:34 +0000
Subject: [PATCH 29/34] fix: do not write to shards that could not be opened

---
 src/streaming/zarrv3.array.writer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/streaming/zarrv3.array.writer.cpp b/src/streaming/zarrv3.array.writer.cpp
index eb26aec..ca91f05 100644
--- a/src/streaming/zarrv3.array.writer.cpp
+++ b/src/streaming/zarrv3.array.writer.cpp
@@ -123,6 +123,9 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
             bool success = false;
 
             try {
+                // may be missing if it could not be created or completed
+                EXPECT(sink, "Shard is not open");
+
                 success = true;
                 for (const auto& chunk_idx : chunks) {
                     auto& chunk = chunk_buffers_.at(chunk_idx);
-- 
2.43.0


From 0ed0c39eed160d80d92f9392bfbb8bcd4635bdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 30/34] fix: leave nothing behind when a flush fails

After a failed flush, the old (possibly compressed) buffers were written again
as another row of chunks when finalizing, a sink that had failed was retried
with an empty shard table, later rows took the place of the failed one, and
the pyramid averaged the same frame into two frames.
---
 src/streaming/array.writer.cpp        | 60 +++++++++++++++++++++------
 src/streaming/zarr.stream.cpp         |  9 ++--
 src/streaming/zarrv3.array.writer.cpp | 10 ++---
 3 files changed, 57 insertions(+), 22 deletions(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index 4a3cd6f..1b8e586 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -417,42 +417,76 @@ zarr::ArrayWriter::flush_()
         return;
     }
 
+    // A failure must not leave anything behind that could end up in the wrong
+    // place later: buffers, sinks and position are always moved on.
+    bool success = true;
+    const auto attempt = [&success](const std::function<bool()>& step) {
+        try {
+            success = step() && success;
+        } catch (const std::exception& exc) {
+            LOG_ERROR("Failed to flush: ", exc.what());
+            success = false;
+        }
+    };
+
     // compress buffers and write out; sinks still open when finalizing must be
     // completed even if there is nothing left to write to them
+    const auto should_rollover = should_rollover_() || is_finalizing_;
     if (bytes_to_flush_ > 0) {
-        compress_buffers_();
+        attempt([this] {
+            compress_buffers_();
+            return true;
+        });
+
+        if (!success) {
+            bytes_to_flush_ = 0; // nothing that could be written
+        }
     }
     if (bytes_to_flush_ > 0 || !data_sinks_.empty()) {
-        CHECK(flush_impl_());
+        attempt([this] { return flush_impl_(); });
     }
 
-    const auto should_rollover = should_rollover_() || is_finalizing_;
-    if (should_rollover && !data_sinks_.empty()) {
-        rollover_();
+    if (should_rollover) {
+        attempt([this] {
+            rollover_();
+            return true;
+        });
     }
 
-    if (should_rollover) {
-        CHECK(write_array_metadata_());
+    if (success && should_rollover) {
+        attempt([this] { return write_array_metadata_(); });
     }
 
+    // reset state
+    bytes_to_flush_ = 0;
+
     // reset buffers
     if (!is_finalizing_) {
         make_buffers_();
     }
 
-    // reset state
-    bytes_to_flush_ = 0;
+    CHECK(success);
 }
 
 void
 zarr::ArrayWriter::close_sinks_()
 {
+    std::string failed;
     for (auto i = 0; i < data_sinks_.size(); ++i) {
-        EXPECT(finalize_sink(std::move(data_sinks_[i])),
-               "Failed to finalize sink ",
-               i);
+        bool success = false;
+        try {
+            success = finalize_sink(std::move(data_sinks_[i]));
+        } catch (const std::exception& exc) {
+            LOG_ERROR(exc.what());
+        }
+
+        if (!success) {
+            failed += " " + std::to_string(i);
+        }
     }
     data_sinks_.clear();
+
+    EXPECT(failed.empty(), "Failed to finalize sinks", failed);
 }
 
 void
@@ -460,8 +494,8 @@ zarr::ArrayWriter::rollover_()
 {
     LOG_DEBUG("Rolling over");
 
-    close_sinks_();
     ++append_chunk_index_;
+    close_sinks_();
 }
 
 bool
diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index e48482f..965e51a 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -1012,16 +1012,17 @@ ZarrStream_s::write_multiscale_frames_(const std::byte* data,
 
         if (scaled_frames_[i]) {
             average2(dst, bytes_of_data, *scaled_frames_[i], bytes_of_data);
+
+            // clean up this LOD
+            delete[] *scaled_frames_[i];
+            scaled_frames_[i].reset();
+
             std::span frame_data{ reinterpret_cast<const std::byte*>(dst),
                                   bytes_of_data };
             EXPECT(writers_[i]->write_frame(frame_data),
                    "Failed to write frame to writer %zu",
                    i);
 
-            // clean up this LOD
-            delete[] *scaled_frames_[i];
-            scaled_frames_[i].reset();
-
             // set up for next iteration
             last_written = std::move(scaled);
             data = dst;
diff --git a/src/streaming/zarrv3.array.writer.cpp b/src/streaming/zarrv3.array.writer.cpp
index ca91f05..097e9cd 100644
--- a/src/streaming/zarrv3.array.writer.cpp
+++ b/src/streaming/zarrv3.array.writer.cpp
@@ -172,11 +172,6 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
     // wait for all threads to finish
     latch.wait();
 
-    if (!all_successful) {
-        LOG_ERROR("Failed to write shards");
-        return false;
-    }
-
     // reset shard tables and file offsets
     if (write_table) {
         for (auto& table : shard_tables_) {
@@ -187,6 +182,11 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
         std::fill(shard_file_offsets_.begin(), shard_file_offsets_.end(), 0);
     }
 
+    if (!all_successful) {
+        LOG_ERROR("Failed to write shards");
+        return false;
+    }
+
     return true;
 }
 
-- 
2.43.0


From 392742f615d05c83012481ad6be11a07909e1ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:24 +0000
Subject: [PATCH 31/34] fix: exact tile counts for sizes near 2^32

---
 src/streaming/array.writer.cpp   | 14 +++++++-------
 src/streaming/zarr.dimension.cpp |  4 +---
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index 1b8e586..953f82b 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -260,12 +260,12 @@ zarr::ArrayWriter::write_frame_to_chunks_(std::span<const std::byte> data)
     const auto& dimensions = config_.dimensions;
 
     const auto& x_dim = dimensions->width_dim();
-    const auto frame_cols = x_dim.array_size_px;
-    const auto tile_cols = x_dim.chunk_size_px;
+    const size_t frame_cols = x_dim.array_size_px;
+    const size_t tile_cols = x_dim.chunk_size_px;
 
     const auto& y_dim = dimensions->height_dim();
-    const auto frame_rows = y_dim.array_size_px;
-    const auto tile_rows = y_dim.chunk_size_px;
+    const size_t frame_rows = y_dim.array_size_px;
+    const size_t tile_rows = y_dim.chunk_size_px;
 
     if (tile_cols == 0 || tile_rows == 0) {
         return 0;
@@ -288,14 +288,14 @@ zarr::ArrayWriter::write_frame_to_chunks_(std::span<const std::byte> data)
     const auto chunk_offset =
       static_cast<long long>(dimensions->chunk_internal_offset(frame_id));
 
-    for (auto i = 0; i < n_tiles_y; ++i) {
+    for (size_t i = 0; i < n_tiles_y; ++i) {
         // TODO (aliddell): we can optimize this when tiles_per_frame_x_ is 1
-        for (auto j = 0; j < n_tiles_x; ++j) {
+        for (size_t j = 0; j < n_tiles_x; ++j) {
             const auto c = group_offset + i * n_tiles_x + j;
             auto& chunk = chunk_buffers_[c];
             auto chunk_it = chunk.begin() + chunk_offset;
 
-            for (auto k = 0; k < tile_rows; ++k) {
+            for (size_t k = 0; k < tile_rows; ++k) {
                 const auto frame_row = i * tile_rows + k;
                 if (frame_row < frame_rows) {
                     const auto frame_col = j * tile_cols;
diff --git a/src/streaming/zarr.dimension.cpp b/src/streaming/zarr.dimension.cpp
index e80c9df..174f286 100644
--- a/src/streaming/zarr.dimension.cpp
+++ b/src/streaming/zarr.dimension.cpp
@@ -77,9 +77,7 @@ ArrayDimensions::tile_group_offset(uint64_t frame_id) const
 {
     std::vector<size_t> strides(dims_.size(), 1);
     for (auto i = dims_.size() - 1; i > 0; --i) {
-        const auto& dim = dims_[i];
-        const auto a = dim.array_size_px, c = dim.chunk_size_px;
-        strides[i - 1] = strides[i] * ((a + c - 1) / c);
+        strides[i - 1] = strides[i] * zarr::chunks_along_dimension(dims_[i]);
     }
 
     size_t offset = 0;
-- 
2.43.0


From c1ea5a19ec4864976b05dddf326f0020c23a074b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:24 +0000
Subject: [PATCH 32/34] fix: take the metadata base path as it is given, not up
 to the next NUL

---
 src/streaming/sink.creator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/streaming/sink.creator.cpp b/src/streaming/sink.creator.cpp
index 0451110..80b7437 100644
--- a/src/streaming/sink.creator.cpp
+++ b/src/streaming/sink.creator.cpp
@@ -115,7 +115,7 @@ zarr::SinkCreator::make_metadata_sinks(
     std::vector<std::string> file_paths =
       make_metadata_sink_paths_(version, base_path, true);
 
-    return make_files_(base_path.data(), file_paths, metadata_sinks);
+    return make_files_(std::string(base_path), file_paths, metadata_sinks);
 }
 
 bool
-- 
2.43.0


From b94f390c82f01bfc942af22b6867eecc8e98fc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:11 +0000
Subject: [PATCH 33/34] fix: count pixels with 64 bits when scaling down

Rows, columns and pixels of a frame were counted with an int, which overflows
for dimensions of 2^31 pixels and more.
---
 src/streaming/zarr.stream.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 965e51a..47558d9 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -371,10 +371,10 @@ scale_image(const std::byte* const src,
     };
 
     size_t dst_idx = 0;
-    for (auto row = 0; row < height; row += downscale) {
+    for (size_t row = 0; row < height; row += downscale) {
         const bool pad_height = (row == height - 1 && height != h_pad);
 
-        for (auto col = 0; col < width; col += downscale) {
+        for (size_t col = 0; col < width; col += downscale) {
             size_t src_idx = row * width + col;
             const bool pad_width = (col == width - 1 && width != w_pad);
 
@@ -415,7 +415,7 @@ average_two_frames(void* dst_,
     const T* src = static_cast<const T*>(src_);
 
     const auto num_pixels = bytes_of_src / sizeof(T);
-    for (auto i = 0; i < num_pixels; ++i) {
+    for (size_t i = 0; i < num_pixels; ++i) {
         dst[i] = mean_of(dst[i], src[i]);
     }
 }
-- 
2.43.0


From 7e3e5e8afdf55a5d7989228c6e55eeef740937ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:38 +0000
Subject: [PATCH 34/34] fix: Python append stores the elements of arrays that
 are not packed

The binding handed the memory at the array's first element to the stream,
ignoring its strides: transposed, sliced or reversed arrays were stored
wrong, from memory outside the array at worst.
---
 python/acquire-zarr-py.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/acquire-zarr-py.cpp b/python/acquire-zarr-py.cpp
index f50d7e0..b1fcde4 100644
--- a/python/acquire-zarr-py.cpp
+++ b/python/acquire-zarr-py.cpp
@@ -376,7 +376,15 @@ class PyZarrStream
             throw py::error_already_set();
         }
 
-        auto buf = image_data.request();
+        // the stream takes a packed buffer: copy arrays of any other layout
+        auto packed = py::array::ensure(image_data, py::array::c_style);
+        if (!packed) {
+            PyErr_SetString(PyExc_RuntimeError,
+                            "Failed to make the array contiguous.");
+            throw py::error_already_set();
+        }
+
+        auto buf = packed.request();
         auto* ptr = (uint8_t*)buf.ptr;
 
         size_t bytes_out;
-- 
2.43.0

