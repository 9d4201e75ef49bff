From 68875832189591a97b9d848221947d1e32be26e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:44 +0000
Subject: [PATCH 01/53] fix: commit_read leaves no stale cached write index
 behind

size() followed by commit_read() moved the read index past the reader's cached
write index, after which pop/try_pop/empty checks returned stale elements.
---
 include/cler_spsc-queue.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cler_spsc-queue.hpp b/include/cler_spsc-queue.hpp
index d4604a1..10e893f 100644
--- a/include/cler_spsc-queue.hpp
+++ b/include/cler_spsc-queue.hpp
@@ -554,6 +554,9 @@ public:
     const auto capacity = base_type::capacity_;
     const auto readIndex = reader_.readIndex_.load(std::memory_order_relaxed);
     const auto nextReadIndex = (readIndex + count) % capacity;
+    // The count may come from size() rather than from a peek: never leave the
+    // cached write index behind the new read index.
+    reader_.writeIndexCache_ = writer_.writeIndex_.load(std::memory_order_acquire);
     reader_.readIndex_.store(nextReadIndex, std::memory_order_release);
   }
 
-- 
2.43.0


From 016127942608277c910f591c396d1681a8db5540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:44 +0000
Subject: [PATCH 02/53] fix: round double-mapped rings to whole pages and whole
 elements

For element sizes that do not divide the page size the ring was shorter than
the mapping, so windows reaching past the wrap read and wrote the wrong bytes.
---
 include/cler_spsc-queue.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cler_spsc-queue.hpp b/include/cler_spsc-queue.hpp
index 10e893f..45cbccc 100644
--- a/include/cler_spsc-queue.hpp
+++ b/include/cler_spsc-queue.hpp
@@ -17,6 +17,7 @@
 #include <atomic>      // for atomic, memory_order
 #include <cstddef>     // for size_t
 #include <limits>      // for numeric_limits
+#include <numeric>     // for std::lcm
 #include <new>         // for std::hardware_destructive_interference_size
 #include <memory>      // for std::allocator_traits
 #include <type_traits> // for std::is_default_constructible
@@ -95,8 +96,11 @@ public:
           // If DBF is possible, align capacity to page boundary
           if (cler::platform::supports_doubly_mapped_buffers() && 
               buffer_bytes >= DOUBLY_MAPPED_MIN_SIZE) {
+            // The ring must fill the mapping exactly: round up to a whole number
+            // of pages that is also a whole number of elements.
             const std::size_t page_size = cler::platform::get_page_size();
-            const std::size_t aligned_bytes = ((buffer_bytes + page_size - 1) / page_size) * page_size;
+            const std::size_t unit_bytes = std::lcm(page_size, sizeof(T));
+            const std::size_t aligned_bytes = ((buffer_bytes + unit_bytes - 1) / unit_bytes) * unit_bytes;
             return aligned_bytes / sizeof(T);  // Return page-aligned capacity
           }
           return requested_capacity;  // Return regular capacity
-- 
2.43.0


From dcdbaf4d1b0f3b8bed6939da564a95b1f018d284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:44 +0000
Subject: [PATCH 03/53] fix: do not enlarge a double mapping to the huge page
 size

Buffers of 2 MB and more were mapped rounded up to huge pages while the ring
kept its own size, so the second view did not start at the end of the ring.
---
 include/virtual_memory/cler_vmem_posix.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/virtual_memory/cler_vmem_posix.hpp b/include/virtual_memory/cler_vmem_posix.hpp
index d344238..2735e93 100644
--- a/include/virtual_memory/cler_vmem_posix.hpp
+++ b/include/virtual_memory/cler_vmem_posix.hpp
@@ -80,16 +80,16 @@ public:
         
         // Get page sizes
         const std::size_t page_size = cler::platform::get_page_size();
-        std::size_t aligned_size = ((size + page_size - 1) / page_size) * page_size;
+        const std::size_t aligned_size = ((size + page_size - 1) / page_size) * page_size;
         
         // Determine if we should try huge pages
         bool use_huge_pages = false;
         
         #ifdef MAP_HUGETLB
         const std::size_t huge_page_size = get_huge_page_size();
-        if (huge_page_size > 0 && aligned_size >= huge_page_size) {
-            // Align to huge page boundary
-            aligned_size = ((size + huge_page_size - 1) / huge_page_size) * huge_page_size;
+        if (huge_page_size > 0 && aligned_size % huge_page_size == 0) {
+            // The mapping must not grow beyond the requested size: the second
+            // view has to start where the caller's ring ends.
             use_huge_pages = true;
         }
         #endif
-- 
2.43.0


From c24e9fc721db38e38a8ee75f5aa306709c8486a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:52 +0000
Subject: [PATCH 04/53] fix: limit the fixed thread pool to its number of
 worker queues

With more than CLER_DEFAULT_MAX_WORKERS workers and still more blocks,
initialize() and get_next_block() indexed past the end of the queue array.
---
 include/cler.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cler.hpp b/include/cler.hpp
index 91f22ad..6fcc516 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -587,6 +587,8 @@ namespace cler {
                 run_thread_per_block(config);
             } else {
                 // Fewer workers than blocks - use fixed thread pool scheduler
+                // The scheduler has a fixed number of worker queues
+                num_workers = std::min(num_workers, DEFAULT_MAX_WORKERS);
                 // Initialize with contiguous block grouping (keeps producer->consumer chains together)
                 fixed_thread_pool_scheduler.initialize(_N, num_workers);
                 
-- 
2.43.0


From b87b62635f33f966c09a817918e094e660720671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:52 +0000
Subject: [PATCH 05/53] fix: publish a block's statistics when it ends the run
 with a fatal error

The thread-per-block task returned before storing its counters.
---
 include/cler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cler.hpp b/include/cler.hpp
index 6fcc516..1542c52 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -393,7 +393,7 @@ namespace cler {
                             if (_on_err_terminate_cb) {
                                 _on_err_terminate_cb(_on_err_terminate_context);
                             }
-                            return;
+                            break;  // Stop flag is set: leave the loop and finalize stats
                         }
 
                         if (err == Error::NotEnoughSpaceOrSamples || err == Error::NotEnoughSamples || err == Error::NotEnoughSpace) {
-- 
2.43.0


From dc9aae2d7725d58235674a3757b8f2a1b6a49151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:52 +0000
Subject: [PATCH 06/53] fix: start every run with fresh per-block run state

The thread pool kept adding to the counters and dead time of earlier runs, and
the adaptive sleep state of one run carried over into the next.
---
 include/cler.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/cler.hpp b/include/cler.hpp
index 1542c52..fa2ed0b 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -477,7 +477,18 @@ namespace cler {
         
         // Initialize block stats with names (only if detailed stats enabled)
         void initialize_block_stats() {
+            for (auto& stats : _stats) {
+                stats.current_adaptive_sleep_us.store(0.0);
+                stats.consecutive_fails.store(0);
+            }
             if (_config.collect_detailed_stats) {
+                for (auto& stats : _stats) {
+                    stats.successful_procedures = 0;
+                    stats.failed_procedures = 0;
+                    stats.total_dead_time_s = 0.0;
+                    stats.total_runtime_s = 0.0;
+                    stats.final_adaptive_sleep_us = 0.0;
+                }
                 init_stats_impl(std::make_index_sequence<_N>{});
             }
         }
-- 
2.43.0


From 51ef0ea1eb7542d350d8db581aeb3d684c8f9668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:52 +0000
Subject: [PATCH 07/53] fix: join the tasks of a run that stopped itself before
 running again

After a fatal error the tasks have ended but were never joined; running the
graph again then assigned over joinable threads and terminated the program.
---
 include/cler.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cler.hpp b/include/cler.hpp
index fa2ed0b..72052ab 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -236,6 +236,9 @@ namespace cler {
         void* on_err_terminate_context() const { return _on_err_terminate_context; }
 
         void run(const FlowGraphConfig& config = FlowGraphConfig{}) {
+            // Tasks of a run that ended by a fatal error may still have to be joined
+            stop();
+
             _config = config;
             _stop_flag.store(false, std::memory_order_release);
             
-- 
2.43.0


From f30bb4a621be7ec15af1475f3c0b519df2fa3f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:52 +0000
Subject: [PATCH 08/53] fix: keep the first adaptive sleep within the
 configured maximum

---
 include/cler.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cler.hpp b/include/cler.hpp
index 72052ab..ef80a58 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -318,8 +318,9 @@ namespace cler {
                     if (current_sleep == 0.0) {
                         // Start sleeping with 1 microsecond
                         static constexpr double INITIAL_SLEEP_US = 1.0;
-                        stats.current_adaptive_sleep_us.store(INITIAL_SLEEP_US);
-                        TaskPolicy::sleep_us(static_cast<size_t>(INITIAL_SLEEP_US));
+                        const double first_sleep = std::min(INITIAL_SLEEP_US, _config.adaptive_sleep_max_us);
+                        stats.current_adaptive_sleep_us.store(first_sleep);
+                        TaskPolicy::sleep_us(static_cast<size_t>(first_sleep));
                     } else {
                         // Exponential backoff with deterministic jitter to prevent thundering herd
                         double base_sleep = current_sleep * _config.adaptive_sleep_multiplier;
-- 
2.43.0


From 3d4523c1d089fb094bda3a1071ecc65e8bd54e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:05 +0000
Subject: [PATCH 09/53] fix: make the double mapping capability test thread
 safe

A second thread constructing a channel during the first test saw "unsupported"
in one place and "supported" in the next, and double mapped a ring whose size
had not been rounded to the mapping.
---
 include/cler_platform.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/cler_platform.hpp b/include/cler_platform.hpp
index 6ac191d..2ca9c83 100644
--- a/include/cler_platform.hpp
+++ b/include/cler_platform.hpp
@@ -129,11 +129,9 @@ namespace cler {
             #if !defined(__linux__) && !defined(__APPLE__) && !defined(__FreeBSD__)
                 return false;
             #else
-                static bool tested = false;
-                static bool supported = false;
-                
-                if (tested) return supported;
-                tested = true;
+                // Tested once, also when several threads construct channels at the same time
+                static const bool is_supported = [] {
+                bool supported = false;
                 
                 #if CLER_HAS_MMAP_H
                     // Try to create a small test mapping
@@ -208,6 +206,8 @@ namespace cler {
                 #endif
                 
                 return supported;
+                }();
+                return is_supported;
             #endif
         }
 
-- 
2.43.0


From e3df3df9dc02119a345753ba39cdd9d92df63cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:55 +0000
Subject: [PATCH 10/53] fix: do not double map element types that depend on
 their address

Elements seen through the second view live at a different address; windows
reaching past the wrap corrupted non-trivially-copyable types like std::string.
---
 include/cler_spsc-queue.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/cler_spsc-queue.hpp b/include/cler_spsc-queue.hpp
index 45cbccc..6778f23 100644
--- a/include/cler_spsc-queue.hpp
+++ b/include/cler_spsc-queue.hpp
@@ -76,6 +76,10 @@ struct AdaptiveHeapBuffer {
   static constexpr std::size_t padding = ((cacheLineSize - 1) / sizeof(T)) + 1;
   static constexpr std::size_t MAX_SIZE_T = std::numeric_limits<std::size_t>::max();
 
+  // Through the second view an element is seen at another address: that is only
+  // sound for types that are nothing but their bytes (e.g. not for std::string)
+  static constexpr bool can_be_doubly_mapped = std::is_trivially_copyable_v<T>;
+
   // Get the actual mapped size (for doubly-mapped buffers)
   std::size_t get_mapped_size() const noexcept {
     return is_doubly_mapped_ ? vmem_allocation_.size() : 0;
@@ -94,7 +98,7 @@ public:
           const std::size_t buffer_bytes = requested_capacity * sizeof(T);
           
           // If DBF is possible, align capacity to page boundary
-          if (cler::platform::supports_doubly_mapped_buffers() && 
+          if (can_be_doubly_mapped && cler::platform::supports_doubly_mapped_buffers() && 
               buffer_bytes >= DOUBLY_MAPPED_MIN_SIZE) {
             // The ring must fill the mapping exactly: round up to a whole number
             // of pages that is also a whole number of elements.
@@ -114,7 +118,7 @@ public:
     const std::size_t buffer_bytes = capacity_ * sizeof(T);
     
     // Try doubly mapped allocation for buffers ≥32KB (typical SDR buffer size)
-    if (cler::platform::supports_doubly_mapped_buffers() && 
+    if (can_be_doubly_mapped && cler::platform::supports_doubly_mapped_buffers() && 
         buffer_bytes >= DOUBLY_MAPPED_MIN_SIZE) {
       
       // capacity_ is already page-aligned from the lambda above
-- 
2.43.0


From e605eab4d657735e8df31178c3f9c995f298380e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:42 +0000
Subject: [PATCH 11/53] fix: a success ends the series of consecutive fails of
 adaptive sleep

---
 include/cler.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/cler.hpp b/include/cler.hpp
index ef80a58..bf85910 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -415,14 +415,14 @@ namespace cler {
                         if (config.collect_detailed_stats) {
                             successful++;
                         }
+                        if (!did_work_in_batch) {
+                            // Ends the series of consecutive fails before this tick can add to it
+                            handle_adaptive_sleep(I, true);
+                        }
                         did_work_in_batch = true;
                         // Keep looping up to max_calls_per_tick
                     }
                 }
-                
-                if (did_work_in_batch) {
-                    handle_adaptive_sleep(I, true);
-                }
             }
 
             if (config.collect_detailed_stats) {
@@ -723,15 +723,15 @@ namespace cler {
                     if (config.collect_detailed_stats) {
                         stats.successful_procedures++;
                     }
+                    if (!did_work) {
+                        // Ends the series of consecutive fails before this tick can add to it
+                        handle_adaptive_sleep(I, true);
+                    }
                     did_work = true;
                     // Keep looping up to max_calls_per_tick
                 }
             }
             
-            if (did_work) {
-                handle_adaptive_sleep(I, true);
-            }
-            
             return did_work;
         }
         
-- 
2.43.0


From 3643018dcc2fef4b4aa98956a5011b7bfbe5415d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:19 +0000
Subject: [PATCH 12/53] fix: release slab slots in builds without assertions
 too

---
 desktop_blocks/blob.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/blob.cpp b/desktop_blocks/blob.cpp
index 9ff587e..868a6e9 100644
--- a/desktop_blocks/blob.cpp
+++ b/desktop_blocks/blob.cpp
@@ -31,5 +31,6 @@ cler::Result<Blob, cler::Error> Slab::take_slot() {
 }
 
 void Slab::release_slot(size_t slot_idx) {
-    assert(_free_slots.try_push(slot_idx));
+    [[maybe_unused]] const bool pushed = _free_slots.try_push(slot_idx);
+    assert(pushed && "BUG: more releases than slots");
 }
\ No newline at end of file
-- 
2.43.0


From 187b61880303989e4f07cd654223424ae749cf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:27 +0000
Subject: [PATCH 13/53] fix: serialise slab releases coming from several
 threads

---
 desktop_blocks/blob.cpp | 3 +++
 desktop_blocks/blob.hpp | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/desktop_blocks/blob.cpp b/desktop_blocks/blob.cpp
index 868a6e9..0ed1a7a 100644
--- a/desktop_blocks/blob.cpp
+++ b/desktop_blocks/blob.cpp
@@ -31,6 +31,9 @@ cler::Result<Blob, cler::Error> Slab::take_slot() {
 }
 
 void Slab::release_slot(size_t slot_idx) {
+    // Slots may be released from several threads (the taker on error paths, any
+    // consumer); the free list itself supports a single producer only.
+    std::lock_guard<std::mutex> lock(_release_mutex);
     [[maybe_unused]] const bool pushed = _free_slots.try_push(slot_idx);
     assert(pushed && "BUG: more releases than slots");
 }
\ No newline at end of file
diff --git a/desktop_blocks/blob.hpp b/desktop_blocks/blob.hpp
index 453abfa..3035a0d 100644
--- a/desktop_blocks/blob.hpp
+++ b/desktop_blocks/blob.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include "cler.hpp"
 #include <memory>
+#include <mutex>
 
 struct Slab;
 
@@ -30,4 +31,5 @@ private:
     size_t _max_blob_size;
     std::unique_ptr<uint8_t[]> _data;
     cler::Channel<size_t> _free_slots;
+    std::mutex _release_mutex;
 };
\ No newline at end of file
-- 
2.43.0


From 661d5a3dae596c536819bb093195f7ce3252035a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:47 +0000
Subject: [PATCH 14/53] fix: deliver blobs already received when a datagram is
 empty, oversized or missing

---
 desktop_blocks/udp/source_udp.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/desktop_blocks/udp/source_udp.hpp b/desktop_blocks/udp/source_udp.hpp
index ae9cb41..1521329 100644
--- a/desktop_blocks/udp/source_udp.hpp
+++ b/desktop_blocks/udp/source_udp.hpp
@@ -41,7 +41,10 @@ struct SourceUDPSocketBlock : public cler::BlockBase {
         T buffer[available];
         size_t count = 0;
 
-        for (size_t i = 0; i < available; ++i) {
+        bool done = false;
+        bool failed = false;
+
+        for (size_t i = 0; i < available && !done; ++i) {
             if constexpr (IS_BLOB) {
                 // Blob-specific: slab pooling
                 auto result = _slab.take_slot();
@@ -52,7 +55,7 @@ struct SourceUDPSocketBlock : public cler::BlockBase {
 
                 if (bytes == 0) {
                     blob.release();
-                    return cler::Empty{};
+                    continue;
                 }
 
                 if (bytes < 0) {
@@ -64,16 +67,19 @@ struct SourceUDPSocketBlock : public cler::BlockBase {
 #endif
                         case EINTR:
                             blob.release();
-                            return cler::Empty{};
+                            done = true;
+                            break;
 
                         case EMSGSIZE:
                             blob.release();
-                            return cler::Empty{};
+                            break;
 
                         default:
                             blob.release();
-                            return cler::Error::TERM_IOError;
+                            failed = done = true;
+                            break;
                     }
+                    continue;
                 }
 
                 blob.len = static_cast<size_t>(bytes);
@@ -108,6 +114,9 @@ struct SourceUDPSocketBlock : public cler::BlockBase {
         if (count > 0) {
             out->writeN(buffer, count);
         }
+        if (failed) {
+            return cler::Error::TERM_IOError;
+        }
 
         return cler::Empty{};
     }
-- 
2.43.0


From aea326c45d13a26f12d28a899b910d64ac7b62ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:47 +0000
Subject: [PATCH 15/53] fix: reject partial datagrams and leave no gaps after
 rejected ones in the UDP source

---
 desktop_blocks/udp/source_udp.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/desktop_blocks/udp/source_udp.hpp b/desktop_blocks/udp/source_udp.hpp
index 1521329..af87c2c 100644
--- a/desktop_blocks/udp/source_udp.hpp
+++ b/desktop_blocks/udp/source_udp.hpp
@@ -96,15 +96,21 @@ struct SourceUDPSocketBlock : public cler::BlockBase {
                 buffer[count++] = blob;
             } else {
                 // Generic fixed-size
-                ssize_t bytes = _socket.recv(reinterpret_cast<uint8_t*>(&buffer[i]), sizeof(T));
-                if (bytes <= 0) break;
+                ssize_t bytes = _socket.recv(reinterpret_cast<uint8_t*>(&buffer[count]), sizeof(T));
+                if (bytes < 0 && bytes != -EMSGSIZE) {
+                    failed = bytes != -EAGAIN && bytes != -EWOULDBLOCK && bytes != -EINTR;
+                    break;
+                }
+                if (bytes != static_cast<ssize_t>(sizeof(T))) {
+                    continue; // empty, short or oversized: not a whole T
+                }
 
-                if (_validate && !_validate(buffer[i], _validate_context)) {
+                if (_validate && !_validate(buffer[count], _validate_context)) {
                     continue;
                 }
 
                 if (_callback) {
-                    _callback(buffer[i], _callback_context);
+                    _callback(buffer[count], _callback_context);
                 }
 
                 count++;
-- 
2.43.0


From 656128afea4fc87da912da3bc70f869d90f8125e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:47 +0000
Subject: [PATCH 16/53] fix: UDP source delivers what has arrived instead of
 blocking until the output is full

---
 desktop_blocks/udp/source_udp.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/desktop_blocks/udp/source_udp.hpp b/desktop_blocks/udp/source_udp.hpp
index af87c2c..47fbb1b 100644
--- a/desktop_blocks/udp/source_udp.hpp
+++ b/desktop_blocks/udp/source_udp.hpp
@@ -38,6 +38,8 @@ struct SourceUDPSocketBlock : public cler::BlockBase {
             return cler::Error::NotEnoughSpace;
         }
 
+        // Take what has arrived, never wait for more: received datagrams must not be
+        // held back until the output could be filled, and stop() must get through.
         T buffer[available];
         size_t count = 0;
 
@@ -51,7 +53,7 @@ struct SourceUDPSocketBlock : public cler::BlockBase {
                 if (result.is_err()) break;
 
                 Blob blob = result.unwrap();
-                ssize_t bytes = _socket.recv(blob.data, blob.len);
+                ssize_t bytes = _socket.recv(blob.data, blob.len, MSG_DONTWAIT);
 
                 if (bytes == 0) {
                     blob.release();
@@ -96,7 +98,7 @@ struct SourceUDPSocketBlock : public cler::BlockBase {
                 buffer[count++] = blob;
             } else {
                 // Generic fixed-size
-                ssize_t bytes = _socket.recv(reinterpret_cast<uint8_t*>(&buffer[count]), sizeof(T));
+                ssize_t bytes = _socket.recv(reinterpret_cast<uint8_t*>(&buffer[count]), sizeof(T), MSG_DONTWAIT);
                 if (bytes < 0 && bytes != -EMSGSIZE) {
                     failed = bytes != -EAGAIN && bytes != -EWOULDBLOCK && bytes != -EINTR;
                     break;
@@ -123,6 +125,9 @@ struct SourceUDPSocketBlock : public cler::BlockBase {
         if (failed) {
             return cler::Error::TERM_IOError;
         }
+        if (count == 0) {
+            return cler::Error::NotEnoughSamples;
+        }
 
         return cler::Empty{};
     }
-- 
2.43.0


From 1d3fd3279206d9661c3d8e78056c5ab1a7bd6816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:47 +0000
Subject: [PATCH 17/53] fix: UDP sink keeps the samples behind a failed send
 instead of dropping them

---
 desktop_blocks/udp/sink_udp.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/desktop_blocks/udp/sink_udp.hpp b/desktop_blocks/udp/sink_udp.hpp
index 068e424..47ccb26 100644
--- a/desktop_blocks/udp/sink_udp.hpp
+++ b/desktop_blocks/udp/sink_udp.hpp
@@ -33,24 +33,23 @@ struct SinkUDPSocketBlock : public cler::BlockBase {
             return cler::Empty{};
         }
 
-        T buffer[available];
-        in.readN(buffer, available);
-
         for (size_t i = 0; i < available; ++i) {
             ssize_t bytes;
+            T sample;
+            in.pop(sample);
 
             if constexpr (IS_BLOB) {
                 // Blob-specific: send blob data and release slot
-                bytes = _socket.send(buffer[i].data, buffer[i].len);
+                bytes = _socket.send(sample.data, sample.len);
                 if (_callback) {
-                    _callback(buffer[i], _callback_context);
+                    _callback(sample, _callback_context);
                 }
-                buffer[i].release();
+                sample.release();
             } else {
                 // Generic fixed-size
-                bytes = _socket.send(reinterpret_cast<const uint8_t*>(&buffer[i]), sizeof(T));
+                bytes = _socket.send(reinterpret_cast<const uint8_t*>(&sample), sizeof(T));
                 if (_callback) {
-                    _callback(buffer[i], _callback_context);
+                    _callback(sample, _callback_context);
                 }
             }
 
-- 
2.43.0


From 1ef0f00f1b9fde2969db6fe4f87fe8eead96b334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:35 +0000
Subject: [PATCH 18/53] fix: report failed file writes and reads, and write
 nothing behind a failed write

---
 desktop_blocks/sinks/sink_file.hpp     | 6 ++++--
 desktop_blocks/sources/source_file.hpp | 4 ++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/desktop_blocks/sinks/sink_file.hpp b/desktop_blocks/sinks/sink_file.hpp
index 09c4e21..72ea7a1 100644
--- a/desktop_blocks/sinks/sink_file.hpp
+++ b/desktop_blocks/sinks/sink_file.hpp
@@ -45,7 +45,8 @@ struct SinkFileBlock : public cler::BlockBase {
 
     cler::Result<cler::Empty, cler::Error> procedure()
     {
-        if (!_fp) {
+        // Nothing can be appended in order behind a failed write
+        if (!_fp || std::ferror(_fp)) {
             return cler::Error::TERM_IOError;
         }
 
@@ -55,7 +56,8 @@ struct SinkFileBlock : public cler::BlockBase {
         if (span_size > 0) {
             // Single write, no copy
             size_t written = std::fwrite(span_ptr, sizeof(T), span_size, _fp);
-            if (written != span_size) return cler::Error::TERM_IOError;
+            // Only what has left the stream's buffer counts as consumed: a write that fails later could not be reported
+            if (written != span_size || std::fflush(_fp) != 0) return cler::Error::TERM_IOError;
             in.commit_read(written);
         }
         return cler::Empty{};
diff --git a/desktop_blocks/sources/source_file.hpp b/desktop_blocks/sources/source_file.hpp
index d3b2a99..1ed8abe 100644
--- a/desktop_blocks/sources/source_file.hpp
+++ b/desktop_blocks/sources/source_file.hpp
@@ -40,6 +40,10 @@ struct SourceFileBlock : public cler::BlockBase {
         
         // Direct read into output buffer
         _file.read(reinterpret_cast<char*>(write_ptr), write_size * sizeof(T));
+        if (_file.bad()) { // a failed read is not the end of the file
+            _file.close();
+            return cler::Error::TERM_IOError;
+        }
         size_t samples_read = _file.gcount() / sizeof(T);
         
         if (samples_read == 0) {
-- 
2.43.0


From 18caa0a5b5b011b84b6c743641484627d49a562d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:31 +0000
Subject: [PATCH 19/53] fix: keep ThreadX and Zephyr control blocks in place
 when a task handle moves, and free no stack in use

---
 .../mock_environment/zephyr/kernel.h          | 13 ++++++++
 .../task_policies/cler_threadx_tpolicy.hpp    | 33 ++++++++++---------
 include/task_policies/cler_zephyr_tpolicy.hpp | 17 ++++------
 3 files changed, 38 insertions(+), 25 deletions(-)

diff --git a/embedded_examples/zephyr_examples/mock_environment/zephyr/kernel.h b/embedded_examples/zephyr_examples/mock_environment/zephyr/kernel.h
index 43d3987..167dda0 100644
--- a/embedded_examples/zephyr_examples/mock_environment/zephyr/kernel.h
+++ b/embedded_examples/zephyr_examples/mock_environment/zephyr/kernel.h
@@ -137,6 +137,19 @@ static inline int k_thread_create(k_thread_t* thread, k_thread_stack_t* stack,
     return 0;
 }
 
+static inline int k_thread_join(k_thread_t* thread, int32_t timeout) {
+    (void)timeout; // Only K_FOREVER is supported
+    if (!thread || !thread->thread_ptr) return -1;
+    if (thread->thread_ptr->joinable()) {
+        thread->thread_ptr->join();
+    }
+    delete thread->thread_ptr;
+    delete thread->entry_func;
+    thread->thread_ptr = nullptr;
+    thread->entry_func = nullptr;
+    return 0;
+}
+
 static inline void k_thread_join_and_destroy(k_thread_t* thread) {
     if (!thread) return;
     if (thread->thread_ptr) {
diff --git a/include/task_policies/cler_threadx_tpolicy.hpp b/include/task_policies/cler_threadx_tpolicy.hpp
index b35cd7b..20a4235 100644
--- a/include/task_policies/cler_threadx_tpolicy.hpp
+++ b/include/task_policies/cler_threadx_tpolicy.hpp
@@ -32,13 +32,13 @@ struct ThreadXTaskPolicy : TaskPolicyBase<ThreadXTaskPolicy> {
         void* callable;
         void (*invoke)(void*);
         void (*destroy)(void*);
-        TX_SEMAPHORE* completion_sem;
+        // The kernel links control blocks by address, so they must not move with the wrapper
+        TX_THREAD thread;
+        TX_SEMAPHORE completion_sem;
         volatile bool task_completed;
     };
     
     struct TaskWrapper {
-        TX_THREAD thread;
-        TX_SEMAPHORE completion_sem;
         TaskData* task_data;
         UCHAR* stack_memory;
         volatile bool task_completed;
@@ -72,33 +72,35 @@ struct ThreadXTaskPolicy : TaskPolicyBase<ThreadXTaskPolicy> {
             return wrapper; // Failed allocation
         }
         
+        // Allocate task data
+        using FuncType = typename std::decay<Func>::type;
+        auto* task_data = new TaskData{};
+        
         // Create completion semaphore
         static char sem_name[] = "ClerCompletionSem";
         UINT status = tx_semaphore_create(
-            &wrapper.completion_sem,
+            &task_data->completion_sem,
             sem_name,
             0  // Initial count
         );
         
         if (status != TX_SUCCESS) {
+            delete task_data;
             delete[] wrapper.stack_memory;
+            wrapper.stack_memory = nullptr;
             return wrapper;
         }
         
-        // Allocate task data
-        using FuncType = typename std::decay<Func>::type;
-        auto* task_data = new TaskData;
         task_data->callable = new FuncType(std::forward<Func>(f));
         task_data->invoke = &TaskHelper<FuncType>::invoke;
         task_data->destroy = &TaskHelper<FuncType>::destroy;
-        task_data->completion_sem = &wrapper.completion_sem;
         task_data->task_completed = false;
         wrapper.task_data = task_data;
         
         // Create ThreadX thread
         static char thread_name[] = "ClerThread";
         status = tx_thread_create(
-            &wrapper.thread,                    // Thread control block
+            &task_data->thread,                 // Thread control block
             thread_name,                        // Thread name
             thread_entry_point,                 // Thread entry function
             (ULONG)task_data,                  // Thread input
@@ -111,11 +113,12 @@ struct ThreadXTaskPolicy : TaskPolicyBase<ThreadXTaskPolicy> {
         );
         
         if (status != TX_SUCCESS) {
-            tx_semaphore_delete(&wrapper.completion_sem);
+            tx_semaphore_delete(&task_data->completion_sem);
             task_data->destroy(task_data->callable);
             delete task_data;
             delete[] wrapper.stack_memory;
             wrapper.task_data = nullptr;
+            wrapper.stack_memory = nullptr;
             return wrapper;
         }
         
@@ -126,12 +129,12 @@ struct ThreadXTaskPolicy : TaskPolicyBase<ThreadXTaskPolicy> {
     static void join_task(task_type& wrapper) {
         if (wrapper.is_valid && wrapper.task_data && !wrapper.task_completed) {
             // Wait for thread completion
-            tx_semaphore_get(&wrapper.completion_sem, TX_WAIT_FOREVER);
+            tx_semaphore_get(&wrapper.task_data->completion_sem, TX_WAIT_FOREVER);
             
             // Clean up thread
-            tx_thread_terminate(&wrapper.thread);
-            tx_thread_delete(&wrapper.thread);
-            tx_semaphore_delete(&wrapper.completion_sem);
+            tx_thread_terminate(&wrapper.task_data->thread);
+            tx_thread_delete(&wrapper.task_data->thread);
+            tx_semaphore_delete(&wrapper.task_data->completion_sem);
             
             // Clean up memory
             wrapper.task_data->destroy(wrapper.task_data->callable);
@@ -168,7 +171,7 @@ private:
         }
         
         // Signal completion
-        tx_semaphore_put(data->completion_sem);
+        tx_semaphore_put(&data->completion_sem);
         
         // Thread will be cleaned up by join_task
     }
diff --git a/include/task_policies/cler_zephyr_tpolicy.hpp b/include/task_policies/cler_zephyr_tpolicy.hpp
index 5961011..0af6382 100644
--- a/include/task_policies/cler_zephyr_tpolicy.hpp
+++ b/include/task_policies/cler_zephyr_tpolicy.hpp
@@ -23,13 +23,12 @@ struct ZephyrTaskPolicy : TaskPolicyBase<ZephyrTaskPolicy> {
         void* callable;
         void (*invoke)(void*);
         void (*destroy)(void*);
-        struct k_sem* completion_sem;
+        // The kernel links control blocks by address, so they must not move with the wrapper
+        struct k_thread thread_data;
     };
 
     struct TaskWrapper {
-        struct k_thread thread_data;
         k_thread_stack_t* stack_mem;
-        struct k_sem completion_sem;
         TaskData* task_data;
         bool task_completed = false;
     };
@@ -49,24 +48,22 @@ struct ZephyrTaskPolicy : TaskPolicyBase<ZephyrTaskPolicy> {
 
     template<typename Func>
     static task_type create_task(Func&& f) {
-        task_type wrapper;
+        task_type wrapper{};
 
         wrapper.stack_mem = new k_thread_stack_t[CLER_ZEPHYR_STACK_SIZE];
         if (!wrapper.stack_mem) return wrapper;
 
-        k_sem_init(&wrapper.completion_sem, 0, 1);
-
         using FuncType = typename std::decay<Func>::type;
         auto* task_data = new TaskData{
             new FuncType(std::forward<Func>(f)),
             &TaskHelper<FuncType>::invoke,
             &TaskHelper<FuncType>::destroy,
-            &wrapper.completion_sem
+            {}
         };
 
         wrapper.task_data = task_data;
 
-        k_thread_create(&wrapper.thread_data,
+        k_thread_create(&task_data->thread_data,
                         wrapper.stack_mem,
                         CLER_ZEPHYR_STACK_SIZE,
                         thread_entry_point,
@@ -79,7 +76,8 @@ struct ZephyrTaskPolicy : TaskPolicyBase<ZephyrTaskPolicy> {
 
     static void join_task(task_type& wrapper) {
         if (!wrapper.task_completed && wrapper.task_data) {
-            k_sem_take(&wrapper.completion_sem, K_FOREVER);
+            // Only when the kernel is done with the thread may its stack be freed
+            k_thread_join(&wrapper.task_data->thread_data, K_FOREVER);
 
             wrapper.task_data->destroy(wrapper.task_data->callable);
             delete wrapper.task_data;
@@ -101,7 +99,6 @@ private:
         auto* data = static_cast<TaskData*>(p1);
         if (data && data->callable && data->invoke) {
             data->invoke(data->callable);
-            k_sem_give(data->completion_sem);
         }
     }
 };
-- 
2.43.0


From 250abc9c6c7cad7f752f14cfc890f623c7dfa295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:35 +0000
Subject: [PATCH 20/53] fix: keep resampled samples that find no space for the
 next call

---
 .../resamplers/multistage_resampler.hpp       | 25 +++++++++++++++----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/desktop_blocks/resamplers/multistage_resampler.hpp b/desktop_blocks/resamplers/multistage_resampler.hpp
index 906f368..d9dc00d 100644
--- a/desktop_blocks/resamplers/multistage_resampler.hpp
+++ b/desktop_blocks/resamplers/multistage_resampler.hpp
@@ -55,8 +55,8 @@ struct MultiStageResamplerBlock : public cler::BlockBase {
             throw std::bad_alloc();
         }
         
-        // Allocate output buffer (sized for maximum expansion case)
-        size_t output_buffer_size = static_cast<size_t>(_buffer_size * _ratio + 100); // Extra space for safety
+        // Allocate output buffer (liquid may produce up to ceil(1 + 2*ratio*n) samples from n)
+        size_t output_buffer_size = static_cast<size_t>(2.0 * _buffer_size * _ratio) + 100; // Extra space for safety
         _output_buffer = new T[output_buffer_size];
         if (!_output_buffer) {
             delete[] _input_buffer;
@@ -90,6 +90,17 @@ struct MultiStageResamplerBlock : public cler::BlockBase {
         // Use readN/writeN for simple processing (recommended pattern)
         size_t available_input = in.size();
         size_t available_output = out->space();
+
+        // Outputs an earlier call found no space for come first
+        if (_n_pending > 0) {
+            size_t n_written = out->writeN(_output_buffer + _pending_pos, _n_pending);
+            _pending_pos += n_written;
+            _n_pending -= n_written;
+            if (n_written == 0) {
+                return cler::Error::NotEnoughSpace;
+            }
+            return cler::Empty{};
+        }
         
         if (available_input == 0) {
             return cler::Error::NotEnoughSamples;
@@ -102,7 +113,8 @@ struct MultiStageResamplerBlock : public cler::BlockBase {
         // Calculate max input samples we can process given output space and buffer size
         // For downsample (ratio < 1), we need more input samples than output space
         // For upsample (ratio > 1), we need fewer input samples than output space
-        size_t max_input_by_output = static_cast<size_t>(available_output / _ratio);
+        // (an input may yield more outputs than there is space: these stay pending)
+        size_t max_input_by_output = std::max<size_t>(1, static_cast<size_t>(available_output / _ratio));
         size_t max_input = std::min({available_input, max_input_by_output, _buffer_size});
         
         // Read input samples
@@ -128,8 +140,9 @@ struct MultiStageResamplerBlock : public cler::BlockBase {
             );
         }
         
-        // Write resampled output
-        out->writeN(_output_buffer, n_resampled);
+        // Write resampled output, keep what does not fit for the next call
+        _pending_pos = out->writeN(_output_buffer, n_resampled);
+        _n_pending = n_resampled - _pending_pos;
 
         return cler::Empty{};
     }
@@ -138,6 +151,8 @@ private:
     float _ratio;
     size_t _buffer_size;
     size_t _output_buffer_size;
+    size_t _pending_pos = 0; // outputs in _output_buffer that did not fit yet
+    size_t _n_pending = 0;
     
     T* _input_buffer = nullptr;
     T* _output_buffer = nullptr;
-- 
2.43.0


From f884a406fc7e30333b14a17ea5225d780d957547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:24 +0000
Subject: [PATCH 21/53] fix: plots guard their buffers against the GUI thread
 and never take more samples than they hold

---
 desktop_blocks/plots/plot_cspectrum.cpp  | 7 +++++++
 desktop_blocks/plots/plot_timeseries.cpp | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/desktop_blocks/plots/plot_cspectrum.cpp b/desktop_blocks/plots/plot_cspectrum.cpp
index 870c003..d47db3d 100644
--- a/desktop_blocks/plots/plot_cspectrum.cpp
+++ b/desktop_blocks/plots/plot_cspectrum.cpp
@@ -137,6 +137,13 @@ cler::Result<cler::Empty, cler::Error> PlotCSpectrumBlock::procedure() {
     if (work_size == 0) {
         return cler::Error::NotEnoughSamples;
     }
+    // An input channel can hold more than the plot's own buffers
+    if (work_size > _buffer_size) {
+        work_size = _buffer_size;
+    }
+
+    // render() runs in the GUI thread
+    std::lock_guard<std::mutex> lock(_snapshot_mutex);
 
     for (size_t i = 0; i < _num_inputs; ++i) {
         size_t commit_size = (_signal_channels[i].size() + work_size > _buffer_size)
diff --git a/desktop_blocks/plots/plot_timeseries.cpp b/desktop_blocks/plots/plot_timeseries.cpp
index 33f6d8d..23e0c36 100644
--- a/desktop_blocks/plots/plot_timeseries.cpp
+++ b/desktop_blocks/plots/plot_timeseries.cpp
@@ -91,6 +91,13 @@ cler::Result<cler::Empty, cler::Error> PlotTimeSeriesBlock::procedure() {
     if (work_size == 0) {
         return cler::Error::NotEnoughSamples;
     }
+    // An input channel can hold more than the plot's own buffers
+    if (work_size > _buffer_size) {
+        work_size = _buffer_size;
+    }
+
+    // render() runs in the GUI thread
+    std::lock_guard<std::mutex> lock(_snapshot_mutex);
 
     size_t commit_read_size = (_x_channel->size() + work_size > _buffer_size)
         ? (_x_channel->size() + work_size - _buffer_size) : 0;
-- 
2.43.0


From 2e416a7c4649047c8a641bf6a8800ded56eecef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:25 +0000
Subject: [PATCH 22/53] fix: spectrum plot snapshots without a doubly mapped
 buffer

---
 desktop_blocks/plots/plot_cspectrum.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/desktop_blocks/plots/plot_cspectrum.cpp b/desktop_blocks/plots/plot_cspectrum.cpp
index d47db3d..3bef1f9 100644
--- a/desktop_blocks/plots/plot_cspectrum.cpp
+++ b/desktop_blocks/plots/plot_cspectrum.cpp
@@ -197,11 +197,14 @@ void PlotCSpectrumBlock::render() {
         // Only snapshot if enough samples
         if (available >= _n_fft_samples) {
             for (size_t i = 0; i < _num_inputs; ++i) {
-                auto [ptr, size] = _signal_channels[i].read_dbf();
+                const std::complex<float>* ptr1; const std::complex<float>* ptr2;
+                size_t size1, size2;
+                _signal_channels[i].peek_read(ptr1, size1, ptr2, size2);
                 // Copy only the last _n_fft_samples samples for FFT
-                memcpy(_snapshot_buffers[i], 
-                       ptr + size - _n_fft_samples, 
-                       _n_fft_samples * sizeof(std::complex<float>));
+                size_t n2 = std::min(size2, _n_fft_samples);
+                size_t n1 = _n_fft_samples - n2;
+                memcpy(_snapshot_buffers[i], ptr1 + size1 - n1, n1 * sizeof(std::complex<float>));
+                memcpy(_snapshot_buffers[i] + n1, ptr2 + size2 - n2, n2 * sizeof(std::complex<float>));
             }
         }
          _snapshot_mutex.unlock();
-- 
2.43.0


From e792778508d892d697731dacbc155c51771b662d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:25 +0000
Subject: [PATCH 23/53] fix: spectrum plots transform out of place, liquid's
 small transforms are wrong in place

---
 desktop_blocks/plots/plot_cspectrogram.cpp | 20 +++++++++++---------
 desktop_blocks/plots/plot_cspectrogram.hpp |  3 ++-
 desktop_blocks/plots/plot_cspectrum.cpp    | 20 +++++++++++---------
 desktop_blocks/plots/plot_cspectrum.hpp    |  3 ++-
 4 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/desktop_blocks/plots/plot_cspectrogram.cpp b/desktop_blocks/plots/plot_cspectrogram.cpp
index 11515e0..a1bea75 100644
--- a/desktop_blocks/plots/plot_cspectrogram.cpp
+++ b/desktop_blocks/plots/plot_cspectrogram.cpp
@@ -47,7 +47,8 @@ PlotCSpectrogramBlock::PlotCSpectrogramBlock(const char*name,
         new (&in[i]) cler::Channel<std::complex<float>>(buffer_size);
     }
 
-    _liquid_inout = new std::complex<float>[_n_fft_samples];
+    _liquid_in = new std::complex<float>[_n_fft_samples];
+    _liquid_out = new std::complex<float>[_n_fft_samples];
     _tmp_y_buffer = new std::complex<float>[_n_fft_samples];
     _tmp_mag_buffer = new float[_n_fft_samples];
 
@@ -63,8 +64,8 @@ PlotCSpectrogramBlock::PlotCSpectrogramBlock(const char*name,
     }
 
     _fftplan = fft_create_plan(_n_fft_samples,
-        reinterpret_cast<liquid_float_complex*>(_liquid_inout),
-        reinterpret_cast<liquid_float_complex*>(_liquid_inout),
+        reinterpret_cast<liquid_float_complex*>(_liquid_in),
+        reinterpret_cast<liquid_float_complex*>(_liquid_out),
         LIQUID_FFT_FORWARD, 0);
 }
 
@@ -75,7 +76,8 @@ PlotCSpectrogramBlock::~PlotCSpectrogramBlock() {
     }
     ::operator delete[](in);
 
-    delete[] _liquid_inout;
+    delete[] _liquid_in;
+    delete[] _liquid_out;
     delete[] _tmp_y_buffer;
     delete[] _tmp_mag_buffer;
 
@@ -108,19 +110,19 @@ cler::Result<cler::Empty, cler::Error> PlotCSpectrogramBlock::procedure() {
         auto [read_ptr, read_size] = in[i].read_dbf();
         if (read_ptr && read_size >= _n_fft_samples) {
             // FAST PATH: Copy directly from doubly-mapped buffer
-            memcpy(_liquid_inout, read_ptr, _n_fft_samples * sizeof(std::complex<float>));
+            memcpy(_liquid_in, read_ptr, _n_fft_samples * sizeof(std::complex<float>));
             in[i].commit_read(_n_fft_samples);
         } else {
             // Fall back to standard approach
             in[i].readN(_tmp_y_buffer, _n_fft_samples);
-            memcpy(_liquid_inout, _tmp_y_buffer, _n_fft_samples * sizeof(std::complex<float>));
+            memcpy(_liquid_in, _tmp_y_buffer, _n_fft_samples * sizeof(std::complex<float>));
         }
 
         float coherent_gain = 0.0f;
         for (size_t n = 0; n < _n_fft_samples; ++n) {
             float w = spectral_window_function(_window_type, n / static_cast<float>(_n_fft_samples - 1));
             coherent_gain += w;
-            _liquid_inout[n] *= w * ((n % 2 == 0) ? 1.0f : -1.0f);
+            _liquid_in[n] *= w * ((n % 2 == 0) ? 1.0f : -1.0f);
         }
         coherent_gain /= static_cast<float>(_n_fft_samples);
 
@@ -130,8 +132,8 @@ cler::Result<cler::Empty, cler::Error> PlotCSpectrogramBlock::procedure() {
         float scale2 = scale * scale;
 
         for (size_t j = 0; j < _n_fft_samples; ++j) {
-            float re = _liquid_inout[j].real();
-            float im = _liquid_inout[j].imag();
+            float re = _liquid_out[j].real();
+            float im = _liquid_out[j].imag();
             float power = (re * re + im * im) / scale2;
             _tmp_mag_buffer[j] = 10.0f * log10f(power + 1e-20f);
         }
diff --git a/desktop_blocks/plots/plot_cspectrogram.hpp b/desktop_blocks/plots/plot_cspectrogram.hpp
index b54dece..70fd697 100644
--- a/desktop_blocks/plots/plot_cspectrogram.hpp
+++ b/desktop_blocks/plots/plot_cspectrogram.hpp
@@ -35,7 +35,8 @@ private:
     size_t _tall;
     SpectralWindow _window_type;
 
-    std::complex<float>* _liquid_inout;
+    std::complex<float>* _liquid_in;
+    std::complex<float>* _liquid_out; // not in place: liquid's small transforms cannot be
     std::complex<float>* _tmp_y_buffer;
     float* _tmp_mag_buffer;
 
diff --git a/desktop_blocks/plots/plot_cspectrum.cpp b/desktop_blocks/plots/plot_cspectrum.cpp
index 3bef1f9..795019a 100644
--- a/desktop_blocks/plots/plot_cspectrum.cpp
+++ b/desktop_blocks/plots/plot_cspectrum.cpp
@@ -72,7 +72,8 @@ PlotCSpectrumBlock::PlotCSpectrumBlock(const char* name,
 
     _tmp_buffer = new std::complex<float>[_buffer_size];
 
-    _liquid_inout = new std::complex<float>[_n_fft_samples];
+    _liquid_in = new std::complex<float>[_n_fft_samples];
+    _liquid_out = new std::complex<float>[_n_fft_samples];
     _tmp_mag_buffer = new float[_n_fft_samples];
     _freq_bins = new float[_n_fft_samples];
     for (size_t i = 0; i < _n_fft_samples; ++i) {
@@ -88,8 +89,8 @@ PlotCSpectrumBlock::PlotCSpectrumBlock(const char* name,
     }
 
     _fftplan = fft_create_plan(_n_fft_samples,
-        reinterpret_cast<liquid_float_complex*>(_liquid_inout),
-        reinterpret_cast<liquid_float_complex*>(_liquid_inout),
+        reinterpret_cast<liquid_float_complex*>(_liquid_in),
+        reinterpret_cast<liquid_float_complex*>(_liquid_out),
         LIQUID_FFT_FORWARD, 0);
 }
 
@@ -108,7 +109,8 @@ PlotCSpectrumBlock::~PlotCSpectrumBlock() {
     delete[] _snapshot_buffers;
 
     delete[] _tmp_buffer;
-    delete[] _liquid_inout;
+    delete[] _liquid_in;
+    delete[] _liquid_out;
     delete[] _tmp_mag_buffer;
     delete[] _freq_bins;
     
@@ -239,7 +241,7 @@ void PlotCSpectrumBlock::render() {
         ImPlot::SetupAxes("Frequency [Hz]", "Magnitude [dB]");
 
         for (size_t i = 0; i < _num_inputs; ++i) {
-            memcpy(_liquid_inout,
+            memcpy(_liquid_in,
                    _snapshot_buffers[i],
                    _n_fft_samples * sizeof(std::complex<float>));
 
@@ -247,19 +249,19 @@ void PlotCSpectrumBlock::render() {
             for (size_t n = 0; n < _n_fft_samples; ++n) {
                 float w = spectral_window_function(_window_type, n / static_cast<float>(_n_fft_samples - 1));
                 coherent_gain += w;
-                _liquid_inout[n] *= w;
+                _liquid_in[n] *= w;
             }
             coherent_gain /= static_cast<float>(_n_fft_samples);
 
             fft_execute(_fftplan);
-            fft_shift(_liquid_inout, _n_fft_samples);
+            fft_shift(_liquid_out, _n_fft_samples);
 
             float scale = static_cast<float>(_n_fft_samples) * coherent_gain;
             float scale2 = scale * scale;
 
             for (size_t j = 0; j < _n_fft_samples; ++j) {
-                float re = _liquid_inout[j].real();
-                float im = _liquid_inout[j].imag();
+                float re = _liquid_out[j].real();
+                float im = _liquid_out[j].imag();
                 float power = (re * re + im * im) / scale2;
                 _tmp_mag_buffer[j] = 10.0f * log10f(power + 1e-20f);
             }
diff --git a/desktop_blocks/plots/plot_cspectrum.hpp b/desktop_blocks/plots/plot_cspectrum.hpp
index dbe72a4..9aba110 100644
--- a/desktop_blocks/plots/plot_cspectrum.hpp
+++ b/desktop_blocks/plots/plot_cspectrum.hpp
@@ -40,7 +40,8 @@ private:
     std::complex<float>** _snapshot_buffers = nullptr;
     std::complex<float>* _tmp_buffer = nullptr;
 
-    std::complex<float>* _liquid_inout = nullptr;
+    std::complex<float>* _liquid_in = nullptr;
+    std::complex<float>* _liquid_out = nullptr; // not in place: liquid's small transforms cannot be
     float* _freq_bins = nullptr;
     float* _tmp_mag_buffer = nullptr;
     float** _spectrum_avg = nullptr;  // Averaged spectrum for each input
-- 
2.43.0


From 6dfb652abc85227c9d23a685d1178eb2172ed2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:01 +0000
Subject: [PATCH 24/53] fix: HackRF blocks release the library when
 construction fails

---
 desktop_blocks/sinks/sink_hackrf.hpp     | 32 ++++++++++-----------
 desktop_blocks/sources/source_hackrf.hpp | 36 +++++++++++-------------
 2 files changed, 33 insertions(+), 35 deletions(-)

diff --git a/desktop_blocks/sinks/sink_hackrf.hpp b/desktop_blocks/sinks/sink_hackrf.hpp
index c11893e..15fd06c 100644
--- a/desktop_blocks/sinks/sink_hackrf.hpp
+++ b/desktop_blocks/sinks/sink_hackrf.hpp
@@ -44,42 +44,32 @@ struct SinkHackRFBlock : public cler::BlockBase {
 
         // Open device
         if (hackrf_open(&_dev) != HACKRF_SUCCESS) {
-            throw std::runtime_error("Failed to open HackRF device.");
+            fail_setup("Failed to open HackRF device.");
         }
 
         // Set frequency
         if (hackrf_set_freq(_dev, freq_hz) != HACKRF_SUCCESS) {
-            hackrf_close(_dev);
-            _dev = nullptr;
-            throw std::runtime_error("Failed to set TX frequency.");
+            fail_setup("Failed to set TX frequency.");
         }
 
         // Set sample rate
         if (hackrf_set_sample_rate(_dev, samp_rate_hz) != HACKRF_SUCCESS) {
-            hackrf_close(_dev);
-            _dev = nullptr;
-            throw std::runtime_error("Failed to set TX sample rate.");
+            fail_setup("Failed to set TX sample rate.");
         }
 
         // Set TX VGA (variable gain amplifier) gain
         if (hackrf_set_txvga_gain(_dev, txvga_gain_db) != HACKRF_SUCCESS) {
-            hackrf_close(_dev);
-            _dev = nullptr;
-            throw std::runtime_error("Failed to set TXVGA gain.");
+            fail_setup("Failed to set TXVGA gain.");
         }
 
         // Enable/disable TX amplifier
         if (hackrf_set_amp_enable(_dev, amp_enable ? 1 : 0) != HACKRF_SUCCESS) {
-            hackrf_close(_dev);
-            _dev = nullptr;
-            throw std::runtime_error("Failed to set amp enable.");
+            fail_setup("Failed to set amp enable.");
         }
 
         // Start TX streaming
         if (hackrf_start_tx(_dev, tx_callback, this) != HACKRF_SUCCESS) {
-            hackrf_close(_dev);
-            _dev = nullptr;
-            throw std::runtime_error("Failed to start TX streaming.");
+            fail_setup("Failed to start TX streaming.");
         }
 
         std::cout << "SinkHackRFBlock: Initialized" << std::endl;
@@ -109,6 +99,16 @@ struct SinkHackRFBlock : public cler::BlockBase {
     void reset_underrun_count() { _underrun_count.store(0); }
 
 private:
+    // A constructor that throws runs no destructor: give back the device and the library first.
+    [[noreturn]] void fail_setup(const char* what) {
+        if (_dev) {
+            hackrf_close(_dev);
+            _dev = nullptr;
+        }
+        hackrf_exit();
+        throw std::runtime_error(what);
+    }
+
     hackrf_device* _dev = nullptr;
     uint64_t _freq_hz;
     uint32_t _samp_rate_hz;
diff --git a/desktop_blocks/sources/source_hackrf.hpp b/desktop_blocks/sources/source_hackrf.hpp
index f23f963..c50a411 100644
--- a/desktop_blocks/sources/source_hackrf.hpp
+++ b/desktop_blocks/sources/source_hackrf.hpp
@@ -43,49 +43,37 @@ struct SourceHackRFBlock : public cler::BlockBase {
 
         // Open device
         if (hackrf_open(&_dev) != HACKRF_SUCCESS) {
-            throw std::runtime_error("Failed to open HackRF device.");
+            fail_setup("Failed to open HackRF device.");
         }
 
         // Set frequency
         if (hackrf_set_freq(_dev, freq_hz) != HACKRF_SUCCESS) {
-            hackrf_close(_dev);
-            _dev = nullptr;
-            throw std::runtime_error("Failed to set frequency.");
+            fail_setup("Failed to set frequency.");
         }
 
         // Set sample rate
         if (hackrf_set_sample_rate(_dev, samp_rate_hz) != HACKRF_SUCCESS) {
-            hackrf_close(_dev);
-            _dev = nullptr;
-            throw std::runtime_error("Failed to set sample rate.");
+            fail_setup("Failed to set sample rate.");
         }
 
         // Set LNA gain
         if (hackrf_set_lna_gain(_dev, lna_gain_db) != HACKRF_SUCCESS) {
-            hackrf_close(_dev);
-            _dev = nullptr;
-            throw std::runtime_error("Failed to set LNA gain.");
+            fail_setup("Failed to set LNA gain.");
         }
 
         // Set VGA gain
         if (hackrf_set_vga_gain(_dev, vga_gain_db) != HACKRF_SUCCESS) {
-            hackrf_close(_dev);
-            _dev = nullptr;
-            throw std::runtime_error("Failed to set VGA gain.");
+            fail_setup("Failed to set VGA gain.");
         }
 
         // Enable/disable RX amplifier
         if (hackrf_set_amp_enable(_dev, amp_enable ? 1 : 0) != HACKRF_SUCCESS) {
-            hackrf_close(_dev);
-            _dev = nullptr;
-            throw std::runtime_error("Failed to set amp enable.");
+            fail_setup("Failed to set amp enable.");
         }
 
         // Start RX streaming
         if (hackrf_start_rx(_dev, rx_callback, this) != HACKRF_SUCCESS) {
-            hackrf_close(_dev);
-            _dev = nullptr;
-            throw std::runtime_error("Failed to start RX streaming.");
+            fail_setup("Failed to start RX streaming.");
         }
 
         std::cout << "SourceHackRFBlock: Initialized" << std::endl;
@@ -162,6 +150,16 @@ struct SourceHackRFBlock : public cler::BlockBase {
     }
 
 private:
+    // A constructor that throws runs no destructor: give back the device and the library first.
+    [[noreturn]] void fail_setup(const char* what) {
+        if (_dev) {
+            hackrf_close(_dev);
+            _dev = nullptr;
+        }
+        hackrf_exit();
+        throw std::runtime_error(what);
+    }
+
     hackrf_device* _dev = nullptr;
     cler::Channel<std::complex<float>> _iq;
     
-- 
2.43.0


From 9ecb51fdf8c17e7d25e3b5dae0c015e6c43c3211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:33 +0000
Subject: [PATCH 25/53] fix: SoapySDR blocks release device and stream when the
 driver throws during construction

---
 desktop_blocks/sinks/sink_soapysdr.hpp     | 34 +++++++++++++---------
 desktop_blocks/sources/source_soapysdr.hpp | 34 +++++++++++++---------
 2 files changed, 42 insertions(+), 26 deletions(-)

diff --git a/desktop_blocks/sinks/sink_soapysdr.hpp b/desktop_blocks/sinks/sink_soapysdr.hpp
index 2ea09b3..451010d 100644
--- a/desktop_blocks/sinks/sink_soapysdr.hpp
+++ b/desktop_blocks/sinks/sink_soapysdr.hpp
@@ -68,6 +68,8 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
         if (!device) {
             throw std::runtime_error("SinkSoapySDRBlock: Failed to create SoapySDR device with args: " + device_args);
         }
+        // The driver may throw anywhere below, and a constructor that throws runs no destructor
+        SetupGuard guard{this};
         
         // Validate and set sample rate
         auto sample_rates = device->getSampleRateRange(SOAPY_SDR_TX, channel_idx);
@@ -84,7 +86,6 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
             for (const auto& range : sample_rates) {
                 ss << range.minimum()/1e6 << "-" << range.maximum()/1e6 << " MSPS ";
             }
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error(ss.str());
         }
         device->setSampleRate(SOAPY_SDR_TX, channel_idx, sample_rate);
@@ -104,7 +105,6 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
             for (const auto& range : freq_ranges) {
                 ss << range.minimum()/1e6 << "-" << range.maximum()/1e6 << " MHz ";
             }
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error(ss.str());
         }
         device->setFrequency(SOAPY_SDR_TX, channel_idx, center_freq);
@@ -115,7 +115,6 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
             std::stringstream ss;
             ss << "Gain " << gain_db << " dB not supported. Supported range: "
                << gain_range.minimum() << "-" << gain_range.maximum() << " dB";
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error(ss.str());
         }
         if (device->hasGainMode(SOAPY_SDR_TX, channel_idx)) {
@@ -134,7 +133,6 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
         
         stream = device->setupStream(SOAPY_SDR_TX, format, channels);
         if (!stream) {
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error("SinkSoapySDRBlock: Failed to setup TX stream");
         }
         
@@ -145,10 +143,9 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
         // Activate stream
         int ret = device->activateStream(stream);
         if (ret != 0) {
-            device->closeStream(stream);
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error("SinkSoapySDRBlock: Failed to activate stream: " + std::string(SoapySDR::errToStr(ret)));
         }
+        active = true;
         
         // Print device info
         std::cout << "SinkSoapySDRBlock: Initialized " << device->getDriverKey() 
@@ -167,16 +164,11 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
             }
             std::cout << std::endl;
         }
+        guard.block = nullptr;
     }
     
     ~SinkSoapySDRBlock() {
-        if (stream && device) {
-            device->deactivateStream(stream);
-            device->closeStream(stream);
-        }
-        if (device) {
-            SoapySDR::Device::unmake(device);
-        }
+        release();
     }
     
     cler::Result<cler::Empty, cler::Error> procedure() {
@@ -304,6 +296,21 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
     }
     
 private:
+    struct SetupGuard {
+        SinkSoapySDRBlock* block;
+        ~SetupGuard() { if (block) block->release(); }
+    };
+
+    void release() {
+        if (stream && device) {
+            if (active) device->deactivateStream(stream);
+            device->closeStream(stream);
+        }
+        if (device) {
+            SoapySDR::Device::unmake(device);
+        }
+    }
+
     // Configuration
     std::string device_args;
     double center_freq;
@@ -314,6 +321,7 @@ private:
     // SoapySDR objects
     SoapySDR::Device* device;
     SoapySDR::Stream* stream;
+    bool active = false;
     
     // Buffer
     std::vector<T> buffer;
diff --git a/desktop_blocks/sources/source_soapysdr.hpp b/desktop_blocks/sources/source_soapysdr.hpp
index 9617328..08f552e 100644
--- a/desktop_blocks/sources/source_soapysdr.hpp
+++ b/desktop_blocks/sources/source_soapysdr.hpp
@@ -58,6 +58,8 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
         if (!device) {
             throw std::runtime_error("SourceSoapySDRBlock: Failed to create SoapySDR device with args: " + device_args);
         }
+        // The driver may throw anywhere below, and a constructor that throws runs no destructor
+        SetupGuard guard{this};
         
         // Validate and set sample rate
         auto sample_rates = device->getSampleRateRange(SOAPY_SDR_RX, channel_idx);
@@ -74,7 +76,6 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
             for (const auto& range : sample_rates) {
                 ss << range.minimum()/1e6 << "-" << range.maximum()/1e6 << " MSPS ";
             }
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error(ss.str());
         }
         device->setSampleRate(SOAPY_SDR_RX, channel_idx, sample_rate);
@@ -94,7 +95,6 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
             for (const auto& range : freq_ranges) {
                 ss << range.minimum()/1e6 << "-" << range.maximum()/1e6 << " MHz ";
             }
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error(ss.str());
         }
         device->setFrequency(SOAPY_SDR_RX, channel_idx, center_freq);
@@ -105,7 +105,6 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
             std::stringstream ss;
             ss << "Gain " << gain_db << " dB not supported. Supported range: "
                << gain_range.minimum() << "-" << gain_range.maximum() << " dB";
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error(ss.str());
         }
         if (device->hasGainMode(SOAPY_SDR_RX, channel_idx)) {
@@ -124,7 +123,6 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
         
         stream = device->setupStream(SOAPY_SDR_RX, format, channels);
         if (!stream) {
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error("SourceSoapySDRBlock: Failed to setup RX stream");
         }
         
@@ -134,10 +132,9 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
         // Activate stream
         int ret = device->activateStream(stream);
         if (ret != 0) {
-            device->closeStream(stream);
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error("SourceSoapySDRBlock: Failed to activate stream: " + std::string(SoapySDR::errToStr(ret)));
         }
+        active = true;
         
         // Print device info
         std::cout << "SourceSoapySDRBlock: Initialized " << device->getDriverKey() 
@@ -156,16 +153,11 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
             }
             std::cout << std::endl;
         }
+        guard.block = nullptr;
     }
     
     ~SourceSoapySDRBlock() {
-        if (stream && device) {
-            device->deactivateStream(stream);
-            device->closeStream(stream);
-        }
-        if (device) {
-            SoapySDR::Device::unmake(device);
-        }
+        release();
     }
     
     cler::Result<cler::Empty, cler::Error> procedure(cler::ChannelBase<T>* out) {
@@ -289,6 +281,21 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
     }
     
 private:
+    struct SetupGuard {
+        SourceSoapySDRBlock* block;
+        ~SetupGuard() { if (block) block->release(); }
+    };
+
+    void release() {
+        if (stream && device) {
+            if (active) device->deactivateStream(stream);
+            device->closeStream(stream);
+        }
+        if (device) {
+            SoapySDR::Device::unmake(device);
+        }
+    }
+
     // Configuration
     std::string device_args;
     double center_freq;
@@ -299,6 +306,7 @@ private:
     // SoapySDR objects
     SoapySDR::Device* device;
     SoapySDR::Stream* stream;
+    bool active = false;
     
     // Streaming
     size_t mtu;
-- 
2.43.0


From c6c11bf29ae6dc377f397ed253a2861cf6da8572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:33 +0000
Subject: [PATCH 26/53] fix: SoapySDR transfers of zero samples are neither an
 error nor a busy loop

---
 desktop_blocks/sinks/sink_soapysdr.hpp     | 4 ++--
 desktop_blocks/sources/source_soapysdr.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/desktop_blocks/sinks/sink_soapysdr.hpp b/desktop_blocks/sinks/sink_soapysdr.hpp
index 451010d..ed336e7 100644
--- a/desktop_blocks/sinks/sink_soapysdr.hpp
+++ b/desktop_blocks/sinks/sink_soapysdr.hpp
@@ -194,8 +194,8 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
             
             int ret = device->writeStream(stream, buffs, to_send, flags, time_ns, timeout_us);
             
-            if (ret == SOAPY_SDR_TIMEOUT) {
-                // Timeout - commit what we've sent and return
+            if (ret == 0 || ret == SOAPY_SDR_TIMEOUT) {
+                // Nothing taken - commit what we've sent and return
                 in.commit_read(samples_sent);
                 return cler::Error::NotEnoughSpace;
             } else if (ret == SOAPY_SDR_UNDERFLOW) {
diff --git a/desktop_blocks/sources/source_soapysdr.hpp b/desktop_blocks/sources/source_soapysdr.hpp
index 08f552e..27e04e4 100644
--- a/desktop_blocks/sources/source_soapysdr.hpp
+++ b/desktop_blocks/sources/source_soapysdr.hpp
@@ -179,7 +179,7 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
         if (ret > 0) {
             out->commit_write(ret);
             return cler::Empty{};
-        } else if (ret == SOAPY_SDR_TIMEOUT) {
+        } else if (ret == 0 || ret == SOAPY_SDR_TIMEOUT) {
             return cler::Error::NotEnoughSamples;
         } else if (ret == SOAPY_SDR_OVERFLOW) {
             overflow_count++;
-- 
2.43.0


From 653ea09125e015e0dc8df0c8e23fb72dbe853844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:33 +0000
Subject: [PATCH 27/53] fix: SinkAudioBlock terminates PortAudio once per
 initialisation

---
 desktop_blocks/sinks/sink_audio.hpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/desktop_blocks/sinks/sink_audio.hpp b/desktop_blocks/sinks/sink_audio.hpp
index ebe2def..389437f 100644
--- a/desktop_blocks/sinks/sink_audio.hpp
+++ b/desktop_blocks/sinks/sink_audio.hpp
@@ -49,24 +49,30 @@ struct SinkAudioBlock : public cler::BlockBase {
                 std::to_string(cler::DOUBLY_MAPPED_MIN_SIZE / sizeof(float)) + " elements");
         }
 
-        // Initialize PortAudio (safe to call multiple times)
+        // Initialize PortAudio (safe to call multiple times, each matched by a Pa_Terminate)
         PaError err = Pa_Initialize();
         pa_check(err);
 
-        // Validate device index if specified
-        if (device_index != paNoDevice) {
-            int num_devices = Pa_GetDeviceCount();
-            if (num_devices < 0 || device_index >= num_devices) {
-                throw std::invalid_argument("Invalid device index: " + std::to_string(device_index));
+        try {
+            // Validate device index if specified
+            if (device_index != paNoDevice) {
+                int num_devices = Pa_GetDeviceCount();
+                if (num_devices < 0 || device_index >= num_devices) {
+                    throw std::invalid_argument("Invalid device index: " + std::to_string(device_index));
+                }
             }
-        }
 
-        // Open the audio stream
-        _open_stream();
+            // Open the audio stream
+            _open_stream();
+        } catch (...) {
+            Pa_Terminate();
+            throw;
+        }
     }
 
     ~SinkAudioBlock() {
         _close_stream();
+        Pa_Terminate();
     }
 
     cler::Result<cler::Empty, cler::Error> procedure() {
-- 
2.43.0


From bdf01e1d96b4b5537345c9f663bfb92b446740db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:07 +0000
Subject: [PATCH 28/53] fix: SinkUHDBlock works without an initial
 configuration

---
 desktop_blocks/sinks/sink_uhd.hpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/desktop_blocks/sinks/sink_uhd.hpp b/desktop_blocks/sinks/sink_uhd.hpp
index 028d846..39baa42 100644
--- a/desktop_blocks/sinks/sink_uhd.hpp
+++ b/desktop_blocks/sinks/sink_uhd.hpp
@@ -101,10 +101,6 @@ struct SinkUHDBlock : public cler::BlockBase {
                 throw std::runtime_error("SinkUHDBlock: Failed to setup TX stream");
             }
 
-            for (size_t channel = 0; channel < _num_channels; ++channel) {
-                configure(*initial_config, channel);
-            }
-
             // Allocate UHD buffer pointer array (vector auto-manages)
             _uhd_buffs.resize(_num_channels);
             _read_ptrs.resize(_num_channels);
-- 
2.43.0


From 80504f0c9138effbc6d2724b6c149b9b830faeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:07 +0000
Subject: [PATCH 29/53] fix: SinkUHDBlock sends its channels together and
 consumes each of them

---
 desktop_blocks/sinks/sink_uhd.hpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/desktop_blocks/sinks/sink_uhd.hpp b/desktop_blocks/sinks/sink_uhd.hpp
index 39baa42..23a0498 100644
--- a/desktop_blocks/sinks/sink_uhd.hpp
+++ b/desktop_blocks/sinks/sink_uhd.hpp
@@ -195,24 +195,31 @@ struct SinkUHDBlock : public cler::BlockBase {
         if (_configuring.load(std::memory_order_acquire)) {
             return cler::Empty{};  // Skip this iteration
         }
+        // One send() carries every channel of the stream, the same number of samples from each
+        size_t to_send = SIZE_MAX;
         for (size_t i = 0; i < _num_channels; ++i) {
             auto [ptr, size] = in[i].read_dbf();
             _read_ptrs[i] = ptr;
             _read_sizes[i] = size;
+            _uhd_buffs[i] = const_cast<T*>(ptr);
 
             if (_read_sizes[i] < (cler::DOUBLY_MAPPED_MIN_SIZE / sizeof(T)) / 4) {
                 return cler::Error::NotEnoughSamples;
             }
-            uhd::tx_metadata_t md;
-            md.start_of_burst = false;
-            md.end_of_burst = false;
-            md.has_time_spec = false;               
-
-            size_t sent = _tx_stream->send(_read_ptrs[i],
-                            _read_sizes[i],
-                            md,
-                            0.1);  // 100ms timeout
-            in->commit_read(sent);
+            to_send = std::min(to_send, size);
+        }
+
+        uhd::tx_metadata_t md;
+        md.start_of_burst = false;
+        md.end_of_burst = false;
+        md.has_time_spec = false;
+
+        size_t sent = _tx_stream->send(_uhd_buffs,
+                        to_send,
+                        md,
+                        0.1);  // 100ms timeout
+        for (size_t i = 0; i < _num_channels; ++i) {
+            in[i].commit_read(sent);
         }
 
         handle_async_events();
-- 
2.43.0


From f75715dd8a82aebfbebb37662dcaa412858cb8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:07 +0000
Subject: [PATCH 30/53] fix: SourceUHDBlock receives its channels together and
 reports errors without samples

---
 desktop_blocks/sources/source_uhd.hpp | 56 +++++++++++----------------
 1 file changed, 22 insertions(+), 34 deletions(-)

diff --git a/desktop_blocks/sources/source_uhd.hpp b/desktop_blocks/sources/source_uhd.hpp
index 7ef4278..289656d 100644
--- a/desktop_blocks/sources/source_uhd.hpp
+++ b/desktop_blocks/sources/source_uhd.hpp
@@ -133,43 +133,30 @@ struct SourceUHDBlock : public cler::BlockBase {
         }
 
         uhd::rx_metadata_t md;
-        cler::Error result_error = cler::Error::OK;
-        [&]<std::size_t... Is>(std::index_sequence<Is...>) {
-            ([&](OChannels* out) {
-
-                if (result_error != cler::Error::OK) {
-                    return;
-                }
-                auto [write_ptr, write_size] = out->write_dbf();
-                if (!write_ptr || write_size == 0) {
-                    result_error = cler::Error::NotEnoughSpace;
-                    return;
-                }
-                size_t num_rx = rx_stream->recv(write_ptr, write_size, md, 0.1);
-                if (num_rx == 0) {
-                    return;
-                }
-                if (md.error_code == uhd::rx_metadata_t::ERROR_CODE_OVERFLOW) {
-                    overflow_count++;
-                } else if (md.error_code != uhd::rx_metadata_t::ERROR_CODE_NONE &&
-                            md.error_code != uhd::rx_metadata_t::ERROR_CODE_TIMEOUT) {
-                    std::cerr << "SourceUHDBlock: " << md.strerror() << std::endl;
-                    result_error = cler::Error::TERM_ProcedureError;
-                    return;
-                }
-
-                out->commit_write(num_rx);
-            }(outs), ...);
-        }(std::make_index_sequence<num_outs>{});
-
-
-
-        if (result_error != cler::Error::OK) {
-            return result_error;
+        // One recv() fills every channel of the stream with the same number of samples
+        std::vector<void*>& buffs = _uhd_buffs;
+        buffs.clear();
+        size_t to_read = SIZE_MAX;
+        ([&](OChannels* out) {
+            auto [write_ptr, write_size] = out->write_dbf();
+            buffs.push_back(write_ptr);
+            to_read = std::min(to_read, write_ptr ? write_size : 0);
+        }(outs), ...);
+        if (to_read == 0) {
+            return cler::Error::NotEnoughSpace;
         }
-        return cler::Empty{};
 
+        size_t num_rx = rx_stream->recv(buffs, to_read, md, 0.1);
+        (outs->commit_write(num_rx), ...);
 
+        if (md.error_code == uhd::rx_metadata_t::ERROR_CODE_OVERFLOW) {
+            overflow_count++;
+        } else if (md.error_code != uhd::rx_metadata_t::ERROR_CODE_NONE &&
+                    md.error_code != uhd::rx_metadata_t::ERROR_CODE_TIMEOUT) {
+            std::cerr << "SourceUHDBlock: " << md.strerror() << std::endl;
+            return cler::Error::TERM_ProcedureError;
+        }
+        return cler::Empty{};
     }
     size_t get_overflow_count() const { return overflow_count; }
 
@@ -185,6 +172,7 @@ private:
     size_t _num_channels;
     std::string wire_format;
     std::atomic<bool> _configuring;
+    std::vector<void*> _uhd_buffs;
     size_t overflow_count = 0;
 };
 
-- 
2.43.0


From caeab1697cf54d65e8e554d956a6c92bc5cdf22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:07 +0000
Subject: [PATCH 31/53] fix: SourceUHDBlock stops the stream it started

---
 desktop_blocks/sources/source_uhd.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/desktop_blocks/sources/source_uhd.hpp b/desktop_blocks/sources/source_uhd.hpp
index 289656d..2664fa2 100644
--- a/desktop_blocks/sources/source_uhd.hpp
+++ b/desktop_blocks/sources/source_uhd.hpp
@@ -75,6 +75,9 @@ struct SourceUHDBlock : public cler::BlockBase {
     }
 
     ~SourceUHDBlock() {
+        if (rx_stream) {
+            rx_stream->issue_stream_cmd(uhd::stream_cmd_t(uhd::stream_cmd_t::STREAM_MODE_STOP_CONTINUOUS));
+        }
         if (overflow_count > 0) {
             std::cout << "SourceUHDBlock: Total overflows: " << overflow_count << std::endl;
         }
-- 
2.43.0


From 52d7c7f9b1d5d1943661f8d1fba86d2d6bea6056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:34 +0000
Subject: [PATCH 32/53] fix: SourceAudioFileBlock frees what it opened when
 construction fails

---
 desktop_blocks/sources/source_audio_file.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/sources/source_audio_file.hpp b/desktop_blocks/sources/source_audio_file.hpp
index 2b8cb72..8295992 100644
--- a/desktop_blocks/sources/source_audio_file.hpp
+++ b/desktop_blocks/sources/source_audio_file.hpp
@@ -55,7 +55,12 @@ struct SourceAudioFileBlock : public cler::BlockBase {
           _audio_stream_idx(-1),
           _eof_reached(false)
     {
-        _open_audio_file();
+        try {
+            _open_audio_file();
+        } catch (...) {
+            _close_audio_file();  // a constructor that throws runs no destructor
+            throw;
+        }
     }
 
     ~SourceAudioFileBlock() {
-- 
2.43.0


From 78d9d3bb92c92b75ead558dbbc792e7ed2e05414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:34 +0000
Subject: [PATCH 33/53] fix: SourceAudioFileBlock mixes down files of more than
 two channels

---
 desktop_blocks/sources/source_audio_file.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/desktop_blocks/sources/source_audio_file.hpp b/desktop_blocks/sources/source_audio_file.hpp
index 8295992..ec76d3d 100644
--- a/desktop_blocks/sources/source_audio_file.hpp
+++ b/desktop_blocks/sources/source_audio_file.hpp
@@ -197,17 +197,23 @@ private:
         // FFmpeg version compatibility: handle channel layout API changes
         #if LIBAVCODEC_VERSION_MAJOR >= 59
             // FFmpeg 5.0+ (libavcodec 59+): New AVChannelLayout API
-            int64_t input_ch_layout = _codec_ctx->ch_layout.nb_channels > 1
-                ? AV_CH_LAYOUT_STEREO
-                : AV_CH_LAYOUT_MONO;
+            AVChannelLayout default_layout = {};
+            av_channel_layout_default(&default_layout, _codec_ctx->ch_layout.nb_channels);
+            const AVChannelLayout& input_layout = _codec_ctx->ch_layout.order == AV_CHANNEL_ORDER_UNSPEC
+                ? default_layout
+                : _codec_ctx->ch_layout;
+            int64_t input_ch_layout = input_layout.order == AV_CHANNEL_ORDER_NATIVE
+                ? static_cast<int64_t>(input_layout.u.mask)
+                : 0;
+            if (input_ch_layout == 0) {
+                throw std::runtime_error("Unsupported channel layout");
+            }
         #else
             // FFmpeg 4.x (libavcodec 58): Legacy channel_layout/channels fields
             int64_t input_ch_layout = _codec_ctx->channel_layout;
             if (input_ch_layout == 0) {
                 // channel_layout not set, derive from channel count
-                input_ch_layout = _codec_ctx->channels > 1
-                    ? AV_CH_LAYOUT_STEREO
-                    : AV_CH_LAYOUT_MONO;
+                input_ch_layout = av_get_default_channel_layout(_codec_ctx->channels);
             }
         #endif
 
-- 
2.43.0


From 4933756e00b1463507a6e014ad7483442c6fb407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:34 +0000
Subject: [PATCH 34/53] fix: SourceAudioFileBlock plays the whole file however
 little room there is, and announces its end once

---
 desktop_blocks/sources/source_audio_file.hpp | 137 +++++++++++--------
 1 file changed, 81 insertions(+), 56 deletions(-)

diff --git a/desktop_blocks/sources/source_audio_file.hpp b/desktop_blocks/sources/source_audio_file.hpp
index ec76d3d..44d242d 100644
--- a/desktop_blocks/sources/source_audio_file.hpp
+++ b/desktop_blocks/sources/source_audio_file.hpp
@@ -78,72 +78,55 @@ struct SourceAudioFileBlock : public cler::BlockBase {
         }
 
         size_t samples_written = 0;
-        int ret = 0;
-
-        while (samples_written < write_size) {
-            ret = av_read_frame(_format_ctx, &_packet);
-
-            if (ret == AVERROR_EOF) {
-                if (_repeat) {
-                    // Seek to beginning and retry
-                    av_seek_frame(_format_ctx, _audio_stream_idx, 0, AVSEEK_FLAG_BACKWARD);
-                    avcodec_flush_buffers(_codec_ctx);
-                    continue;
-                } else {
-                    _eof_reached = true;
-                    if (_callback) {
-                        _callback(_filename);
-                    }
-                    break;
-                }
-            } else if (ret < 0) {
-                return cler::Error::TERM_IOError;
+        cler::Error error = cler::Error::OK;
+
+        while (samples_written < write_size && !_finished) {
+            // Resample the frame at hand, or take what the resampler still holds of earlier ones
+            uint8_t* out_bufs[] = {reinterpret_cast<uint8_t*>(write_ptr + samples_written)};
+            int frame_count = swr_convert(
+                _resampler,
+                out_bufs,
+                write_size - samples_written,
+                _eof_reached ? nullptr : (const uint8_t**)_frame->extended_data,
+                _frame_ready ? _frame->nb_samples : 0
+            );
+            _frame_ready = false;
+            if (frame_count < 0) {
+                error = cler::Error::TERM_IOError;
+                break;
             }
-
-            if (_packet.stream_index != _audio_stream_idx) {
-                av_packet_unref(&_packet);
-                continue;
+            samples_written += frame_count;
+            if (samples_written >= write_size) {
+                break;
             }
-
-            ret = avcodec_send_packet(_codec_ctx, &_packet);
-            av_packet_unref(&_packet);
-
-            if (ret < 0) {
-                return cler::Error::TERM_IOError;
+            if (_eof_reached) {
+                _finished = true;  // nothing left in the decoder or the resampler
+                break;
             }
 
-            while (avcodec_receive_frame(_codec_ctx, _frame) == 0) {
-                // Resample to desired format and sample rate
-                // Prepare output buffer pointer (advance by already-written samples)
-                uint8_t* out_buf = reinterpret_cast<uint8_t*>(write_ptr) + samples_written * sizeof(T);
-                uint8_t* out_bufs[] = {out_buf};
-
-                int frame_count = swr_convert(
-                    _resampler,
-                    out_bufs,
-                    write_size - samples_written,
-                    (const uint8_t**)_frame->data,
-                    _frame->nb_samples
-                );
-
-                if (frame_count < 0) {
-                    return cler::Error::TERM_IOError;
-                }
-
-                samples_written += frame_count;
-
-                if (samples_written >= write_size) {
-                    break;
-                }
+            int ret = _next_frame();
+            if (ret == AVERROR_EOF) {
+                _eof_reached = true;
+            } else if (ret < 0) {
+                error = cler::Error::TERM_IOError;
+                break;
+            } else {
+                _frame_ready = true;
             }
         }
 
         if (samples_written > 0) {
             out->commit_write(samples_written);
         }
+        if (error != cler::Error::OK) {
+            return error;
+        }
 
-        if (_eof_reached && samples_written == 0) {
-            return cler::Empty{};
+        if (_finished && !_announced) {
+            _announced = true;
+            if (_callback) {
+                _callback(_filename);
+            }
         }
 
         return cler::Empty{};
@@ -160,7 +143,49 @@ private:
     AVFrame* _frame;
     AVPacket _packet = {};  // Zero-init (no av_init_packet needed)
     int _audio_stream_idx;
-    bool _eof_reached;
+    bool _eof_reached;           // the decoder has given its last frame
+    bool _frame_ready = false;   // _frame waits for the resampler
+    bool _any_frame = false;     // this pass through the file gave a frame
+    bool _finished = false;      // every sample is out
+    bool _announced = false;
+
+    // Decodes the next frame of the audio stream into _frame. AVERROR_EOF when there is none left.
+    int _next_frame() {
+        while (true) {
+            int ret = avcodec_receive_frame(_codec_ctx, _frame);
+            if (ret == 0) {
+                _any_frame = true;
+                return 0;
+            }
+            if (ret == AVERROR_EOF && _repeat && _any_frame) {
+                // Seek to beginning and retry
+                _any_frame = false;
+                ret = av_seek_frame(_format_ctx, _audio_stream_idx, 0, AVSEEK_FLAG_BACKWARD);
+                if (ret < 0) {
+                    return ret;
+                }
+                avcodec_flush_buffers(_codec_ctx);
+                continue;
+            }
+            if (ret == AVERROR_EOF) {
+                return ret;
+            }
+            // Otherwise it wants more of the file; what it cannot decode is skipped
+
+            ret = av_read_frame(_format_ctx, &_packet);
+            if (ret == AVERROR_EOF) {
+                ret = avcodec_send_packet(_codec_ctx, nullptr);  // let out what the decoder holds back
+            } else if (ret >= 0) {
+                if (_packet.stream_index == _audio_stream_idx) {
+                    ret = avcodec_send_packet(_codec_ctx, &_packet);
+                }
+                av_packet_unref(&_packet);
+            }
+            if (ret < 0) {
+                return ret;
+            }
+        }
+    }
 
     void _open_audio_file() {
         // Open input file
-- 
2.43.0


From 52f2a8896fe291f64804d7d90fded90778c31124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 35/53] fix: mode_s_decode leaves no field of the message
 uninitialised

---
 desktop_blocks/adsb/modes.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/desktop_blocks/adsb/modes.c b/desktop_blocks/adsb/modes.c
index e7d52e3..44a32e5 100644
--- a/desktop_blocks/adsb/modes.c
+++ b/desktop_blocks/adsb/modes.c
@@ -564,6 +564,10 @@ void mode_s_decode(mode_s_t *self, struct mode_s_msg *mm, unsigned char *msg)
 {
 	uint32_t crc2; // Computed CRC, used to verify the message CRC.
 
+	// What the message does not carry must not hold whatever was in memory
+	memset(mm, 0, sizeof(*mm));
+	mm->heading = -1;
+
 	// Work on our local copy
 	memcpy(mm->msg, msg, MODE_S_LONG_MSG_BYTES);
 	msg = mm->msg;
-- 
2.43.0


From 6e52a062cbe971d420bf8b135d9d436266bec52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 36/53] fix: ADS-B velocities and vertical rates are in knots
 and feet per minute

---
 desktop_blocks/adsb/adsb_aggregate.hpp |  5 ++--
 desktop_blocks/adsb/modes.c            | 32 +++++++++++++++-----------
 desktop_blocks/adsb/modes.h            |  8 +++----
 3 files changed, 26 insertions(+), 19 deletions(-)

diff --git a/desktop_blocks/adsb/adsb_aggregate.hpp b/desktop_blocks/adsb/adsb_aggregate.hpp
index 5893455..d7ead67 100644
--- a/desktop_blocks/adsb/adsb_aggregate.hpp
+++ b/desktop_blocks/adsb/adsb_aggregate.hpp
@@ -91,8 +91,9 @@ struct ADSBAggregateBlock : public cler::BlockBase {
                     }
                 }
                 if (msg.vert_rate != 0) {
-                    if (state.vertical_rate != msg.vert_rate) {
-                        state.vertical_rate = msg.vert_rate;
+                    const int vertical_rate = (msg.vert_rate - 1) * (msg.vert_rate_sign ? -64 : 64);
+                    if (state.vertical_rate != vertical_rate) {
+                        state.vertical_rate = vertical_rate;
                         state_changed = true;
                     }
                 }
diff --git a/desktop_blocks/adsb/modes.c b/desktop_blocks/adsb/modes.c
index 44a32e5..70543f1 100644
--- a/desktop_blocks/adsb/modes.c
+++ b/desktop_blocks/adsb/modes.c
@@ -725,18 +725,21 @@ void mode_s_decode(mode_s_t *self, struct mode_s_msg *mm, unsigned char *msg)
 				mm->ew_velocity = ((msg[5]&3) << 8) | msg[6];
 				mm->ns_dir = (msg[7]&0x80) >> 7;
 				mm->ns_velocity = ((msg[7]&0x7f) << 3) | ((msg[8]&0xe0) >> 5);
-				mm->vert_rate_source = (msg[8]&0x10) >> 4;
-				mm->vert_rate_sign = (msg[8]&0x8) >> 3;
-				mm->vert_rate = ((msg[8]&7) << 6) | ((msg[9]&0xfc) >> 2);
+
+				// The fields hold the speed plus one (0: not available), in units
+				// of 4 knots for supersonic aircraft
+				int unit = (mm->mesub == 2) ? 4 : 1;
+				int ewv = (mm->ew_velocity - 1) * unit;
+				int nsv = (mm->ns_velocity - 1) * unit;
 
 				// Compute velocity and angle from the two speed components
-				mm->velocity = sqrt(mm->ns_velocity*mm->ns_velocity+
-									mm->ew_velocity*mm->ew_velocity);
-				
+				if (mm->ew_velocity && mm->ns_velocity)
+				{
+					mm->velocity = sqrt(nsv*nsv + ewv*ewv);
+				}
+
 				if (mm->velocity) 
 				{
-					int ewv = mm->ew_velocity;
-					int nsv = mm->ns_velocity;
 					double heading;
 
 					if (mm->ew_dir) ewv *= -1;
@@ -749,16 +752,19 @@ void mode_s_decode(mode_s_t *self, struct mode_s_msg *mm, unsigned char *msg)
 					// We don't want negative values but a 0-360 scale.
 					if (mm->heading < 0) mm->heading += 360;
 				}
-				else
-				{
-					mm->heading = 0;
-				}
 			} 
 			else if (mm->mesub == 3 || mm->mesub == 4) 
 			{
 				mm->heading_is_valid = msg[5] & (1<<2);
-				mm->heading = (360.0/128) * (((msg[5] & 3) << 5) | (msg[6] >> 3));
+				if (mm->heading_is_valid)
+				{
+					mm->heading = (360.0/128) * (((msg[5] & 3) << 5) | (msg[6] >> 3));
+				}
 			}
+
+			mm->vert_rate_source = (msg[8]&0x10) >> 4;
+			mm->vert_rate_sign = (msg[8]&0x8) >> 3;
+			mm->vert_rate = ((msg[8]&7) << 6) | ((msg[9]&0xfc) >> 2);
 		}
 	}
 	mm->phase_corrected = 0; // Set to 1 by the caller if needed.
diff --git a/desktop_blocks/adsb/modes.h b/desktop_blocks/adsb/modes.h
index 606c5b3..1745e4c 100644
--- a/desktop_blocks/adsb/modes.h
+++ b/desktop_blocks/adsb/modes.h
@@ -56,7 +56,7 @@ struct mode_s_msg
 	int metype;                 // Extended squitter message type.
 	int mesub;                  // Extended squitter message subtype.
 	int heading_is_valid;
-	int heading;
+	int heading;                // Degrees. -1 if the message gives none.
 	int aircraft_type;
 	int fflag;                  // 1 = Odd, 0 = Even CPR message.
 	int tflag;                  // UTC synchronized?
@@ -64,12 +64,12 @@ struct mode_s_msg
 	int raw_longitude;          // Non decoded longitude
 	char flight[9];             // 8 chars flight number.
 	int ew_dir;                 // 0 = East, 1 = West.
-	int ew_velocity;            // E/W velocity.
+	int ew_velocity;            // E/W velocity field (speed plus one, 0: not available).
 	int ns_dir;                 // 0 = North, 1 = South.
-	int ns_velocity;            // N/S velocity.
+	int ns_velocity;            // N/S velocity field (speed plus one, 0: not available).
 	int vert_rate_source;       // Vertical rate source.
 	int vert_rate_sign;         // Vertical rate sign.
-	int vert_rate;              // Vertical rate.
+	int vert_rate;              // Vertical rate field (in 64 ft/min, plus one, 0: not available).
 	int velocity;               // Computed from EW and NS velocity.
 
 	// ------ DF4, DF5, DF20, DF21 -------
-- 
2.43.0


From 13d6dac817564bccb6ace2e4a135f62f18acbc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 37/53] fix: Mode S detectors look at no sample beyond the
 buffer, and find each message once at 2.4 MSPS

---
 desktop_blocks/adsb/modes.c      | 5 +++++
 desktop_blocks/adsb/modes_2400.c | 7 ++++++-
 desktop_blocks/adsb/modes_2400.h | 3 +++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/adsb/modes.c b/desktop_blocks/adsb/modes.c
index 70543f1..d06cd42 100644
--- a/desktop_blocks/adsb/modes.c
+++ b/desktop_blocks/adsb/modes.c
@@ -869,6 +869,11 @@ void mode_s_detect(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callba
 	// 8   --
 	// 9   -------------------
 
+	if (maglen < MODE_S_FULL_LEN*2)
+	{
+		return;
+	}
+
 	for (j = 0; j < maglen - MODE_S_FULL_LEN*2; j++)
 	{
 		int low, high, delta, i, errors;
diff --git a/desktop_blocks/adsb/modes_2400.c b/desktop_blocks/adsb/modes_2400.c
index bee74fe..e98d411 100644
--- a/desktop_blocks/adsb/modes_2400.c
+++ b/desktop_blocks/adsb/modes_2400.c
@@ -28,7 +28,10 @@ void mode_s_detect_2400(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_c
 
     msg = msg1;
 
-    for (j = 0; j < maglen - 300; j++) {
+    if (maglen < MODE_S_2400_LONG_MSG_SAMPLES)
+        return;
+
+    for (j = 0; j < maglen - MODE_S_2400_LONG_MSG_SAMPLES; j++) {
         uint16_t *preamble = &mag[j];
         int high;
         uint32_t base_signal, base_noise;
@@ -207,6 +210,8 @@ void mode_s_detect_2400(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_c
             struct mode_s_msg mm;
             mode_s_decode(self, &mm, bestmsg);
             if (mm.crcok) {
+                // The samples of this message hold no other: do not find it again half a sample later
+                j += (8 + mm.msgbits) * 12 / 5 - 1;
                 cb(self, &mm, cb_context);
             }
         }
diff --git a/desktop_blocks/adsb/modes_2400.h b/desktop_blocks/adsb/modes_2400.h
index 00925ea..c7db53d 100644
--- a/desktop_blocks/adsb/modes_2400.h
+++ b/desktop_blocks/adsb/modes_2400.h
@@ -7,6 +7,9 @@
 extern "C" {
 #endif
 
+// What the detector looks at from the start of a message on
+#define MODE_S_2400_LONG_MSG_SAMPLES 300
+
 // 2.4 MSPS Mode S detector
 // Uses the same callback interface as modes.h but with 2.4MHz sampling
 void mode_s_detect_2400(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callback_t cb, void *cb_context);
-- 
2.43.0


From d090828fa715fed242229ff1dd46a92cd4c02ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 38/53] fix: ADSBDecoderBlock loses no message that crosses a
 chunk or finds little room

---
 desktop_blocks/adsb/adsb_decoder.hpp | 18 +++++++++++-------
 desktop_blocks/adsb/modes.c          |  5 +++--
 desktop_blocks/adsb/modes.h          |  3 ++-
 desktop_blocks/adsb/modes_2400.c     |  5 +++--
 desktop_blocks/adsb/modes_2400.h     |  4 ++--
 5 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/desktop_blocks/adsb/adsb_decoder.hpp b/desktop_blocks/adsb/adsb_decoder.hpp
index d8d485a..d40c4de 100644
--- a/desktop_blocks/adsb/adsb_decoder.hpp
+++ b/desktop_blocks/adsb/adsb_decoder.hpp
@@ -42,10 +42,11 @@ struct ADSBDecoderBlock : public cler::BlockBase {
 
         auto [read_ptr, read_size] = in.read_dbf();
 
-        // Mode S detection requires at least MODES_LONG_MSG_SAMPLES samples
-        // (preamble + longest message at 2 samples per bit)
+        // A message that starts in the last samples may not be all there yet: they stay in
+        // the channel until the rest arrives
         constexpr size_t MODES_LONG_MSG_SAMPLES = 240;  // 16 preamble + 112*2 bits
-        if (read_size < MODES_LONG_MSG_SAMPLES) {
+        const size_t overlap = (_mode == SampleRateMode::RATE_2MHZ) ? MODES_LONG_MSG_SAMPLES : MODE_S_2400_LONG_MSG_SAMPLES;
+        if (read_size <= overlap) {
             return cler::Error::NotEnoughSamples;
         }
 
@@ -54,11 +55,12 @@ struct ADSBDecoderBlock : public cler::BlockBase {
             return cler::Error::NotEnoughSpace;
         }
 
-        // Limit to buffer size to prevent overflow
+        // Limit to buffer size to prevent overflow, and look no further than for as many messages as there is room for
+        constexpr size_t MODES_SHORT_MSG_SAMPLES = 128;  // 16 preamble + 56*2 bits
         size_t to_process = std::min(read_size, BUFFER_ELEMENTS);
+        to_process = std::min(to_process, overlap + write_space * MODES_SHORT_MSG_SAMPLES);
 
         memcpy(_tmp_buffer, read_ptr, to_process * sizeof(uint16_t));
-        in.commit_read(to_process);
 
         total_samples += to_process;
         call_count++;
@@ -67,11 +69,13 @@ struct ADSBDecoderBlock : public cler::BlockBase {
         ctx.out_channel = out;
         ctx.df_filter = _df_filter;
 
+        size_t done;
         if (_mode == SampleRateMode::RATE_2MHZ) {
-            mode_s_detect(&_decoder_state, _tmp_buffer, to_process, on_message_detected, &ctx);
+            done = mode_s_detect(&_decoder_state, _tmp_buffer, to_process, on_message_detected, &ctx);
         } else {
-            mode_s_detect_2400(&_decoder_state, _tmp_buffer, to_process, on_message_detected, &ctx);
+            done = mode_s_detect_2400(&_decoder_state, _tmp_buffer, to_process, on_message_detected, &ctx);
         }
+        in.commit_read(done);
 
         return cler::Empty{};
     }
diff --git a/desktop_blocks/adsb/modes.c b/desktop_blocks/adsb/modes.c
index d06cd42..2a268d7 100644
--- a/desktop_blocks/adsb/modes.c
+++ b/desktop_blocks/adsb/modes.c
@@ -837,7 +837,7 @@ void apply_phase_correction(uint16_t *mag)
 // Detect a Mode S messages inside the magnitude buffer pointed by 'mag' and of
 // size 'maglen' bytes. Every detected Mode S message is convert it into a
 // stream of bits and passed to the function to display it.
-void mode_s_detect(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callback_t cb, void *cb_context)
+uint32_t mode_s_detect(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callback_t cb, void *cb_context)
 {
 	//printf("[MODES] Starting Mode S message detection on %u samples\n", maglen);
 	unsigned char bits[MODE_S_LONG_MSG_BITS];
@@ -871,7 +871,7 @@ void mode_s_detect(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callba
 
 	if (maglen < MODE_S_FULL_LEN*2)
 	{
-		return;
+		return 0;
 	}
 
 	for (j = 0; j < maglen - MODE_S_FULL_LEN*2; j++)
@@ -1065,4 +1065,5 @@ void mode_s_detect(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callba
 		}
         
 	}
+	return j;
 }
diff --git a/desktop_blocks/adsb/modes.h b/desktop_blocks/adsb/modes.h
index 1745e4c..a137f44 100644
--- a/desktop_blocks/adsb/modes.h
+++ b/desktop_blocks/adsb/modes.h
@@ -85,7 +85,8 @@ struct mode_s_msg
 typedef void (*mode_s_callback_t)(mode_s_t *self, struct mode_s_msg *mm, void *context);
 
 void mode_s_init(mode_s_t *self);
-void mode_s_detect(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callback_t cb, void *context);
+// Returns how many samples are done with: a message that starts in the others may not be all there yet
+uint32_t mode_s_detect(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callback_t cb, void *context);
 void mode_s_decode(mode_s_t *self, struct mode_s_msg *mm, unsigned char *msg);
 void mode_s_display_message(struct mode_s_msg *mm);
 
diff --git a/desktop_blocks/adsb/modes_2400.c b/desktop_blocks/adsb/modes_2400.c
index e98d411..62bb9df 100644
--- a/desktop_blocks/adsb/modes_2400.c
+++ b/desktop_blocks/adsb/modes_2400.c
@@ -20,7 +20,7 @@ static inline int slice_phase4(uint16_t *m) {
     return m[0] + 5 * m[1] - 5 * m[2] - m[3];
 }
 
-void mode_s_detect_2400(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callback_t cb, void *cb_context) {
+uint32_t mode_s_detect_2400(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callback_t cb, void *cb_context) {
     uint32_t j;
     unsigned char msg1[14], msg2[14], *msg;
     unsigned char *bestmsg;
@@ -29,7 +29,7 @@ void mode_s_detect_2400(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_c
     msg = msg1;
 
     if (maglen < MODE_S_2400_LONG_MSG_SAMPLES)
-        return;
+        return 0;
 
     for (j = 0; j < maglen - MODE_S_2400_LONG_MSG_SAMPLES; j++) {
         uint16_t *preamble = &mag[j];
@@ -216,4 +216,5 @@ void mode_s_detect_2400(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_c
             }
         }
     }
+    return j;
 }
diff --git a/desktop_blocks/adsb/modes_2400.h b/desktop_blocks/adsb/modes_2400.h
index c7db53d..f5c2338 100644
--- a/desktop_blocks/adsb/modes_2400.h
+++ b/desktop_blocks/adsb/modes_2400.h
@@ -11,8 +11,8 @@ extern "C" {
 #define MODE_S_2400_LONG_MSG_SAMPLES 300
 
 // 2.4 MSPS Mode S detector
-// Uses the same callback interface as modes.h but with 2.4MHz sampling
-void mode_s_detect_2400(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callback_t cb, void *cb_context);
+// Uses the same callback interface (and return value) as modes.h but with 2.4MHz sampling
+uint32_t mode_s_detect_2400(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callback_t cb, void *cb_context);
 
 #ifdef __cplusplus
 }
-- 
2.43.0


From a19dcf232c61fd6680a83657d8b1437c30cdaa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 39/53] fix: ADSBDecoderBlock instances share no counters, and
 set_df_filter is thread-safe as it says

---
 desktop_blocks/adsb/adsb_decoder.hpp | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/desktop_blocks/adsb/adsb_decoder.hpp b/desktop_blocks/adsb/adsb_decoder.hpp
index d40c4de..283bfef 100644
--- a/desktop_blocks/adsb/adsb_decoder.hpp
+++ b/desktop_blocks/adsb/adsb_decoder.hpp
@@ -5,6 +5,7 @@
 #include "desktop_blocks/adsb/modes_2400.h"
 #include <cstring>
 #include <algorithm>
+#include <atomic>
 
 struct ADSBDecoderBlock : public cler::BlockBase {
     cler::Channel<uint16_t> in;
@@ -37,9 +38,6 @@ struct ADSBDecoderBlock : public cler::BlockBase {
     }
 
     cler::Result<cler::Empty, cler::Error> procedure(cler::ChannelBase<mode_s_msg>* out) {
-        static size_t call_count = 0;
-        static size_t total_samples = 0;
-
         auto [read_ptr, read_size] = in.read_dbf();
 
         // A message that starts in the last samples may not be all there yet: they stay in
@@ -62,9 +60,6 @@ struct ADSBDecoderBlock : public cler::BlockBase {
 
         memcpy(_tmp_buffer, read_ptr, to_process * sizeof(uint16_t));
 
-        total_samples += to_process;
-        call_count++;
-
         CallbackContext ctx;
         ctx.out_channel = out;
         ctx.df_filter = _df_filter;
@@ -88,7 +83,7 @@ struct ADSBDecoderBlock : public cler::BlockBase {
 private:
     mode_s_t _decoder_state;
     SampleRateMode _mode;
-    uint32_t _df_filter;
+    std::atomic<uint32_t> _df_filter;
     uint16_t* _tmp_buffer = nullptr;
 
     // Context for callback
@@ -98,14 +93,6 @@ private:
     };
 
     static void on_message_detected(mode_s_t* self, struct mode_s_msg* mm, void* context) {
-        static size_t total_messages = 0;
-        static size_t good_crc_messages = 0;
-
-        total_messages++;
-        if (mm->crcok) {
-            good_crc_messages++;
-        }
-
         (void)self;
         CallbackContext* ctx = static_cast<CallbackContext*>(context);
 
-- 
2.43.0


From e16944493904313b1026baeed6b7bc26fb59d93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 40/53] fix: ADSBAggregateBlock pairs no even and odd position
 frames that are more than ten seconds apart

---
 desktop_blocks/adsb/adsb_aggregate.hpp | 11 +++++++++--
 desktop_blocks/adsb/adsb_types.hpp     |  3 +++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/desktop_blocks/adsb/adsb_aggregate.hpp b/desktop_blocks/adsb/adsb_aggregate.hpp
index d7ead67..6031ae0 100644
--- a/desktop_blocks/adsb/adsb_aggregate.hpp
+++ b/desktop_blocks/adsb/adsb_aggregate.hpp
@@ -107,14 +107,20 @@ struct ADSBAggregateBlock : public cler::BlockBase {
                     state.last_even_cprlat = msg.raw_latitude;
                     state.last_even_cprlon = msg.raw_longitude;
                     state.has_even_position = true;
+                    state.last_even_time = now;
                 } else {  // Odd frame (fflag == 1)
                     state.last_odd_cprlat = msg.raw_latitude;
                     state.last_odd_cprlon = msg.raw_longitude;
                     state.has_odd_position = true;
+                    state.last_odd_time = now;
                 }
 
-                // Try to decode position if we have both even and odd frames
-                if (state.has_even_position && state.has_odd_position) {
+                // Try to decode position if we have both even and odd frames, close enough in time
+                // that the aircraft cannot have left the zone in between
+                const uint32_t age = (state.last_even_time > state.last_odd_time)
+                    ? state.last_even_time - state.last_odd_time
+                    : state.last_odd_time - state.last_even_time;
+                if (state.has_even_position && state.has_odd_position && age <= MAX_CPR_PAIR_AGE_S) {
                     double lat, lon;
                     int result = decodeCPRairborne(
                         state.last_even_cprlat, state.last_even_cprlon,
@@ -251,6 +257,7 @@ private:
     CoastlineData _coastline_data;
     bool _coastlines_loaded;
 
+    static constexpr uint32_t MAX_CPR_PAIR_AGE_S = 10;
     static constexpr size_t MESSAGE_BUFFER_SIZE = 1024;
     mode_s_msg _msg_buffer[MESSAGE_BUFFER_SIZE];
 
diff --git a/desktop_blocks/adsb/adsb_types.hpp b/desktop_blocks/adsb/adsb_types.hpp
index 13d3f37..b4c2e33 100644
--- a/desktop_blocks/adsb/adsb_types.hpp
+++ b/desktop_blocks/adsb/adsb_types.hpp
@@ -24,6 +24,8 @@ struct ADSBState {
     int last_odd_cprlon;            // Last odd frame longitude (17 bits)
     bool has_even_position;         // True if we have a valid even position
     bool has_odd_position;          // True if we have a valid odd position
+    uint32_t last_even_time;        // Timestamp of the last even frame
+    uint32_t last_odd_time;         // Timestamp of the last odd frame
 
     // Altitude and speed (most recent)
     int altitude;                   // Altitude (feet)
@@ -41,6 +43,7 @@ struct ADSBState {
           last_even_cprlat(0), last_even_cprlon(0),
           last_odd_cprlat(0), last_odd_cprlon(0),
           has_even_position(false), has_odd_position(false),
+          last_even_time(0), last_odd_time(0),
           altitude(0), groundspeed(0.0f), track(0.0f), vertical_rate(0),
           last_update_time(0), message_count(0) {
         callsign[0] = '\0';
-- 
2.43.0


From da7d669ebe175849b0dae27b71ee7fd10b185ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 41/53] fix: ADSBAggregateBlock's table can be read and drawn
 while procedure() updates it

---
 desktop_blocks/adsb/adsb_aggregate.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/desktop_blocks/adsb/adsb_aggregate.hpp b/desktop_blocks/adsb/adsb_aggregate.hpp
index 6031ae0..70a91c1 100644
--- a/desktop_blocks/adsb/adsb_aggregate.hpp
+++ b/desktop_blocks/adsb/adsb_aggregate.hpp
@@ -8,6 +8,7 @@
 #include <unordered_map>
 #include <imgui.h>
 #include <cmath>
+#include <mutex>
 
 struct ADSBAggregateBlock : public cler::BlockBase {
     cler::Channel<mode_s_msg> in;
@@ -44,6 +45,7 @@ struct ADSBAggregateBlock : public cler::BlockBase {
         // Process all messages
         for (size_t i = 0; i < to_process; ++i) {
             const mode_s_msg& msg = _msg_buffer[i];
+            std::unique_lock<std::mutex> lock(_aircraft_mutex);
 
             // Get or create aircraft state for this ICAO
             uint32_t icao = (msg.aa1 << 16) | (msg.aa2 << 8) | msg.aa3;
@@ -149,7 +151,9 @@ struct ADSBAggregateBlock : public cler::BlockBase {
 
             // Fire callback if state changed
             if (state_changed && _callback) {
-                _callback(state, _callback_context);
+                const ADSBState changed = state;
+                lock.unlock();
+                _callback(changed, _callback_context);
             }
         }
 
@@ -157,6 +161,7 @@ struct ADSBAggregateBlock : public cler::BlockBase {
     }
 
     size_t get_aircrafts(ADSBState* buf, size_t max_count) const {
+        std::lock_guard<std::mutex> lock(_aircraft_mutex);
         size_t count = 0;
         for (const auto& pair : _aircraft) {
             if (count >= max_count) break;
@@ -166,6 +171,7 @@ struct ADSBAggregateBlock : public cler::BlockBase {
     }
 
     size_t aircraft_count() const {
+        std::lock_guard<std::mutex> lock(_aircraft_mutex);
         return _aircraft.size();
     }
 
@@ -203,7 +209,7 @@ struct ADSBAggregateBlock : public cler::BlockBase {
         // Draw info text
         ImGui::SetCursorScreenPos(ImVec2(canvas_pos.x + INFO_TEXT_OFFSET_X, canvas_p1.y - INFO_TEXT_OFFSET_Y));
         ImGui::Text("Aircraft: %zu | Center: %.2f°N, %.2f°W | Zoom: %.1fx",
-                    _aircraft.size(), _map_center_lat, -_map_center_lon, _map_zoom);
+                    aircraft_count(), _map_center_lat, -_map_center_lon, _map_zoom);
 
         // Handle mouse interactions
         handle_map_interaction(canvas_pos, canvas_size);
@@ -242,6 +248,7 @@ private:
     static constexpr float INITIAL_WINDOW_SIZE_Y = 800.0f;
 
     std::unordered_map<uint32_t, ADSBState> _aircraft;
+    mutable std::mutex _aircraft_mutex;  // the GUI thread reads what procedure() updates
     OnAircraftUpdateCallback _callback;
     void* _callback_context;
 
@@ -336,6 +343,7 @@ private:
     }
 
     void draw_aircraft(ImDrawList* draw_list, ImVec2 canvas_pos, ImVec2 canvas_size) {
+        std::lock_guard<std::mutex> lock(_aircraft_mutex);
         for (const auto& pair : _aircraft) {
             const ADSBState& state = pair.second;
 
-- 
2.43.0


From b2534a9b844e749d5f51156d1b26743b46e9994d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 42/53] fix: airborne headings use all ten bits of the field

---
 desktop_blocks/adsb/modes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/desktop_blocks/adsb/modes.c b/desktop_blocks/adsb/modes.c
index 2a268d7..956a2d6 100644
--- a/desktop_blocks/adsb/modes.c
+++ b/desktop_blocks/adsb/modes.c
@@ -758,7 +758,7 @@ void mode_s_decode(mode_s_t *self, struct mode_s_msg *mm, unsigned char *msg)
 				mm->heading_is_valid = msg[5] & (1<<2);
 				if (mm->heading_is_valid)
 				{
-					mm->heading = (360.0/128) * (((msg[5] & 3) << 5) | (msg[6] >> 3));
+					mm->heading = (360.0/1024) * (((msg[5] & 3) << 8) | msg[6]); // 10 bits
 				}
 			}
 
-- 
2.43.0


From 8e0b9e9999a9ba0117b6fe256fc953d4d36ca5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 43/53] fix: the coastline loader ignores records whose counts
 or part indices do not fit

---
 desktop_blocks/adsb/adsb_coastline_loader.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/adsb/adsb_coastline_loader.hpp b/desktop_blocks/adsb/adsb_coastline_loader.hpp
index 9a397a8..597c854 100644
--- a/desktop_blocks/adsb/adsb_coastline_loader.hpp
+++ b/desktop_blocks/adsb/adsb_coastline_loader.hpp
@@ -116,7 +116,9 @@ private:
         file.read(reinterpret_cast<char*>(&num_parts), 4);
         file.read(reinterpret_cast<char*>(&num_points), 4);
 
-        if (num_parts == 0 || num_points == 0) {
+        // Shape type, bounding box, counts, part indices and points must fit in the record
+        const uint64_t needed = 44 + 4ULL * num_parts + 16ULL * num_points;
+        if (!file || num_parts == 0 || num_points == 0 || needed > record_len) {
             // Skip to next record
             return;
         }
@@ -124,6 +126,12 @@ private:
         // Read part indices (each part is a uint32)
         std::vector<uint32_t> part_indices(num_parts);
         file.read(reinterpret_cast<char*>(part_indices.data()), num_parts * 4);
+        for (uint32_t part_idx = 0; part_idx < num_parts; ++part_idx) {
+            const uint32_t next = (part_idx + 1 < num_parts) ? part_indices[part_idx + 1] : num_points;
+            if (part_indices[part_idx] > next || next > num_points) {
+                return;
+            }
+        }
 
         // Read all points and organize by parts
         for (uint32_t part_idx = 0; part_idx < num_parts; ++part_idx) {
-- 
2.43.0


From 6c45b47b4a463606f9908e3d008fcff89a4fde0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:27 +0000
Subject: [PATCH 44/53] fix: desktop logger: reset_logfile() looks at the
 started flag under the lock

---
 desktop_logger/desktop_logger.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/desktop_logger/desktop_logger.cpp b/desktop_logger/desktop_logger.cpp
index 23ad671..b422ac1 100644
--- a/desktop_logger/desktop_logger.cpp
+++ b/desktop_logger/desktop_logger.cpp
@@ -92,9 +92,10 @@ namespace cler {
 
 logger_retval_enum reset_logfile(const char *log_filepath) noexcept {
     if (!log_filepath) return cler::LOGGER_FILEPATH_EMPTY;
-    if (!_logger_started) return cler::LOGGER_NOT_STARTED;
 
     std::lock_guard<std::mutex> lock(log_mutex);
+    if (!_logger_started) return cler::LOGGER_NOT_STARTED;
+
     _unguarded_close_log_file();
 
     _log_filepath = log_filepath;
-- 
2.43.0


From c8c9175ad51373e1ecf8d31c3fe2975688b2fa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:41 +0000
Subject: [PATCH 45/53] fix: EZGmskModBlock compares its room in samples, not
 bytes, so frames that fit are sent

---
 desktop_blocks/ezgmsk/ezgmsk_mod.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/desktop_blocks/ezgmsk/ezgmsk_mod.hpp b/desktop_blocks/ezgmsk/ezgmsk_mod.hpp
index bf79ef2..2330fc1 100644
--- a/desktop_blocks/ezgmsk/ezgmsk_mod.hpp
+++ b/desktop_blocks/ezgmsk/ezgmsk_mod.hpp
@@ -53,7 +53,7 @@ struct EZGmskModBlock : public cler::BlockBase {
             unsigned int frame_len = ezgmsk::ezgmsk_mod_get_frame_len(_mod);
             auto [write_ptr, write_space] = out->write_dbf();
 
-            if (write_space < frame_len * sizeof(liquid_float_complex)) {
+            if (write_space < frame_len) {
                 break;
             }
 
-- 
2.43.0


From 579e19caa5386b298eac7d6065fadc2bc9ed936e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:45 +0000
Subject: [PATCH 46/53] fix: the EZGMSK modulator sent the last preamble
 symbol's samples twice before the tail of an empty frame

---
 desktop_blocks/ezgmsk/_ezgmsk_mod.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/desktop_blocks/ezgmsk/_ezgmsk_mod.c b/desktop_blocks/ezgmsk/_ezgmsk_mod.c
index 927c819..75e9d55 100644
--- a/desktop_blocks/ezgmsk/_ezgmsk_mod.c
+++ b/desktop_blocks/ezgmsk/_ezgmsk_mod.c
@@ -262,9 +262,9 @@ int ezgmsk_mod_write_preamble(ezgmsk_mod _q)
 int ezgmsk_mod_write_data(ezgmsk_mod _q)
 {
     if (_q->data_len == 0) {
-        // skip data if length is zero
+        // skip data if length is zero: this symbol is the first of the tail
         _q->state = EZGMSK_MOD_STATE_TAIL;
-        return LIQUID_OK;
+        return ezgmsk_mod_write_tail(_q);
     }
 
     // determine byte and bit indices
-- 
2.43.0


From 949f32d14e9292d6e0b9fe198b89bf74d665455f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:36 +0000
Subject: [PATCH 47/53] fix: mermaid: a comment between the arguments of a
 BlockRunner is not a block or a channel

---
 tools/mermaid/src/cpp_parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/mermaid/src/cpp_parser.cpp b/tools/mermaid/src/cpp_parser.cpp
index a9d61ae..01e5aa6 100644
--- a/tools/mermaid/src/cpp_parser.cpp
+++ b/tools/mermaid/src/cpp_parser.cpp
@@ -279,6 +279,7 @@ void CppParser::extract_single_blockrunner(TSNode node, const std::string&) {
         TSNode child = ts_node_child(args_list, i);
         const char* child_type = ts_node_type(child);
         if (strcmp(child_type, ",") != 0 &&
+            strcmp(child_type, "comment") != 0 &&
             strcmp(child_type, "(") != 0 &&
             strcmp(child_type, ")") != 0) {
             std::string arg_text = get_node_text(child);
-- 
2.43.0


From 48e340345e7ecd3646ea5af0e37cfd6fad649be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:36 +0000
Subject: [PATCH 48/53] fix: mermaid: a diagram that could not be written is
 reported as a failure

---
 tools/mermaid/src/mermaid_renderer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/mermaid/src/mermaid_renderer.cpp b/tools/mermaid/src/mermaid_renderer.cpp
index 72448c3..f75e161 100644
--- a/tools/mermaid/src/mermaid_renderer.cpp
+++ b/tools/mermaid/src/mermaid_renderer.cpp
@@ -1,6 +1,7 @@
 #include "mermaid_renderer.h"
 #include <fstream>
 #include <sstream>
+#include <stdexcept>
 #include <algorithm>
 
 namespace cler {
@@ -18,6 +19,10 @@ void MermaidRenderer::render_to_file(const FlowGraph& flowgraph,
     std::string content = generate_mermaid(flowgraph);
     std::ofstream file(output_path + ".md");
     file << content;
+    file.close();
+    if (!file) {
+        throw std::runtime_error("Cannot write file: " + output_path + ".md");
+    }
 }
 
 std::string MermaidRenderer::generate_mermaid(const FlowGraph& flowgraph) {
-- 
2.43.0


From 628b0973afd1b59c69d030b61a26d6f370b870c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:36 +0000
Subject: [PATCH 49/53] fix: mermaid: the default output name drops the
 extension of a file given without a directory

---
 tools/mermaid/src/main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/mermaid/src/main.cpp b/tools/mermaid/src/main.cpp
index 4b1cefd..29970b4 100644
--- a/tools/mermaid/src/main.cpp
+++ b/tools/mermaid/src/main.cpp
@@ -133,7 +133,8 @@ int main(int argc, char* argv[]) {
                     base_name = input_file;
                 }
 
-                if (last_dot != std::string::npos && last_dot > last_slash) {
+                if (last_dot != std::string::npos &&
+                    (last_slash == std::string::npos || last_dot > last_slash)) {
                     base_name = base_name.substr(0, last_dot - (last_slash == std::string::npos ? 0 : last_slash + 1));
                 }
 
-- 
2.43.0


From 143a626f44eb79fef8ac683ae63e193c32f42a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:45 +0000
Subject: [PATCH 50/53] fix: gui: do not read past the title's end

---
 desktop_blocks/gui/gui_manager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/gui/gui_manager.cpp b/desktop_blocks/gui/gui_manager.cpp
index ee55a24..df4fe17 100644
--- a/desktop_blocks/gui/gui_manager.cpp
+++ b/desktop_blocks/gui/gui_manager.cpp
@@ -1,5 +1,6 @@
 #include "gui_manager.hpp"
 
+#include <string>
 #include <GLFW/glfw3.h>
 #include "imgui_impl_glfw.h"
 #include "imgui_impl_opengl3.h"
@@ -16,7 +17,8 @@ GuiManager::GuiManager(int width, int height, const std::string_view title) {
     glfwWindowHint(GLFW_OPENGL_PROFILE, GLFW_OPENGL_CORE_PROFILE);
     glfwWindowHint(GLFW_SAMPLES, 4);
 
-    window = glfwCreateWindow(width, height, title.data(), nullptr, nullptr);
+    // The view need not be followed by a terminator
+    window = glfwCreateWindow(width, height, std::string(title).c_str(), nullptr, nullptr);
     if (!window) {
         throw std::runtime_error("Failed to create GLFW window");
     }
-- 
2.43.0


From 329702fbcc979956b9e612661cb6deb3526ef957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:45 +0000
Subject: [PATCH 51/53] fix: gui: give GLFW back when the window cannot be
 created

---
 desktop_blocks/gui/gui_manager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/desktop_blocks/gui/gui_manager.cpp b/desktop_blocks/gui/gui_manager.cpp
index df4fe17..cdb992b 100644
--- a/desktop_blocks/gui/gui_manager.cpp
+++ b/desktop_blocks/gui/gui_manager.cpp
@@ -20,6 +20,7 @@ GuiManager::GuiManager(int width, int height, const std::string_view title) {
     // The view need not be followed by a terminator
     window = glfwCreateWindow(width, height, std::string(title).c_str(), nullptr, nullptr);
     if (!window) {
+        glfwTerminate();
         throw std::runtime_error("Failed to create GLFW window");
     }
     glfwMakeContextCurrent(window);
-- 
2.43.0


From cc142d45df7667f3775b8a06887154909a53b12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:45 +0000
Subject: [PATCH 52/53] fix: gui: fail when the renderer cannot be initialised

---
 desktop_blocks/gui/gui_manager.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/gui/gui_manager.cpp b/desktop_blocks/gui/gui_manager.cpp
index cdb992b..a421520 100644
--- a/desktop_blocks/gui/gui_manager.cpp
+++ b/desktop_blocks/gui/gui_manager.cpp
@@ -33,7 +33,15 @@ GuiManager::GuiManager(int width, int height, const std::string_view title) {
     ImPlot::CreateContext();
     ImGui::StyleColorsDark();
     ImGui_ImplGlfw_InitForOpenGL(window, true);
-    ImGui_ImplOpenGL3_Init("#version 330");
+    if (!ImGui_ImplOpenGL3_Init("#version 330")) {
+        // No destructor runs for a constructor that throws
+        ImGui_ImplGlfw_Shutdown();
+        ImPlot::DestroyContext();
+        ImGui::DestroyContext();
+        glfwDestroyWindow(window);
+        glfwTerminate();
+        throw std::runtime_error("Failed to initialise the OpenGL renderer");
+    }
 
     ImGui::GetStyle().AntiAliasedLines = true;
     ImGui::GetStyle().AntiAliasedLinesUseTex = true; 
-- 
2.43.0


From 56ff65a184e72af42a86dc211a2b8c29bdeba846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:52 +0000
Subject: [PATCH 53/53] fix: udp: refuse a port with characters after the
 number

---
 desktop_blocks/udp/shared.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/udp/shared.cpp b/desktop_blocks/udp/shared.cpp
index c8a68cd..dfea772 100644
--- a/desktop_blocks/udp/shared.cpp
+++ b/desktop_blocks/udp/shared.cpp
@@ -23,7 +23,11 @@ ParsedAddress parse_address_string(SocketType type, const std::string& addr_str)
     std::string port_str = addr_str.substr(colon_pos + 1);
     
     try {
-        int port_int = std::stoi(port_str);
+        size_t parsed_chars = 0;
+        int port_int = std::stoi(port_str, &parsed_chars);
+        if (parsed_chars != port_str.size()) {
+            throw std::invalid_argument(port_str);
+        }
         if (port_int < 0 || port_int > 65535) {
             throw std::runtime_error("Port number out of range (0-65535)");
         }
-- 
2.43.0

