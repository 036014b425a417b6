From 06502f352aa16cfcac43a6769e241ee1d8a5ada6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:10 +0000
Subject: [PATCH 01/42] fix: return arena superblocks upstream exactly as they
 were received

Superblocks were put into the set of free blocks twice (once as received and
once merged with a neighbour), and were returned upstream in whatever pieces
the set happened to hold at destruction. With adjacent superblocks this handed
out overlapping memory and returned blocks with wrong sizes. Requests above the
superblock size were served from superblocks of a fixed, possibly smaller size.
---
 .../details/arena_memory_resource_impl.cpp    | 34 ++++++++-----------
 .../details/arena_memory_resource_impl.hpp    |  9 ++++-
 2 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/core/src/memory/details/arena_memory_resource_impl.cpp b/core/src/memory/details/arena_memory_resource_impl.cpp
index 54692b6..3cbf312 100644
--- a/core/src/memory/details/arena_memory_resource_impl.cpp
+++ b/core/src/memory/details/arena_memory_resource_impl.cpp
@@ -103,17 +103,8 @@ arena_memory_resource_impl::arena_memory_resource_impl(std::size_t initial_size,
 
 arena_memory_resource_impl::~arena_memory_resource_impl() {
 
-    for (auto itr = allocated_blocks_.begin();
-         itr != allocated_blocks_.end();) {
-        auto aux = itr++;
-        deallocate(aux->pointer(), aux->size());
-    }
-
-    for (auto itr = free_blocks_.begin(); itr != free_blocks_.end();) {
-        auto aux = itr++;
-        void* p = aux->pointer();
-        std::size_t size = aux->size();
-        mm_.deallocate(p, size);
+    for (block const& b : superblocks_) {
+        mm_.deallocate(b.pointer(), b.size());
     }
 }
 
@@ -166,8 +157,12 @@ arena_memory_resource_impl::block arena_memory_resource_impl::first_fit(
     }
 }
 
+bool arena_memory_resource_impl::is_head(block const& b) const {
+    return superblocks_.find(b) != superblocks_.end();
+}
+
 arena_memory_resource_impl::block arena_memory_resource_impl::coalesce_block(
-    std::set<block>& free_blocks, block const& b) {
+    std::set<block>& free_blocks, block const& b) const {
 
     // return the given block in case is not valid
     if (!b.is_valid())
@@ -178,9 +173,10 @@ arena_memory_resource_impl::block arena_memory_resource_impl::coalesce_block(
     auto const previous = next == free_blocks.cbegin() ? next : std::prev(next);
 
     // coalesce with neighboring blocks
-    bool const merge_prev = previous->is_contiguous_before(b);
-    bool const merge_next =
-        next != free_blocks.cend() && b.is_contiguous_before(*next);
+    bool const merge_prev = next != free_blocks.cbegin() && !is_head(b) &&
+                            previous->is_contiguous_before(b);
+    bool const merge_next = next != free_blocks.cend() && !is_head(*next) &&
+                            b.is_contiguous_before(*next);
 
     block merged{};
     if (merge_prev && merge_next) {
@@ -231,15 +227,15 @@ arena_memory_resource_impl::block arena_memory_resource_impl::expand_arena(
     std::size_t size) {
 
     if (size > this->size_superblocks_)
-        size = minimum_superblock_size;
+        size = std::max(size, minimum_superblock_size);
     else {
         size = size_superblocks_;
     }
-    std::pair<std::set<block>::iterator, bool> ret =
-        free_blocks_.insert({mm_.allocate(size), size});
+    block const superblock{mm_.allocate(size), size};
+    superblocks_.insert(superblock);
 
     current_size_ += size;
-    return *(ret.first);
+    return superblock;
 }
 
 arena_memory_resource_impl::block arena_memory_resource_impl::free_block(
diff --git a/core/src/memory/details/arena_memory_resource_impl.hpp b/core/src/memory/details/arena_memory_resource_impl.hpp
index 7c290f8..d616dee 100644
--- a/core/src/memory/details/arena_memory_resource_impl.hpp
+++ b/core/src/memory/details/arena_memory_resource_impl.hpp
@@ -118,7 +118,11 @@ private:
     };
 
     static block first_fit(std::set<block>& free_blocks, std::size_t size);
-    static block coalesce_block(std::set<block>& free_blocks, block const& b);
+    block coalesce_block(std::set<block>& free_blocks, block const& b) const;
+
+    // Check whether a block starts a superblock. Such a block must not be
+    // merged with whatever memory happens to come right before it.
+    bool is_head(block const& b) const;
 
     // @brief Get an available memory block of at least `size` bytes.
     //
@@ -128,6 +132,7 @@ private:
 
     // Allocate space from upstream to supply the arena and return a superblock.
     //
+    // @param[in] size The number of bytes that the superblock needs to hold.
     // @return block A superblock.
     block expand_arena(std::size_t size);
 
@@ -149,6 +154,8 @@ private:
     // Address-ordered set of free blocks
     std::set<block> free_blocks_;
     std::set<block> allocated_blocks_;
+    // Address-ordered set of the superblocks received from upstream
+    std::set<block> superblocks_;
 
 };  // class arena_memory_resource_impl
 
-- 
2.43.0


From a66f1e422773fb9ea6a0fe60d6a9ec68d8df4def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:45 +0000
Subject: [PATCH 02/42] fix: keep the arena within its maximum size

The maximum size was never checked, and requests close to the top of the size
range were rounded up to zero, giving out empty blocks.
---
 .../memory/details/arena_memory_resource_impl.cpp    | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/core/src/memory/details/arena_memory_resource_impl.cpp b/core/src/memory/details/arena_memory_resource_impl.cpp
index 3cbf312..f79b14a 100644
--- a/core/src/memory/details/arena_memory_resource_impl.cpp
+++ b/core/src/memory/details/arena_memory_resource_impl.cpp
@@ -12,6 +12,7 @@
 // System include(s).
 #include <algorithm>
 #include <cassert>
+#include <new>
 
 namespace {
 
@@ -110,6 +111,10 @@ arena_memory_resource_impl::~arena_memory_resource_impl() {
 
 void* arena_memory_resource_impl::allocate(std::size_t bytes, std::size_t) {
 
+    // a request this big could not even be rounded up
+    if (align_up(bytes) < bytes) {
+        throw std::bad_alloc();
+    }
     bytes = align_up(bytes);
 
     auto const b = get_block(bytes);
@@ -226,11 +231,18 @@ arena_memory_resource_impl::block arena_memory_resource_impl::get_block(
 arena_memory_resource_impl::block arena_memory_resource_impl::expand_arena(
     std::size_t size) {
 
+    // the arena must not outgrow its maximum size
+    std::size_t const available = maximum_size_ - current_size_;
+    if (size > available) {
+        throw std::bad_alloc();
+    }
+
     if (size > this->size_superblocks_)
         size = std::max(size, minimum_superblock_size);
     else {
         size = size_superblocks_;
     }
+    size = std::min(size, available);
     block const superblock{mm_.allocate(size), size};
     superblocks_.insert(superblock);
 
-- 
2.43.0


From 853eab2431f0159c08f7081357777a5d51c45e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:45 +0000
Subject: [PATCH 03/42] fix: let the arena reuse freed blocks of any size

Requests of 256 KiB and above always asked upstream for a new superblock, so that
allocating and freeing such blocks in turn grew the arena without bound.
---
 core/src/memory/details/arena_memory_resource_impl.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/core/src/memory/details/arena_memory_resource_impl.cpp b/core/src/memory/details/arena_memory_resource_impl.cpp
index f79b14a..c3f70dd 100644
--- a/core/src/memory/details/arena_memory_resource_impl.cpp
+++ b/core/src/memory/details/arena_memory_resource_impl.cpp
@@ -216,11 +216,9 @@ arena_memory_resource_impl::block arena_memory_resource_impl::coalesce_block(
 arena_memory_resource_impl::block arena_memory_resource_impl::get_block(
     std::size_t size) {
 
-    if (size < minimum_superblock_size) {
-        auto const b = first_fit(this->free_blocks_, size);
-        if (b.is_valid()) {
-            return b;
-        }
+    auto const b = first_fit(this->free_blocks_, size);
+    if (b.is_valid()) {
+        return b;
     }
 
     auto const superblock = expand_arena(size);
-- 
2.43.0


From c59647d4482fe71d8d0d3c103452c314adfd29b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:27 +0000
Subject: [PATCH 04/42] fix: fail binary page requests beyond the largest power
 of two

Such sizes cannot be rounded up to a power of two. In release builds they were
rounded to one byte and served with the smallest page.
---
 .../memory/details/binary_page_memory_resource_impl.cpp   | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/src/memory/details/binary_page_memory_resource_impl.cpp b/core/src/memory/details/binary_page_memory_resource_impl.cpp
index 33741eb..eef1985 100644
--- a/core/src/memory/details/binary_page_memory_resource_impl.cpp
+++ b/core/src/memory/details/binary_page_memory_resource_impl.cpp
@@ -16,6 +16,7 @@
 #include <algorithm>
 #include <cassert>
 #include <memory>
+#include <new>
 #include <optional>
 #include <stdexcept>
 
@@ -27,6 +28,13 @@ binary_page_memory_resource_impl::binary_page_memory_resource_impl(
 
 void *binary_page_memory_resource_impl::allocate(std::size_t size,
                                                  std::size_t) {
+    /*
+     * Requests beyond the largest power of two cannot be rounded up to one.
+     */
+    if (size > (~static_cast<std::size_t>(0) / 2) + 1) {
+        throw std::bad_alloc();
+    }
+
     /*
      * First, we round our allocation request up to a power of two, since
      * that is what the sizes of all our pages are.
-- 
2.43.0


From 4bfcf1e4dcd40aeadfe7a33aee4a35bc25ba5649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:43 +0000
Subject: [PATCH 05/42] fix: return all oversized pool blocks upstream on
 destruction

Oversized blocks still in use when the pool was destroyed were leaked, unlike
all other memory of the pool.
---
 core/src/memory/details/pool_memory_resource_impl.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/memory/details/pool_memory_resource_impl.cpp b/core/src/memory/details/pool_memory_resource_impl.cpp
index a2d78be..eb95832 100644
--- a/core/src/memory/details/pool_memory_resource_impl.cpp
+++ b/core/src/memory/details/pool_memory_resource_impl.cpp
@@ -87,8 +87,9 @@ pool_memory_resource_impl::~pool_memory_resource_impl() {
                                     m_options.alignment);
     }
 
-    // Deallocate the cached oversized/overaligned memory.
-    for (oversized_block_descriptor& block : m_cached_oversized) {
+    // Deallocate the oversized/overaligned memory, whether it is cached or still
+    // in use.
+    for (oversized_block_descriptor& block : m_oversized) {
         m_upstream.get().deallocate(block.pointer, block.size, block.alignment);
     }
 }
-- 
2.43.0


From 72842427189d52678245a3144e1357a1e0aa89f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:30 +0000
Subject: [PATCH 06/42] fix: round the first pool chunk up to the minimal
 number of bytes

A minimum that is not a multiple of the block size was rounded down, giving
chunks smaller than configured (and an assertion failure in debug builds).
---
 core/src/memory/details/pool_memory_resource_impl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/memory/details/pool_memory_resource_impl.cpp b/core/src/memory/details/pool_memory_resource_impl.cpp
index eb95832..e90a5a2 100644
--- a/core/src/memory/details/pool_memory_resource_impl.cpp
+++ b/core/src/memory/details/pool_memory_resource_impl.cpp
@@ -186,6 +186,12 @@ void* pool_memory_resource_impl::allocate(std::size_t bytes,
             if (n < (m_options.min_bytes_per_chunk >> bytes_log2)) {
                 n = m_options.min_bytes_per_chunk >> bytes_log2;
             }
+            // The minimal number of bytes may not be a multiple of the block
+            // size.
+            if (((n << bytes_log2) < m_options.min_bytes_per_chunk) &&
+                (n < (m_options.max_bytes_per_chunk >> bytes_log2))) {
+                ++n;
+            }
         } else {
             n = n * 3 / 2;
             if (n > (m_options.max_bytes_per_chunk >> bytes_log2)) {
-- 
2.43.0


From dc907cf0aa8139ace6e45b9ba1a84892fe83cea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:52 +0000
Subject: [PATCH 07/42] fix: apply the pool's size cutoff to the cached block
 that is used

The search for a sufficiently aligned cached block came after the check of the
size, so that it could pick a block beyond the configured size factor.
---
 .../details/pool_memory_resource_impl.cpp     | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/core/src/memory/details/pool_memory_resource_impl.cpp b/core/src/memory/details/pool_memory_resource_impl.cpp
index e90a5a2..8252dfa 100644
--- a/core/src/memory/details/pool_memory_resource_impl.cpp
+++ b/core/src/memory/details/pool_memory_resource_impl.cpp
@@ -120,16 +120,6 @@ void* pool_memory_resource_impl::allocate(std::size_t bytes,
             auto it = std::lower_bound(m_cached_oversized.begin(),
                                        m_cached_oversized.end(), oversized);
 
-            // If the size is bigger than the requested size by a factor
-            // bigger than or equal to the specified cutoff for size,
-            // allocate a new block.
-            if (it != m_cached_oversized.end()) {
-                const std::size_t size_factor = it->size / bytes;
-                if (size_factor >= m_options.cached_size_cutoff_factor) {
-                    it = m_cached_oversized.end();
-                }
-            }
-
             // Make sure that the alignment of the cached block is appropriate.
             if ((it != m_cached_oversized.end()) &&
                 (it->alignment < alignment)) {
@@ -141,6 +131,16 @@ void* pool_memory_resource_impl::allocate(std::size_t bytes,
                 ;
             }
 
+            // If the size is bigger than the requested size by a factor
+            // bigger than or equal to the specified cutoff for size,
+            // allocate a new block.
+            if (it != m_cached_oversized.end()) {
+                const std::size_t size_factor = it->size / bytes;
+                if (size_factor >= m_options.cached_size_cutoff_factor) {
+                    it = m_cached_oversized.end();
+                }
+            }
+
             // If the alignment is bigger than the requested one by a factor
             // bigger than or equal to the specified cutoff for alignment,
             // allocate a new block.
-- 
2.43.0


From 38217460e4ba6dcffe031584ffd0090cc9cc6426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:54 +0000
Subject: [PATCH 08/42] fix: refuse pool options that cannot be obeyed

With zero as the minimal number of blocks per chunk a chunk could hold no block
at all, which led to reading from an empty list. Products of options that did
not fit into 64 bits were accepted. The options are also checked before the
logarithm of the block size is taken, which is undefined for zero.
---
 .../details/pool_memory_resource_impl.cpp     | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/core/src/memory/details/pool_memory_resource_impl.cpp b/core/src/memory/details/pool_memory_resource_impl.cpp
index 8252dfa..4be51eb 100644
--- a/core/src/memory/details/pool_memory_resource_impl.cpp
+++ b/core/src/memory/details/pool_memory_resource_impl.cpp
@@ -46,20 +46,24 @@ void check_valid(const pool_memory_resource::options& opts) {
     CHECK_VALID((opts.smallest_block_size == 0) ||
                 (opts.largest_block_size == 0));
 
+    CHECK_VALID(opts.min_blocks_per_chunk == 0);
     CHECK_VALID(opts.min_blocks_per_chunk > opts.max_blocks_per_chunk);
     CHECK_VALID(opts.min_bytes_per_chunk > opts.max_bytes_per_chunk);
 
     CHECK_VALID(opts.smallest_block_size > opts.largest_block_size);
 
-    CHECK_VALID((opts.min_blocks_per_chunk * opts.smallest_block_size) >
-                opts.max_bytes_per_chunk);
-    CHECK_VALID((opts.min_blocks_per_chunk * opts.largest_block_size) >
-                opts.max_bytes_per_chunk);
+    // (written with divisions, as the products may be too large)
+    CHECK_VALID(opts.min_blocks_per_chunk >
+                (opts.max_bytes_per_chunk / opts.smallest_block_size));
+    CHECK_VALID(opts.min_blocks_per_chunk >
+                (opts.max_bytes_per_chunk / opts.largest_block_size));
 
-    CHECK_VALID((opts.max_blocks_per_chunk * opts.largest_block_size) <
-                opts.min_bytes_per_chunk);
-    CHECK_VALID((opts.max_blocks_per_chunk * opts.smallest_block_size) <
-                opts.min_bytes_per_chunk);
+    CHECK_VALID((opts.min_bytes_per_chunk > 0) &&
+                (opts.max_blocks_per_chunk <=
+                 ((opts.min_bytes_per_chunk - 1) / opts.largest_block_size)));
+    CHECK_VALID((opts.min_bytes_per_chunk > 0) &&
+                (opts.max_blocks_per_chunk <=
+                 ((opts.min_bytes_per_chunk - 1) / opts.smallest_block_size)));
 
     CHECK_VALID(opts.alignment > opts.smallest_block_size);
 }
@@ -69,11 +73,10 @@ void check_valid(const pool_memory_resource::options& opts) {
 pool_memory_resource_impl::pool_memory_resource_impl(
     memory_resource& upstream, const pool_memory_resource::options& opts)
     : m_upstream(upstream),
-      m_options(opts),
+      m_options((check_valid(opts), opts)),
       m_smallest_block_log2(
           vecmem::details::log2_ri(opts.smallest_block_size)) {
 
-    check_valid(opts);
     m_pools.resize(vecmem::details::log2_ri(m_options.largest_block_size) -
                    m_smallest_block_log2 + 1);
     VECMEM_DEBUG_MSG(5, "Created %lu pools", m_pools.size());
-- 
2.43.0


From 3d6c32d1b194c7ef38cf78a8866d683bd59979ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:21 +0000
Subject: [PATCH 09/42] fix: report a zero average when nothing was allocated
 yet

The memory monitor divided by zero and converted the resulting NaN to an
integer, which is undefined.
---
 core/src/utils/memory_monitor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/src/utils/memory_monitor.cpp b/core/src/utils/memory_monitor.cpp
index a4003fa..aa5870d 100644
--- a/core/src/utils/memory_monitor.cpp
+++ b/core/src/utils/memory_monitor.cpp
@@ -40,6 +40,11 @@ std::size_t memory_monitor::outstanding_allocation() const {
 
 std::size_t memory_monitor::average_allocation() const {
 
+    // There is no average without any allocations.
+    if (m_n_alloc == 0) {
+        return 0;
+    }
+
     return static_cast<std::size_t>(std::round(
         static_cast<double>(m_total_alloc) / static_cast<double>(m_n_alloc)));
 }
-- 
2.43.0


From 319c8d6c8e1ee3f443861ba9dd4cf7fd77732d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:14 +0000
Subject: [PATCH 10/42] fix: fail host allocations whose rounded up size
 overflows

---
 core/src/memory/host_memory_resource.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/src/memory/host_memory_resource.cpp b/core/src/memory/host_memory_resource.cpp
index c9454b1..e7c53ba 100644
--- a/core/src/memory/host_memory_resource.cpp
+++ b/core/src/memory/host_memory_resource.cpp
@@ -16,6 +16,7 @@
 #include <cstddef>
 #include <cstdlib>
 #include <memory>
+#include <new>
 
 namespace vecmem {
 
@@ -37,6 +38,10 @@ void *host_memory_resource::do_allocate(std::size_t bytes,
     // values.
     const std::size_t align = std::max(alignment, alignof(std::max_align_t));
     const std::size_t size = bytes + (align - (bytes % align));
+    // The rounded up size may not be representable anymore.
+    if (size < bytes) {
+        throw std::bad_alloc();
+    }
     void *ptr = std::aligned_alloc(align, size);
     // If the alignment failed for some reason, throw an exception.
     if (ptr == nullptr) {
@@ -48,6 +53,10 @@ void *host_memory_resource::do_allocate(std::size_t bytes,
     // pointer to the beginning of the unaligned memory blob before
     // the aligned pointer.
     std::size_t alloc_bytes = bytes + alignment + sizeof(void *) - 1;
+    // The padded size may not be representable anymore.
+    if (alloc_bytes < bytes) {
+        throw std::bad_alloc();
+    }
     void *unaligned_ptr = std::malloc(alloc_bytes);
     // If the alignment failed for some reason, throw an exception.
     if (unaligned_ptr == nullptr) {
-- 
2.43.0


From 3d415c5364f6bafd6a330faa7fe9fc6399f735c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:23 +0000
Subject: [PATCH 11/42] fix: honour over-aligned types in unique pointers

---
 core/include/vecmem/memory/unique_ptr.hpp | 45 +++++++++++++++++------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/core/include/vecmem/memory/unique_ptr.hpp b/core/include/vecmem/memory/unique_ptr.hpp
index a6362e6..7b32fa5 100644
--- a/core/include/vecmem/memory/unique_ptr.hpp
+++ b/core/include/vecmem/memory/unique_ptr.hpp
@@ -8,6 +8,8 @@
 
 #pragma once
 
+#include <algorithm>
+#include <cstddef>
 #include <memory>
 #include <type_traits>
 
@@ -17,6 +19,19 @@
 #include "vecmem/vecmem_core_export.hpp"
 
 namespace vecmem {
+namespace details {
+/**
+ * @brief The alignment to request for the storage behind unique pointers.
+ *
+ * @tparam T The (element) type to store, which may be over-aligned.
+ */
+template <typename T>
+constexpr std::size_t unique_alignment() {
+    return std::max(alignof(std::remove_extent_t<T>),
+                    alignof(std::max_align_t));
+}
+}  // namespace details
+
 /**
  * @brief A unique pointer type for non-trivial objects.
  *
@@ -79,7 +94,7 @@ make_unique_obj(memory_resource& m, Args&&... a) {
      * perform an allocation of the requested size.
      */
     std::size_t s = sizeof(T);
-    T* p = static_cast<T*>(m.allocate(s));
+    T* p = static_cast<T*>(m.allocate(s, details::unique_alignment<T>()));
 
     /*
      * Perform a placement-new with forwarded arguments to construct the
@@ -90,7 +105,8 @@ make_unique_obj(memory_resource& m, Args&&... a) {
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_obj_ptr<T>(p, details::unique_obj_deleter<T>(m, s));
+    return unique_obj_ptr<T>(p, details::unique_obj_deleter<T>(
+                                    m, s, details::unique_alignment<T>()));
 }
 
 /**
@@ -121,7 +137,7 @@ make_unique_obj(memory_resource& m, std::size_t n) {
      * perform an allocation of the requested size.
      */
     std::size_t s = n * sizeof(std::remove_extent_t<T>);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
+    pointer_t p = static_cast<pointer_t>(m.allocate(s, details::unique_alignment<T>()));
 
     /*
      * Use placement-new to default-construct each of our elements.
@@ -133,7 +149,8 @@ make_unique_obj(memory_resource& m, std::size_t n) {
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_obj_ptr<T>(p, details::unique_obj_deleter<T>(m, s, 0, n));
+    return unique_obj_ptr<T>(p, details::unique_obj_deleter<T>(
+                                    m, s, details::unique_alignment<T>(), n));
 }
 
 /**
@@ -186,12 +203,13 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m) {
      * perform an allocation of the requested size.
      */
     std::size_t s = sizeof(T);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
+    pointer_t p = static_cast<pointer_t>(m.allocate(s, details::unique_alignment<T>()));
 
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(m, s));
+    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(
+                                      m, s, details::unique_alignment<T>()));
 }
 
 /**
@@ -247,12 +265,13 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, std::size_t n) {
      * perform an allocation of the requested size.
      */
     std::size_t s = n * sizeof(std::remove_extent_t<T>);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
+    pointer_t p = static_cast<pointer_t>(m.allocate(s, details::unique_alignment<T>()));
 
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(m, s, 0));
+    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(
+                                      m, s, details::unique_alignment<T>()));
 }
 
 /**
@@ -319,14 +338,15 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, const T* f,
      * perform an allocation of the requested size.
      */
     std::size_t s = sizeof(T);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
+    pointer_t p = static_cast<pointer_t>(m.allocate(s, details::unique_alignment<T>()));
 
     c(p, f, s);
 
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(m, s));
+    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(
+                                      m, s, details::unique_alignment<T>()));
 }
 
 /**
@@ -396,13 +416,14 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, std::size_t n,
      * perform an allocation of the requested size.
      */
     std::size_t s = n * sizeof(std::remove_extent_t<T>);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
+    pointer_t p = static_cast<pointer_t>(m.allocate(s, details::unique_alignment<T>()));
 
     c(p, f, s);
 
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(m, s, 0));
+    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(
+                                      m, s, details::unique_alignment<T>()));
 }
 }  // namespace vecmem
-- 
2.43.0


From b2bba9d6685951b034c9a7a2cfa06f94e0cf1710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:36 +0000
Subject: [PATCH 12/42] fix: return the memory when a constructor throws in
 make_unique_obj

---
 core/include/vecmem/memory/unique_ptr.hpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/core/include/vecmem/memory/unique_ptr.hpp b/core/include/vecmem/memory/unique_ptr.hpp
index 7b32fa5..694a085 100644
--- a/core/include/vecmem/memory/unique_ptr.hpp
+++ b/core/include/vecmem/memory/unique_ptr.hpp
@@ -100,7 +100,12 @@ make_unique_obj(memory_resource& m, Args&&... a) {
      * Perform a placement-new with forwarded arguments to construct the
      * object.
      */
-    new (p) T(std::forward<Args>(a)...);
+    try {
+        new (p) T(std::forward<Args>(a)...);
+    } catch (...) {
+        m.deallocate(p, s, details::unique_alignment<T>());
+        throw;
+    }
 
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
@@ -142,8 +147,17 @@ make_unique_obj(memory_resource& m, std::size_t n) {
     /*
      * Use placement-new to default-construct each of our elements.
      */
-    for (std::size_t i = 0; i < n; ++i) {
-        new (&p[i]) std::remove_extent_t<T>();
+    std::size_t i = 0;
+    try {
+        for (; i < n; ++i) {
+            new (&p[i]) std::remove_extent_t<T>();
+        }
+    } catch (...) {
+        while (i > 0) {
+            std::destroy_at(&p[--i]);
+        }
+        m.deallocate(p, s, details::unique_alignment<T>());
+        throw;
     }
 
     /*
-- 
2.43.0


From a06b7b1f310061549d5fecb06b098a732174a8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:36 +0000
Subject: [PATCH 13/42] fix: refuse unique arrays whose size is not
 representable

---
 core/include/vecmem/memory/unique_ptr.hpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/core/include/vecmem/memory/unique_ptr.hpp b/core/include/vecmem/memory/unique_ptr.hpp
index 694a085..dc5702e 100644
--- a/core/include/vecmem/memory/unique_ptr.hpp
+++ b/core/include/vecmem/memory/unique_ptr.hpp
@@ -11,6 +11,7 @@
 #include <algorithm>
 #include <cstddef>
 #include <memory>
+#include <new>
 #include <type_traits>
 
 #include "vecmem/memory/details/unique_alloc_deleter.hpp"
@@ -30,6 +31,22 @@ constexpr std::size_t unique_alignment() {
     return std::max(alignof(std::remove_extent_t<T>),
                     alignof(std::max_align_t));
 }
+
+/**
+ * @brief The number of bytes to request for an array.
+ *
+ * @tparam T The (unbounded) array type to store.
+ * @param n The number of elements.
+ *
+ * @throws std::bad_array_new_length If the size is not representable.
+ */
+template <typename T>
+std::size_t unique_array_size(std::size_t n) {
+    if (n > (static_cast<std::size_t>(-1) / sizeof(std::remove_extent_t<T>))) {
+        throw std::bad_array_new_length();
+    }
+    return n * sizeof(std::remove_extent_t<T>);
+}
 }  // namespace details
 
 /**
@@ -141,7 +158,7 @@ make_unique_obj(memory_resource& m, std::size_t n) {
      * Calculate the size of the allocation and use the memory resource to
      * perform an allocation of the requested size.
      */
-    std::size_t s = n * sizeof(std::remove_extent_t<T>);
+    std::size_t s = details::unique_array_size<T>(n);
     pointer_t p = static_cast<pointer_t>(m.allocate(s, details::unique_alignment<T>()));
 
     /*
@@ -278,7 +295,7 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, std::size_t n) {
      * Calculate the size of the allocation and use the memory resource to
      * perform an allocation of the requested size.
      */
-    std::size_t s = n * sizeof(std::remove_extent_t<T>);
+    std::size_t s = details::unique_array_size<T>(n);
     pointer_t p = static_cast<pointer_t>(m.allocate(s, details::unique_alignment<T>()));
 
     /*
@@ -429,7 +446,7 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, std::size_t n,
      * Calculate the size of the allocation and use the memory resource to
      * perform an allocation of the requested size.
      */
-    std::size_t s = n * sizeof(std::remove_extent_t<T>);
+    std::size_t s = details::unique_array_size<T>(n);
     pointer_t p = static_cast<pointer_t>(m.allocate(s, details::unique_alignment<T>()));
 
     c(p, f, s);
-- 
2.43.0


From 85598cd16ec37afe0284fb7df53ddb5af51d3740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:53 +0000
Subject: [PATCH 14/42] fix: return the memory when a constructor throws in
 allocator::new_object

---
 core/include/vecmem/memory/impl/allocator.ipp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/include/vecmem/memory/impl/allocator.ipp b/core/include/vecmem/memory/impl/allocator.ipp
index 6273cd2..5365a9c 100644
--- a/core/include/vecmem/memory/impl/allocator.ipp
+++ b/core/include/vecmem/memory/impl/allocator.ipp
@@ -47,7 +47,12 @@ T *allocator::new_object(Args &&... args) {
      * forward the arguments passed to this method so they can be used to
      * call the constructor of the class.
      */
-    return new (p) T(std::forward<Args>(args)...);
+    try {
+        return new (p) T(std::forward<Args>(args)...);
+    } catch (...) {
+        deallocate_object<T>(static_cast<T *>(p));
+        throw;
+    }
 }
 
 template <typename T>
-- 
2.43.0


From af48a8bc47e121b8018d90b0851517c3b05ead9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:21 +0000
Subject: [PATCH 15/42] fix: refuse allocator requests whose size is not
 representable

---
 core/include/vecmem/memory/impl/allocator.ipp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/include/vecmem/memory/impl/allocator.ipp b/core/include/vecmem/memory/impl/allocator.ipp
index 5365a9c..eb72c71 100644
--- a/core/include/vecmem/memory/impl/allocator.ipp
+++ b/core/include/vecmem/memory/impl/allocator.ipp
@@ -9,10 +9,18 @@
 #pragma once
 
 #include <cstddef>
+#include <new>
 
 namespace vecmem {
 template <typename T>
 T *allocator::allocate_object(std::size_t n) {
+    /*
+     * The size of the requested memory block needs to be representable.
+     */
+    if (n > (static_cast<std::size_t>(-1) / sizeof(T))) {
+        throw std::bad_array_new_length();
+    }
+
     /*
      * Since we know the object being allocated here, we can multiply the
      * number of objects to allocate with the size of that class. We can
-- 
2.43.0


From 9988e759992b4b5a572becc88c1d99a0afd75524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:43 +0000
Subject: [PATCH 16/42] fix: align the storage of static vectors to their
 element type

---
 core/include/vecmem/containers/static_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/vecmem/containers/static_vector.hpp b/core/include/vecmem/containers/static_vector.hpp
index ef68ddb..4dd3361 100644
--- a/core/include/vecmem/containers/static_vector.hpp
+++ b/core/include/vecmem/containers/static_vector.hpp
@@ -315,8 +315,8 @@ private:
 
     /// Size of the vector
     size_type m_size;
-    /// Array that holds the PoD elements of the vector
-    array_type m_elements;
+    /// Array that holds the elements of the vector
+    alignas(value_type) alignas(array_type) array_type m_elements;
 
 };  // class static_vector
 
-- 
2.43.0


From a09ddb955617bc7f3804e022075c8f6d082b42a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:43 +0000
Subject: [PATCH 17/42] fix: do not destroy elements that were never
 constructed in static_vector(size)

---
 core/include/vecmem/containers/impl/static_vector.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/vecmem/containers/impl/static_vector.ipp b/core/include/vecmem/containers/impl/static_vector.ipp
index 8a4baf9..aef55de 100644
--- a/core/include/vecmem/containers/impl/static_vector.ipp
+++ b/core/include/vecmem/containers/impl/static_vector.ipp
@@ -20,7 +20,7 @@ VECMEM_HOST_AND_DEVICE static_vector<TYPE, MAX_SIZE>::static_vector()
 template <typename TYPE, std::size_t MAX_SIZE>
 VECMEM_HOST_AND_DEVICE static_vector<TYPE, MAX_SIZE>::static_vector(
     size_type size, const_reference value)
-    : m_size(size), m_elements() {
+    : m_size(0), m_elements() {
 
     assign(size, value);
 }
-- 
2.43.0


From 41ae2a336bcad1fdeae934fc5ccbddc75410e136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:43 +0000
Subject: [PATCH 18/42] fix: copy the elements of static vectors on assignment

---
 core/include/vecmem/containers/impl/static_vector.ipp | 11 +++++++++++
 core/include/vecmem/containers/static_vector.hpp      |  4 ++++
 2 files changed, 15 insertions(+)

diff --git a/core/include/vecmem/containers/impl/static_vector.ipp b/core/include/vecmem/containers/impl/static_vector.ipp
index aef55de..1899183 100644
--- a/core/include/vecmem/containers/impl/static_vector.ipp
+++ b/core/include/vecmem/containers/impl/static_vector.ipp
@@ -42,6 +42,17 @@ VECMEM_HOST_AND_DEVICE static_vector<TYPE, MAX_SIZE>::~static_vector() {
     clear();
 }
 
+template <typename TYPE, std::size_t MAX_SIZE>
+VECMEM_HOST_AND_DEVICE static_vector<TYPE, MAX_SIZE>&
+static_vector<TYPE, MAX_SIZE>::operator=(const static_vector& rhs) {
+
+    // Replace the elements, if it's necessary.
+    if (this != &rhs) {
+        assign(rhs.begin(), rhs.end());
+    }
+    return *this;
+}
+
 template <typename TYPE, std::size_t MAX_SIZE>
 VECMEM_HOST_AND_DEVICE typename static_vector<TYPE, MAX_SIZE>::reference
 static_vector<TYPE, MAX_SIZE>::at(size_type pos) {
diff --git a/core/include/vecmem/containers/static_vector.hpp b/core/include/vecmem/containers/static_vector.hpp
index 4dd3361..4cc1e1c 100644
--- a/core/include/vecmem/containers/static_vector.hpp
+++ b/core/include/vecmem/containers/static_vector.hpp
@@ -97,6 +97,10 @@ public:
     VECMEM_HOST_AND_DEVICE
     ~static_vector();
 
+    /// Copy assignment operator
+    VECMEM_HOST_AND_DEVICE
+    static_vector& operator=(const static_vector& rhs);
+
     /// @}
 
     /// @name Vector element access functions
-- 
2.43.0


From 200e33a2354178323783f95f6c8feaa2b69c2117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:43 +0000
Subject: [PATCH 19/42] fix: do not relocate the elements of static vectors
 bytewise unless their type allows it

---
 .../vecmem/containers/impl/static_vector.ipp  | 42 ++++++++++++-------
 .../vecmem/containers/static_vector.hpp       |  3 ++
 2 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/core/include/vecmem/containers/impl/static_vector.ipp b/core/include/vecmem/containers/impl/static_vector.ipp
index 1899183..7d397ab 100644
--- a/core/include/vecmem/containers/impl/static_vector.ipp
+++ b/core/include/vecmem/containers/impl/static_vector.ipp
@@ -9,6 +9,8 @@
 // System include(s).
 #include <cassert>
 #include <cstring>
+#include <new>
+#include <type_traits>
 #include <utility>
 
 namespace vecmem {
@@ -177,9 +179,7 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::insert(
     auto id = element_id(pos);
 
     // Move the payload of the existing elements after "pos".
-    memmove(static_cast<void*>(id.m_ptr + 1),
-            static_cast<const void*>(id.m_ptr),
-            (m_size - id.m_index) * value_size);
+    relocate(id.m_index, id.m_index + 1, m_size - id.m_index);
 
     // Instantiate the new value.
     construct(id.m_index, value);
@@ -202,9 +202,7 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::insert(
     auto id = element_id(pos);
 
     // Move the payload of the existing elements after "pos".
-    memmove(static_cast<void*>(id.m_ptr + count),
-            static_cast<const void*>(id.m_ptr),
-            (m_size - id.m_index) * value_size);
+    relocate(id.m_index, id.m_index + count, m_size - id.m_index);
 
     // Instantiate all the new values.
     for (size_type i = 0; i < count; ++i) {
@@ -230,9 +228,7 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::emplace(
     auto id = element_id(pos);
 
     // Move the payload of the existing elements after "pos".
-    memmove(static_cast<void*>(id.m_ptr + 1),
-            static_cast<const void*>(id.m_ptr),
-            (m_size - id.m_index) * value_size);
+    relocate(id.m_index, id.m_index + 1, m_size - id.m_index);
 
     // Instantiate the new value.
     new (id.m_ptr) value_type(std::forward<Args>(args)...);
@@ -270,9 +266,7 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::erase(
     destruct(id.m_index);
 
     // Move up the payload of the elements from after the removed one.
-    memmove(static_cast<void*>(id.m_ptr),
-            static_cast<const void*>(id.m_ptr + 1),
-            (m_size - id.m_index - 1) * value_size);
+    relocate(id.m_index + 1, id.m_index, m_size - id.m_index - 1);
 
     // Decrement the size.
     --m_size;
@@ -296,9 +290,7 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::erase(
     }
 
     // Move up the payload of the elements from after the removed range.
-    memmove(static_cast<void*>(first_id.m_ptr),
-            static_cast<const void*>(last_id.m_ptr),
-            (m_size - last_id.m_index) * value_size);
+    relocate(last_id.m_index, first_id.m_index, m_size - last_id.m_index);
 
     // Decrease the size.
     m_size -= (last_id.m_index - first_id.m_index);
@@ -494,6 +486,26 @@ VECMEM_HOST_AND_DEVICE void static_vector<TYPE, MAX_SIZE>::destruct(
     ptr->~value_type();
 }
 
+template <typename TYPE, std::size_t MAX_SIZE>
+VECMEM_HOST_AND_DEVICE void static_vector<TYPE, MAX_SIZE>::relocate(
+    size_type from, size_type to, size_type count) {
+
+    pointer const src = reinterpret_cast<pointer>(m_elements) + from;
+    pointer const dst = reinterpret_cast<pointer>(m_elements) + to;
+    if constexpr (std::is_trivially_copyable<value_type>::value ||
+                  !std::is_move_constructible<value_type>::value) {
+        memmove(static_cast<void*>(dst), static_cast<const void*>(src),
+                count * value_size);
+    } else if (from != to) {
+        for (size_type i = 0; i < count; ++i) {
+            // Start from the end that is not overwritten by other elements.
+            size_type const j = (from < to ? count - i - 1 : i);
+            new (dst + j) value_type(std::move(src[j]));
+            src[j].~value_type();
+        }
+    }
+}
+
 template <typename TYPE, std::size_t MAX_SIZE>
 VECMEM_HOST_AND_DEVICE typename static_vector<TYPE, MAX_SIZE>::ElementId
 static_vector<TYPE, MAX_SIZE>::element_id(const_iterator pos) {
diff --git a/core/include/vecmem/containers/static_vector.hpp b/core/include/vecmem/containers/static_vector.hpp
index 4cc1e1c..d4a0798 100644
--- a/core/include/vecmem/containers/static_vector.hpp
+++ b/core/include/vecmem/containers/static_vector.hpp
@@ -307,6 +307,9 @@ private:
     /// Destruct a vector element
     VECMEM_HOST_AND_DEVICE
     void destruct(size_type pos);
+    /// Move existing elements to another position in the array
+    VECMEM_HOST_AND_DEVICE
+    void relocate(size_type from, size_type to, size_type count);
 
     /// Helper type for identifying an element in the array
     struct ElementId {
-- 
2.43.0


From abc0876e0fd71d1491f6a736a3352169e34d0ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:43 +0000
Subject: [PATCH 20/42] fix: insert elements of the static vector itself
 correctly

---
 .../vecmem/containers/impl/static_vector.ipp  | 26 +++++++++++++++++--
 .../vecmem/containers/static_vector.hpp       |  4 +++
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/core/include/vecmem/containers/impl/static_vector.ipp b/core/include/vecmem/containers/impl/static_vector.ipp
index 7d397ab..0847e6d 100644
--- a/core/include/vecmem/containers/impl/static_vector.ipp
+++ b/core/include/vecmem/containers/impl/static_vector.ipp
@@ -179,10 +179,11 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::insert(
     auto id = element_id(pos);
 
     // Move the payload of the existing elements after "pos".
+    const_pointer value_ptr = relocated(&value, id.m_ptr, 1);
     relocate(id.m_index, id.m_index + 1, m_size - id.m_index);
 
     // Instantiate the new value.
-    construct(id.m_index, value);
+    construct(id.m_index, *value_ptr);
 
     // Increment the size.
     ++m_size;
@@ -202,11 +203,12 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::insert(
     auto id = element_id(pos);
 
     // Move the payload of the existing elements after "pos".
+    const_pointer value_ptr = relocated(&value, id.m_ptr, count);
     relocate(id.m_index, id.m_index + count, m_size - id.m_index);
 
     // Instantiate all the new values.
     for (size_type i = 0; i < count; ++i) {
-        construct(id.m_index + i, value);
+        construct(id.m_index + i, *value_ptr);
     }
 
     // Increment the size.
@@ -227,6 +229,18 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::emplace(
     // Find the index of this iterator inside of the vector.
     auto id = element_id(pos);
 
+    if constexpr (std::is_move_constructible<value_type>::value) {
+        if (id.m_index != m_size) {
+            // The arguments may refer to elements of this vector. So make the
+            // new value before moving any of those.
+            value_type value(std::forward<Args>(args)...);
+            relocate(id.m_index, id.m_index + 1, m_size - id.m_index);
+            new (id.m_ptr) value_type(std::move(value));
+            ++m_size;
+            return id.m_ptr;
+        }
+    }
+
     // Move the payload of the existing elements after "pos".
     relocate(id.m_index, id.m_index + 1, m_size - id.m_index);
 
@@ -506,6 +520,14 @@ VECMEM_HOST_AND_DEVICE void static_vector<TYPE, MAX_SIZE>::relocate(
     }
 }
 
+template <typename TYPE, std::size_t MAX_SIZE>
+VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::relocated(
+    const_pointer value, const_pointer from, size_type distance) const
+    -> const_pointer {
+
+    return ((value >= from) && (value < end()) ? value + distance : value);
+}
+
 template <typename TYPE, std::size_t MAX_SIZE>
 VECMEM_HOST_AND_DEVICE typename static_vector<TYPE, MAX_SIZE>::ElementId
 static_vector<TYPE, MAX_SIZE>::element_id(const_iterator pos) {
diff --git a/core/include/vecmem/containers/static_vector.hpp b/core/include/vecmem/containers/static_vector.hpp
index d4a0798..cd58798 100644
--- a/core/include/vecmem/containers/static_vector.hpp
+++ b/core/include/vecmem/containers/static_vector.hpp
@@ -310,6 +310,10 @@ private:
     /// Move existing elements to another position in the array
     VECMEM_HOST_AND_DEVICE
     void relocate(size_type from, size_type to, size_type count);
+    /// Address of a value once the elements at and after "from" are relocated
+    VECMEM_HOST_AND_DEVICE
+    const_pointer relocated(const_pointer value, const_pointer from,
+                            size_type distance) const;
 
     /// Helper type for identifying an element in the array
     struct ElementId {
-- 
2.43.0


From 474622c6378d8761c5caad3f361e9b2bae5648df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:04 +0000
Subject: [PATCH 21/42] fix: make array::front() const usable

---
 core/include/vecmem/containers/impl/array.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/vecmem/containers/impl/array.ipp b/core/include/vecmem/containers/impl/array.ipp
index 86e1859..6ada561 100644
--- a/core/include/vecmem/containers/impl/array.ipp
+++ b/core/include/vecmem/containers/impl/array.ipp
@@ -86,7 +86,7 @@ auto array<T, N>::front() const -> const_reference {
             "Called vecmem::array::front() on an empty "
             "array");
     }
-    return (*m_memory);
+    return m_memory.get()[0];
 }
 
 template <typename T, std::size_t N>
-- 
2.43.0


From e70b821a3c405f0521622965e596bb2893db4095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:12 +0000
Subject: [PATCH 22/42] fix: make zero sized static arrays usable

---
 .../vecmem/containers/details/static_array_traits.hpp    | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/include/vecmem/containers/details/static_array_traits.hpp b/core/include/vecmem/containers/details/static_array_traits.hpp
index fcfada0..da5eae9 100644
--- a/core/include/vecmem/containers/details/static_array_traits.hpp
+++ b/core/include/vecmem/containers/details/static_array_traits.hpp
@@ -6,6 +6,9 @@
  */
 #pragma once
 
+// Local include(s).
+#include "vecmem/utils/types.hpp"
+
 // System include(s).
 #include <cstddef>
 
@@ -24,7 +27,11 @@ struct static_array_type {
 
 template <typename T>
 struct static_array_type<T, 0> {
-    struct type {};
+    struct type {
+        /// Behave like an array that has decayed to a pointer
+        VECMEM_HOST_AND_DEVICE
+        constexpr operator T*() const { return nullptr; }
+    };
 };
 
 }  // namespace details
-- 
2.43.0


From 3b2363303456322848b08bbfa6670000d52bcd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:20 +0000
Subject: [PATCH 23/42] fix: make jagged device vector iterators convertible to
 constant ones

---
 .../details/jagged_device_vector_iterator.hpp        | 12 +++++++++---
 .../impl/jagged_device_vector_iterator.ipp           |  7 ++++---
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/core/include/vecmem/containers/details/jagged_device_vector_iterator.hpp b/core/include/vecmem/containers/details/jagged_device_vector_iterator.hpp
index 8bb0f5d..7c4b923 100644
--- a/core/include/vecmem/containers/details/jagged_device_vector_iterator.hpp
+++ b/core/include/vecmem/containers/details/jagged_device_vector_iterator.hpp
@@ -102,10 +102,12 @@ public:
     /// Copy constructor
     VECMEM_HOST_AND_DEVICE
     jagged_device_vector_iterator(const jagged_device_vector_iterator& parent);
-    /// Copy constructor
-    template <typename T>
+    /// Constructor from a "slightly different" iterator
+    template <typename OTHERTYPE,
+              std::enable_if_t<details::is_same_nc<TYPE, OTHERTYPE>::value,
+                               bool> = true>
     VECMEM_HOST_AND_DEVICE jagged_device_vector_iterator(
-        const jagged_device_vector_iterator<T>& parent);
+        const jagged_device_vector_iterator<OTHERTYPE>& parent);
 
     /// Copy assignment operator
     VECMEM_HOST_AND_DEVICE
@@ -173,6 +175,10 @@ public:
     /// @}
 
 private:
+    /// Allow the conversion between the different kinds of iterators
+    template <typename OTHERTYPE>
+    friend class jagged_device_vector_iterator;
+
     /// Pointer to the data (in an array)
     data_pointer m_ptr;
 
diff --git a/core/include/vecmem/containers/impl/jagged_device_vector_iterator.ipp b/core/include/vecmem/containers/impl/jagged_device_vector_iterator.ipp
index 866484d..00284f4 100644
--- a/core/include/vecmem/containers/impl/jagged_device_vector_iterator.ipp
+++ b/core/include/vecmem/containers/impl/jagged_device_vector_iterator.ipp
@@ -58,11 +58,12 @@ jagged_device_vector_iterator<TYPE>::jagged_device_vector_iterator(
     : m_ptr(parent.m_ptr) {}
 
 template <typename TYPE>
-template <typename T>
+template <typename OTHERTYPE,
+          std::enable_if_t<details::is_same_nc<TYPE, OTHERTYPE>::value, bool> >
 VECMEM_HOST_AND_DEVICE
 jagged_device_vector_iterator<TYPE>::jagged_device_vector_iterator(
-    const jagged_device_vector_iterator<T>& parent)
-    : m_ptr(parent.m_ptr) {}
+    const jagged_device_vector_iterator<OTHERTYPE>& parent)
+    : m_ptr{reinterpret_cast<data_pointer>(parent.m_ptr)} {}
 
 template <typename TYPE>
 VECMEM_HOST_AND_DEVICE jagged_device_vector_iterator<TYPE>&
-- 
2.43.0


From a27b86d281fcf800a7f3d37bc3f6937e5a8c68ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:52 +0000
Subject: [PATCH 24/42] fix: initialise default constructed SoA buffers and
 data objects

---
 core/include/vecmem/edm/buffer.hpp      | 3 ++-
 core/include/vecmem/edm/data.hpp        | 3 ++-
 core/include/vecmem/edm/impl/buffer.ipp | 6 ++++++
 core/include/vecmem/edm/impl/data.ipp   | 6 ++++++
 4 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/core/include/vecmem/edm/buffer.hpp b/core/include/vecmem/edm/buffer.hpp
index a19aab9..2736cc3 100644
--- a/core/include/vecmem/edm/buffer.hpp
+++ b/core/include/vecmem/edm/buffer.hpp
@@ -182,7 +182,8 @@ public:
     using memory_type = unique_alloc_ptr<char[]>;
 
     /// Default constructor
-    buffer() = default;
+    VECMEM_HOST
+    buffer();
     /// Move constructor
     buffer(buffer&&) = default;
 
diff --git a/core/include/vecmem/edm/data.hpp b/core/include/vecmem/edm/data.hpp
index e6257ac..dc29846 100644
--- a/core/include/vecmem/edm/data.hpp
+++ b/core/include/vecmem/edm/data.hpp
@@ -58,7 +58,8 @@ public:
     /// @{
 
     /// Default constructor
-    data() = default;
+    VECMEM_HOST
+    data();
     /// Move constructor
     data(data&&) = default;
 
diff --git a/core/include/vecmem/edm/impl/buffer.ipp b/core/include/vecmem/edm/impl/buffer.ipp
index 85ac26c..055f9cf 100644
--- a/core/include/vecmem/edm/impl/buffer.ipp
+++ b/core/include/vecmem/edm/impl/buffer.ipp
@@ -20,6 +20,12 @@
 namespace vecmem {
 namespace edm {
 
+/// A custom implementation for the default constructor is necessary because
+/// @c vecmem::edm::view does not set its members to anything explicitly in its
+/// default constructor.
+template <typename... VARTYPES>
+VECMEM_HOST buffer<schema<VARTYPES...>>::buffer() : view_type(0u) {}
+
 template <typename... VARTYPES>
 VECMEM_HOST buffer<schema<VARTYPES...>>::buffer(size_type capacity,
                                                 memory_resource& mr,
diff --git a/core/include/vecmem/edm/impl/data.ipp b/core/include/vecmem/edm/impl/data.ipp
index fb55770..06d6bd8 100644
--- a/core/include/vecmem/edm/impl/data.ipp
+++ b/core/include/vecmem/edm/impl/data.ipp
@@ -12,6 +12,12 @@
 namespace vecmem {
 namespace edm {
 
+/// A custom implementation for the default constructor is necessary because
+/// @c vecmem::edm::view does not set its members to anything explicitly in its
+/// default constructor.
+template <typename... VARTYPES>
+VECMEM_HOST edm::data<edm::schema<VARTYPES...>>::data() : view_type(0u) {}
+
 template <typename... VARTYPES>
 VECMEM_HOST edm::data<edm::schema<VARTYPES...>>::data(size_type size,
                                                       memory_resource& resource)
-- 
2.43.0


From 7b6bfe878b6c3d0d98cfb97103b67e11aa568e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:52 +0000
Subject: [PATCH 25/42] fix: align the rows of fixed size jagged buffers to
 their element type

---
 core/include/vecmem/containers/impl/jagged_vector_buffer.ipp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/core/include/vecmem/containers/impl/jagged_vector_buffer.ipp b/core/include/vecmem/containers/impl/jagged_vector_buffer.ipp
index a449baa..07a537b 100644
--- a/core/include/vecmem/containers/impl/jagged_vector_buffer.ipp
+++ b/core/include/vecmem/containers/impl/jagged_vector_buffer.ipp
@@ -96,9 +96,8 @@ jagged_vector_buffer<TYPE>::jagged_vector_buffer(
 
     // Allocate the "inner memory" for a fixed size buffer.
     if (type == buffer_type::fixed_size && total_elements != 0) {
-        m_inner_memory = vecmem::make_unique_alloc<char[]>(
-            resource, total_elements * sizeof(TYPE));
-        data_ptr = reinterpret_cast<TYPE*>(m_inner_memory.get());
+        std::tie(m_inner_memory, data_ptr) =
+            details::aligned_multiple_placement<TYPE>(resource, total_elements);
     }
     // Allocate the "inner memory" for a resizable buffer.
     else if (type == buffer_type::resizable && capacities.size() != 0) {
-- 
2.43.0


From 907818840bdcf7dd1ce0d1ef9f075d60bb05d06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:13 +0000
Subject: [PATCH 26/42] fix: make constant access to jagged device variables
 through proxies work

---
 core/include/vecmem/edm/details/proxy_traits.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/core/include/vecmem/edm/details/proxy_traits.hpp b/core/include/vecmem/edm/details/proxy_traits.hpp
index 83be1ab..ab1e96f 100644
--- a/core/include/vecmem/edm/details/proxy_traits.hpp
+++ b/core/include/vecmem/edm/details/proxy_traits.hpp
@@ -138,10 +138,9 @@ struct proxy_var_type<type::jagged_vector<VTYPE>, proxy_type::device,
     using const_return_type = return_type;
 
     /// Helper function constructing a vector proxy variable
-    VECMEM_HOST_AND_DEVICE
-    static type make(
-        typename jagged_device_vector<std::add_const_t<VTYPE>>::size_type i,
-        const jagged_device_vector<std::add_const_t<VTYPE>>& vec) {
+    template <typename VECTYPE>
+    VECMEM_HOST_AND_DEVICE static type make(typename VECTYPE::size_type i,
+                                            const VECTYPE& vec) {
 
         return vec.at(i);
     }
@@ -160,7 +159,7 @@ struct proxy_var_type<type::jagged_vector<VTYPE>, proxy_type::device,
     /// They are returned as const references to the non-const device vector in
     /// const access
     using const_return_type = std::add_lvalue_reference_t<
-        std::add_const_t<device_vector<std::add_const_t<VTYPE>>>>;
+        std::add_const_t<type>>;
 
     /// Helper function constructing a vector proxy variable
     VECMEM_HOST_AND_DEVICE
-- 
2.43.0


From fdd820362f9b8a948b7d590d78e7aecd268e39bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:54 +0000
Subject: [PATCH 27/42] fix: initialise the size of resizable SoA buffers of
 zero capacity

---
 core/include/vecmem/utils/impl/copy.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index d73a789..e57aa63 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -330,8 +330,8 @@ copy::event_type copy::set_sizes(
 template <typename SCHEMA>
 copy::event_type copy::setup(edm::view<SCHEMA> data) const {
 
-    // For empty containers nothing needs to be done.
-    if (data.capacity() == 0) {
+    // For empty containers nothing needs to be done. Unless they have a size.
+    if ((data.capacity() == 0) && (data.size().ptr() == nullptr)) {
         return vecmem::copy::create_event();
     }
 
-- 
2.43.0


From b933faf5f6b206659483596b24730c4e1c641aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:05 +0000
Subject: [PATCH 28/42] fix: make tuples of a single nested tuple copyable

---
 core/include/vecmem/utils/tuple.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/include/vecmem/utils/tuple.hpp b/core/include/vecmem/utils/tuple.hpp
index 7284fea..0e419db 100644
--- a/core/include/vecmem/utils/tuple.hpp
+++ b/core/include/vecmem/utils/tuple.hpp
@@ -70,7 +70,8 @@ struct tuple<T, Ts...> {
         typename U, typename... Us,
         std::enable_if_t<
             vecmem::details::conjunction<
-                vecmem::details::negation<std::is_same<tuple<T, Ts...>, U>>,
+                vecmem::details::negation<
+                    std::is_same<tuple<T, Ts...>, std::decay_t<U>>>,
                 std::is_constructible<T, U &&>,
                 std::is_constructible<Ts, Us &&>...>::value,
             bool> = true>
-- 
2.43.0


From 23b7f9013ed74d25fb2f7c3b976f43b9bb2fef02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:14 +0000
Subject: [PATCH 29/42] fix: set up the size of resizable views of zero
 capacity

---
 core/include/vecmem/utils/impl/copy.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index e57aa63..144b873 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -29,7 +29,7 @@ template <typename TYPE>
 copy::event_type copy::setup(data::vector_view<TYPE> data) const {
 
     // Check if anything needs to be done.
-    if ((data.size_ptr() == nullptr) || (data.capacity() == 0)) {
+    if (data.size_ptr() == nullptr) {
         return vecmem::copy::create_event();
     }
 
-- 
2.43.0


From 7dd2289753a0a309b146017f2bee6c95dc7f8187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:14 +0000
Subject: [PATCH 30/42] fix: empty the resizable target when copying an empty
 vector

---
 core/include/vecmem/utils/impl/copy.ipp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index 144b873..239ad62 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -105,6 +105,10 @@ copy::event_type copy::operator()(
 
     // Make the target vector the correct size.
     to_vec.resize(size);
+    // If it's empty, there is no memory to copy.
+    if (size == 0u) {
+        return vecmem::copy::create_event();
+    }
     // Perform the memory copy.
     do_copy(size * sizeof(TYPE), from_view.ptr(), to_vec.data(), cptype);
 
@@ -492,8 +496,9 @@ bool copy::copy_view_impl(
     // Get the size of the source view.
     const typename data::vector_view<std::add_const_t<TYPE>>::size_type size =
         get_size(from_view);
-    // If it's zero, don't do an actual copy.
-    if (size == 0u) {
+    // If it's zero, and the target has no size to update either, there is
+    // nothing to do.
+    if ((size == 0u) && (to_view.size_ptr() == nullptr)) {
         return false;
     }
 
@@ -534,7 +539,9 @@ bool copy::copy_view_impl(
     }
 
     // Copy the payload.
-    do_copy(size * sizeof(TYPE), from_view.ptr(), to_view.ptr(), cptype);
+    if (size != 0u) {
+        do_copy(size * sizeof(TYPE), from_view.ptr(), to_view.ptr(), cptype);
+    }
     return true;
 }
 
-- 
2.43.0


From 99111744e914779d9870236d66f5b3beacdc5d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:14 +0000
Subject: [PATCH 31/42] fix: allow filling jagged vectors with no rows, or with
 empty ones

---
 core/include/vecmem/utils/impl/copy.ipp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index 239ad62..a062057 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -180,6 +180,11 @@ template <typename TYPE>
 copy::event_type copy::memset(data::jagged_vector_view<TYPE> data,
                               int value) const {
 
+    // Check if anything needs to be done.
+    if (data.size() == 0) {
+        return vecmem::copy::create_event();
+    }
+
     // Do different things for jagged vectors that are contiguous in memory.
     if (is_contiguous(data.host_ptr(), data.capacity())) {
         // For contiguous jagged vectors we can just do a single memset
@@ -208,6 +213,9 @@ copy::event_type copy::memset(data::jagged_vector_view<TYPE> data,
         // as that would require us to wait for each memset individually.
         for (std::size_t i = 0; i < data.size(); ++i) {
             data::vector_view<TYPE>& iv = data.host_ptr()[i];
+            if (iv.capacity() == 0u) {
+                continue;
+            }
             do_memset(iv.capacity() * sizeof(TYPE), iv.ptr(), value);
         }
     }
-- 
2.43.0


From 931713c5aac552697136616c0de63a6648a90ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:14 +0000
Subject: [PATCH 32/42] fix: do not read the row sizes of device views directly
 in copy::to

---
 core/include/vecmem/utils/impl/copy.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index a062057..c500550 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -229,9 +229,10 @@ data::jagged_vector_buffer<std::remove_cv_t<TYPE>> copy::to(
     const data::jagged_vector_view<TYPE>& data, memory_resource& resource,
     memory_resource* host_access_resource, type::copy_type cptype) const {
 
-    // Create the result buffer object.
+    // Create the result buffer object. Getting the sizes of the inner vectors
+    // in a way that works for not host accessible views as well.
     data::jagged_vector_buffer<std::remove_cv_t<TYPE>> result(
-        data, resource, host_access_resource);
+        get_sizes(data), resource, host_access_resource);
     assert(result.size() == data.size());
 
     // Copy the description of the "inner vectors" if necessary.
-- 
2.43.0


From c74d3dfce1e81b6e134e477006e44083d0956221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:56 +0000
Subject: [PATCH 33/42] fix: only copy SoA payloads in one go when the
 variables are laid out the same

---
 core/include/vecmem/utils/copy.hpp      |  6 +++
 core/include/vecmem/utils/impl/copy.ipp | 55 ++++++++++++++++++++++++-
 2 files changed, 59 insertions(+), 2 deletions(-)

diff --git a/core/include/vecmem/utils/copy.hpp b/core/include/vecmem/utils/copy.hpp
index e548d85..e1fe981 100644
--- a/core/include/vecmem/utils/copy.hpp
+++ b/core/include/vecmem/utils/copy.hpp
@@ -249,6 +249,12 @@ private:
         const edm::view<edm::details::add_const_t<edm::schema<VARTYPES...>>>&
             from,
         edm::view<edm::schema<VARTYPES...>> to, type::copy_type cptype) const;
+    /// Check if the variables of two SoA containers are at the same locations
+    template <std::size_t INDEX, typename... VARTYPES>
+    static bool has_same_layout(
+        const edm::view<edm::details::add_const_t<edm::schema<VARTYPES...>>>&
+            from,
+        const edm::view<edm::schema<VARTYPES...>>& to);
     /// Implementation for the variadic @c copy function (for the payload)
     template <std::size_t INDEX, typename... VARTYPES>
     void copy_payload_impl(
diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index c500550..25bc419 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -395,10 +395,11 @@ copy::event_type copy::operator()(
     edm::view<edm::schema<VARTYPES...>> to_view, type::copy_type cptype) const {
 
     // First, handle the simple case, when both views have a contiguous memory
-    // layout.
+    // layout. And all of the variables are at the same place in the two.
     if ((from_view.payload().ptr() != nullptr) &&
         (to_view.payload().ptr() != nullptr) &&
-        (from_view.payload().capacity() == to_view.payload().capacity())) {
+        (from_view.payload().capacity() == to_view.payload().capacity()) &&
+        has_same_layout<0>(from_view, to_view)) {
 
         // If the "common size" is zero, we're done.
         if (from_view.payload().capacity() == 0) {
@@ -917,6 +918,56 @@ void copy::copy_sizes_impl(
     }
 }
 
+template <std::size_t INDEX, typename... VARTYPES>
+bool copy::has_same_layout(
+    const edm::view<edm::details::add_const_t<edm::schema<VARTYPES...>>>&
+        from_view,
+    const edm::view<edm::schema<VARTYPES...>>& to_view) {
+
+    // Helper for comparing the locations of two arrays inside of the payloads.
+    auto same_offset = [&](const void* from_ptr, const void* to_ptr) {
+        return ((static_cast<const char*>(from_ptr) -
+                 from_view.payload().ptr()) ==
+                (static_cast<const char*>(to_ptr) - to_view.payload().ptr()));
+    };
+    // Helper for comparing two one dimensional arrays.
+    auto same_array = [&](const auto& from, const auto& to) {
+        return ((from.capacity() == to.capacity()) &&
+                ((from.capacity() == 0u) || same_offset(from.ptr(), to.ptr())));
+    };
+
+    // Compare the current variable. Using only host accessible information.
+    const auto& from = from_view.template get<INDEX>();
+    const auto& to = to_view.template get<INDEX>();
+    using variable_type =
+        typename std::tuple_element<INDEX, std::tuple<VARTYPES...>>::type;
+    if constexpr (edm::type::details::is_scalar<variable_type>::value) {
+        if (!same_offset(from, to)) {
+            return false;
+        }
+    } else if constexpr (edm::type::details::is_jagged_vector<
+                             variable_type>::value) {
+        if (from.size() != to.size()) {
+            return false;
+        }
+        for (std::size_t i = 0; i < from.size(); ++i) {
+            if (!same_array(from.host_ptr()[i], to.host_ptr()[i])) {
+                return false;
+            }
+        }
+    } else {
+        if (!same_array(from, to)) {
+            return false;
+        }
+    }
+    // Recurse into the next variable.
+    if constexpr (sizeof...(VARTYPES) > (INDEX + 1)) {
+        return has_same_layout<INDEX + 1>(from_view, to_view);
+    } else {
+        return true;
+    }
+}
+
 template <std::size_t INDEX, typename... VARTYPES>
 void copy::copy_payload_impl(
     const edm::view<edm::details::add_const_t<edm::schema<VARTYPES...>>>&
-- 
2.43.0


From 0a3d21bb04fb0118e6db546ce4bda35ce72f7ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:25 +0000
Subject: [PATCH 34/42] fix: make SoA containers of only scalars copyable and
 buffers of them constructible

---
 core/include/vecmem/edm/impl/buffer.ipp | 10 ++++++++--
 core/include/vecmem/utils/impl/copy.ipp | 11 ++++++++---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/core/include/vecmem/edm/impl/buffer.ipp b/core/include/vecmem/edm/impl/buffer.ipp
index 055f9cf..3aba87f 100644
--- a/core/include/vecmem/edm/impl/buffer.ipp
+++ b/core/include/vecmem/edm/impl/buffer.ipp
@@ -46,8 +46,14 @@ VECMEM_HOST buffer<schema<VARTYPES...>>::buffer(size_type capacity,
                         std::index_sequence_for<VARTYPES...>{});
             break;
         case vecmem::data::buffer_type::resizable:
-            setup_resizable(std::vector<std::size_t>(capacity), mr, nullptr,
-                            std::index_sequence_for<VARTYPES...>{});
+            if constexpr (std::disjunction_v<
+                              type::details::is_vector<VARTYPES>...>) {
+                setup_resizable(std::vector<std::size_t>(capacity), mr, nullptr,
+                                std::index_sequence_for<VARTYPES...>{});
+            } else {
+                throw std::runtime_error(
+                    "A container without vectors can not be resizable");
+            }
             break;
         default:
             throw std::runtime_error("Unknown buffer type");
diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index 25bc419..9dea1b6 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -792,10 +792,15 @@ void copy::resize_impl(
     assert((cptype == type::device_to_host) || (cptype == type::host_to_host) ||
            (cptype == type::unknown));
 
-    // First, handle containers with no jagged vectors in them.
+    // Containers without any vectors in them do not have a size.
     if constexpr (std::disjunction_v<
-                      edm::type::details::is_jagged_vector<VARTYPES>...> ==
-                  false) {
+                      edm::type::details::is_vector<VARTYPES>...> == false) {
+        (void)from_view;
+        (void)to_vec;
+    }
+    // Handle containers with no jagged vectors in them.
+    else if constexpr (std::disjunction_v<edm::type::details::is_jagged_vector<
+                           VARTYPES>...> == false) {
         // The single size of the source container.
         typename edm::view<
             edm::details::add_const_t<edm::schema<VARTYPES...>>>::size_type
-- 
2.43.0


From ce353deb3d0f20b7ea15ed089f7e020335621493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:20 +0000
Subject: [PATCH 35/42] fix: make jagged vectors copyable into std::vector
 objects with any allocator

---
 core/include/vecmem/utils/impl/copy.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index 9dea1b6..5839bd8 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -276,8 +276,9 @@ copy::event_type copy::operator()(
         to_vec[i].resize(sizes[i]);
     }
 
-    // Perform the memory copy.
-    return operator()(from_view, vecmem::get_data(to_vec), cptype);
+    // Perform the memory copy. The target may not use a memory resource itself.
+    host_memory_resource resource;
+    return operator()(from_view, vecmem::get_data(to_vec, &resource), cptype);
 }
 
 template <typename TYPE>
-- 
2.43.0


From b2407923615915c5db8d3c96e237c56118796677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:40 +0000
Subject: [PATCH 36/42] fix: subtract without negating the argument in
 posix_device_atomic_ref::fetch_sub

Negating the smallest value of a signed type overflows.
---
 core/include/vecmem/memory/impl/posix_device_atomic_ref.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/vecmem/memory/impl/posix_device_atomic_ref.ipp b/core/include/vecmem/memory/impl/posix_device_atomic_ref.ipp
index b4253dd..29ebeef 100644
--- a/core/include/vecmem/memory/impl/posix_device_atomic_ref.ipp
+++ b/core/include/vecmem/memory/impl/posix_device_atomic_ref.ipp
@@ -120,7 +120,7 @@ template <typename T, device_address_space address>
 VECMEM_HOST auto posix_device_atomic_ref<T, address>::fetch_sub(
     value_type data, memory_order order) const -> value_type {
 
-    return __atomic_fetch_add(m_ptr, -data,
+    return __atomic_fetch_sub(m_ptr, data,
                               details::memorder_to_posix_builtin(order));
 }
 
-- 
2.43.0


From a5857349f2f390fe423669b04367e900c1b478b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:33 +0000
Subject: [PATCH 37/42] fix: wait for the columns of an SoA container being
 filled

The events of the individual fill operations were dropped without being
waited for. Which reports errors from a destructor, and terminates the
application with VECMEM_FAIL_ON_ASYNC_ERRORS.
---
 core/include/vecmem/utils/impl/copy.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index 5839bd8..f6e2a23 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -379,7 +379,7 @@ copy::event_type copy::memset(edm::view<edm::schema<VARTYPES...>> data,
 
     // For buffers, we can do this in one go.
     if (data.payload().ptr() != nullptr) {
-        memset(data.payload(), value);
+        memset(data.payload(), value)->wait();
     } else {
         // Do the operation using the helper function, recursively.
         memset_impl<0>(data, value);
@@ -772,7 +772,7 @@ void copy::memset_impl(edm::view<edm::schema<VARTYPES...>> data,
                   data.template get<INDEX>(), value);
     } else {
         // But vectors and jagged vectors do.
-        memset(data.template get<INDEX>(), value);
+        memset(data.template get<INDEX>(), value)->wait();
     }
     // Recurse into the next variable.
     if constexpr (sizeof...(VARTYPES) > (INDEX + 1)) {
-- 
2.43.0


From d569e5a038d08ab0377537d86450c7dced6415ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:33 +0000
Subject: [PATCH 38/42] fix: create CUDA events on the device of the stream
 that they are recorded into

cudaEventRecord(...) fails for an event and a stream of different devices, so
vecmem::cuda::async_copy was not usable with streams that were created for
another device than the one that is current during the operations.
---
 cuda/include/vecmem/utils/cuda/stream_wrapper.hpp | 7 +++++++
 cuda/src/utils/cuda/async_copy.cpp                | 8 ++++++++
 cuda/src/utils/opaque_stream.cpp                  | 3 ++-
 cuda/src/utils/opaque_stream.hpp                  | 2 ++
 cuda/src/utils/stream_wrapper.cpp                 | 5 +++++
 5 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/cuda/include/vecmem/utils/cuda/stream_wrapper.hpp b/cuda/include/vecmem/utils/cuda/stream_wrapper.hpp
index 157bdee..b2c29d4 100644
--- a/cuda/include/vecmem/utils/cuda/stream_wrapper.hpp
+++ b/cuda/include/vecmem/utils/cuda/stream_wrapper.hpp
@@ -64,6 +64,13 @@ public:
     VECMEM_CUDA_EXPORT
     void* stream() const;
 
+    /// The device that an owned stream was created on
+    ///
+    /// It is @c INVALID_DEVICE for streams that the object does not own.
+    ///
+    VECMEM_CUDA_EXPORT
+    int device() const;
+
     /// Wait for all queued tasks from the stream to complete
     VECMEM_CUDA_EXPORT
     void synchronize();
diff --git a/cuda/src/utils/cuda/async_copy.cpp b/cuda/src/utils/cuda/async_copy.cpp
index 4803f69..b98bb43 100644
--- a/cuda/src/utils/cuda/async_copy.cpp
+++ b/cuda/src/utils/cuda/async_copy.cpp
@@ -11,6 +11,7 @@
 
 #include "../cuda_error_handling.hpp"
 #include "../cuda_wrappers.hpp"
+#include "../select_device.hpp"
 #include "vecmem/utils/debug.hpp"
 
 // CUDA include(s).
@@ -137,6 +138,13 @@ void async_copy::do_memset(std::size_t size, void* ptr, int value) const {
 
 async_copy::event_type async_copy::create_event() const {
 
+    // Make sure that the event is created on the device of the stream. As an
+    // event could not be recorded into the stream of another device.
+    const int device = m_stream.device();
+    details::select_device dev_selector(
+        device == stream_wrapper::INVALID_DEVICE ? details::get_device()
+                                                 : device);
+
     // Create a CUDA event.
     cudaEvent_t cudaEvent = nullptr;
     VECMEM_CUDA_ERROR_CHECK(cudaEventCreate(&cudaEvent));
diff --git a/cuda/src/utils/opaque_stream.cpp b/cuda/src/utils/opaque_stream.cpp
index 35bf23a..86f427f 100644
--- a/cuda/src/utils/opaque_stream.cpp
+++ b/cuda/src/utils/opaque_stream.cpp
@@ -9,10 +9,11 @@
 #include "opaque_stream.hpp"
 
 #include "cuda_error_handling.hpp"
+#include "cuda_wrappers.hpp"
 
 namespace vecmem::cuda::details {
 
-opaque_stream::opaque_stream() : m_stream(nullptr) {
+opaque_stream::opaque_stream() : m_device(get_device()), m_stream(nullptr) {
 
     VECMEM_CUDA_ERROR_CHECK(cudaStreamCreate(&m_stream));
 }
diff --git a/cuda/src/utils/opaque_stream.hpp b/cuda/src/utils/opaque_stream.hpp
index f5344e3..beaa772 100644
--- a/cuda/src/utils/opaque_stream.hpp
+++ b/cuda/src/utils/opaque_stream.hpp
@@ -24,6 +24,8 @@ public:
     /// Destructor
     ~opaque_stream();
 
+    /// Device that the stream was created on
+    int m_device;
     /// Stream managed by the object
     cudaStream_t m_stream;
 
diff --git a/cuda/src/utils/stream_wrapper.cpp b/cuda/src/utils/stream_wrapper.cpp
index cdd5b97..083f13b 100644
--- a/cuda/src/utils/stream_wrapper.cpp
+++ b/cuda/src/utils/stream_wrapper.cpp
@@ -85,6 +85,11 @@ void* stream_wrapper::stream() const {
     return m_stream;
 }
 
+int stream_wrapper::device() const {
+
+    return (m_managedStream ? m_managedStream->m_device : INVALID_DEVICE);
+}
+
 void stream_wrapper::synchronize() {
 
     VECMEM_CUDA_ERROR_CHECK(cudaStreamSynchronize(details::get_stream(*this)));
-- 
2.43.0


From 354af6fd6b178216a4ee36e1f707fc580e210b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:26 +0000
Subject: [PATCH 39/42] fix: let go of the own queue when assigning a
 non-owning sycl::queue_wrapper

Copies of an owning wrapper that was assigned a non-owning one would have been
made of the queue that it owned before.
---
 sycl/src/utils/sycl/queue_wrapper.sycl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sycl/src/utils/sycl/queue_wrapper.sycl b/sycl/src/utils/sycl/queue_wrapper.sycl
index f6f2d4e..e9f3290 100644
--- a/sycl/src/utils/sycl/queue_wrapper.sycl
+++ b/sycl/src/utils/sycl/queue_wrapper.sycl
@@ -87,6 +87,7 @@ queue_wrapper& queue_wrapper::operator=(const queue_wrapper& rhs) {
         // If not, then let's just point at the same queue that somebody else
         // owns.
         m_queue = rhs.m_queue;
+        m_managedQueue.reset();
     }
 
     // Return this object.
-- 
2.43.0


From ec0cf695f59ace54dda4f06d3c410d0f16a43a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:44 +0000
Subject: [PATCH 40/42] fix: accept chunks below the minimal size in the pool
 when no allowed size fits

With options such as a minimum and a maximum of bytes per chunk between which
no multiple of the block size lies, the assertion about the minimum aborted
debug builds although the options are valid.
---
 core/src/memory/details/pool_memory_resource_impl.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/memory/details/pool_memory_resource_impl.cpp b/core/src/memory/details/pool_memory_resource_impl.cpp
index 4be51eb..b53a90b 100644
--- a/core/src/memory/details/pool_memory_resource_impl.cpp
+++ b/core/src/memory/details/pool_memory_resource_impl.cpp
@@ -209,7 +209,9 @@ void* pool_memory_resource_impl::allocate(std::size_t bytes,
 
         assert(n >= m_options.min_blocks_per_chunk);
         assert(n <= m_options.max_blocks_per_chunk);
-        assert(bytes >= m_options.min_bytes_per_chunk);
+        // There may be no whole number of blocks with an allowed size.
+        assert((bytes >= m_options.min_bytes_per_chunk) ||
+               (bytes + bucket_size > m_options.max_bytes_per_chunk));
         assert(bytes <= m_options.max_bytes_per_chunk);
 
         chunk_descriptor allocated;
-- 
2.43.0


From 38835cc35b27b825641635643ed9f47099aac619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:10 +0000
Subject: [PATCH 41/42] fix: do not describe SoA payloads beyond 4 GiB with
 truncated sizes

---
 core/include/vecmem/edm/details/buffer_traits.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/include/vecmem/edm/details/buffer_traits.hpp b/core/include/vecmem/edm/details/buffer_traits.hpp
index 117b98a..7fb8cfb 100644
--- a/core/include/vecmem/edm/details/buffer_traits.hpp
+++ b/core/include/vecmem/edm/details/buffer_traits.hpp
@@ -17,6 +17,7 @@
 
 // System include(s).
 #include <array>
+#include <limits>
 #include <numeric>
 #include <tuple>
 #include <type_traits>
@@ -252,6 +253,13 @@ find_payload_view(
         reinterpret_cast<typename result_type::pointer>(find_last_pointer(
             payloads, sizes, std::index_sequence_for<TYPES...>()));
 
+    // A single view can only describe so much memory. Larger payloads must be
+    // handled variable-by-variable.
+    if (static_cast<std::size_t>(end_ptr - ptr) >
+        std::numeric_limits<typename result_type::size_type>::max()) {
+        return {0u, nullptr};
+    }
+
     // Construct the result.
     return {static_cast<typename result_type::size_type>(end_ptr - ptr), ptr};
 }
-- 
2.43.0


From 13c8f78ed04245730d990c14f8d686257507dab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:10 +0000
Subject: [PATCH 42/42] fix: compare_exchange_strong of vecmem::atomic in CUDA
 and HIP device code

---
 core/include/vecmem/memory/impl/atomic.ipp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/include/vecmem/memory/impl/atomic.ipp b/core/include/vecmem/memory/impl/atomic.ipp
index 2b96d2c..4ede967 100644
--- a/core/include/vecmem/memory/impl/atomic.ipp
+++ b/core/include/vecmem/memory/impl/atomic.ipp
@@ -89,7 +89,15 @@ VECMEM_HOST_AND_DEVICE bool atomic<T>::compare_exchange_strong(
 
 #if (defined(__CUDA_ARCH__) || defined(__HIP_DEVICE_COMPILE__)) && \
     (!defined(SYCL_LANGUAGE_VERSION))
-    return atomicCAS(m_ptr, expected, desired);
+    const value_type current_value = atomicCAS(m_ptr, expected, desired);
+    // atomicCAS returns the old value, so the change will have succeeded if
+    // the old value was the expected value.
+    if (current_value == expected) {
+        return true;
+    } else {
+        expected = current_value;
+        return false;
+    }
 #elif defined(CL_SYCL_LANGUAGE_VERSION) || defined(SYCL_LANGUAGE_VERSION)
     return __VECMEM_SYCL_ATOMIC_CALL2(compare_exchange_strong, m_ptr, expected,
                                       desired);
-- 
2.43.0

