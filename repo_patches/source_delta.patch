From 1b2c5fde942af653207bc7fe4b7e08724182f182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 01/58] fix: run all arena cleanups before any block is
 returned

---
 arena/arena.hpp | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index d4e12e6..ed8203e 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -303,6 +303,8 @@ class Arena
             for (; node < last; ++node) {
                 node->cleanup(node->element);
             }
+            // every cleanup runs only once.
+            _limit = _size;
         }
 
         [[nodiscard, gnu::always_inline]] inline auto cleanups() const noexcept -> uint64_t {
@@ -610,20 +612,30 @@ class Arena
         return addCleanup(ptr, &arena_destruct_object<T>);
     }
 
+    /*
+     * run the cleanups of all blocks, from the newest block to the oldest,
+     * and return the remains size of all blocks (before the cleanup nodes were given back).
+     */
+    auto run_all_cleanups() noexcept -> uint64_t {
+        uint64_t remain_size = 0;
+        for (Block* curr = _last_block; curr != nullptr; curr = curr->prev()) {
+            remain_size += curr->remain();
+            curr->run_cleanups();
+        }
+        return remain_size;
+    }
+
     /*
      * free all blocks and return all remains size of all blocks that was freed.
      */
     auto free_all_blocks() noexcept -> uint64_t {
+        // a cleanup may touch the memory of any block, so run all of them before any block is freed.
+        uint64_t remain_size = run_all_cleanups();
         Block* curr = _last_block;
         Block* prev = nullptr;
-        uint64_t remain_size = 0;
 
         while (curr != nullptr) {
             prev = curr->prev();
-            // add the size of curr blk.
-            remain_size += curr->remain();
-            // run all cleanups first
-            curr->run_cleanups();
             _options.block_dealloc(curr);
             curr = prev;
         }
@@ -635,22 +647,17 @@ class Arena
      * free all blocks except the first block.
      */
     auto free_blocks_except_head() noexcept -> uint64_t {
+        // a cleanup may touch the memory of any block, so run all of them before any block is freed.
+        uint64_t remain_size = run_all_cleanups();
         Block* curr = _last_block;
         Block* prev = nullptr;
-        uint64_t remain_size = 0;
 
         while (curr != nullptr && curr->prev() != nullptr) {
             prev = curr->prev();
-            // add the size of curr blk.
-            remain_size += curr->remain();
-            // run all cleanups first
-            curr->run_cleanups();
             _options.block_dealloc(curr);
             curr = prev;
         }
         Assert(curr != nullptr, "curr should not be nullptr");
-        // add the curr blk remain to result
-        remain_size += curr->remain();
         // reset the last_block_ to the first block
         _last_block = curr;
         return remain_size;
-- 
2.43.0


From 5865b22030a9494ae606eb73b17586d132808b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 02/58] fix: allow Reset and SpaceRemains on an arena without
 blocks

---
 arena/arena.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index ed8203e..1138506 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -403,8 +403,10 @@ class Arena
         }
         // reset all internal status.
         uint64_t reset_size = _space_allocated;
-        _space_allocated = _last_block->size();
-        _last_block->Reset();
+        if (_last_block != nullptr) [[likely]] {
+            _space_allocated = _last_block->size();
+            _last_block->Reset();
+        }
         return reset_size;
     }
 
@@ -420,7 +422,7 @@ class Arena
      * caller can use is function to test whether the Arena will allocate a new block.
      */
     [[nodiscard, gnu::always_inline]] inline auto SpaceRemains() const noexcept -> uint64_t {
-        return _last_block->remain();
+        return _last_block != nullptr ? _last_block->remain() : 0;
     }
 
     /*
@@ -657,7 +659,6 @@ class Arena
             _options.block_dealloc(curr);
             curr = prev;
         }
-        Assert(curr != nullptr, "curr should not be nullptr");
         // reset the last_block_ to the first block
         _last_block = curr;
         return remain_size;
-- 
2.43.0


From 9cf78a107ab8139278f3769f5861aa5b5c053781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 03/58] fix: respect alignments above 8 bytes in new arena
 blocks and created objects

---
 arena/arena.cc  | 3 ++-
 arena/arena.hpp | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/arena/arena.cc b/arena/arena.cc
index d3ba154..9a85267 100644
--- a/arena/arena.cc
+++ b/arena/arena.cc
@@ -139,7 +139,8 @@ void Arena::Block::Reset() noexcept {
 auto Arena::allocateAligned(uint64_t bytes, uint64_t alignment) noexcept -> char* {
     uint64_t needed = align_size(bytes);
     if (need_create_new_block(needed, alignment)) [[unlikely]] {
-        Block* curr = newBlock(needed, _last_block);
+        // the payload of a new block is just kByteSize aligned, so a larger alignment may waste some bytes of it.
+        Block* curr = newBlock(needed + (alignment - kByteSize), _last_block);
         if (curr != nullptr) [[likely]] {
             _last_block = curr;
         } else {
diff --git a/arena/arena.hpp b/arena/arena.hpp
index 1138506..0351cf6 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -34,6 +34,7 @@
 
 #include <stdint.h>  // for uint64_t, uint8_t
 
+#include <algorithm>  // for max
 #include <boost/assert/source_location.hpp>
 #include <boost/core/demangle.hpp>  // for demangle
 #include <concepts>
@@ -432,7 +433,7 @@ class Arena
      */
     template <Creatable T, typename... Args>
     [[nodiscard]] auto Create(Args&&... args) noexcept -> T* {
-        char* ptr = allocateAligned(sizeof(T));
+        char* ptr = allocateAligned(sizeof(T), std::max<uint64_t>(kByteSize, alignof(T)));
         if (ptr != nullptr) [[likely]] {
             Construct<T>(ptr, *this, std::forward<Args>(args)...);
             T* result = reinterpret_cast<T*>(ptr);
@@ -464,7 +465,7 @@ class Arena
             _options.logger_func(output_message);
         }
         const uint64_t size = sizeof(T) * num;
-        char* ptr = allocateAligned(size);
+        char* ptr = allocateAligned(size, std::max<uint64_t>(kByteSize, alignof(T)));
         if (ptr != nullptr) [[likely]] {
             T* curr = reinterpret_cast<T*>(ptr);
             for (uint64_t i = 0; i < num; ++i) {
-- 
2.43.0


From 220860f9e0be0cfef5707a962dc3e66e946dca97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 04/58] fix: arena allocations of unrepresentable sizes return
 nullptr

---
 arena/arena.cc  | 7 +++++++
 arena/arena.hpp | 3 ++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/arena/arena.cc b/arena/arena.cc
index 9a85267..aadfc23 100644
--- a/arena/arena.cc
+++ b/arena/arena.cc
@@ -66,6 +66,7 @@ auto Arena::newBlock(uint64_t min_bytes, Block* prev_block) noexcept -> Arena::B
         auto output_message = fmt::format(
           "newBlock need too many min_bytes : {}, it add kBlockHeaderSize more than uint64_t max.", min_bytes);
         _options.logger_func(output_message);
+        return nullptr;
     }
 
     // it was not called in the Arena's first chance.
@@ -137,6 +138,12 @@ void Arena::Block::Reset() noexcept {
  * if return nullptr means failure
  */
 auto Arena::allocateAligned(uint64_t bytes, uint64_t alignment) noexcept -> char* {
+    // an allocation of so many bytes overflows while it is rounded up and placed into a block.
+    if (bytes > std::numeric_limits<uint64_t>::max() - kBlockHeaderSize - alignment) [[unlikely]] {
+        auto output_message = fmt::format("allocateAligned need too many bytes : {}.", bytes);
+        _options.logger_func(output_message);
+        return nullptr;
+    }
     uint64_t needed = align_size(bytes);
     if (need_create_new_block(needed, alignment)) [[unlikely]] {
         // the payload of a new block is just kByteSize aligned, so a larger alignment may waste some bytes of it.
diff --git a/arena/arena.hpp b/arena/arena.hpp
index 0351cf6..9e95c96 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -291,7 +291,7 @@ class Arena
             auto [_, alignment_waste] = AlignPos(Pos(), alignment);
             // the size is no need to align, because the AlignPos has done the ptr alignment, and _limit is aligned
             // to 16.
-            return _pos + alignment_waste + size <= _limit;
+            return alignment_waste <= remain() && size <= remain() - alignment_waste;
         }
 
         void run_cleanups() noexcept {
@@ -463,6 +463,7 @@ class Arena
               "is {}, sizeof T is {}",
               num, TYPENAME(T), sizeof(T));
             _options.logger_func(output_message);
+            return nullptr;
         }
         const uint64_t size = sizeof(T) * num;
         char* ptr = allocateAligned(size, std::max<uint64_t>(kByteSize, alignof(T)));
-- 
2.43.0


From 5b187b2b3520c4fa9ec872acabb5be4ca2095f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 05/58] fix: rebind the memory resource and the destruction
 hook when an arena is moved

---
 arena/arena.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index 9e95c96..b4c8b43 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -160,7 +160,13 @@ class Arena
           _last_block(std::exchange(other._last_block, nullptr)),
           _resource(std::exchange(other._resource, nullptr)),
           _cookie(std::exchange(other._cookie, nullptr)),
-          _space_allocated(std::exchange(other._space_allocated, 0)) {}
+          _space_allocated(std::exchange(other._space_allocated, 0)) {
+        // the memory_resource and the destruction event belong to the new Arena from now on.
+        if (_resource != nullptr) [[likely]] {
+            _resource->_arena = this;
+        }
+        other._options.on_arena_destruction = nullptr;
+    }
     auto operator=(Arena&&) noexcept -> Arena& = delete;
 
     /*
@@ -348,6 +354,8 @@ class Arena
 
        private:
         Arena* _arena;
+
+        friend class Arena;
     };
 
     /*
-- 
2.43.0


From ce9fbd0aa40ec8b2001fb476cd4f0368bea96846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 06/58] fix: destroy the created object when its destructor can
 not be registered

---
 arena/arena.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index b4c8b43..a5358e1 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -446,6 +446,10 @@ class Arena
             Construct<T>(ptr, *this, std::forward<Args>(args)...);
             T* result = reinterpret_cast<T*>(ptr);
             if (!RegisterDestructor<T>(result)) [[unlikely]] {
+                // nobody else will destroy it.
+                if constexpr (!ArenaHelper<T>::is_destructor_skippable::value) {
+                    arena_destruct_object<T>(result);
+                }
                 return nullptr;
             }
             if (_options.on_arena_allocation != nullptr) [[likely]] {
-- 
2.43.0


From 6b25bd1ba12624dac680670cd00cc633380711bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 07/58] fix: the arena memory resource throws bad_alloc when
 the arena is exhausted

---
 arena/arena.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index a5358e1..89680a2 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -336,8 +336,13 @@ class Arena
         [[nodiscard]] auto get_arena() const -> Arena* { return _arena; }
 
        protected:
-        auto do_allocate(size_t bytes, size_t alignment) noexcept -> void* override {
-            return reinterpret_cast<char*>(_arena->allocateAligned(bytes, std::max(kByteSize, alignment)));
+        auto do_allocate(size_t bytes, size_t alignment) -> void* override {
+            char* ptr = _arena->allocateAligned(bytes, std::max(kByteSize, alignment));
+            // a memory_resource must not return nullptr, the containers rely on it.
+            if (ptr == nullptr) [[unlikely]] {
+                throw std::bad_alloc();
+            }
+            return ptr;
         }
 
         void do_deallocate([[maybe_unused]] void* /*unused*/, [[maybe_unused]] size_t /*unused*/,
-- 
2.43.0


From 4350100098f5ef7a7aae55fb393903d0eb498931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:28 +0000
Subject: [PATCH 08/58] fix: Create returns nullptr when the arena is exhausted
 while the object is constructed

---
 arena/arena.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index 89680a2..bbd9e74 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -448,7 +448,12 @@ class Arena
     [[nodiscard]] auto Create(Args&&... args) noexcept -> T* {
         char* ptr = allocateAligned(sizeof(T), std::max<uint64_t>(kByteSize, alignof(T)));
         if (ptr != nullptr) [[likely]] {
-            Construct<T>(ptr, *this, std::forward<Args>(args)...);
+            try {
+                Construct<T>(ptr, *this, std::forward<Args>(args)...);
+            } catch (const std::bad_alloc&) {
+                // the memory_resource was exhausted while the object was constructed.
+                return nullptr;
+            }
             T* result = reinterpret_cast<T*>(ptr);
             if (!RegisterDestructor<T>(result)) [[unlikely]] {
                 // nobody else will destroy it.
@@ -486,8 +491,12 @@ class Arena
         char* ptr = allocateAligned(size, std::max<uint64_t>(kByteSize, alignof(T)));
         if (ptr != nullptr) [[likely]] {
             T* curr = reinterpret_cast<T*>(ptr);
-            for (uint64_t i = 0; i < num; ++i) {
-                Construct<T>(curr++, *this);
+            try {
+                for (uint64_t i = 0; i < num; ++i) {
+                    Construct<T>(curr++, *this);
+                }
+            } catch (const std::bad_alloc&) {
+                return nullptr;
             }
             if (_options.on_arena_allocation != nullptr) [[likely]] {
                 _options.on_arena_allocation(&typeid(T), size, _cookie);
@@ -698,11 +707,11 @@ class Arena
     friend class ArenaTestHelper;
 
     /*
-     * because of using 'new placement' do not need to allocate memory
-     * so no bad_alloc will be thrown
+     * 'new placement' do not need to allocate memory, but the constructor of T may,
+     * so bad_alloc can be thrown by a T that uses the memory_resource.
      */
     template <typename T, typename... Args>
-    [[gnu::always_inline]] inline static auto Construct(void* ptr, Arena& arena, Args&&... args) noexcept -> T* {
+    [[gnu::always_inline]] inline static auto Construct(void* ptr, Arena& arena, Args&&... args) -> T* {
         // placement new make the new Object T is in the ptr-> memory.
         if constexpr (std::is_constructible_v<T, Args..., ::pmr::polymorphic_allocator<T>>) {
             return new (ptr) T(std::forward<Args>(args)..., arena.get_memory_resource());
-- 
2.43.0


From 4b900e113daba84f049fca8a73acfc49d4e24c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:36 +0000
Subject: [PATCH 09/58] fix: no reads outside of the source while initialising
 small strings under ASan

---
 string/arena_string.hpp |  2 +-
 string/string.hpp       | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/string/arena_string.hpp b/string/arena_string.hpp
index 011e18b..3f1bb2b 100644
--- a/string/arena_string.hpp
+++ b/string/arena_string.hpp
@@ -616,7 +616,7 @@ inline void arena_string_core<Char>::initSmall(const Char* const data, const siz
 // The word-wise path reads bytes which are outside the range of
 // the string, and makes ASan unhappy, so we disable it when
 // compiling with ASan.
-#ifdef NDEBUG
+#if defined(NDEBUG) && !defined(STDB_STRING_WITH_ASAN)
     if ((reinterpret_cast<size_t>(data) & (sizeof(size_t) - 1)) == 0) {
         const size_t byteSize = size * sizeof(Char);
         constexpr size_t wordWidth = sizeof(size_t);
diff --git a/string/string.hpp b/string/string.hpp
index c15d40f..dc8cbce 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -153,6 +153,15 @@ constexpr auto isLittleEndian() noexcept -> bool { return std::endian::native ==
 #define FBSTRING_DISABLE_SSO false
 #endif
 
+// the word-wise copy of small strings reads bytes outside of its source.
+#if defined(__SANITIZE_ADDRESS__)
+#define STDB_STRING_WITH_ASAN
+#elif defined(__has_feature)
+#if __has_feature(address_sanitizer)
+#define STDB_STRING_WITH_ASAN
+#endif
+#endif
+
 namespace string_detail {
 
 template <class InIt, class OutIt>
@@ -786,7 +795,7 @@ inline void string_core<Char>::initSmall(const Char* const data, const size_t si
 // The word-wise path reads bytes which are outside the range of
 // the string, and makes ASan unhappy, so we disable it when
 // compiling with ASan.
-#ifdef NDEBUG
+#if defined(NDEBUG) && !defined(STDB_STRING_WITH_ASAN)
     if ((reinterpret_cast<size_t>(data) & (sizeof(size_t) - 1)) == 0) {
         const size_t byteSize = size * sizeof(Char);
         constexpr size_t wordWidth = sizeof(size_t);
-- 
2.43.0


From 0b75561162b8471fb4611ee81c88293df9f3dc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:14 +0000
Subject: [PATCH 10/58] fix: the summary of empty arena metrics must not divide
 by zero

---
 arena/metrics.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/arena/metrics.hpp b/arena/metrics.hpp
index 2a66f49..3faa54c 100644
--- a/arena/metrics.hpp
+++ b/arena/metrics.hpp
@@ -142,18 +142,22 @@ struct GlobalArenaMetrics
           init_count, reset_count, destruct_count, alloc_count, newblock_count, space_allocated, space_used,
           space_wasted, space_resettled);
 
-        constexpr uint64_t kPercentMagic = 100UL;
+        // nothing may have been counted yet.
+        auto percent = [](uint64_t count, uint64_t total) -> uint64_t {
+            constexpr uint64_t kPercentMagic = 100UL;
+            return total != 0 ? count * kPercentMagic / total : 0;
+        };
         for (uint64_t i = 0, count = 0; i < kAllocBucketSize; i++) {
             count += alloc_size_bucket_counter.at(i);
             // count < alloc_count
-            str += fmt::format("\n  le={}: {}%", alloc_size_bucket.at(i), count * kPercentMagic / alloc_count);
+            str += fmt::format("\n  le={}: {}%", alloc_size_bucket.at(i), percent(count, alloc_count));
         }
 
         str += "\nLifetime distribution:";
         for (uint64_t i = 0, count = 0; i < kLifetimeBucketSize; i++) {
             count += destruct_lifetime_bucket_counter.at(i);
             str += fmt::format("\n  le={}ms: {}", destruct_lifetime_bucket.at(i).count(),
-                               (count * kPercentMagic) / destruct_count);
+                               percent(count, destruct_count));
         }
 
         str += "\nArena Location/AllocSize:";  // TODO(longqimin): re-evaluate str.reserve size
-- 
2.43.0


From 14b778ea56edce4e3c2fd69792e4bbf4a80d7447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:14 +0000
Subject: [PATCH 11/58] fix: concurrent reports of arena metrics must not race
 on the map of locations

---
 arena/metrics.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/arena/metrics.hpp b/arena/metrics.hpp
index 3faa54c..b9f8ce1 100644
--- a/arena/metrics.hpp
+++ b/arena/metrics.hpp
@@ -41,6 +41,7 @@
 #include <compare>        // for operator<=, strong_ordering
 #include <cstdint>        // for uint64_t, uint32_t
 #include <memory>         // for allocator, unique_ptr
+#include <mutex>          // for mutex, lock_guard
 #include <string>         // for string, char_traits, hash
 #include <typeinfo>       // for type_info
 #include <unordered_map>  // for unordered_map, operator==
@@ -103,6 +104,7 @@ struct GlobalArenaMetrics
     // atomic<uint64_t> destruct_lifetime_bucket_counter[kLifetimeBucketSize] = {0};
     std::array<atomic<uint64_t>, kLifetimeBucketSize> destruct_lifetime_bucket_counter{0};
     std::unordered_map<std::string, atomic<uint64_t>> arena_alloc_counter = {};  // arena identified by init() location
+    mutable std::mutex arena_alloc_counter_mutex;                                // insertions into the map are not atomic
 
     void reset() {  // lockless and races for metric-data is acceptable
         init_count.store(0, std::memory_order::relaxed);
@@ -120,6 +122,7 @@ struct GlobalArenaMetrics
         for (auto& counter : destruct_lifetime_bucket_counter) {
             counter.store(0, std::memory_order::relaxed);
         }
+        std::lock_guard<std::mutex> lock(arena_alloc_counter_mutex);
         for (auto& [key, counter] : arena_alloc_counter) {
             counter.store(0, std::memory_order::relaxed);
         }
@@ -161,6 +164,7 @@ struct GlobalArenaMetrics
         }
 
         str += "\nArena Location/AllocSize:";  // TODO(longqimin): re-evaluate str.reserve size
+        std::lock_guard<std::mutex> lock(arena_alloc_counter_mutex);
         for (const auto& [loc, counter] : arena_alloc_counter) {
             str += fmt::format("\n  {}: {}", loc, counter);
         }
@@ -253,8 +257,11 @@ struct LocalArenaMetrics
             global_arena_metrics.destruct_lifetime_bucket_counter.at(i).fetch_add(
               destruct_lifetime_bucket_counter.at(i), std::memory_order::relaxed);
         }
-        for (const auto& [loc, count] : arena_alloc_counter) {
-            global_arena_metrics.arena_alloc_counter[loc].fetch_add(count, std::memory_order::relaxed);
+        {
+            std::lock_guard<std::mutex> lock(global_arena_metrics.arena_alloc_counter_mutex);
+            for (const auto& [loc, count] : arena_alloc_counter) {
+                global_arena_metrics.arena_alloc_counter[loc].fetch_add(count, std::memory_order::relaxed);
+            }
         }
 
         reset();
-- 
2.43.0


From b5ec849892cd98d6dcae2fb860dafbfc667c8a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 12/58] fix: inserting a part of a string into itself read
 freed or moved characters

---
 string/string.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/string/string.hpp b/string/string.hpp
index dc8cbce..7167a3e 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -2056,6 +2056,16 @@ inline auto basic_string<E, T, A, S>::insertImpl(const_iterator i, FwdIterator s
     auto n = std::distance(s1, s2);
     Assert(n >= 0, "insert input range is invalid");
 
+    if constexpr (std::is_pointer_v<FwdIterator> &&
+                  std::is_same_v<std::remove_cv_t<std::remove_pointer_t<FwdIterator>>, value_type>) {
+        // The source may be a part of this string, growing would move or free it.
+        std::less_equal<const value_type*> le{};
+        if (n > 0 && le(cbegin(), s1) && le(s1, cend())) {
+            const basic_string temp(s1, s2, get_allocator());
+            return insertImpl(i, temp.begin(), temp.end(), std::forward_iterator_tag());
+        }
+    }
+
     auto oldSize = size();
     store_.expandNoinit(size_t(n), /* expGrowth = */ true);
     auto b = begin();
-- 
2.43.0


From f6063849c6f66c64789004f71b09cae6127c3db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:13 +0000
Subject: [PATCH 13/58] fix: swapping arena strings of different arenas left
 each bound to the wrong one

---
 string/arena_string.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/string/arena_string.hpp b/string/arena_string.hpp
index 3f1bb2b..19be1af 100644
--- a/string/arena_string.hpp
+++ b/string/arena_string.hpp
@@ -187,6 +187,10 @@ class arena_string_core
         auto const t = ml_;  // NOLINT
         ml_ = rhs.ml_;       // NOLINT
         rhs.ml_ = t;         // NOLINT
+        // the characters stay where they are, so the allocators go with them (they can not be assigned).
+        auto const allocator = allocator_;
+        std::construct_at(&allocator_, rhs.allocator_);
+        std::construct_at(&rhs.allocator_, allocator);
 #if not defined(NDEBUG) && defined(CROSS_THREAD_CHECKING)
         std::swap(cpu_, rhs.cpu_);
 #endif
-- 
2.43.0


From aea15f4a04a7b85f823d99c253433862b6ea834a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:18 +0000
Subject: [PATCH 14/58] fix: replacing a part of an arena string with itself,
 or assigning a character to a shared one, used the default allocator

---
 string/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/string/string.hpp b/string/string.hpp
index 7167a3e..3210c43 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -1807,7 +1807,7 @@ inline auto basic_string<E, T, A, S>::operator=(value_type c) -> basic_string<E,
     if (empty()) {
         store_.expandNoinit(1);
     } else if (store_.isShared()) {
-        basic_string(1, c).swap(*this);
+        basic_string(1, c, get_allocator()).swap(*this);
         return *this;
     } else {
         store_.shrink(size() - 1);
@@ -2136,7 +2136,7 @@ inline auto basic_string<E, T, A, S>::replaceAliased(iterator i1, iterator i2, F
         return false;
     }
     // Aliased replace, copy to new string
-    basic_string temp;
+    basic_string temp(get_allocator());
     temp.reserve(size() - size_t(i2 - i1) + size_t(std::distance(s1, s2)));
     temp.append(begin(), i1).append(s1, s2).append(i2, end());
     swap(temp);
-- 
2.43.0


From b1eaa6c1305e63e6c8133ab920c3a402253bef69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:09 +0000
Subject: [PATCH 15/58] fix: appending a view to an arena string went through a
 string with the default allocator

---
 string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/string.hpp b/string/string.hpp
index 3210c43..044f82f 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -1320,7 +1320,7 @@ class basic_string
     // C++11 21.4.6 modifiers:
     auto operator+=(const basic_string& str) -> basic_string& { return append(str); }
 
-    auto operator+=(std::basic_string_view<value_type> str) -> basic_string& { return append(str); }
+    auto operator+=(std::basic_string_view<value_type> str) -> basic_string& { return append(str.data(), str.size()); }
 
     auto operator+=(const value_type* s) -> basic_string& { return append(s); }
 
-- 
2.43.0


From e1df094ce750d4796fccf9e71fd8d79ab1146362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:21 +0000
Subject: [PATCH 16/58] fix: contains(string_view) searched for a C string and
 read past the view

---
 string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/string.hpp b/string/string.hpp
index 044f82f..5dd5c75 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -1616,7 +1616,7 @@ class basic_string
     }
 
     [[nodiscard]] auto contains(std::basic_string_view<value_type> str) const noexcept -> bool {
-        return find(str.data()) != basic_string::npos;
+        return find(str.data(), 0, str.size()) != basic_string::npos;
     }
 
     [[nodiscard]] auto contains(const basic_string& str) const noexcept -> bool {
-- 
2.43.0


From a4cbb52e5705a8f5959ad123586d25bad78cdf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:21 +0000
Subject: [PATCH 17/58] fix: std::to_string cut a string at its first NUL

---
 string/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/string/string.hpp b/string/string.hpp
index 5dd5c75..5f6c616 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -2789,8 +2789,8 @@ struct formatter<stdb::memory::string> : formatter<string_view>
 
 namespace std {
 
-[[gnu::always_inline, nodiscard]] inline auto to_string(const ::stdb::memory::string& str) noexcept -> std::string {
-    return {str.data()};
+[[gnu::always_inline, nodiscard]] inline auto to_string(const ::stdb::memory::string& str) -> std::string {
+    return {str.data(), str.size()};
 }
 
 }  // namespace std
-- 
2.43.0


From 55c4e14e7dbcaa4ac89bc40904770ab38dabe9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:21 +0000
Subject: [PATCH 18/58] fix: extraction of a string kept the stream's width and
 classified wide characters by the C table for bytes

---
 string/string.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/string/string.hpp b/string/string.hpp
index 5f6c616..37ff360 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -35,6 +35,7 @@
 #include <istream>           // for basic_istream, basic_ostream, __ost...
 #include <iterator>          // for forward_iterator_tag, input_iterato...
 #include <limits>            // for numeric_limits
+#include <locale>            // for ctype, use_facet
 #include <memory>            // for allocator_traits
 #include <new>               // for bad_alloc, operator new
 #include <optional>
@@ -2535,18 +2536,19 @@ inline auto operator>>(
             n = int64_t(str.max_size());
         }
         str.erase();
+        const auto& ctype = std::use_facet<std::ctype<E>>(is.getloc());
         for (auto got = is.rdbuf()->sgetc(); extracted != static_cast<size_t>(n); ++extracted) {
             if (got == T::eof()) {
                 err |= _istream_type::eofbit;
-                is.width(0);
                 break;
             }
-            if (isspace(got)) {
+            if (ctype.is(std::ctype_base::space, T::to_char_type(got))) {
                 break;
             }
-            str.push_back(got);
+            str.push_back(T::to_char_type(got));
             got = is.rdbuf()->snextc();
         }
+        is.width(0);
     }
     if (!extracted) {
         err |= _istream_type::failbit;
-- 
2.43.0


From a10774a5589ffdff885af0e4e1ef580aab4ecaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:21 +0000
Subject: [PATCH 19/58] fix: strings of 2 GiB and more were not written to
 streams

---
 string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/string.hpp b/string/string.hpp
index 37ff360..f709502 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -2586,7 +2586,7 @@ inline auto operator<<(
     // MSVC doesn't define __ostream_insert
     os.write(str.data(), static_cast<streamsize>(str.size()));
 #else
-    std::__ostream_insert(os, str.data(), int32_t(str.size()));
+    std::__ostream_insert(os, str.data(), static_cast<std::streamsize>(str.size()));
 #endif
     return os;
 }
-- 
2.43.0


From f11be4fcad314e85777792aedc9105ed864176ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:21 +0000
Subject: [PATCH 20/58] fix: getline read on from a failed stream and raised
 failbit in passing on long lines

---
 string/string.hpp | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/string/string.hpp b/string/string.hpp
index f709502..394585f 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -1929,31 +1929,30 @@ inline auto basic_string<E, T, A, S>::getlineImpl(istream_type& is, value_type d
   typename basic_string<E, T, A, S>::istream_type& {
     Invariant checker(*this);
 
+    typename istream_type::sentry sentry(is, true);
+    if (!sentry) {
+        return is;
+    }
     clear();
-    size_t size = 0;
-    while (true) {
-        size_t avail = capacity() - size;
-        // string has 1 byte extra capacity for the null terminator,
-        // and getline null-terminates the read string.
-        is.getline(store_.expandNoinit(avail), avail + 1, delim);
-        size += is.gcount();
-
-        if (is.bad() || is.eof() || !is.fail()) {
-            // Done by either failure, end of file, or normal read.
-            if (!is.bad() && !is.eof()) {
-                --size;  // gcount() also accounts for the delimiter.
-            }
-            resize(size);
+    auto err = istream_type::goodbit;
+    bool extracted = false;
+    auto* const buf = is.rdbuf();
+    for (auto got = buf->sgetc();; got = buf->snextc()) {
+        if (traits_type::eq_int_type(got, traits_type::eof())) {
+            err |= istream_type::eofbit;
             break;
         }
-
-        Assert(size == this->size(), "getlineImpl() failed to walk through the total str size");
-        Assert(size == capacity(), "getlineImpl() failed to walk through the total capacity");
-        // Start at minimum allocation 63 + terminator = 64.
-        reserve(std::max<size_t>(63, 3 * size / 2));
-        // Clear the error so we can continue reading.
-        is.clear();
+        extracted = true;
+        if (traits_type::eq(traits_type::to_char_type(got), delim)) {
+            buf->sbumpc();
+            break;
+        }
+        push_back(traits_type::to_char_type(got));
+    }
+    if (!extracted) {
+        err |= istream_type::failbit;
     }
+    is.setstate(err);
     return is;
 }
 
-- 
2.43.0


From 15d6f0b92baa34fdda7aeb3f7f8c5f6f5545ee90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:42 +0000
Subject: [PATCH 21/58] fix: a string freed its buffer when it could not grow,
 and kept using it

---
 string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/string.hpp b/string/string.hpp
index 394585f..bed8db0 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -104,7 +104,7 @@ inline auto checkedMalloc(size_t size) -> void* {
 inline auto checkedRealloc(void* ptr, size_t size) -> void* {
     auto* new_ptr = realloc(ptr, size);
     if (new_ptr == nullptr) {
-        free(ptr);
+        // the old block is still owned, and used, by the caller.
         throw std::bad_alloc();
     }
     return new_ptr;
-- 
2.43.0


From 4f6dbd837d326dc5713e094d082db93ea469e5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:00 +0000
Subject: [PATCH 22/58] fix: growing a string by an amount that overflows its
 size wrote out of bounds

---
 string/arena_string.hpp | 3 +++
 string/string.hpp       | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/string/arena_string.hpp b/string/arena_string.hpp
index 19be1af..4ef7b90 100644
--- a/string/arena_string.hpp
+++ b/string/arena_string.hpp
@@ -792,6 +792,9 @@ template <class Char>
 inline auto arena_string_core<Char>::expandNoinit(const size_t delta, bool expGrowth) -> Char* {
     // Strategy is simple: make room, then change size
     Assert(capacity() >= size(), "arena_string_core expandNoinit failed, capacity should ge than size");
+    if (delta > std::numeric_limits<size_t>::max() - size()) [[unlikely]] {
+        throw(std::length_error(""));
+    }
     size_t oldSz = 0;
     size_t newSz = 0;
     if (category() == Category::isSmall) {
diff --git a/string/string.hpp b/string/string.hpp
index bed8db0..7b96150 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -961,6 +961,9 @@ inline auto string_core<Char>::expandNoinit(const size_t delta, bool expGrowth,
                                             bool disableSSO /* = FBSTRING_DISABLE_SSO */) -> Char* {
     // Strategy is simple: make room, then change size
     Assert(capacity() >= size(), "expandNoinit should make sure new capacity >= size()");
+    if (delta > std::numeric_limits<size_t>::max() - size()) [[unlikely]] {
+        throw(std::length_error(""));
+    }
     size_t oldSz = 0;
     size_t newSz = 0;
     if (category() == Category::isSmall) {
-- 
2.43.0


From 1fd8506cfc4bf5dcbcd1063d10dc4ccf8a287bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:00 +0000
Subject: [PATCH 23/58] fix: running out of memory while copying or unsharing a
 string terminated the program

---
 string/string.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/string/string.hpp b/string/string.hpp
index 7b96150..9c64216 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -340,7 +340,7 @@ class string_core
 
     explicit string_core(const std::allocator<Char>& /*noused*/) noexcept { reset(); }
 
-    string_core(const string_core& rhs) noexcept {
+    string_core(const string_core& rhs) {
         Assert(&rhs != this, "self copy is not allowed");
         // make sure all copy occur in same thread, or from a unshared string
         // if rhs is a unshared string, set the cpu_ to current thread_id
@@ -453,7 +453,7 @@ class string_core
 
     [[nodiscard]] auto data() noexcept -> Char* { return c_str(); }
 
-    auto mutableData() noexcept -> Char* {
+    auto mutableData() -> Char* {
         switch (category()) {
             case Category::isSmall:
                 return small_;
@@ -718,7 +718,7 @@ class string_core
     }
 
     void copySmall(const string_core& /*rhs*/) noexcept;
-    void copyMedium(const string_core& /*rhs*/) noexcept;
+    void copyMedium(const string_core& /*rhs*/);
     void copyLarge(const string_core& /*rhs*/) noexcept;
 
     void initSmall(const Char* data, size_t size) noexcept;
@@ -754,7 +754,7 @@ inline void string_core<Char>::copySmall(const string_core& rhs) noexcept {
 }
 
 template <class Char>
-void string_core<Char>::copyMedium(const string_core& rhs) noexcept {
+void string_core<Char>::copyMedium(const string_core& rhs) {
     // Medium strings are copied eagerly. Don't forget to allocate
     // one extra Char for the null terminator.
     //    auto const allocSize = goodMallocSize((1 + rhs.ml_.size_) * sizeof(Char));
@@ -1232,25 +1232,25 @@ class basic_string
     operator std::basic_string_view<value_type, traits_type>() const noexcept { return {data(), size()}; }
 
     // C++11 21.4.3 iterators:
-    auto begin() noexcept -> iterator { return store_.mutableData(); }
+    auto begin() -> iterator { return store_.mutableData(); }
 
     [[nodiscard]] auto begin() const noexcept -> const_iterator { return store_.data(); }
 
     [[nodiscard]] auto cbegin() const noexcept -> const_iterator { return begin(); }
 
-    auto end() noexcept -> iterator { return store_.mutableData() + store_.size(); }
+    auto end() -> iterator { return store_.mutableData() + store_.size(); }
 
     [[nodiscard]] auto end() const noexcept -> const_iterator { return store_.data() + store_.size(); }
 
     [[nodiscard]] auto cend() const noexcept -> const_iterator { return end(); }
 
-    auto rbegin() noexcept -> reverse_iterator { return reverse_iterator(end()); }
+    auto rbegin() -> reverse_iterator { return reverse_iterator(end()); }
 
     [[nodiscard]] auto rbegin() const noexcept -> const_reverse_iterator { return const_reverse_iterator(end()); }
 
     [[nodiscard]] auto crbegin() const noexcept -> const_reverse_iterator { return rbegin(); }
 
-    auto rend() noexcept -> reverse_iterator { return reverse_iterator(begin()); }
+    auto rend() -> reverse_iterator { return reverse_iterator(begin()); }
 
     [[nodiscard]] auto rend() const noexcept -> const_reverse_iterator { return const_reverse_iterator(begin()); }
 
@@ -1264,13 +1264,13 @@ class basic_string
         // Should be begin()[size() - 1], but that branches twice
         return *(end() - 1);
     }
-    auto front() noexcept -> value_type& { return *begin(); }
-    auto back() noexcept -> value_type& {
+    auto front() -> value_type& { return *begin(); }
+    auto back() -> value_type& {
         Assert(!empty(), "back() called on empty string");
         // Should be begin()[size() - 1], but that branches twice
         return *(end() - 1);
     }
-    void pop_back() noexcept {
+    void pop_back() {
         Assert(!empty(), "pop_back() called on empty string");
         store_.shrink(1);
     }
@@ -1309,7 +1309,7 @@ class basic_string
     // C++11 21.4.5 element access:
     auto operator[](size_type pos) const noexcept -> const_reference { return *(begin() + pos); }
 
-    auto operator[](size_type pos) noexcept -> reference { return *(begin() + pos); }
+    auto operator[](size_type pos) -> reference { return *(begin() + pos); }
 
     [[nodiscard]] auto at(size_type n) const -> const_reference {
         enforce<std::out_of_range>(n < size(), "");
-- 
2.43.0


From a4c8d3bf4ad301fb52e7e19105e740e6beda9f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:00 +0000
Subject: [PATCH 24/58] fix: assign and replace destroyed the old content
 before the memory for the new one was there

---
 string/string.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/string/string.hpp b/string/string.hpp
index 9c64216..118d824 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -1917,10 +1917,10 @@ auto basic_string<E, T, A, S>::assign(const value_type* s, size_type n) -> basic
     } else {
         // If n is larger than size(), s cannot alias this string's
         // storage.
-        resize(0);
         // Do not use exponential growth here: assign() should be tight,
         // to mirror the behavior of the equivalent constructor.
-        string_detail::podCopy(s, s + n, store_.expandNoinit(n));
+        store_.expandNoinit(n - size());
+        string_detail::podCopy(s, s + n, store_.mutableData());
     }
 
     Assert(size() == n, "assign() failed to assign the string size to n");
@@ -2112,8 +2112,10 @@ inline auto basic_string<E, T, A, S>::replaceImplDiscr(iterator i1, iterator i2,
         std::fill(i1, i1 + n2, c);
         erase(i1 + n2, i2);
     } else {
-        std::fill(i1, i2, c);
+        // grow first: when that fails nothing has been overwritten.
+        const size_type pos = size_t(i1 - begin());
         insert(i2, n2 - n1, c);
+        std::fill_n(begin() + pos, n1, c);
     }
     Assert(isSane(), "replaceImplDiscr() failed to make the string is Sane");
     return *this;
@@ -2169,9 +2171,10 @@ inline void basic_string<E, T, A, S>::replaceImpl(iterator i1, iterator i2, FwdI
         std::copy(s1, s2, i1);
         erase(i1 + n2, i2);
     } else {
-        // grows
-        s1 = string_detail::copy_n(s1, n1, i1).first;
-        insert(i2, s1, s2);
+        // grows, before anything is overwritten
+        const size_type pos = size_t(i1 - begin());
+        insert(i2, std::next(s1, n1), s2);
+        string_detail::copy_n(s1, n1, begin() + pos);
     }
     Assert(isSane(), "after replaceImpl, the string was not Sane");
 }
-- 
2.43.0


From 816a944f6a62f3de071e71603037f827c2a41711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:32 +0000
Subject: [PATCH 25/58] fix: assigning an empty range or zero copies to a
 vector kept the old size, inserting zero copies asserted

---
 container/stdb_vector.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 072e086..adc7be7 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -107,9 +107,12 @@ template <typename T>
     requires std::is_object_v<T>
 [[gnu::always_inline]] inline void construct_range_with_cref(T* __restrict__ first, T* __restrict__ last,
                                                              const T& value) {
+    static_assert(std::is_copy_constructible_v<T>);
+    if (first == last) [[unlikely]] {
+        return;
+    }
     Assert(first != nullptr and last != nullptr, "first and last can not be nullptr");
     Assert(first < last, "first should always before last");
-    static_assert(std::is_copy_constructible_v<T>);
     if constexpr (sizeof(T) == sizeof(char)) {
         std::memset(first, static_cast<int>(value), static_cast<size_t>(last - first) * sizeof(T));
     } else {
@@ -622,7 +625,7 @@ class stdb_vector : public core<T>
         } else {
             // if count is smaller than current capacity, we can just copy data
             // clear old data
-            this->destroy();
+            this->clear();
             if (count > 0) [[likely]] {
                 copy_from_iterator(this->_start, first, last);
                 this->_finish = this->_start + count;
@@ -1256,10 +1259,12 @@ class stdb_vector : public core<T>
 
     template <Safety safety = Safety::Safe>
     constexpr auto insert(const_iterator pos, size_type count, const_reference value) -> iterator {
-        Assert(count > 0, "count should be larger than 0");
         Assert(pos >= cbegin() && pos <= cend(), "pos should be in [begin(), end())");
         auto size = this->size();
         T* pos_ptr = (T*)get_ptr_from_iter(pos);  // NOLINT
+        if (count == 0) [[unlikely]] {
+            return iterator(pos_ptr);
+        }
         if constexpr (safety == Safety::Safe) {
             if (size + count > this->capacity()) [[unlikely]] {
                 difference_type pos_index = pos_ptr - this->_start;
-- 
2.43.0


From aec98f14621296d5471a5ac49a484a7b4bfeff6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:32 +0000
Subject: [PATCH 26/58] fix: vectors copied elements from non-contiguous or
 converting iterators as raw memory

---
 container/stdb_vector.hpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index adc7be7..d365225 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -164,17 +164,17 @@ template <typename T>
     }
 }
 
-template <typename It>
-concept PointerCompatibleIterator = std::is_pointer_v<It> or std::random_access_iterator<It>;
+template <typename It, typename T>
+concept PointerCompatibleIterator = std::contiguous_iterator<It> and std::is_same_v<std::iter_value_t<It>, T>;
 
 template <typename T, typename Iterator>
 [[gnu::always_inline]] inline void copy_from_iterator(T* __restrict__ dst, Iterator first, Iterator last) {
     Assert(dst != nullptr, "copy_from_iterator dst can not be nullptr");
     Assert(first != last, "copy_from_iterator first can not accept empty range means (first == last)");
 
-    if constexpr (IsRelocatable<T> and PointerCompatibleIterator<Iterator>) {
-        if (get_ptr_from_iter(first) < get_ptr_from_iter(last)) [[likely]] {
-            std::memcpy(dst, get_ptr_from_iter(first), static_cast<size_t>(last - first) * sizeof(T));
+    if constexpr (IsRelocatable<T> and PointerCompatibleIterator<Iterator, T>) {
+        if (first < last) [[likely]] {
+            std::memcpy(dst, std::to_address(first), static_cast<size_t>(last - first) * sizeof(T));
         }
     } else {
         for (; first != last; ++first, ++dst) {
@@ -561,7 +561,7 @@ class stdb_vector : public core<T>
 
     template <std::forward_iterator InputIt>
     constexpr stdb_vector(InputIt first, InputIt last) : core<T>() {
-        int64_t size = last - first;
+        int64_t size = std::distance(first, last);
         // if size == 0, then do nothing.and just for caller convenience.
         Assert(size >= 0, "stdb_vector should be constructed with non-negative size");
         Assert((size_type)size <= this->max_size(), "stdb_vector size should be smaller than max_size");
@@ -1288,7 +1288,15 @@ class stdb_vector : public core<T>
     template <Safety safety = Safety::Safe, class InputIt>
         requires std::input_iterator<InputIt>
     constexpr auto insert(const_iterator pos, InputIt first, InputIt last) -> iterator {
-        int64_t count = last - first;
+        if constexpr (not std::forward_iterator<InputIt>) {
+            // the range can be read only once
+            stdb_vector elements;
+            for (; first != last; ++first) {
+                elements.emplace_back(*first);
+            }
+            return insert<safety>(pos, elements.cbegin(), elements.cend());
+        }
+        int64_t count = std::distance(first, last);
         if (count == 0) [[unlikely]] {
             return iterator((T*)get_ptr_from_iter(pos));  // NOLINT
         }
-- 
2.43.0


From 8c61b41cc7bfbe045b2d103a0916cf3e4ccee1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:46 +0000
Subject: [PATCH 27/58] fix: vectors copied and assigned relocatable elements
 bytewise, which is only right for moving them

---
 container/stdb_vector.hpp | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index d365225..eddd057 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -129,7 +129,8 @@ template <typename T>
     Assert(dst != src, "copy_range should not be called with same dst and src");
     Assert(src < src_end, "src should always before src_end");
     // if is trivial_copyable, use memcpy is faster.
-    if constexpr (IsRelocatable<T>) {
+    // relocatable is not enough: the source keeps its elements.
+    if constexpr (std::is_trivially_copyable_v<T>) {
         std::memcpy(dst, src, (size_t)(src_end - src) * sizeof(T));  // NOLINT
         return dst + (src_end - src);
     } else {
@@ -144,24 +145,18 @@ template <typename T>
     requires std::is_trivially_copyable_v<T> or std::is_nothrow_move_constructible_v<T>
 [[gnu::always_inline]] inline void copy_value(T* __restrict__ dst, T value) {
     Assert(dst != nullptr, "dst can not be nullptr");
-    if constexpr (IsRelocatable<T>) {
-        *dst = value;
-    } else {
-        static_assert(std::is_nothrow_move_constructible_v<T>);
-        new (dst) T(std::move(value));
-    }
+    // there is no element at dst yet.
+    static_assert(std::is_nothrow_move_constructible_v<T>);
+    new (dst) T(std::move(value));
 }
 
 template <typename T>
     requires std::is_object_v<T>
 [[gnu::always_inline]] inline void copy_cref(T* __restrict__ dst, const T& value) {
     Assert(dst != nullptr, "dst can not be nullptr");
-    if constexpr (IsRelocatable<T>) {
-        *dst = value;
-    } else {
-        static_assert(std::is_copy_constructible_v<T>);
-        new (dst) T(value);
-    }
+    // there is no element at dst yet.
+    static_assert(std::is_copy_constructible_v<T>);
+    new (dst) T(value);
 }
 
 template <typename It, typename T>
@@ -172,7 +167,7 @@ template <typename T, typename Iterator>
     Assert(dst != nullptr, "copy_from_iterator dst can not be nullptr");
     Assert(first != last, "copy_from_iterator first can not accept empty range means (first == last)");
 
-    if constexpr (IsRelocatable<T> and PointerCompatibleIterator<Iterator, T>) {
+    if constexpr (std::is_trivially_copyable_v<T> and PointerCompatibleIterator<Iterator, T>) {
         if (first < last) [[likely]] {
             std::memcpy(dst, std::to_address(first), static_cast<size_t>(last - first) * sizeof(T));
         }
@@ -494,9 +489,7 @@ class core
         T* dst_end = dst + (_finish - 1 - src);
         if constexpr (IsRelocatable<T>) {
             // trivially backward move
-            for (T* src_end = _finish - 1; src_end >= src;) [[likely]] {
-                *(dst_end--) = *(src_end--);
-            }
+            std::memmove(dst, src, (size_t)(_finish - src) * sizeof(T));  // NOLINT
         } else if constexpr (std::is_move_constructible_v<T>) {
             // do not support throwable move constructor.
             static_assert(std::is_nothrow_move_constructible_v<T>);
@@ -1026,13 +1019,14 @@ class stdb_vector : public core<T>
                 // if the *src is not equal to the value we want to erase and dst == src, move forward both
                 if (*src != value) {
                     if (dst != src) {
-                        *dst = *src;
+                        std::memcpy(dst, src, sizeof(T));  // NOLINT
                     }
                     ++dst;
                 }
                 // if the *src is equal to the value we want to erase, move forward src only
                 else {
                     ++erased;
+                    destroy_ptr(src);
                 }
                 ++src;
             }
@@ -1096,13 +1090,14 @@ class stdb_vector : public core<T>
                 // if the *src is not equal to the value we want to erase and dst == src, move forward both
                 if (!pred(*src)) {
                     if (dst != src) {
-                        *dst = *src;
+                        std::memcpy(dst, src, sizeof(T));  // NOLINT
                     }
                     ++dst;
                 }
                 // if the *src is equal to the value we want to erase, move forward src only
                 else {
                     ++erased;
+                    destroy_ptr(src);
                 }
                 ++src;
             }
-- 
2.43.0


From 1495e5a43b1483eb4bb800e4136a10caecb6ba7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:46 +0000
Subject: [PATCH 28/58] fix: vectors never destroyed the elements they had
 moved to another place

---
 container/stdb_vector.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index eddd057..dc284ea 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -213,6 +213,7 @@ template <typename T>
     } else if constexpr (std::is_move_constructible_v<T>) {
         for (; src != src_end; ++src, ++dst) {
             new (dst) T(std::move(*src));
+            src->~T();
         }
         return dst;
     } else {
@@ -241,6 +242,7 @@ template <typename T>
         // call move constructor
         for (; src != src_end; ++src, ++dst) {
             new (dst) T(std::move(*src));
+            src->~T();
         }
 
     } else {
@@ -494,8 +496,9 @@ class core
             // do not support throwable move constructor.
             static_assert(std::is_nothrow_move_constructible_v<T>);
             // backward move
-            for (T* src_end = _finish - 1; src_end >= src;) [[likely]] {
-                new (dst_end--) T(std::move(*(src_end--)));
+            for (T* src_end = _finish - 1; src_end >= src; --dst_end, --src_end) [[likely]] {
+                new (dst_end) T(std::move(*src_end));
+                src_end->~T();
             }
         } else {
             // backward copy
@@ -1040,6 +1043,7 @@ class stdb_vector : public core<T>
                 if (*src != value) {
                     if (dst != src) {
                         new (dst) T(std::move(*src));
+                        src->~T();
                     }
                     ++dst;
                 }
@@ -1111,6 +1115,7 @@ class stdb_vector : public core<T>
                 if (!pred(*src)) {
                     if (dst != src) {
                         new (dst) T(std::move(*src));
+                        src->~T();
                     }
                     ++dst;
                 }
-- 
2.43.0


From cbc00f0a48bda7b7a2463014240ae6501ccb0e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:46 +0000
Subject: [PATCH 29/58] fix: get_writebuffer ignored the elements already in
 the vector when it grew

---
 container/stdb_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index dc284ea..a4bc744 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -905,8 +905,8 @@ class stdb_vector : public core<T>
     template <Safety safety = Safety::Safe>
     [[nodiscard, gnu::always_inline]] auto get_writebuffer(size_type buf_size) -> std::span<T> {
         if constexpr (safety == Safety::Safe) {
-            if (buf_size + this->_finish > this->_edge) {
-                this->realloc_with_old_data(compute_new_capacity(buf_size));
+            if (buf_size > this->capacity() - this->size()) {
+                this->realloc_with_old_data(compute_new_capacity(this->size() + buf_size));
             }
         }
         auto buf = std::span<T>(this->_finish, buf_size);
-- 
2.43.0


From 4fd1834a373b6d9c1eab8c1154f790404b17e552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:03 +0000
Subject: [PATCH 30/58] fix: inserting, assigning or resizing with an element
 of the vector itself used it after it had been moved or freed

---
 container/stdb_vector.hpp | 53 +++++++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 11 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index a4bc744..cba4304 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -593,6 +593,8 @@ class stdb_vector : public core<T>
     ~stdb_vector() = default;
 
     constexpr void assign(std::size_t count, const T& value) {
+        // value may be an element of this vector
+        const T copy(value);
         // cleanup old data
         if (count > this->capacity()) {
             // if count is larger than current capacity, we need to reallocate memory
@@ -604,7 +606,7 @@ class stdb_vector : public core<T>
         }
         this->_finish = this->_start + count;
         // construct data with value
-        construct_range_with_cref(this->_start, this->_finish, value);
+        construct_range_with_cref(this->_start, this->_finish, copy);
     }
 
     template <std::forward_iterator Iterator>
@@ -1184,13 +1186,15 @@ class stdb_vector : public core<T>
     constexpr void resize(size_type count, const_reference value) {
         // no checking count == _size, because very unlikely, and it's not a big deal
         if (count > this->size()) {
+            // value may be an element of this vector
+            const T copy(value);
             if (count > this->capacity()) {
                 this->realloc_with_old_data(count);
             }
             // destroy the elements that are not needed anymore
             auto* old_end = this->_finish;
             this->_finish = this->_start + count;
-            construct_range_with_cref(old_end, this->_finish, value);
+            construct_range_with_cref(old_end, this->_finish, copy);
         } else {
             // destroy the elements that are not needed anymore
             auto* old_end = this->_finish;
@@ -1205,6 +1209,8 @@ class stdb_vector : public core<T>
     constexpr auto insert(const_iterator pos, const_reference value) -> iterator {
         Assert(pos >= cbegin() && pos <= cend(), "pos should be in [begin(), end())");
         T* pos_ptr = (T*)get_ptr_from_iter(pos);  // NOLINT
+        // value may be an element of this vector
+        copy_of<const_reference> copy(value);
         if constexpr (safety == Safety::Safe) {
             if (this->full()) [[unlikely]] {
                 difference_type pos_index = pos_ptr - this->_start;
@@ -1215,7 +1221,7 @@ class stdb_vector : public core<T>
         Assert(not this->full(), "insert should not be called with full vector");
         // insert value to the end pos
         if (pos_ptr == this->_finish) [[unlikely]] {
-            copy_cref(this->_finish++, value);
+            copy.move_to(this->_finish++);
             return iterator(pos_ptr);
         }
         // move all elements after pos to the right, with backward direction, because have overlap
@@ -1224,7 +1230,7 @@ class stdb_vector : public core<T>
         } else {
             this->move_forward(pos_ptr + 1, pos_ptr);
         }
-        copy_cref(pos_ptr, value);
+        copy.move_to(pos_ptr);
         ++this->_finish;
         return iterator(pos_ptr);
     }
@@ -1233,6 +1239,8 @@ class stdb_vector : public core<T>
     constexpr auto insert(const_iterator pos, rvalue_reference value) -> iterator {
         Assert((pos >= cbegin()) && (pos <= cend()), "pos should be in [begin(), end())");
         T* pos_ptr = (T*)get_ptr_from_iter(pos);  // NOLINT
+        // value may be an element of this vector
+        copy_of<rvalue_reference> copy(std::move(value));
         if constexpr (safety == Safety::Safe) {
             if (this->full()) [[unlikely]] {
                 difference_type pos_index = pos_ptr - this->_start;
@@ -1243,7 +1251,7 @@ class stdb_vector : public core<T>
         Assert(not this->full(), "insert should not be called with full vector, it should be reserve first");
         // insert value to the end pos
         if (pos_ptr == this->_finish) [[unlikely]] {
-            copy_value(this->_finish++, std::move(value));
+            copy.move_to(this->_finish++);
             return iterator((T*)(pos_ptr));  // NOLINT
         }
         if (pos_ptr < this->_finish - 1) [[likely]] {
@@ -1253,7 +1261,7 @@ class stdb_vector : public core<T>
             this->move_forward(pos_ptr + 1, pos_ptr);
         }
         ++this->_finish;
-        copy_value(pos_ptr, std::move(value));
+        copy.move_to(pos_ptr);
         return iterator(pos_ptr);
     }
 
@@ -1265,6 +1273,8 @@ class stdb_vector : public core<T>
         if (count == 0) [[unlikely]] {
             return iterator(pos_ptr);
         }
+        // value may be an element of this vector
+        const T copy(value);
         if constexpr (safety == Safety::Safe) {
             if (size + count > this->capacity()) [[unlikely]] {
                 difference_type pos_index = pos_ptr - this->_start;
@@ -1280,7 +1290,7 @@ class stdb_vector : public core<T>
         } else {
             this->move_backward(pos_ptr + count, pos_ptr);
         }
-        construct_range_with_cref(pos_ptr, pos_ptr + count, value);
+        construct_range_with_cref(pos_ptr, pos_ptr + count, copy);
         this->_finish += count;
         return iterator(pos_ptr);
     }
@@ -1334,6 +1344,8 @@ class stdb_vector : public core<T>
     template <Safety safety = Safety::Safe, typename... Args>
     constexpr auto emplace(iterator pos, Args&&... args) -> iterator {
         T* pos_ptr = get_ptr_from_iter(pos);
+        // the arguments may refer to elements of this vector
+        copy_of<Args...> copy(std::forward<Args>(args)...);
         if constexpr (safety == Safety::Safe) {
             if (this->full()) [[unlikely]] {
                 difference_type pos_offset = pos_ptr - this->_start;
@@ -1344,7 +1356,7 @@ class stdb_vector : public core<T>
         }
         Assert(not this->full(), "emplace should not be called with full vector");
         if (pos_ptr == this->_finish) [[unlikely]] {
-            new (this->_finish++) T(std::forward<Args>(args)...);
+            copy.move_to(this->_finish++);
             return iterator(pos_ptr);
         }
         if (pos_ptr < this->_finish - 1) [[likely]] {
@@ -1352,13 +1364,15 @@ class stdb_vector : public core<T>
         } else {
             this->move_forward(pos_ptr + 1, pos_ptr);
         }
-        new (pos_ptr) T(std::forward<Args>(args)...);
+        copy.move_to(pos_ptr);
         ++this->_finish;
         return iterator(pos_ptr);
     }
 
     template <Safety safety = Safety::Safe, typename... Args>
     constexpr auto emplace(size_type pos, Args&&... args) -> iterator {
+        // the arguments may refer to elements of this vector
+        copy_of<Args...> copy(std::forward<Args>(args)...);
         if constexpr (safety == Safety::Safe) {
             if (this->full()) [[unlikely]] {
                 reserve(compute_next_capacity());
@@ -1368,7 +1382,7 @@ class stdb_vector : public core<T>
         T* pos_ptr = this->_start + pos;
 
         if (pos_ptr == this->_finish) [[unlikely]] {
-            new (this->_finish++) T(std::forward<Args>(args)...);
+            copy.move_to(this->_finish++);
             return iterator(pos_ptr);
         }
         if (pos_ptr < this->_finish - 1) [[likely]] {
@@ -1376,12 +1390,29 @@ class stdb_vector : public core<T>
         } else {
             this->move_forward(pos_ptr + 1, pos_ptr);
         }
-        new (pos_ptr) T(std::forward<Args>(args)...);
+        copy.move_to(pos_ptr);
         ++this->_finish;
         return iterator(pos_ptr);
     }
 
    private:
+    // an element built before the others are moved away to make room for it
+    template <typename... Args>
+    struct copy_of
+    {
+        T value;
+
+        explicit copy_of(Args&&... args) : value(std::forward<Args>(args)...) {}
+
+        void move_to(T* __restrict__ ptr) {
+            if constexpr (std::is_move_constructible_v<T>) {
+                new (ptr) T(std::move(value));
+            } else {
+                new (ptr) T(value);
+            }
+        }
+    };
+
     [[nodiscard, gnu::always_inline]] inline auto compute_new_capacity(size_type new_size) const -> size_type {
         Assert(new_size > capacity(), "new_size should larger than old cap, or no need to compute new cap");
         if (auto next_capacity = compute_next_capacity(); next_capacity > new_size) {
-- 
2.43.0


From a14a41203d17f3d48011b8a9547b7013c9bdde08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:48 +0000
Subject: [PATCH 31/58] fix: vectors ignored failed allocations and sizes that
 can not be represented, or lost their elements

---
 container/stdb_vector.hpp | 65 +++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 27 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index cba4304..6b44bd3 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -255,6 +255,21 @@ template <typename T>
     }
 }
 
+/*
+ * memory for count elements, or an exception.
+ */
+template <typename T>
+[[nodiscard]] inline auto allocate_memory(std::size_t count) -> T* {
+    if (count > kFastVectorMaxSize / sizeof(T)) [[unlikely]] {
+        throw std::length_error("stdb_vector would be too long");
+    }
+    void* ptr = std::malloc(count * sizeof(T));
+    if (ptr == nullptr) [[unlikely]] {
+        throw std::bad_alloc();
+    }
+    return static_cast<T*>(ptr);
+}
+
 /*
  * realloc memory, if failed, throw std::bad_alloc, then move the old memory to new memory.
  * if new_size < old_size, the extra elements will be destroyed.
@@ -267,13 +282,10 @@ auto realloc_with_move(T*& __restrict__ ptr, std::size_t old_size, std::size_t n
     // after shrink_to_fit with zero size, the ptr may be nullptr.
     if (ptr == nullptr) {
         Assert(old_size == 0, "ptr is nullptr, but old_size is not zero");
-        return ptr = static_cast<T*>(std::malloc(new_size * sizeof(T)));
+        return ptr = allocate_memory<T>(new_size);
     }
     Assert(new_size > 0, "new_size should be larger than zero");
-    auto new_ptr = static_cast<T*>(std::malloc(new_size * sizeof(T)));
-    if (new_ptr == nullptr) [[unlikely]] {
-        throw std::bad_alloc();
-    }
+    auto new_ptr = allocate_memory<T>(new_size);
     T* new_finish = move_range_without_overlap(new_ptr, ptr, ptr + std::min(old_size, new_size));
     std::free(ptr);
     ptr = new_ptr;
@@ -303,11 +315,8 @@ class core
    public:
     [[gnu::always_inline]] void allocate(size_type cap) {
         Assert(cap > 0, "allocate cap should be larger than zero");
-        if (_start = static_cast<T*>(std::malloc(cap * sizeof(T))); _start != nullptr) [[likely]] {
-            _edge = _start + cap;
-        } else {
-            throw std::bad_alloc();
-        }
+        _start = allocate_memory<T>(cap);
+        _edge = _start + cap;
     }
 
     core() : _start(nullptr), _finish(nullptr), _edge(nullptr) {}
@@ -347,14 +356,9 @@ class core
         auto new_size = other.size();
         if (new_size > capacity()) {
             // if other's size is larger than current capacity, we need to reallocate memory
-            // destroy old data
-            destroy_range(_start, _finish);
-            // free old memory
-            std::free(_start);
-            // allocate new memory
-            allocate(new_size);
-            // copy data
-            _finish = copy_range(_start, other._start, other._finish);
+            // the old data go away only when the new ones are there
+            core fresh(other);
+            swap(fresh);
         } else {
             // if other's size is smaller than current capacity, we can just copy data
             // destroy old data
@@ -450,8 +454,9 @@ class core
     }
 
     [[gnu::always_inline]] auto realloc_drop_old_data(size_type new_cap) -> T* {
-        this->~core();
-        allocate(new_cap);
+        // the old data go away only when the new memory is there
+        core fresh(0, new_cap);
+        swap(fresh);
         return _start;
     }
 
@@ -892,8 +897,8 @@ class stdb_vector : public core<T>
     void fill(size_type (*filler)(T*)) {
         if constexpr (safety == Safety::Safe) {
             auto to_fill = filler(nullptr);
-            if (to_fill + this->size() > this->capacity()) [[unlikely]] {
-                this->realloc_with_old_data(compute_new_capacity(to_fill + size()));
+            if (to_fill > this->capacity() - this->size()) [[unlikely]] {
+                this->realloc_with_old_data(compute_grown_capacity(to_fill));
             }
             this->_finish += filler(this->_finish);
         } else {
@@ -908,7 +913,7 @@ class stdb_vector : public core<T>
     [[nodiscard, gnu::always_inline]] auto get_writebuffer(size_type buf_size) -> std::span<T> {
         if constexpr (safety == Safety::Safe) {
             if (buf_size > this->capacity() - this->size()) {
-                this->realloc_with_old_data(compute_new_capacity(this->size() + buf_size));
+                this->realloc_with_old_data(compute_grown_capacity(buf_size));
             }
         }
         auto buf = std::span<T>(this->_finish, buf_size);
@@ -1276,9 +1281,9 @@ class stdb_vector : public core<T>
         // value may be an element of this vector
         const T copy(value);
         if constexpr (safety == Safety::Safe) {
-            if (size + count > this->capacity()) [[unlikely]] {
+            if (count > this->capacity() - size) [[unlikely]] {
                 difference_type pos_index = pos_ptr - this->_start;
-                reserve(compute_new_capacity(size + count));
+                reserve(compute_grown_capacity(count));
                 pos_ptr = this->_start + pos_index;
             }
         }
@@ -1315,9 +1320,9 @@ class stdb_vector : public core<T>
 
         if constexpr (safety == Safety::Safe) {
             auto size = this->size();
-            if ((size + size_to_insert) > capacity()) [[unlikely]] {
+            if (size_to_insert > capacity() - size) [[unlikely]] {
                 difference_type pos_index = pos_ptr - this->_start;
-                reserve(compute_new_capacity(size + size_to_insert));
+                reserve(compute_grown_capacity(size_to_insert));
                 // calculate the new pos_ptr
                 pos_ptr = this->_start + pos_index;
             }
@@ -1420,6 +1425,12 @@ class stdb_vector : public core<T>
         }
         return new_size;
     }
+    [[nodiscard, gnu::always_inline]] inline auto compute_grown_capacity(size_type count) const -> size_type {
+        if (count > max_size() - size()) [[unlikely]] {
+            throw std::length_error("stdb_vector would be too long");
+        }
+        return compute_new_capacity(size() + count);
+    }
     [[nodiscard]] auto compute_next_capacity() const -> size_type {
         auto cap = capacity();
         // NOLINTNEXTLINE
-- 
2.43.0


From 80b8fa2975e14ee040c074e58205f8d245fa92c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:48 +0000
Subject: [PATCH 32/58] fix: vectors of over-aligned elements used memory of
 the default alignment

---
 container/stdb_vector.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 6b44bd3..1777db8 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -35,6 +35,7 @@
 #include <fmt/ranges.h>
 
 #include <concepts>
+#include <cstddef>
 #include <cstdint>
 #include <cstdlib>
 #include <cstring>
@@ -263,7 +264,12 @@ template <typename T>
     if (count > kFastVectorMaxSize / sizeof(T)) [[unlikely]] {
         throw std::length_error("stdb_vector would be too long");
     }
-    void* ptr = std::malloc(count * sizeof(T));
+    void* ptr = nullptr;
+    if constexpr (alignof(T) > alignof(std::max_align_t)) {
+        ptr = std::aligned_alloc(alignof(T), count * sizeof(T));
+    } else {
+        ptr = std::malloc(count * sizeof(T));
+    }
     if (ptr == nullptr) [[unlikely]] {
         throw std::bad_alloc();
     }
-- 
2.43.0


From da6ed20d6a637fcdd961bc2a4eda378e39c2c3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:48 +0000
Subject: [PATCH 33/58] fix: vectors of member pointers were not null, of
 one-byte classes did not compile, of unordered elements compared as equal

---
 container/stdb_vector.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 1777db8..f947a9a 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -34,6 +34,8 @@
 #include <fmt/format.h>
 #include <fmt/ranges.h>
 
+#include <algorithm>
+#include <compare>
 #include <concepts>
 #include <cstddef>
 #include <cstdint>
@@ -94,7 +96,7 @@ template <typename T>
 [[gnu::always_inline]] inline void construct_range(T* __restrict__ first, T* __restrict__ last) {
     Assert(first != nullptr and last != nullptr, "first and last can not be nullptr");
     Assert(first < last, "first should always before last");
-    if constexpr (IsZeroInitable<T>) {
+    if constexpr (IsZeroInitable<T> and not std::is_member_object_pointer_v<T>) {
         // set zero to all bytes.
         std::memset(first, 0, static_cast<size_t>(last - first) * sizeof(T));
     } else {
@@ -114,7 +116,7 @@ template <typename T>
     }
     Assert(first != nullptr and last != nullptr, "first and last can not be nullptr");
     Assert(first < last, "first should always before last");
-    if constexpr (sizeof(T) == sizeof(char)) {
+    if constexpr (sizeof(T) == sizeof(char) and (std::is_arithmetic_v<T> or std::is_enum_v<T>)) {
         std::memset(first, static_cast<int>(value), static_cast<size_t>(last - first) * sizeof(T));
     } else {
         for (; first != last; ++first) {
@@ -1468,6 +1470,13 @@ auto operator==(const stdb_vector<T>& lhs, const stdb_vector<T>& rhs) -> bool {
     return true;
 }
 
+template <typename T>
+    requires std::three_way_comparable<T>
+auto operator<=>(const stdb_vector<T>& lhs, const stdb_vector<T>& rhs) -> std::compare_three_way_result_t<T> {
+    return std::lexicographical_compare_three_way(lhs.data(), lhs.data() + lhs.size(), rhs.data(),
+                                                  rhs.data() + rhs.size());
+}
+
 template <typename T>
 auto operator<=>(const stdb_vector<T>& lhs, const stdb_vector<T>& rhs) -> std::strong_ordering {
     for (std::size_t i = 0; i < std::min(lhs.size(), rhs.size()); ++i) {
-- 
2.43.0


From 57f58afa9106abfbf94d711e58f4834b353e4569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:34 +0000
Subject: [PATCH 34/58] fix: an element that could not be constructed left a
 vector with destroyed or never constructed elements, or leaked its memory

---
 container/stdb_vector.hpp | 105 +++++++++++++++++++++-----------------
 1 file changed, 59 insertions(+), 46 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index f947a9a..6e44c2f 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -43,6 +43,7 @@
 #include <cstring>
 #include <iterator>
 #include <limits>
+#include <memory>
 #include <new>
 #include <span>
 #include <stdexcept>
@@ -100,9 +101,8 @@ template <typename T>
         // set zero to all bytes.
         std::memset(first, 0, static_cast<size_t>(last - first) * sizeof(T));
     } else {
-        for (; first != last; ++first) {
-            new (first) T();
-        }
+        // destroys what it has constructed when a constructor throws
+        std::uninitialized_value_construct(first, last);
     }
 }
 
@@ -119,9 +119,8 @@ template <typename T>
     if constexpr (sizeof(T) == sizeof(char) and (std::is_arithmetic_v<T> or std::is_enum_v<T>)) {
         std::memset(first, static_cast<int>(value), static_cast<size_t>(last - first) * sizeof(T));
     } else {
-        for (; first != last; ++first) {
-            new (first) T(value);
-        }
+        // destroys what it has constructed when a constructor throws
+        std::uninitialized_fill(first, last, value);
     }
 }
 
@@ -137,10 +136,8 @@ template <typename T>
         std::memcpy(dst, src, (size_t)(src_end - src) * sizeof(T));  // NOLINT
         return dst + (src_end - src);
     } else {
-        for (; src != src_end; ++src, ++dst) {
-            new (dst) T(*src);
-        }
-        return dst;
+        // destroys what it has constructed when a constructor throws
+        return std::uninitialized_copy(src, src_end, dst);
     }
 }
 
@@ -175,8 +172,14 @@ template <typename T, typename Iterator>
             std::memcpy(dst, std::to_address(first), static_cast<size_t>(last - first) * sizeof(T));
         }
     } else {
-        for (; first != last; ++first, ++dst) {
-            new (dst) T(*first);
+        T* const begin = dst;
+        try {
+            for (; first != last; ++first, ++dst) {
+                new (dst) T(*first);
+            }
+        } catch (...) {
+            std::destroy(begin, dst);
+            throw;
         }
     }
 }
@@ -323,7 +326,7 @@ class core
    public:
     [[gnu::always_inline]] void allocate(size_type cap) {
         Assert(cap > 0, "allocate cap should be larger than zero");
-        _start = allocate_memory<T>(cap);
+        _start = _finish = allocate_memory<T>(cap);
         _edge = _start + cap;
     }
 
@@ -340,14 +343,12 @@ class core
         }
     }
 
-    core(const core& rhs) {
+    core(const core& rhs) : core() {
         if (rhs.size() > 0) [[likely]] {
             allocate(rhs.size());
             auto size = rhs.size();
             copy_range(_start, rhs._start, rhs._finish);
             _finish = _start + size;
-        } else {
-            _start = _finish = _edge = nullptr;
         }
     }
 
@@ -371,11 +372,10 @@ class core
             // if other's size is smaller than current capacity, we can just copy data
             // destroy old data
             destroy_range(_start, _finish);
+            _finish = _start;
             // copy data
             if (new_size > 0) [[likely]] {
                 _finish = copy_range(_start, other._start, other._finish);
-            } else {
-                _finish = _start;
             }
             // _edge is not changed
         }
@@ -446,18 +446,16 @@ class core
         // no check new_cap because it will be checked in caller.
         auto old_size = size();
         Assert(new_cap > old_size, "new_cap should be larger than old_size, or it will cause data loss");
-        // backup old _start, _finish, _edge
-        auto* old_start = _start;
-        auto* old_finish = _finish;
-        allocate(new_cap);
-        // copy old data
-        _finish = _start + old_size;
-        new (_finish++) T(std::forward<Args>(args)...);
+        core fresh(0, new_cap);
+        new (fresh._start + old_size) T(std::forward<Args>(args)...);
+        // nothing fails from here on, move the old data
         if (old_size > 0) {
-            (void)move_range_without_overlap(_start, old_start, old_finish);
+            (void)move_range_without_overlap(fresh._start, _start, _finish);
         }
-        // free the original buffer finally.
-        std::free(old_start);
+        fresh._finish = fresh._start + old_size + 1;
+        _finish = _start;
+        // fresh frees the original buffer finally.
+        swap(fresh);
         return;
     }
 
@@ -556,15 +554,17 @@ class stdb_vector : public core<T>
     /*
      * constructor with capacity
      */
-    constexpr explicit stdb_vector(std::size_t size) : core<T>(size, size) {
+    constexpr explicit stdb_vector(std::size_t size) : core<T>(0, size) {
         if (size > 0) {
-            construct_range(this->_start, this->_finish);
+            construct_range(this->_start, this->_edge);
+            this->_finish = this->_edge;
         }
     }
 
-    constexpr stdb_vector(std::size_t size, const T& value) : core<T>(size, size) {
+    constexpr stdb_vector(std::size_t size, const T& value) : core<T>(0, size) {
         if (size > 0) {
-            construct_range_with_cref(this->_start, this->_finish, value);
+            construct_range_with_cref(this->_start, this->_edge, value);
+            this->_finish = this->_edge;
         }
     }
 
@@ -615,11 +615,11 @@ class stdb_vector : public core<T>
         } else {
             // if count is smaller than current capacity, we can just copy data
             // clear old data
-            this->destroy();
+            this->clear();
         }
-        this->_finish = this->_start + count;
         // construct data with value
-        construct_range_with_cref(this->_start, this->_finish, copy);
+        construct_range_with_cref(this->_start, this->_start + count, copy);
+        this->_finish = this->_start + count;
     }
 
     template <std::forward_iterator Iterator>
@@ -937,13 +937,15 @@ class stdb_vector : public core<T>
     void push_back(const value_type& value) {
         if constexpr (safety == Safety::Safe) {
             if (!this->full()) [[likely]] {
-                copy_cref(this->_finish++, std::forward<const value_type&>(value));
+                copy_cref(this->_finish, std::forward<const value_type&>(value));
+                ++this->_finish;
             } else {
                 this->realloc_and_emplace_back(compute_next_capacity(), std::forward<const_reference>(value));
             }
         } else {
             Assert(not this->full(), "push_back should not be called with full vector");
-            copy_cref(this->_finish++, std::forward<const_reference&>(value));
+            copy_cref(this->_finish, std::forward<const_reference&>(value));
+            ++this->_finish;
         }
     }
 
@@ -966,14 +968,16 @@ class stdb_vector : public core<T>
     auto emplace_back(Args&&... args) -> iterator {
         if constexpr (safety == Safety::Safe) {
             if (!this->full()) [[likely]] {
-                this->construct_at(this->_finish++, std::forward<Args>(args)...);
+                this->construct_at(this->_finish, std::forward<Args>(args)...);
+                ++this->_finish;
             } else {
                 this->realloc_and_emplace_back(compute_next_capacity(), std::forward<Args>(args)...);
             }
             return iterator{this->_finish - 1};
         } else {
             Assert(not this->full(), "emplace_back should not be called with full vector");
-            this->construct_at(this->_finish++, std::forward<Args>(args)...);
+            this->construct_at(this->_finish, std::forward<Args>(args)...);
+            ++this->_finish;
             return iterator{this->_finish - 1};
         }
     }
@@ -1181,9 +1185,8 @@ class stdb_vector : public core<T>
             }
             if constexpr (safety == Safety::Safe) {
                 // construct the new elements
-                auto* old_end = this->_finish;
+                construct_range(this->_finish, this->_start + count);
                 this->_finish = this->_start + count;
-                construct_range(old_end, this->_finish);
             } else {
                 this->_finish = this->_start + count;
             }
@@ -1204,10 +1207,8 @@ class stdb_vector : public core<T>
             if (count > this->capacity()) {
                 this->realloc_with_old_data(count);
             }
-            // destroy the elements that are not needed anymore
-            auto* old_end = this->_finish;
+            construct_range_with_cref(this->_finish, this->_start + count, copy);
             this->_finish = this->_start + count;
-            construct_range_with_cref(old_end, this->_finish, copy);
         } else {
             // destroy the elements that are not needed anymore
             auto* old_end = this->_finish;
@@ -1303,7 +1304,13 @@ class stdb_vector : public core<T>
         } else {
             this->move_backward(pos_ptr + count, pos_ptr);
         }
-        construct_range_with_cref(pos_ptr, pos_ptr + count, copy);
+        try {
+            construct_range_with_cref(pos_ptr, pos_ptr + count, copy);
+        } catch (...) {
+            // close the gap again
+            move_range_forward(pos_ptr, pos_ptr + count, this->_finish + count);
+            throw;
+        }
         this->_finish += count;
         return iterator(pos_ptr);
     }
@@ -1343,7 +1350,13 @@ class stdb_vector : public core<T>
         } else {
             this->move_backward(pos_ptr + count, pos_ptr);
         }
-        copy_from_iterator(pos_ptr, first, last);
+        try {
+            copy_from_iterator(pos_ptr, first, last);
+        } catch (...) {
+            // close the gap again
+            move_range_forward(pos_ptr, pos_ptr + count, this->_finish + count);
+            throw;
+        }
         this->_finish += size_to_insert;
         return iterator(pos_ptr);
     }
-- 
2.43.0


From c8c59513146ae7a2fff0e0df2a8289cb0f70f8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:02 +0000
Subject: [PATCH 35/58] fix: shifting elements promised the optimizer that the
 overlapping ranges do not overlap

---
 container/stdb_vector.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 6e44c2f..1eefd16 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -233,8 +233,8 @@ template <typename T>
 }
 
 template <typename T>
-[[gnu::always_inline]] inline void move_range_forward(T* __restrict__ dst, T* __restrict__ src,
-                                                      T* __restrict__ src_end) {
+[[gnu::always_inline]] inline void move_range_forward(T* dst, T* src, T* src_end) {
+    // both ranges may overlap
     Assert(src != nullptr and dst != nullptr, "src and dst can not be nullptr");
     // src == src_end means no data to move
     // it will occur in erase the whole vector.
@@ -480,19 +480,19 @@ class core
     }
 
     // move [src, end()) to dst start range from front to end
-    [[gnu::always_inline]] void move_forward(T* __restrict__ dst, T* __restrict__ src) {
+    [[gnu::always_inline]] void move_forward(T* dst, T* src) {
         Assert(dst != src, "move_forward should not be called with same dst and src");
         move_range_forward(dst, src, _finish);
     }
 
     // move [src, end()) to dst start range from front to end
-    [[gnu::always_inline]] void move_forward(const T* __restrict__ dst, const T* __restrict__ src) {
+    [[gnu::always_inline]] void move_forward(const T* dst, const T* src) {
         Assert(dst != src, "move_forward should not be called with same dst and src");
         move_range_forward(const_cast<T*>(dst), const_cast<T*>(src), _finish);  // NOLINT
     }
 
     // move [src, end()) to dst start range from end to front
-    void move_backward(T* __restrict__ dst, T* __restrict__ src) {
+    void move_backward(T* dst, T* src) {
         Assert(dst != nullptr && src != nullptr, "dst and src can not be nullptr");
         // if src == _finish or src == _finish -1, just use move_forward
         Assert(src < (_finish - 1), "src should always before _finish - 1, or can not move backward");
-- 
2.43.0


From 43392be245ec9bd5452df1a2988be12f7248511a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:02 +0000
Subject: [PATCH 36/58] fix: the subscript of vector iterators overflowed for
 elements before the iterator

---
 container/stdb_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 1eefd16..b4893ef 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -824,7 +824,7 @@ class stdb_vector : public core<T>
 
         [[nodiscard, gnu::always_inline]] constexpr inline auto operator->() const noexcept -> pointer { return _ptr; }
 
-        [[nodiscard, gnu::always_inline]] constexpr inline auto operator[](std::size_t pos) const noexcept
+        [[nodiscard, gnu::always_inline]] constexpr inline auto operator[](difference_type pos) const noexcept
           -> reference {
             return *(_ptr + pos);
         }
-- 
2.43.0


From 8b462ce2668041b0d02201c1bf2142b769f5f535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 37/58] fix: options of empty text stored an uninitialised
 number

---
 optparse/optparse.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 1437a65..5257829 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -275,7 +275,7 @@ concept OptValue = std::is_same_v<T, bool> or std::is_same_v<T, int32_t> or std:
 
 template <OptValue T>
 auto parse_string(const string& str) -> T {
-    T val;
+    T val{};
     std::stringstream sst(str.data());
     sst >> val;
     return val;
-- 
2.43.0


From 4810abe4142229e72b551b8d2ce76999af950ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 38/58] fix: values which the type or the choices of an option
 do not admit were dropped, or taken for 0

---
 optparse/optparse.cc | 48 ++++++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 5257829..603858a 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -274,30 +274,44 @@ concept OptValue = std::is_same_v<T, bool> or std::is_same_v<T, int32_t> or std:
                    std::is_same_v<T, float> or std::is_same_v<T, double>;
 
 template <OptValue T>
-auto parse_string(const string& str) -> T {
+auto parse_string(const string& str) -> std::optional<T> {
     T val{};
     std::stringstream sst(str.data());
     sst >> val;
+    if constexpr (not std::is_same_v<T, bool>) {
+        // anything but a whole number is not a value of the type, only Bool takes any text
+        if (sst.fail() or not(sst >> std::ws).eof()) {
+            return std::nullopt;
+        }
+    }
     return val;
 }
 
+template <OptValue T>
+auto parse_as(const string& str) -> std::optional<Value> {
+    if (auto val = parse_string<T>(str)) {
+        return Value{*val};
+    }
+    return std::nullopt;
+}
+
 auto is_mutli_value(const string& val_str) -> bool { return val_str.find(',') != string::npos; }
 
 auto parse_value(string val, Type typ, const Option* option = nullptr) -> std::optional<Value> {
     if (typ == Type::Bool) {
-        return parse_string<bool>(val);
+        return parse_as<bool>(val);
     }
     if (typ == Type::Int) {
-        return parse_string<int>(val);
+        return parse_as<int>(val);
     }
     if (typ == Type::Long) {
-        return parse_string<int64_t>(val);
+        return parse_as<int64_t>(val);
     }
     if (typ == Type::Float) {
-        return parse_string<float>(val);
+        return parse_as<float>(val);
     }
     if (typ == Type::Double) {
-        return parse_string<double>(val);
+        return parse_as<double>(val);
     }
     if (typ == Type::Choice) {
         auto choice = val;
@@ -363,13 +377,16 @@ auto OptionParser::process_opt(const stdb::optparse::Option& opt, stdb::optparse
             }
             // split the string by ',' to get the arg values
             auto values = split(str_val, ",", true);
+            vector<Value> parsed_values;
             for (auto& val : values) {
                 auto parsed_val = parse_value(val, type, &opt);
-                if (parsed_val) {
-                    store.append(dest, *parsed_val);
-                } else {
+                if (not parsed_val) {
                     return false;
                 }
+                parsed_values.push_back(*parsed_val);
+            }
+            for (auto& val : parsed_values) {
+                store.append(dest, val);
             }
             return true;
         }
@@ -453,12 +470,15 @@ auto OptionParser::handle_opt(ValueStore& values, ArgList& args, std::span<const
             // if the value is empty, then pop the next argument.
             if (not args.empty()) {
                 auto next_val = args.pop();
-                process_opt(opt, values, next_val);
+                if (not process_opt(opt, values, next_val)) {
+                    // the option does not take this value
+                    _invalid_args.push_back(argv_span[args.pos()]);
+                }
             } else {
                 return false;
             }
-        } else {
-            process_opt(opt, values, val);
+        } else if (not process_opt(opt, values, val)) {
+            _invalid_args.push_back(argv_span[args.pos()]);
         }
         // continue process following values for Append opt
         while (not args.empty()) {
@@ -475,7 +495,9 @@ auto OptionParser::handle_opt(ValueStore& values, ArgList& args, std::span<const
                 _invalid_args.push_back(argv_span[args.pos()]);
             } else {
                 auto next_val = args.pop();
-                process_opt(opt, values, next_val);
+                if (not process_opt(opt, values, next_val)) {
+                    _invalid_args.push_back(argv_span[args.pos()]);
+                }
             }
         }
         return true;
-- 
2.43.0


From bcb3b4a74a43dbbaeb19f82c60d4de8fa33604e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 39/58] fix: option parsers with a prefix and a conflict
 handler kept the long prefix -- and took any prefix

---
 optparse/optparse.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 603858a..51888c9 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -88,7 +88,12 @@ auto Option::validate() -> bool {
     return true;
 }
 
-OptionParser::OptionParser(char prefix) : _prefix(prefix) {
+OptionParser::OptionParser(char prefix) : OptionParser(prefix, ConflictHandler::Error) {}
+
+OptionParser::OptionParser(stdb::optparse::ConflictHandler handler) : _conflict_handler(handler) {}
+
+OptionParser::OptionParser(char prefix, stdb::optparse::ConflictHandler handler)
+    : _prefix{prefix}, _conflict_handler{handler} {
     if (_prefix != '-' and _prefix != '+' and _prefix != '#' and _prefix != '$' and _prefix != '&' and _prefix != '%') {
         throw std::logic_error(
           fmt::format("Invalid prefix: {}, the prefix has to be one of -, +, #, $, &, %", _prefix));
@@ -96,11 +101,6 @@ OptionParser::OptionParser(char prefix) : _prefix(prefix) {
     _long_prefix = fmt::format("{}{}", _prefix, _prefix);
 }
 
-OptionParser::OptionParser(stdb::optparse::ConflictHandler handler) : _conflict_handler(handler) {}
-
-OptionParser::OptionParser(char prefix, stdb::optparse::ConflictHandler handler)
-    : _prefix{prefix}, _conflict_handler{handler} {}
-
 auto OptionParser::extract_option_type(const string& opt) const -> OptionType {
     if (opt.size() > 2 and opt.substr(0, 2) == _long_prefix) {
         return OptionType::LongOpt;
-- 
2.43.0


From d83baa473812ab1824a4227aa12fdaf79bcb2e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 40/58] fix: parsing arguments forgot the version of the
 program

---
 optparse/optparse.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 51888c9..b78b2bb 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -185,7 +185,9 @@ auto OptionParser::add_usage_option(string usage_msg) -> void {
 }
 
 auto OptionParser::add_version_option(stdb::optparse::string version_msg) -> void {
-    _version = std::move(version_msg);
+    if (not version_msg.empty()) {
+        _version = std::move(version_msg);
+    }
     auto short_version_name = fmt::format("{}v", _prefix);
     auto long_version_name = fmt::format("{}version", _long_prefix);
     if (not _short_option_map.contains(short_version_name) and not _long_option_map.contains(long_version_name)) {
-- 
2.43.0


From 5399e3f1de5460343bae3b9ef2a54ad3e5f60ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 41/58] fix: the help of a parser without options read past the
 end of its options

---
 optparse/optparse.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index b78b2bb..f4b93b9 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -632,7 +632,7 @@ auto OptionParser::format_help() -> string {
       std::max_element(line_and_helps.begin(), line_and_helps.end(),
                        [](auto& lhs, auto& rhs) -> bool { return rhs.first.size() > lhs.first.size(); });
 
-    const auto align_size = max_line->first.size() + 1;
+    const auto align_size = (max_line != line_and_helps.end() ? max_line->first.size() : 0) + 1;
     auto content = fmt::format("{} \n options: \n", format_usage());
     for (const auto& [line, help] : line_and_helps) {
         const int space_width = align_size - line.size();
-- 
2.43.0


From 1c0ee86d12e8a7cf60b6085feab726ef640a1e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 42/58] fix: the options of a copied or moved parser referred
 to the original parser

---
 optparse/optparse.cc  | 16 ++++++++++------
 optparse/optparse.hpp |  6 +++---
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index f4b93b9..35bbc48 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -72,15 +72,19 @@ inline auto split(std::string_view str, std::string_view delimiter, bool skip_em
     return tokens;
 }
 
+Option::Option(const OptionParser& opp, vector<string> names) : _names(std::move(names)) {
+    for (const auto& nnn : _names) {
+        if (opp.extract_option_type(nnn) == OptionType::LongOpt) {
+            _long_name = nnn.substr(2);
+            break;
+        }
+    }
+}
+
 auto Option::validate() -> bool {
     // if _dest is empty, we will use the first long option name as the _dest.
     if (_dest.empty()) {
-        for (const auto& nnn : _names) {
-            if (_parser.extract_option_type(nnn) == OptionType::LongOpt) {
-                _dest = nnn.substr(2);
-                break;
-            }
-        }
+        _dest = _long_name;
     }
     if (_names.empty() or _action == Action::Null or _dest.empty() or (_type != Type::Choice and not _choices.empty()))
       [[unlikely]]
diff --git a/optparse/optparse.hpp b/optparse/optparse.hpp
index c5f3533..cbae55f 100644
--- a/optparse/optparse.hpp
+++ b/optparse/optparse.hpp
@@ -162,8 +162,8 @@ enum Type : uint8_t
 class Option
 {
    private:
-    const OptionParser& _parser;
     vector<string> _names;
+    string _long_name = "";  // the first long name without its prefix
     Action _action = Action::Null;
     Type _type = Type::String;
     string _dest = "";
@@ -173,7 +173,7 @@ class Option
     string _env = "";
 
    public:
-    explicit Option(const OptionParser& opp) : _parser(opp) {}
+    explicit Option(const OptionParser& /*opp*/) {}
     ~Option() = default;
 
     Option(const Option&) = default;
@@ -181,7 +181,7 @@ class Option
     auto operator=(const Option&) -> Option& = delete;
     auto operator=(Option&&) noexcept -> Option& = delete;
 
-    Option(const OptionParser& opp, vector<string> names) : _parser(opp), _names(std::move(names)) {}
+    Option(const OptionParser& opp, vector<string> names);
 
     auto validate() -> bool;
 
-- 
2.43.0


From b415e1ede9de909f9272aba56c79ed820344d06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 43/58] fix: the environment never replaced the default value
 of an option

---
 optparse/optparse.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 35bbc48..0c12605 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -250,15 +250,6 @@ auto OptionParser::parse_args(vector<stdb::optparse::string> args, const char**
             }
         }
     }
-    // check defaults
-    for (auto& opt : _options) {
-        if (not opt.default_value().empty()) {
-            auto dest = opt.dest();
-            if (not store.user_set(dest)) {
-                process_opt(opt, store, opt.default_value());
-            }
-        }
-    }
     // check environment variables
     for (auto& opt : _options) {
         if (not opt.env().empty()) {
@@ -272,6 +263,15 @@ auto OptionParser::parse_args(vector<stdb::optparse::string> args, const char**
             }
         }
     }
+    // check defaults
+    for (auto& opt : _options) {
+        if (not opt.default_value().empty()) {
+            auto dest = opt.dest();
+            if (not store.user_set(dest)) {
+                process_opt(opt, store, opt.default_value());
+            }
+        }
+    }
 
     return store;
 }
-- 
2.43.0


From a58c0dacb7f76c1bb12321866fdd630a1b4c929f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 44/58] fix: default values counted as one more occurrence of
 Count options

---
 optparse/optparse.cc  | 18 +++++++++++++++---
 optparse/optparse.hpp |  1 +
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 0c12605..54a40a6 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -221,6 +221,8 @@ auto OptionParser::parse_args(int argc, const char** argv) -> ValueStore {
     return parse_args({&argv[1], &argv[argc]}, argv);  // NOLINT(cppcoreguidelines-pro-bounds-pointer-arithmetic)
 }
 
+auto parse_value(string val, Type typ, const Option* option = nullptr) -> std::optional<Value>;
+
 auto OptionParser::parse_args(vector<stdb::optparse::string> args, const char** argv) -> ValueStore {
     // once parse args, clear all invalid_args
     _invalid_args.clear();
@@ -250,6 +252,16 @@ auto OptionParser::parse_args(vector<stdb::optparse::string> args, const char**
             }
         }
     }
+    // the text stands for the option itself, for a Count it is the number of occurrences
+    auto process_absent_opt = [](const Option& opt, ValueStore& store, const string& text) -> void {
+        if (opt.action() == Action::Count) {
+            if (auto count = parse_value(text, Type::Int)) {
+                store.set(opt.dest(), *count);
+            }
+        } else {
+            process_opt(opt, store, text);
+        }
+    };
     // check environment variables
     for (auto& opt : _options) {
         if (not opt.env().empty()) {
@@ -258,7 +270,7 @@ auto OptionParser::parse_args(vector<stdb::optparse::string> args, const char**
                 // get the environment variable
                 auto* env_val = std::getenv(opt.env().data());
                 if (env_val != nullptr) {
-                    process_opt(opt, store, env_val);
+                    process_absent_opt(opt, store, env_val);
                 }
             }
         }
@@ -268,7 +280,7 @@ auto OptionParser::parse_args(vector<stdb::optparse::string> args, const char**
         if (not opt.default_value().empty()) {
             auto dest = opt.dest();
             if (not store.user_set(dest)) {
-                process_opt(opt, store, opt.default_value());
+                process_absent_opt(opt, store, opt.default_value());
             }
         }
     }
@@ -303,7 +315,7 @@ auto parse_as(const string& str) -> std::optional<Value> {
 
 auto is_mutli_value(const string& val_str) -> bool { return val_str.find(',') != string::npos; }
 
-auto parse_value(string val, Type typ, const Option* option = nullptr) -> std::optional<Value> {
+auto parse_value(string val, Type typ, const Option* option) -> std::optional<Value> {
     if (typ == Type::Bool) {
         return parse_as<bool>(val);
     }
diff --git a/optparse/optparse.hpp b/optparse/optparse.hpp
index cbae55f..e090ff5 100644
--- a/optparse/optparse.hpp
+++ b/optparse/optparse.hpp
@@ -105,6 +105,7 @@ class ValueStore
         } else {
             _values[key] = std::get<int>(vit->second) + 1;
         }
+        _usr_set.insert(key);
     }
 
     template <typename T>
-- 
2.43.0


From 82229c4d25fd5e39b0fcd7a7d0bb83ff9d88fb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 45/58] fix: rejected options stayed in the parser, options
 without a reachable name were taken

---
 optparse/optparse.cc | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 54a40a6..3c7261c 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -110,7 +110,8 @@ auto OptionParser::extract_option_type(const string& opt) const -> OptionType {
         return OptionType::LongOpt;
     }
 
-    if (opt[0] == _prefix) {
+    // the long prefix alone is looked up as a long option, and is none
+    if (opt[0] == _prefix and opt != _long_prefix) {
         return OptionType::ShortOpt;
     }
 
@@ -128,26 +129,36 @@ auto OptionParser::extract_arg_type(const string& arg) const -> OptionType {
 }
 
 auto OptionParser::add_option(stdb::optparse::Option option) -> Option& {
-    _options.emplace_back(std::move(option));
-    // register all names for the option.
-    for (const auto& name : _options.back().names()) {
+    if (option.names().empty()) {
+        throw std::logic_error("option without a name");
+    }
+    // check all names first, a rejected option must leave nothing behind.
+    std::set<string> seen;
+    for (const auto& name : option.names()) {
         auto type = extract_option_type(name);
+        const bool repeated = not seen.insert(name).second;
         if (type == OptionType::ShortOpt) {
-            if (_conflict_handler == ConflictHandler::Error and _short_option_map.contains(name)) {
+            if (_conflict_handler == ConflictHandler::Error and (repeated or _short_option_map.contains(name))) {
                 throw std::logic_error(fmt::format("Short option {} is already registered", name));
             }
-            // if the ConflictHandler is Replace, we will replace the old option with the new one.
-            _short_option_map[name] = _options.size() - 1;
         } else if (type == OptionType::LongOpt) {
-            if (_conflict_handler == ConflictHandler::Error and _long_option_map.contains(name)) {
+            if (_conflict_handler == ConflictHandler::Error and (repeated or _long_option_map.contains(name))) {
                 throw std::logic_error(fmt::format("Long option {} is already registered", name));
             }
-            // if the ConflictHandler is Replace, we will replace the old option with the new one.
-            _long_option_map[name] = _options.size() - 1;
         } else {
             throw std::logic_error(fmt::format("Invalid option name: {}", name));
         }
     }
+    _options.emplace_back(std::move(option));
+    // register all names for the option.
+    // if the ConflictHandler is Replace, we will replace the old option with the new one.
+    for (const auto& name : _options.back().names()) {
+        if (extract_option_type(name) == OptionType::ShortOpt) {
+            _short_option_map[name] = _options.size() - 1;
+        } else {
+            _long_option_map[name] = _options.size() - 1;
+        }
+    }
 
     return _options.back();
 }
-- 
2.43.0


From 2d8ecb15fe3677e640b32cf51d7006241fb1627a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 46/58] fix: the generated usage and version texts missed what
 was declared after they were first made

---
 optparse/optparse.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 3c7261c..a6b630d 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -606,27 +606,28 @@ auto to_upper(string& input) -> void {
 
 auto OptionParser::format_usage() -> string {
     if (_usage.empty()) {
-        // enrich the _usage message.
-        _usage = fmt::format("usage: {}", _program);
+        // the options may still change, so the text is not kept.
+        auto usage = fmt::format("usage: {}", _program);
         for (auto& opt : _options) {
             if (opt.type() == Type::Bool) {
                 auto upper_dest = opt.dest();
                 to_upper(upper_dest);
                 auto opt_msg = fmt::format(" [{} {}]", opt.names().front(), upper_dest);
-                _usage += std::string_view{opt_msg};
+                usage += std::string_view{opt_msg};
             } else {
                 auto opt_msg = fmt::format(" [{}]", opt.names().front());
-                _usage += std::string_view{opt_msg};
+                usage += std::string_view{opt_msg};
             }
         }
-        _usage += "\n";
+        usage += "\n";
+        return usage;
     }
     return _usage;
 }
 
 auto OptionParser::format_verison() -> string {
     if (_version.empty()) {
-        _version = fmt::format("{} : {}", _program, "0.0.0");
+        return fmt::format("{} : {}", _program, "0.0.0");
     }
     return _version;
 }
-- 
2.43.0


From c985bbca86a8704b9c11f907b62df9336bf9f5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 47/58] fix: adding an option invalidated the references to the
 options added before

---
 optparse/optparse.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optparse/optparse.hpp b/optparse/optparse.hpp
index e090ff5..be8413a 100644
--- a/optparse/optparse.hpp
+++ b/optparse/optparse.hpp
@@ -33,6 +33,7 @@
 #pragma once
 #include <fmt/format.h>
 
+#include <deque>
 #include <iterator>
 #include <map>
 #include <optional>
@@ -304,7 +305,7 @@ class OptionParser
     string _program;
     string _usage;
     string _version;
-    vector<Option> _options;
+    std::deque<Option> _options;  // add_option hands out references
     std::map<string, size_t> _long_option_map;
     std::map<string, size_t> _short_option_map;
     vector<const char*> _invalid_args;
-- 
2.43.0


From 7eaa681bd3e251d4f40fb668eb73bdb0dc06a0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 48/58] fix: default values of floating point options lost
 their digits

---
 optparse/optparse.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/optparse/optparse.hpp b/optparse/optparse.hpp
index be8413a..ec37d0b 100644
--- a/optparse/optparse.hpp
+++ b/optparse/optparse.hpp
@@ -223,7 +223,12 @@ class Option
 
     template <typename T>
     inline auto default_value(T dft) -> Option& {
-        _default = std::to_string(dft);
+        if constexpr (std::is_floating_point_v<T>) {
+            // all digits, to_string cuts them off
+            _default = fmt::format("{}", dft);
+        } else {
+            _default = std::to_string(dft);
+        }
         return *this;
     }
 
-- 
2.43.0


From 322a3410c8bc22ea0f92055b6f535c3898ceeec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 49/58] fix: parsing a list of arguments indexed the argument
 vector of the previous parse

---
 optparse/optparse.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index a6b630d..0e6cc57 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -227,14 +227,14 @@ auto OptionParser::parse_args(int argc, const char** argv) -> ValueStore {
     if (_program.empty()) {
         _program.assign(argv[0]);  // NOLINT(cppcoreguidelines-pro-bounds-pointer-arithmetic)
     }
-    _argc = argc;
-    _argv = argv;
     return parse_args({&argv[1], &argv[argc]}, argv);  // NOLINT(cppcoreguidelines-pro-bounds-pointer-arithmetic)
 }
 
 auto parse_value(string val, Type typ, const Option* option = nullptr) -> std::optional<Value>;
 
 auto OptionParser::parse_args(vector<stdb::optparse::string> args, const char** argv) -> ValueStore {
+    _argc = static_cast<int>(args.size()) + 1;
+    _argv = argv;
     // once parse args, clear all invalid_args
     _invalid_args.clear();
     for (auto& opt : _options) {
-- 
2.43.0


From a4fbd64c0db60876532504884690680826eb05dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:10 +0000
Subject: [PATCH 50/58] fix: value-initialised vector elements that contain a
 member pointer were not null

---
 container/stdb_vector.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index b4893ef..2167331 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -97,8 +97,9 @@ template <typename T>
 [[gnu::always_inline]] inline void construct_range(T* __restrict__ first, T* __restrict__ last) {
     Assert(first != nullptr and last != nullptr, "first and last can not be nullptr");
     Assert(first < last, "first should always before last");
-    if constexpr (IsZeroInitable<T> and not std::is_member_object_pointer_v<T>) {
-        // set zero to all bytes.
+    if constexpr (IsZeroInitable<T> and (std::is_arithmetic_v<T> or std::is_enum_v<T> or std::is_pointer_v<T> or
+                                         ZeroInitable<T>::value)) {
+        // set zero to all bytes, others may hold members whose null value has other bytes.
         std::memset(first, 0, static_cast<size_t>(last - first) * sizeof(T));
     } else {
         // destroys what it has constructed when a constructor throws
-- 
2.43.0


From 668e8fb3d3b69a8b79aac58de41fc7365835c725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:53 +0000
Subject: [PATCH 51/58] fix: arena strings of wide characters did not compile

---
 string/arena_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/arena_string.hpp b/string/arena_string.hpp
index 4ef7b90..7e75211 100644
--- a/string/arena_string.hpp
+++ b/string/arena_string.hpp
@@ -59,7 +59,7 @@ inline auto arena_smartRealloc(pmr::polymorphic_allocator<Char>& allocator, void
         std::memcpy(result, ptr, currentSize);
         if (allocator == pmr::polymorphic_allocator<Char>()) {
             // do dealloc while use std::pmr::polymorphism_allocator<Char>();
-            allocator.deallocate(static_cast<char*>(ptr), currentCapacity);
+            allocator.deallocate(static_cast<Char*>(ptr), currentCapacity);
         }
         return result;
     }
-- 
2.43.0


From bf4a118206e7f0c91d75dcce6f0e24cefab8533a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:00 +0000
Subject: [PATCH 52/58] fix: insert and replace with a part of the string
 itself through any kind of iterator

Only plain pointers into the string were recognised. Reverse iterators, spans and
other forward iterators over the string were read after it had been moved or changed.
---
 string/string.hpp | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/string/string.hpp b/string/string.hpp
index 118d824..124a38c 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -1531,6 +1531,25 @@ class basic_string
       -> basic_string&;
 
    private:
+    // whether a source range may be a part of this string, through any kind of iterator.
+    template <class FwdIterator>
+    auto mayAlias(FwdIterator s1, FwdIterator s2) const -> bool {
+        using Ref = typename std::iterator_traits<FwdIterator>::reference;
+        if constexpr (std::is_lvalue_reference_v<Ref> && std::is_same_v<std::remove_cvref_t<Ref>, value_type>) {
+            auto inside = [this](const value_type& c) {
+                std::less_equal<const value_type*> le{};
+                return le(cbegin(), std::addressof(c)) && le(std::addressof(c), cend());
+            };
+            if constexpr (std::contiguous_iterator<FwdIterator>) {
+                return s1 != s2 && inside(*s1);
+            } else {
+                return std::any_of(s1, s2, inside);
+            }
+        } else {
+            return !empty() && s1 != s2;
+        }
+    }
+
     template <class FwdIterator>
     auto replaceAliased(iterator /* i1 */, iterator /* i2 */, FwdIterator /* s1 */, FwdIterator /* s2 */,
                         std::false_type /*unused*/) -> bool {
@@ -2059,14 +2078,10 @@ inline auto basic_string<E, T, A, S>::insertImpl(const_iterator i, FwdIterator s
     auto n = std::distance(s1, s2);
     Assert(n >= 0, "insert input range is invalid");
 
-    if constexpr (std::is_pointer_v<FwdIterator> &&
-                  std::is_same_v<std::remove_cv_t<std::remove_pointer_t<FwdIterator>>, value_type>) {
-        // The source may be a part of this string, growing would move or free it.
-        std::less_equal<const value_type*> le{};
-        if (n > 0 && le(cbegin(), s1) && le(s1, cend())) {
-            const basic_string temp(s1, s2, get_allocator());
-            return insertImpl(i, temp.begin(), temp.end(), std::forward_iterator_tag());
-        }
+    // The source may be a part of this string, growing would move or free it.
+    if (mayAlias(s1, s2)) {
+        const basic_string temp(s1, s2, get_allocator());
+        return insertImpl(i, temp.begin(), temp.end(), std::forward_iterator_tag());
     }
 
     auto oldSize = size();
@@ -2160,6 +2175,11 @@ inline void basic_string<E, T, A, S>::replaceImpl(iterator i1, iterator i2, FwdI
     if (replaceAliased(i1, i2, s1, s2, Sel())) {
         return;
     }
+    if (mayAlias(s1, s2)) {
+        const basic_string temp(s1, s2, get_allocator());
+        replaceImpl(i1, i2, temp.begin(), temp.end(), std::forward_iterator_tag());
+        return;
+    }
 
     auto const n1 = i2 - i1;
     Assert(n1 >= 0, "replaceImpl() failed, the origin range is invalid, first <= last promise was broken");
-- 
2.43.0


From bd66ac991adbd0e58b567d8a783f848c758e738e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:13 +0000
Subject: [PATCH 53/58] fix: vectors of elements larger than the page limit can
 grow

For elements of more than 131072 bytes the next capacity of an empty vector was 0,
and the element was written through a null pointer.
---
 container/stdb_vector.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 2167331..180f732 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -1455,19 +1455,18 @@ class stdb_vector : public core<T>
     }
     [[nodiscard]] auto compute_next_capacity() const -> size_type {
         auto cap = capacity();
+        if (cap < core<T>::kFastVectorInitCapacity) [[unlikely]] {
+            return core<T>::kFastVectorInitCapacity;
+        }
         // NOLINTNEXTLINE
-        if (cap < 4096 * 32 / sizeof(T) and cap >= core<T>::kFastVectorInitCapacity) [[likely]] {
+        if (cap < 4096 * 32 / sizeof(T)) [[likely]] {
             // the capacity is smaller than a page,
             // use 1.5 but not 2 to reuse memory objects.
             return (cap * 3 + 1) / 2;
         }
         // the capacity is larger than a page,
         // so we can just double it to use whole pages.
-        // NOLINTNEXTLINE
-        if (cap >= 4096 * 32 / sizeof(T)) [[likely]] {
-            return cap * 2;
-        }
-        return core<T>::kFastVectorInitCapacity;
+        return cap * 2;
     }
 };  // class stdb_vector
 
-- 
2.43.0


From 4f2083c89bc46783cf98035e6e520cc5f6fd4a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:24 +0000
Subject: [PATCH 54/58] fix: std::erase() compares the elements with the value
 itself

The value was converted to an element first: erase(vector_of_int, 1.5) erased the 1s.
---
 container/stdb_vector.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 180f732..c40cc1e 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -1520,7 +1520,12 @@ constexpr void swap(stdb::container::stdb_vector<T>& lhs, stdb::container::stdb_
 
 template <class T, class U>
 constexpr auto erase(stdb::container::stdb_vector<T>& vec, const U& value) -> std::size_t {
-    return vec.erase(value);
+    if constexpr (not std::is_same_v<T, U> and requires(const T& element) { element == value; }) {
+        // the value is compared as it is, converting it to an element may change it.
+        return vec.erase_if([&value](const T& element) { return element == value; });
+    } else {
+        return vec.erase(value);
+    }
 }
 
 template <class T, class Predicate>
-- 
2.43.0


From 50a486b0e774baf0ad2b2c935907c20612f3e0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:36 +0000
Subject: [PATCH 55/58] fix: erasing the elements equal to one of the vector
 itself

The value was still compared with after it had been overwritten or destroyed.
---
 container/stdb_vector.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index c40cc1e..accb90e 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -1036,6 +1036,13 @@ class stdb_vector : public core<T>
     }
 
     auto erase(const value_type& value) -> size_type {  // NOLINT
+        if constexpr (std::is_copy_constructible_v<T>) {
+            // value may be an element of this vector, which would go away before the last comparison
+            if (std::addressof(value) >= this->_start and std::addressof(value) < this->_finish) [[unlikely]] {
+                const T copy(value);
+                return erase(copy);
+            }
+        }
         if constexpr (IsRelocatable<T>) {
             size_t erased = 0;
             for (auto *src = this->_start, *dst = this->_start; src != this->_finish;) {
-- 
2.43.0


From 94842f7e334412302ce5e144988c582dff4c064d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:50 +0000
Subject: [PATCH 56/58] fix: reading a string from a stream whose buffer throws

The exception left operator>> and getline whatever the stream is asked to throw for,
and without the bad bit.
---
 string/string.hpp | 69 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 47 insertions(+), 22 deletions(-)

diff --git a/string/string.hpp b/string/string.hpp
index 124a38c..54d756f 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -226,6 +226,22 @@ inline void podMove(const Pod* begin, const Pod* end, Pod* dest) noexcept {
     Assert(end >= begin, "podMove need end >= begin");
     memmove(dest, begin, size_t(end - begin) * sizeof(*begin));
 }
+
+/*
+ * To be called while an exception from the buffer of an input stream is handled: the
+ * stream goes bad, and the exception goes on only if the stream is asked to throw for that.
+ */
+template <class Stream>
+inline void inputFailed(Stream& is) {
+    try {
+        is.setstate(Stream::badbit);
+    } catch (const std::ios_base::failure&) {
+        // the original exception is the one to report
+    }
+    if ((is.exceptions() & Stream::badbit) != 0) {
+        throw;
+    }
+}
 }  // namespace string_detail
 
 /*
@@ -1958,18 +1974,22 @@ inline auto basic_string<E, T, A, S>::getlineImpl(istream_type& is, value_type d
     clear();
     auto err = istream_type::goodbit;
     bool extracted = false;
-    auto* const buf = is.rdbuf();
-    for (auto got = buf->sgetc();; got = buf->snextc()) {
-        if (traits_type::eq_int_type(got, traits_type::eof())) {
-            err |= istream_type::eofbit;
-            break;
-        }
-        extracted = true;
-        if (traits_type::eq(traits_type::to_char_type(got), delim)) {
-            buf->sbumpc();
-            break;
+    try {
+        auto* const buf = is.rdbuf();
+        for (auto got = buf->sgetc();; got = buf->snextc()) {
+            if (traits_type::eq_int_type(got, traits_type::eof())) {
+                err |= istream_type::eofbit;
+                break;
+            }
+            extracted = true;
+            if (traits_type::eq(traits_type::to_char_type(got), delim)) {
+                buf->sbumpc();
+                break;
+            }
+            push_back(traits_type::to_char_type(got));
         }
-        push_back(traits_type::to_char_type(got));
+    } catch (...) {
+        string_detail::inputFailed(is);
     }
     if (!extracted) {
         err |= istream_type::failbit;
@@ -2561,19 +2581,24 @@ inline auto operator>>(
             n = int64_t(str.max_size());
         }
         str.erase();
-        const auto& ctype = std::use_facet<std::ctype<E>>(is.getloc());
-        for (auto got = is.rdbuf()->sgetc(); extracted != static_cast<size_t>(n); ++extracted) {
-            if (got == T::eof()) {
-                err |= _istream_type::eofbit;
-                break;
-            }
-            if (ctype.is(std::ctype_base::space, T::to_char_type(got))) {
-                break;
+        try {
+            const auto& ctype = std::use_facet<std::ctype<E>>(is.getloc());
+            for (auto got = is.rdbuf()->sgetc(); extracted != static_cast<size_t>(n);) {
+                if (got == T::eof()) {
+                    err |= _istream_type::eofbit;
+                    break;
+                }
+                if (ctype.is(std::ctype_base::space, T::to_char_type(got))) {
+                    break;
+                }
+                str.push_back(T::to_char_type(got));
+                ++extracted;
+                got = is.rdbuf()->snextc();
             }
-            str.push_back(T::to_char_type(got));
-            got = is.rdbuf()->snextc();
+            is.width(0);
+        } catch (...) {
+            string_detail::inputFailed(is);
         }
-        is.width(0);
     }
     if (!extracted) {
         err |= _istream_type::failbit;
-- 
2.43.0


From 44227a5cea7a7b5410895ef7ce2a77b6e496a214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:12 +0000
Subject: [PATCH 57/58] fix: an unusable width or precision of a formatted
 string is an error to catch

format() was noexcept, so a negative dynamic width ended the process.
---
 string/arena_string.hpp | 2 +-
 string/string.hpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/string/arena_string.hpp b/string/arena_string.hpp
index 7e75211..e800e07 100644
--- a/string/arena_string.hpp
+++ b/string/arena_string.hpp
@@ -875,7 +875,7 @@ template <>
 struct formatter<stdb::memory::arena_string> : formatter<string_view>
 {
     template <typename Context>
-    auto format(const stdb::memory::arena_string& str, Context& ctx) const noexcept {
+    auto format(const stdb::memory::arena_string& str, Context& ctx) const {
         return formatter<string_view>::format({str.data(), str.size()}, ctx);
     }
 };
diff --git a/string/string.hpp b/string/string.hpp
index 54d756f..239803c 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -2832,7 +2832,7 @@ struct formatter<stdb::memory::string> : formatter<string_view>
     using formatter<fmt::string_view>::parse;
 
     template <typename Context>
-    auto format(const stdb::memory::string& str, Context& ctx) const noexcept {
+    auto format(const stdb::memory::string& str, Context& ctx) const {
         return formatter<string_view>::format({str.data(), str.size()}, ctx);
     }
 };
-- 
2.43.0


From 44d7e635e60fcc01e6fcf6cd64175aeec5412a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:25 +0000
Subject: [PATCH 58/58] fix: cleanups which are registered by a cleanup run as
 well

While Reset() or the destructor ran the cleanups of a block, those registered in it
by one of them were dropped.
---
 arena/arena.hpp | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index bbd9e74..a13ad34 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -300,18 +300,24 @@ class Arena
             return alignment_waste <= remain() && size <= remain() - alignment_waste;
         }
 
-        void run_cleanups() noexcept {
-            // NOLINTNEXTLINE
-            auto* node = reinterpret_cast<CleanupNode*>(reinterpret_cast<char*>(this) + _limit);
+        /*
+         * run the newest cleanup of the block, if there is one.
+         * it is taken off first, because it may use the Arena, and even register another cleanup.
+         */
+        auto run_one_cleanup() noexcept -> bool {
+            if (_limit == _size) {
+                return false;
+            }
             // NOLINTNEXTLINE
-            auto* last = reinterpret_cast<CleanupNode*>(reinterpret_cast<char*>(this) + _size);
+            const CleanupNode node = *reinterpret_cast<CleanupNode*>(CleanupPos());
+            _limit += kCleanupNodeSize;
+            node.cleanup(node.element);
+            return true;
+        }
 
-            // NOLINTNEXTLINE
-            for (; node < last; ++node) {
-                node->cleanup(node->element);
+        void run_cleanups() noexcept {
+            while (run_one_cleanup()) {
             }
-            // every cleanup runs only once.
-            _limit = _size;
         }
 
         [[nodiscard, gnu::always_inline]] inline auto cleanups() const noexcept -> uint64_t {
@@ -650,7 +656,15 @@ class Arena
         uint64_t remain_size = 0;
         for (Block* curr = _last_block; curr != nullptr; curr = curr->prev()) {
             remain_size += curr->remain();
-            curr->run_cleanups();
+        }
+        Block* newest = _last_block;
+        for (Block* curr = _last_block; curr != nullptr;) {
+            if (not curr->run_one_cleanup()) {
+                curr = curr->prev();
+            } else if (_last_block != newest || newest->cleanups() != 0) {
+                // the cleanup has registered others (in the newest blocks), they are the next.
+                newest = curr = _last_block;
+            }
         }
         return remain_size;
     }
-- 
2.43.0

