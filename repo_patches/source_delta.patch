From 020e72d7e12b2bac42163ee8ea6d7492e7938d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:08 +0000
Subject: [PATCH 01/50] fix: judy_last/judy_prv return the slot they stopped at
 in depth mode

In depth mode a radix leaf is reached with slot != 0, but both functions
returned slot 0 of the inner table. A lookup of an interior pointer then found
no record, or the wrong one, once enough keys shared a 256-byte window.
---
 src/tpl/umpire/judy/judy.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tpl/umpire/judy/judy.c b/src/tpl/umpire/judy/judy.c
index 0f59149..b27b4cc 100644
--- a/src/tpl/umpire/judy/judy.c
+++ b/src/tpl/umpire/judy/judy.c
@@ -905,7 +905,7 @@ JudySlot * judy_last( Judy * judy, JudySlot next, unsigned int off, unsigned int
                         next = inner[slot & 0x0F];
                         if( next ) {
                             if( ( !judy->depth && !slot ) || ( judy->depth && depth == judy->depth ) ) {
-                                return &inner[0];
+                                return &inner[slot & 0x0F];
                             } else {
                                 break;
                             }
@@ -1091,7 +1091,7 @@ JudySlot * judy_prv( Judy * judy ) {
                     if( inner ) {
                         if( inner[slot & 0x0F] ) {
                             if( ( !judy->depth && !slot ) || ( judy->depth && depth == judy->depth ) ) {
-                                return &inner[0];
+                                return &inner[slot & 0x0F];
                             } else {
                                 return judy_last( judy, inner[slot & 0x0F], off + 1, depth );
                             }
-- 
2.43.0


From 35fd01eeffa5973381cae0f4b8b767c7b99d704a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:19 +0000
Subject: [PATCH 02/50] fix: QuickPool does not re-enter coalescing from its
 own deallocation

---
 src/umpire/strategy/QuickPool.cpp | 8 ++++++++
 src/umpire/strategy/QuickPool.hpp | 1 +
 2 files changed, 9 insertions(+)

diff --git a/src/umpire/strategy/QuickPool.cpp b/src/umpire/strategy/QuickPool.cpp
index 7df4da9..a14758b 100644
--- a/src/umpire/strategy/QuickPool.cpp
+++ b/src/umpire/strategy/QuickPool.cpp
@@ -194,6 +194,12 @@ void QuickPool::deallocate(void* ptr, std::size_t UMPIRE_UNUSED_ARG(size))
   // can do this with iterator?
   m_pointer_map.erase(ptr);
 
+  // The chunk that do_coalesce() rebuilds is handed back through here: asking the heuristic again would coalesce
+  // forever when it still fires afterwards.
+  if (m_is_coalescing) {
+    return;
+  }
+
   std::size_t suggested_size{m_should_coalesce(*this)};
   if (0 != suggested_size) {
     UMPIRE_LOG(Debug, "coalesce heuristic true, performing coalesce.");
@@ -339,8 +345,10 @@ void QuickPool::do_coalesce(std::size_t suggested_size) noexcept
       std::size_t alloc_size{suggested_size - size_post};
 
       UMPIRE_LOG(Debug, "coalescing " << alloc_size << " bytes.");
+      m_is_coalescing = true;
       auto ptr = allocate(alloc_size);
       deallocate(ptr, alloc_size);
+      m_is_coalescing = false;
     }
   }
 }
diff --git a/src/umpire/strategy/QuickPool.hpp b/src/umpire/strategy/QuickPool.hpp
index ee1b48e..c402199 100644
--- a/src/umpire/strategy/QuickPool.hpp
+++ b/src/umpire/strategy/QuickPool.hpp
@@ -170,6 +170,7 @@ class QuickPool : public AllocationStrategy, private mixins::AlignedAllocation {
   std::size_t m_releasable_bytes{0};
   std::size_t m_actual_highwatermark{0};
   bool m_is_destructing{false};
+  bool m_is_coalescing{false};
 };
 
 std::ostream& operator<<(std::ostream& out, umpire::strategy::PoolCoalesceHeuristic<QuickPool>&);
-- 
2.43.0


From e635af5dd1099bb375538034e7d52e074099e5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:19 +0000
Subject: [PATCH 03/50] fix: pools survive a parent that cannot provide the
 coalesced block

---
 src/umpire/strategy/DynamicSizePool.hpp |  9 ++++++++-
 src/umpire/strategy/QuickPool.cpp       | 11 +++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/umpire/strategy/DynamicSizePool.hpp b/src/umpire/strategy/DynamicSizePool.hpp
index c99a5d2..ca49eda 100644
--- a/src/umpire/strategy/DynamicSizePool.hpp
+++ b/src/umpire/strategy/DynamicSizePool.hpp
@@ -448,7 +448,14 @@ class DynamicSizePool : private umpire::strategy::mixins::AlignedAllocation {
       if (size_post < suggested_size) {
         std::size_t alloc_size{suggested_size - size_post};
         UMPIRE_LOG(Debug, "coalescing " << alloc_size << " bytes.");
-        coalesceFreeBlocks(alloc_size);
+        try {
+          coalesceFreeBlocks(alloc_size);
+        } catch (...) {
+          //
+          // The free blocks are already released, the pool is usable without the coalesced block
+          //
+          UMPIRE_LOG(Error, "Could not allocate coalesced block of " << alloc_size << " bytes");
+        }
       }
     }
   }
diff --git a/src/umpire/strategy/QuickPool.cpp b/src/umpire/strategy/QuickPool.cpp
index a14758b..62d7b34 100644
--- a/src/umpire/strategy/QuickPool.cpp
+++ b/src/umpire/strategy/QuickPool.cpp
@@ -346,8 +346,15 @@ void QuickPool::do_coalesce(std::size_t suggested_size) noexcept
 
       UMPIRE_LOG(Debug, "coalescing " << alloc_size << " bytes.");
       m_is_coalescing = true;
-      auto ptr = allocate(alloc_size);
-      deallocate(ptr, alloc_size);
+      try {
+        auto ptr = allocate(alloc_size);
+        deallocate(ptr, alloc_size);
+      } catch (...) {
+        //
+        // The free chunks are already released, the pool is usable without the coalesced chunk
+        //
+        UMPIRE_LOG(Error, "Could not allocate coalesced chunk of " << alloc_size << " bytes");
+      }
       m_is_coalescing = false;
     }
   }
-- 
2.43.0


From 0e2e02f9a96936ba2fb725ec516891f5d33e9e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:42 +0000
Subject: [PATCH 04/50] fix: FixedPool and MixedPool constructors report a
 failed first allocation instead of terminating

---
 src/umpire/strategy/FixedPool.cpp | 2 +-
 src/umpire/strategy/FixedPool.hpp | 2 +-
 src/umpire/strategy/MixedPool.cpp | 2 +-
 src/umpire/strategy/MixedPool.hpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/umpire/strategy/FixedPool.cpp b/src/umpire/strategy/FixedPool.cpp
index 9c080d0..5c59b56 100644
--- a/src/umpire/strategy/FixedPool.cpp
+++ b/src/umpire/strategy/FixedPool.cpp
@@ -38,7 +38,7 @@ FixedPool::Pool::Pool(AllocationStrategy* allocation_strategy, const std::size_t
 }
 
 FixedPool::FixedPool(const std::string& name, int id, Allocator allocator, const std::size_t object_bytes,
-                     const std::size_t objects_per_pool) noexcept
+                     const std::size_t objects_per_pool)
     : AllocationStrategy{name, id, allocator.getAllocationStrategy(), "FixedPool"},
       m_strategy{allocator.getAllocationStrategy()},
       m_obj_bytes{object_bytes},
diff --git a/src/umpire/strategy/FixedPool.hpp b/src/umpire/strategy/FixedPool.hpp
index cd9d3ce..1021b56 100644
--- a/src/umpire/strategy/FixedPool.hpp
+++ b/src/umpire/strategy/FixedPool.hpp
@@ -39,7 +39,7 @@ class FixedPool : public AllocationStrategy {
    * if so.
    */
   FixedPool(const std::string& name, int id, Allocator allocator, const std::size_t object_bytes,
-            const std::size_t objects_per_pool = 64 * sizeof(int) * 8) noexcept;
+            const std::size_t objects_per_pool = 64 * sizeof(int) * 8);
 
   ~FixedPool();
 
diff --git a/src/umpire/strategy/MixedPool.cpp b/src/umpire/strategy/MixedPool.cpp
index 020d0b5..adba672 100644
--- a/src/umpire/strategy/MixedPool.cpp
+++ b/src/umpire/strategy/MixedPool.cpp
@@ -22,7 +22,7 @@ MixedPool::MixedPool(const std::string& name, int id, Allocator allocator, std::
                      std::size_t largest_fixed_obj_size, std::size_t max_initial_fixed_pool_size,
                      std::size_t fixed_size_multiplier, const std::size_t quick_pool_initial_alloc_size,
                      const std::size_t quick_pool_min_alloc_size, const std::size_t quick_pool_align_bytes,
-                     PoolCoalesceHeuristic<QuickPool> should_coalesce) noexcept
+                     PoolCoalesceHeuristic<QuickPool> should_coalesce)
     : AllocationStrategy{name, id, allocator.getAllocationStrategy(), "MixedPool"},
       m_map{},
       m_fixed_pool_map{},
diff --git a/src/umpire/strategy/MixedPool.hpp b/src/umpire/strategy/MixedPool.hpp
index 8f9bc5c..d5bbc1f 100644
--- a/src/umpire/strategy/MixedPool.hpp
+++ b/src/umpire/strategy/MixedPool.hpp
@@ -53,7 +53,7 @@ class MixedPool : public AllocationStrategy {
             const std::size_t quick_pool_initial_alloc_size = (512 * 1024 * 1024),
             const std::size_t quick_pool_min_alloc_size = (1 * 1024 * 1024),
             const std::size_t quick_pool_align_bytes = 16,
-            PoolCoalesceHeuristic<QuickPool> should_coalesce = QuickPool::percent_releasable(100)) noexcept;
+            PoolCoalesceHeuristic<QuickPool> should_coalesce = QuickPool::percent_releasable(100));
 
   void* allocate(std::size_t bytes) override;
   void deallocate(void* ptr, std::size_t size) override;
-- 
2.43.0


From 7ceef03cdcd4ed70401e6be4185cc3be808b517d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:42 +0000
Subject: [PATCH 05/50] fix: a failed allocation is not counted in the
 statistics of the parent allocator

---
 src/umpire/strategy/AllocationStrategy.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/umpire/strategy/AllocationStrategy.cpp b/src/umpire/strategy/AllocationStrategy.cpp
index e11504a..640f63a 100644
--- a/src/umpire/strategy/AllocationStrategy.cpp
+++ b/src/umpire/strategy/AllocationStrategy.cpp
@@ -19,6 +19,8 @@ AllocationStrategy::AllocationStrategy(const std::string& name, int id, Allocati
 
 void* AllocationStrategy::allocate_internal(std::size_t bytes)
 {
+  void* ptr{allocate(bytes)};
+
   m_current_size += bytes;
   m_allocation_count++;
 
@@ -26,7 +28,7 @@ void* AllocationStrategy::allocate_internal(std::size_t bytes)
     m_high_watermark = m_current_size;
   }
 
-  return allocate(bytes);
+  return ptr;
 }
 
 void* AllocationStrategy::allocate_named(const std::string& UMPIRE_UNUSED_ARG(name), std::size_t bytes)
@@ -36,6 +38,8 @@ void* AllocationStrategy::allocate_named(const std::string& UMPIRE_UNUSED_ARG(na
 
 void* AllocationStrategy::allocate_named_internal(const std::string& name, std::size_t bytes)
 {
+  void* ptr{allocate_named(name, bytes)};
+
   m_current_size += bytes;
   m_allocation_count++;
 
@@ -43,7 +47,7 @@ void* AllocationStrategy::allocate_named_internal(const std::string& name, std::
     m_high_watermark = m_current_size;
   }
 
-  return allocate_named(name, bytes);
+  return ptr;
 }
 
 void AllocationStrategy::deallocate_internal(void* ptr, std::size_t size)
-- 
2.43.0


From 0bf6e5e6d5edce924521aeec4fd32fc48df8e29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:42 +0000
Subject: [PATCH 06/50] fix: NamingShim passes the size of the allocation back
 to its parent

---
 src/umpire/strategy/NamingShim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/umpire/strategy/NamingShim.cpp b/src/umpire/strategy/NamingShim.cpp
index 1a9dfb0..812abfe 100644
--- a/src/umpire/strategy/NamingShim.cpp
+++ b/src/umpire/strategy/NamingShim.cpp
@@ -30,9 +30,9 @@ void* NamingShim::allocate(std::size_t bytes)
   return m_allocator->allocate_named_internal(name, bytes);
 }
 
-void NamingShim::deallocate(void* ptr, std::size_t UMPIRE_UNUSED_ARG(size))
+void NamingShim::deallocate(void* ptr, std::size_t size)
 {
-  m_allocator->deallocate_internal(ptr);
+  m_allocator->deallocate_internal(ptr, size);
 }
 
 Platform NamingShim::getPlatform() noexcept
-- 
2.43.0


From afb20919216d34b6207d4c6fb619a1468caf78f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:42 +0000
Subject: [PATCH 07/50] fix: SizeLimiter does not charge failed allocations and
 cannot be passed by a size that wraps

---
 src/umpire/strategy/SizeLimiter.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/umpire/strategy/SizeLimiter.cpp b/src/umpire/strategy/SizeLimiter.cpp
index 9187b50..de186bc 100644
--- a/src/umpire/strategy/SizeLimiter.cpp
+++ b/src/umpire/strategy/SizeLimiter.cpp
@@ -22,14 +22,14 @@ SizeLimiter::SizeLimiter(const std::string& name, int id, Allocator allocator, s
 
 void* SizeLimiter::allocate(std::size_t bytes)
 {
-  m_total_size += bytes;
-
-  if (m_total_size > m_size_limit) {
-    m_total_size -= bytes;
+  if (bytes > m_size_limit || m_total_size > m_size_limit - bytes) {
     UMPIRE_ERROR(out_of_memory_error, "Size limit exceeded.");
   }
 
-  return m_allocator->allocate_internal(bytes);
+  void* ptr{m_allocator->allocate_internal(bytes)};
+  m_total_size += bytes;
+
+  return ptr;
 }
 
 void SizeLimiter::deallocate(void* ptr, std::size_t size)
-- 
2.43.0


From 6c50c9de158fc8b708b93d1233d481284ffa6be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:42 +0000
Subject: [PATCH 08/50] fix: MonotonicAllocationStrategy keeps its size when a
 request does not fit

---
 src/umpire/strategy/MonotonicAllocationStrategy.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/umpire/strategy/MonotonicAllocationStrategy.cpp b/src/umpire/strategy/MonotonicAllocationStrategy.cpp
index af3bab6..043d67a 100644
--- a/src/umpire/strategy/MonotonicAllocationStrategy.cpp
+++ b/src/umpire/strategy/MonotonicAllocationStrategy.cpp
@@ -30,14 +30,14 @@ MonotonicAllocationStrategy::~MonotonicAllocationStrategy()
 
 void* MonotonicAllocationStrategy::allocate(std::size_t bytes)
 {
-  void* ret = static_cast<char*>(m_block) + m_size;
-  m_size += bytes;
-
-  if (m_size > m_capacity) {
+  if (bytes > m_capacity - m_size) {
     UMPIRE_ERROR(runtime_error,
-                 fmt::format("MonotonicAllocationStrategy capacity exceeded {} > {}", m_size, m_capacity));
+                 fmt::format("MonotonicAllocationStrategy capacity exceeded {} + {} > {}", m_size, bytes, m_capacity));
   }
 
+  void* ret = static_cast<char*>(m_block) + m_size;
+  m_size += bytes;
+
   UMPIRE_LOG(Debug, "(bytes=" << bytes << ") returning " << ret);
 
   return ret;
-- 
2.43.0


From e0638034c7b500858f0f0b14ff0d16ddbfc54193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:42 +0000
Subject: [PATCH 09/50] fix: SlotPool reports exhaustion, keeps its slots when
 the parent fails and returns blocks with their size

---
 src/umpire/strategy/SlotPool.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/umpire/strategy/SlotPool.cpp b/src/umpire/strategy/SlotPool.cpp
index 712236a..1b32452 100644
--- a/src/umpire/strategy/SlotPool.cpp
+++ b/src/umpire/strategy/SlotPool.cpp
@@ -7,6 +7,8 @@
 
 #include "umpire/strategy/SlotPool.hpp"
 
+#include <cstdlib>
+
 #include "umpire/util/Macros.hpp"
 #include "umpire/util/error.hpp"
 
@@ -35,7 +37,8 @@ SlotPool::~SlotPool()
 {
   for (std::size_t i = 0; i < m_slots; ++i) {
     if (m_pointers[i]) {
-      m_allocator->deallocate_internal(m_pointers[i], m_lengths[i]);
+      // The length of a slot that is still in use is negative
+      m_allocator->deallocate_internal(m_pointers[i], std::abs(m_lengths[i]));
       m_pointers[i] = nullptr;
       m_lengths[i] = 0;
     }
@@ -60,13 +63,17 @@ void* SlotPool::allocate(std::size_t bytes)
       ptr = m_pointers[i];
       break;
     } else if (m_lengths[i] == 0) {
-      m_lengths[i] = -int_bytes;
       m_pointers[i] = m_allocator->allocate_internal(bytes);
+      m_lengths[i] = -int_bytes;
       ptr = m_pointers[i];
       break;
     }
   }
 
+  if (!ptr) {
+    UMPIRE_ERROR(out_of_memory_error, fmt::format("No slot available for allocation of size: {} bytes", bytes));
+  }
+
   UMPIRE_LOG(Debug, "(bytes=" << bytes << ") returning " << ptr);
   return ptr;
 }
-- 
2.43.0


From dcd1eedc87da812b62ace1e30aead3c8b85cea10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:42 +0000
Subject: [PATCH 10/50] fix: FixedPool::release() reduces the actual size by
 what it gives back

---
 src/umpire/strategy/FixedPool.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/umpire/strategy/FixedPool.cpp b/src/umpire/strategy/FixedPool.cpp
index 5c59b56..4249ef3 100644
--- a/src/umpire/strategy/FixedPool.cpp
+++ b/src/umpire/strategy/FixedPool.cpp
@@ -180,6 +180,7 @@ void FixedPool::release()
     if (m_obj_per_pool == p.num_avail) {
       p.strategy->deallocate_internal(p.data, m_data_bytes);
       std::free(p.avail);
+      m_actual_bytes -= m_avail_bytes + m_data_bytes;
     }
   }
   m_pool.erase(std::remove_if(m_pool.begin(), m_pool.end(), [&](Pool& p) { return m_obj_per_pool == p.num_avail; }),
-- 
2.43.0


From 3863cc5586ab9b4c51b5dee447e960256ce1fcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:42 +0000
Subject: [PATCH 11/50] fix: requests whose rounded or padded size wraps are
 refused

---
 src/umpire/strategy/AlignedAllocator.cpp         |  5 +++++
 src/umpire/strategy/mixins/AlignedAllocation.inl | 16 +++++++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/umpire/strategy/AlignedAllocator.cpp b/src/umpire/strategy/AlignedAllocator.cpp
index cfaaf2c..7dbbcfc 100644
--- a/src/umpire/strategy/AlignedAllocator.cpp
+++ b/src/umpire/strategy/AlignedAllocator.cpp
@@ -7,6 +7,7 @@
 #include "umpire/strategy/AlignedAllocator.hpp"
 
 #include "umpire/util/Macros.hpp"
+#include "umpire/util/error.hpp"
 
 namespace umpire {
 namespace strategy {
@@ -31,6 +32,10 @@ AlignedAllocator::AlignedAllocator(const std::string& name, int id, Allocator al
 void* AlignedAllocator::allocate(std::size_t bytes)
 {
   std::size_t total_bytes = bytes + sizeof(void*) + m_alignment - 1;
+  if (total_bytes < bytes) {
+    UMPIRE_ERROR(out_of_memory_error,
+                 fmt::format("Size {} leaves no room for alignment to {} bytes", bytes, m_alignment));
+  }
   UMPIRE_LOG(Debug, "requested: " << bytes << " actual: " << bytes + m_alignment - 1);
 
   uintptr_t ptr{reinterpret_cast<uintptr_t>(m_allocator->allocate_internal(total_bytes))};
diff --git a/src/umpire/strategy/mixins/AlignedAllocation.inl b/src/umpire/strategy/mixins/AlignedAllocation.inl
index 2e1b71d..a8f4d18 100644
--- a/src/umpire/strategy/mixins/AlignedAllocation.inl
+++ b/src/umpire/strategy/mixins/AlignedAllocation.inl
@@ -10,6 +10,7 @@
 #include "umpire/util/allocation_statistics.hpp"
 #include "umpire/util/memory_sanitizers.hpp"
 #include "umpire/util/Macros.hpp"
+#include "umpire/util/error.hpp"
 
 namespace umpire {
 namespace strategy {
@@ -17,12 +18,25 @@ namespace mixins {
 
 inline std::size_t AlignedAllocation::aligned_round_up(std::size_t size)
 {
-  return size + (m_alignment - 1) - (size - 1) % m_alignment;
+  const std::size_t rounded{ size + (m_alignment - 1) - (size - 1) % m_alignment };
+
+  if (rounded < size) {
+    UMPIRE_ERROR(out_of_memory_error,
+                 fmt::format("Size {} cannot be rounded up to a multiple of {}", size, m_alignment));
+  }
+
+  return rounded;
 }
 
 inline void* AlignedAllocation::aligned_allocate(std::size_t size)
 {
   std::size_t total_bytes{ size + m_alignment };
+
+  if (total_bytes < size) {
+    UMPIRE_ERROR(out_of_memory_error,
+                 fmt::format("Size {} leaves no room for alignment to {} bytes", size, m_alignment));
+  }
+
   uintptr_t ptr{ reinterpret_cast<uintptr_t>(m_allocator->allocate_internal(total_bytes)) };
 
   UMPIRE_POISON_MEMORY_REGION(m_allocator, reinterpret_cast<void*>(ptr), total_bytes);
-- 
2.43.0


From af1321569bb45b0f6c31b87ecf20d70ded68f08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:42 +0000
Subject: [PATCH 12/50] fix: out_of_memory_error of a named allocation carries
 allocator and size

---
 src/umpire/Allocator.inl | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/umpire/Allocator.inl b/src/umpire/Allocator.inl
index 1b3e7c7..c8e4038 100644
--- a/src/umpire/Allocator.inl
+++ b/src/umpire/Allocator.inl
@@ -76,7 +76,13 @@ inline void* Allocator::do_named_allocate(const std::string& name, std::size_t b
   if (0 == bytes) {
     ret = allocateNull();
   } else {
-    ret = m_allocator->allocate_named(name, bytes);
+    try {
+      ret = m_allocator->allocate_named(name, bytes);
+    } catch (umpire::out_of_memory_error& e) {
+      e.set_allocator_id(this->getId());
+      e.set_requested_size(bytes);
+      throw;
+    }
   }
 
   if (m_tracking) {
-- 
2.43.0


From d2c6384382f9d0c75df264bd4d609a541e3de94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:37 +0000
Subject: [PATCH 13/50] fix: reallocating HOST memory keeps the accounting and
 survives a failed realloc

---
 src/umpire/op/HostReallocateOperation.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/umpire/op/HostReallocateOperation.cpp b/src/umpire/op/HostReallocateOperation.cpp
index 76b39d4..cd07090 100644
--- a/src/umpire/op/HostReallocateOperation.cpp
+++ b/src/umpire/op/HostReallocateOperation.cpp
@@ -9,6 +9,7 @@
 #include <cstdlib>
 
 #include "umpire/ResourceManager.hpp"
+#include "umpire/strategy/AllocationStrategy.hpp"
 #include "umpire/strategy/mixins/Inspector.hpp"
 #include "umpire/util/error.hpp"
 
@@ -32,15 +33,20 @@ void HostReallocateOperation::transform(void* current_ptr, void** new_ptr, util:
     ResourceManager::getInstance().copy(*new_ptr, current_ptr, copy_size);
     allocator.deallocate(current_ptr);
   } else {
-    auto old_record = ResourceManager::getInstance().deregisterAllocation(current_ptr);
+    strategy::AllocationStrategy* strategy{new_allocation->strategy};
+    strategy::mixins::Inspector inspector;
+
+    auto old_record = inspector.deregisterAllocation(current_ptr, strategy);
     *new_ptr = ::realloc(current_ptr, new_size);
 
     if (!*new_ptr) {
+      // The original allocation is untouched by a failed ::realloc
+      inspector.registerAllocation(current_ptr, old_record.size, strategy, old_record.name);
       UMPIRE_ERROR(runtime_error, fmt::format("::realloc(current_ptr={}, old_size={}, new_size={}) failed.",
                                               current_ptr, old_record.size, new_size));
     }
 
-    ResourceManager::getInstance().registerAllocation(*new_ptr, {*new_ptr, new_size, new_allocation->strategy});
+    inspector.registerAllocation(*new_ptr, new_size, strategy);
   }
 }
 
-- 
2.43.0


From a7372b72d09dc2bb45ce359003c3a9b828511f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:33 +0000
Subject: [PATCH 14/50] fix: MemoryMap::insert(key, const value&) reports
 whether the entry was added

---
 src/umpire/util/MemoryMap.inl | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/umpire/util/MemoryMap.inl b/src/umpire/util/MemoryMap.inl
index 4c461d8..1cc7242 100644
--- a/src/umpire/util/MemoryMap.inl
+++ b/src/umpire/util/MemoryMap.inl
@@ -70,10 +70,7 @@ std::pair<typename MemoryMap<V>::Iterator, bool> MemoryMap<V>::insert(Key ptr, c
 {
   UMPIRE_LOG(Debug, "ptr = " << ptr);
 
-  auto it_pair = doInsert(ptr, val);
-  it_pair.second = !it_pair.second;
-
-  return it_pair;
+  return doInsert(ptr, val);
 }
 
 template <typename V>
-- 
2.43.0


From 7d35b9ac142882d363a0570db45180985f1f0f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:33 +0000
Subject: [PATCH 15/50] fix: MemoryMap iterators advance from their own entry
 after being assigned or copied

---
 src/umpire/util/MemoryMap.inl | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/umpire/util/MemoryMap.inl b/src/umpire/util/MemoryMap.inl
index 1cc7242..4987dec 100644
--- a/src/umpire/util/MemoryMap.inl
+++ b/src/umpire/util/MemoryMap.inl
@@ -266,8 +266,9 @@ template <typename V>
 template <bool Const>
 typename MemoryMap<V>::template Iterator_<Const>& MemoryMap<V>::Iterator_<Const>::operator++()
 {
-  // Check whether this object was not the last to set the internal judy state
-  if (m_pair.first && m_map->m_oper != reinterpret_cast<uintptr_t>(this)) {
+  // The internal judy state is shared: it need not be at this iterator's entry, even when this object was the last
+  // to set it, since another iterator may have been assigned to (or constructed in place of) this object.
+  if (m_pair.first) {
     // Seek m_array internal position
     judy_slot(m_map->m_array, reinterpret_cast<const unsigned char*>(&m_pair.first), judy_max);
   }
@@ -290,7 +291,7 @@ template <typename V>
 template <bool Const>
 typename MemoryMap<V>::template Iterator_<Const> MemoryMap<V>::Iterator_<Const>::operator++(int)
 {
-  Iterator tmp{*this};
+  Iterator_ tmp{*this};
   ++(*this);
   return tmp;
 }
-- 
2.43.0


From 3afc726c8aba2c3905e9620a97494eb77dd00db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:33 +0000
Subject: [PATCH 16/50] fix: FixedMallocPool does not write past objects
 smaller than size_t

---
 src/umpire/util/FixedMallocPool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/umpire/util/FixedMallocPool.cpp b/src/umpire/util/FixedMallocPool.cpp
index f6070cb..a74597a 100644
--- a/src/umpire/util/FixedMallocPool.cpp
+++ b/src/umpire/util/FixedMallocPool.cpp
@@ -112,7 +112,7 @@ void FixedMallocPool::deallocate(void* ptr)
         *reinterpret_cast<unsigned int*>(ptr) = index_from_addr(p, p.next);
         p.next = reinterpret_cast<unsigned char*>(ptr);
       } else {
-        *reinterpret_cast<std::size_t*>(ptr) = m_obj_per_pool;
+        *reinterpret_cast<unsigned int*>(ptr) = static_cast<unsigned int>(m_obj_per_pool);
         p.next = reinterpret_cast<unsigned char*>(ptr);
       }
       ++p.num_free;
-- 
2.43.0


From 90a0b9f8843cc1fbeeed213184fd12b5cdc4a32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:35 +0000
Subject: [PATCH 17/50] fix: judy_slot reports an empty cell of a linear node
 as absent

---
 src/tpl/umpire/judy/judy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tpl/umpire/judy/judy.c b/src/tpl/umpire/judy/judy.c
index b27b4cc..05fe67f 100644
--- a/src/tpl/umpire/judy/judy.c
+++ b/src/tpl/umpire/judy/judy.c
@@ -520,7 +520,7 @@ JudySlot * judy_slot( Judy * judy, const unsigned char * buff, unsigned int max
                     // is this a leaf?
 
                     if( (!judy->depth && !( value & 0xFF )) || ( judy->depth && depth == judy->depth ) ) {
-                        return &node[-slot - 1];
+                        return node[-slot - 1] ? &node[-slot - 1] : NULL;    // occupied?
                     }
 
                     next = node[-slot - 1];
-- 
2.43.0


From 25e16a439fd9f53e6ed9cf8779caa1f40883f0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:50 +0000
Subject: [PATCH 18/50] fix: judyLArray::atOrBefore does not compare with a key
 that was never found

---
 src/tpl/umpire/judy/judyLArray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tpl/umpire/judy/judyLArray.h b/src/tpl/umpire/judy/judyLArray.h
index ce3ecef..dfd1c95 100644
--- a/src/tpl/umpire/judy/judyLArray.h
+++ b/src/tpl/umpire/judy/judyLArray.h
@@ -134,10 +134,10 @@ class judyLArray {
         const pair atOrBefore( JudyKey key) {
             atOrAfter(key);
 
-            JudyKey found_key;
+            JudyKey found_key = 0;
             judy_key( _judyarray, (unsigned char *) &found_key, _depth * JUDY_key_size);
 
-            if (!(found_key == key)) {
+            if (!(_lastSlot && found_key == key)) {
               _lastSlot = ( JudyValue * ) judy_prv( _judyarray); //, ( const unsigned char * ) &key, _depth * JUDY_key_size );
             }
 
-- 
2.43.0


From 721000cf0e29f25ae5eef7636102db7955630a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:29 +0000
Subject: [PATCH 19/50] fix: makeResource checks the resource name before
 registering the allocator

---
 src/umpire/ResourceManager.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/umpire/ResourceManager.cpp b/src/umpire/ResourceManager.cpp
index ee58038..1dac262 100644
--- a/src/umpire/ResourceManager.cpp
+++ b/src/umpire/ResourceManager.cpp
@@ -155,6 +155,11 @@ Allocator ResourceManager::makeResource(const std::string& name, MemoryResourceT
     traits.granularity = MemoryResourceTraits::granularity_type::fine_grained;
   }
 
+  // A name without "::" must be a known resource: find out before anything is registered under it
+  const bool is_plain_resource{name.find("::") == std::string::npos};
+  const resource::MemoryResourceType resource_type{is_plain_resource ? resource::string_to_resource(name)
+                                                                     : resource::MemoryResourceType::Unknown};
+
   std::unique_ptr<strategy::AllocationStrategy> allocator{registry.makeMemoryResource(name, getNextId(), traits)};
   allocator->setTracking(traits.tracking);
 
@@ -176,8 +181,8 @@ Allocator ResourceManager::makeResource(const std::string& name, MemoryResourceT
     std::string base_name{name.substr(0, name.find("::") - 1)};
     m_allocators_by_name[base_name] = allocator.get();
   }
-  if (name.find("::") == std::string::npos) {
-    m_memory_resources[resource::string_to_resource(name)] = allocator.get();
+  if (is_plain_resource) {
+    m_memory_resources[resource_type] = allocator.get();
   }
   m_allocators_by_id[id] = allocator.get();
   m_allocators.emplace_front(std::move(allocator));
-- 
2.43.0


From 7042653354d482dd8db1d2739ed346d0aee1d91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:52 +0000
Subject: [PATCH 20/50] fix: removeAlias refuses the name of a resource that
 was not made yet

---
 src/umpire/ResourceManager.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/umpire/ResourceManager.cpp b/src/umpire/ResourceManager.cpp
index 1dac262..3e20461 100644
--- a/src/umpire/ResourceManager.cpp
+++ b/src/umpire/ResourceManager.cpp
@@ -300,11 +300,12 @@ void ResourceManager::addAlias(const std::string& name, Allocator allocator)
 
 void ResourceManager::removeAlias(const std::string& name, Allocator allocator)
 {
-  if (!isAllocator(name)) {
+  // a resource that has not been made yet counts as an allocator, but has no entry
+  auto a = m_allocators_by_name.find(name);
+  if (a == m_allocators_by_name.end()) {
     UMPIRE_ERROR(runtime_error, fmt::format("Allocator \"{}\" is not registered", name));
   }
 
-  auto a = m_allocators_by_name.find(name);
   if (a->second->getName().compare(name) == 0) {
     UMPIRE_ERROR(runtime_error, fmt::format("\"{}\" is not an alias, so cannot be removed", name));
   }
-- 
2.43.0


From e36764215d9e81b0398762bca28ed08a2312f242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:52 +0000
Subject: [PATCH 21/50] fix: unknown_pointer_error carries the pointer it is
 about

---
 src/umpire/util/AllocationMap.cpp | 2 +-
 src/umpire/util/error.hpp         | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/umpire/util/AllocationMap.cpp b/src/umpire/util/AllocationMap.cpp
index 9b2008c..ac25fd3 100644
--- a/src/umpire/util/AllocationMap.cpp
+++ b/src/umpire/util/AllocationMap.cpp
@@ -188,7 +188,7 @@ const AllocationRecord* AllocationMap::find(void* ptr) const
     // use this from a debugger to dump the contents of the AllocationMap
     printAll();
 #endif
-    UMPIRE_ERROR(unknown_pointer_error, fmt::format("Allocation not mapped: {}", ptr));
+    UMPIRE_ERROR(unknown_pointer_error, fmt::format("Allocation not mapped: {}", ptr), ptr);
   }
 }
 
diff --git a/src/umpire/util/error.hpp b/src/umpire/util/error.hpp
index 335695b..0c0dc08 100644
--- a/src/umpire/util/error.hpp
+++ b/src/umpire/util/error.hpp
@@ -85,7 +85,8 @@ class out_of_memory_error : public umpire::runtime_error {
 
 class unknown_pointer_error : public umpire::runtime_error {
  public:
-  unknown_pointer_error(const std::string& msg, const std::string& file, int line) : runtime_error(msg, file, line)
+  unknown_pointer_error(const std::string& msg, const std::string& file, int line, void* ptr = nullptr)
+      : runtime_error(msg, file, line), m_pointer(ptr)
   {
   }
 
-- 
2.43.0


From 4da3b3c06ece71f8d8739c6235d5c201c331fe52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:26 +0000
Subject: [PATCH 22/50] fix: relative_fragmentation visits every pair of
 neighbouring records

---
 src/umpire/util/allocation_statistics.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/umpire/util/allocation_statistics.cpp b/src/umpire/util/allocation_statistics.cpp
index 20f48b1..8f88793 100644
--- a/src/umpire/util/allocation_statistics.cpp
+++ b/src/umpire/util/allocation_statistics.cpp
@@ -17,13 +17,17 @@ float relative_fragmentation(std::vector<util::AllocationRecord>& recs)
 {
   auto r1 = recs.begin();
   auto r2 = recs.begin();
-  ++r2;
+  if (r2 != recs.end()) {
+    ++r2;
+  }
   std::size_t largest_free_space = 0;
   std::size_t total_free_space = 0;
   while (r2 != recs.end()) {
     const std::size_t free_space = reinterpret_cast<char*>(r2->ptr) - (reinterpret_cast<char*>(r1->ptr) + r1->size);
     largest_free_space = std::max(largest_free_space, free_space);
     total_free_space += free_space;
+    ++r1;
+    ++r2;
   }
 
   return 1.0f - static_cast<float>(largest_free_space) / (total_free_space + std::numeric_limits<float>::epsilon());
-- 
2.43.0


From 2552d74233b12674f973378289a9781b3cf2b24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:26 +0000
Subject: [PATCH 23/50] fix: making RESOURCE::0 registers it under the name of
 the resource

---
 src/umpire/ResourceManager.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/umpire/ResourceManager.cpp b/src/umpire/ResourceManager.cpp
index 3e20461..c0846c6 100644
--- a/src/umpire/ResourceManager.cpp
+++ b/src/umpire/ResourceManager.cpp
@@ -177,9 +177,9 @@ Allocator ResourceManager::makeResource(const std::string& name, MemoryResourceT
   if (name == "DEVICE") {
     m_allocators_by_name["DEVICE::0"] = allocator.get();
   }
-  if (name.find("::0") != std::string::npos) {
-    std::string base_name{name.substr(0, name.find("::") - 1)};
-    m_allocators_by_name[base_name] = allocator.get();
+  const std::string base_name{name.substr(0, name.find("::"))};
+  if (name == base_name + "::0") {
+    m_allocators_by_name.insert({base_name, allocator.get()});
   }
   if (is_plain_resource) {
     m_memory_resources[resource_type] = allocator.get();
-- 
2.43.0


From aaa355243f6262ad3c6d603e2882f161c3d682dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:30 +0000
Subject: [PATCH 24/50] fix: a new OutputBuffer has no sinks

---
 src/umpire/util/OutputBuffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/umpire/util/OutputBuffer.hpp b/src/umpire/util/OutputBuffer.hpp
index 13bd40f..ef62364 100644
--- a/src/umpire/util/OutputBuffer.hpp
+++ b/src/umpire/util/OutputBuffer.hpp
@@ -25,8 +25,8 @@ class OutputBuffer : public std::streambuf {
   int sync() override;
 
  private:
-  std::streambuf* d_console_stream;
-  std::streambuf* d_file_stream;
+  std::streambuf* d_console_stream{nullptr};
+  std::streambuf* d_file_stream{nullptr};
 };
 
 } // end of namespace util
-- 
2.43.0


From bdbfad3f3b6a9be8f13770574cf61bb3225d3bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:14 +0000
Subject: [PATCH 25/50] fix: a failed FILE allocation closes its file
 descriptor

---
 src/umpire/resource/FileMemoryResource.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/umpire/resource/FileMemoryResource.cpp b/src/umpire/resource/FileMemoryResource.cpp
index f65bc03..4fbc7af 100644
--- a/src/umpire/resource/FileMemoryResource.cpp
+++ b/src/umpire/resource/FileMemoryResource.cpp
@@ -75,6 +75,7 @@ void* FileMemoryResource::allocate(std::size_t bytes)
   int trun{ftruncate64(fd, rounded_bytes)};
   if (trun == -1) {
     int errno_save = errno;
+    close(fd);
     remove(ss.str().c_str());
     UMPIRE_ERROR(runtime_error, fmt::format("truncate64 of file {} failed: {}", ss.str(), strerror(errno_save)));
   }
@@ -86,6 +87,7 @@ void* FileMemoryResource::allocate(std::size_t bytes)
 #endif
   if (ptr == MAP_FAILED) {
     int errno_save = errno;
+    close(fd);
     remove(ss.str().c_str());
     UMPIRE_ERROR(runtime_error,
                  fmt::format("mmap of {} to file {} failed: {}", rounded_bytes, ss.str(), strerror(errno_save)));
-- 
2.43.0


From fea6ec7376a77c18e37f242669372c6c0fe277fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:37 +0000
Subject: [PATCH 26/50] fix: a refused reallocate or move gives back the memory
 it took for the result

---
 src/umpire/ResourceManager.cpp               |  8 +++++++-
 src/umpire/op/GenericReallocateOperation.cpp | 18 ++++++++++++++----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/umpire/ResourceManager.cpp b/src/umpire/ResourceManager.cpp
index c0846c6..b6b528e 100644
--- a/src/umpire/ResourceManager.cpp
+++ b/src/umpire/ResourceManager.cpp
@@ -820,7 +820,13 @@ void* ResourceManager::move(void* ptr, Allocator allocator)
   }
 
   void* dst_ptr{allocator.allocate(alloc_record->size)};
-  copy(dst_ptr, ptr);
+
+  try {
+    copy(dst_ptr, ptr);
+  } catch (...) {
+    allocator.deallocate(dst_ptr);
+    throw;
+  }
 
   deallocate(ptr);
 
diff --git a/src/umpire/op/GenericReallocateOperation.cpp b/src/umpire/op/GenericReallocateOperation.cpp
index 16709be..e0e00ff 100644
--- a/src/umpire/op/GenericReallocateOperation.cpp
+++ b/src/umpire/op/GenericReallocateOperation.cpp
@@ -26,7 +26,12 @@ void GenericReallocateOperation::transform(void* current_ptr, void** new_ptr,
   const std::size_t old_size = current_allocation->size;
   const std::size_t copy_size = (old_size > new_size) ? new_size : old_size;
 
-  ResourceManager::getInstance().copy(*new_ptr, current_ptr, copy_size);
+  try {
+    ResourceManager::getInstance().copy(*new_ptr, current_ptr, copy_size);
+  } catch (...) {
+    allocator.deallocate(*new_ptr);
+    throw;
+  }
 
   allocator.deallocate(current_ptr);
 }
@@ -41,11 +46,16 @@ camp::resources::EventProxy<camp::resources::Resource> GenericReallocateOperatio
   const std::size_t old_size = current_allocation->size;
   const std::size_t copy_size = (old_size > new_size) ? new_size : old_size;
 
-  auto event = ResourceManager::getInstance().copy(*new_ptr, current_ptr, ctx, copy_size);
+  try {
+    auto event = ResourceManager::getInstance().copy(*new_ptr, current_ptr, ctx, copy_size);
 
-  allocator.deallocate(current_ptr);
+    allocator.deallocate(current_ptr);
 
-  return event;
+    return event;
+  } catch (...) {
+    allocator.deallocate(*new_ptr);
+    throw;
+  }
 }
 
 } // end of namespace op
-- 
2.43.0


From 93cc0d60ee9a221c99efb299e3c936f100b92eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:57 +0000
Subject: [PATCH 27/50] fix: the FILE resource reports its current size and
 high watermark

---
 src/umpire/resource/FileMemoryResource.cpp | 10 ----------
 src/umpire/resource/FileMemoryResource.hpp |  3 ---
 2 files changed, 13 deletions(-)

diff --git a/src/umpire/resource/FileMemoryResource.cpp b/src/umpire/resource/FileMemoryResource.cpp
index 4fbc7af..bf8c097 100644
--- a/src/umpire/resource/FileMemoryResource.cpp
+++ b/src/umpire/resource/FileMemoryResource.cpp
@@ -133,16 +133,6 @@ void FileMemoryResource::deallocate(void* ptr, std::size_t UMPIRE_UNUSED_ARG(siz
   m_size_map.erase(iter->first);
 }
 
-std::size_t FileMemoryResource::getCurrentSize() const noexcept
-{
-  return 0;
-}
-
-std::size_t FileMemoryResource::getHighWatermark() const noexcept
-{
-  return 0;
-}
-
 bool FileMemoryResource::isPageable() noexcept
 {
 #if defined(UMPIRE_ENABLE_CUDA)
diff --git a/src/umpire/resource/FileMemoryResource.hpp b/src/umpire/resource/FileMemoryResource.hpp
index b13f845..e5ae656 100644
--- a/src/umpire/resource/FileMemoryResource.hpp
+++ b/src/umpire/resource/FileMemoryResource.hpp
@@ -81,9 +81,6 @@ class FileMemoryResource : public MemoryResource {
    */
   void deallocate(void* ptr, std::size_t size);
 
-  std::size_t getCurrentSize() const noexcept;
-  std::size_t getHighWatermark() const noexcept;
-
   bool isAccessibleFrom(Platform p) noexcept;
 
   Platform getPlatform() noexcept;
-- 
2.43.0


From ce792226ab4f186cacea2705f402e8f5ad0667f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:03 +0000
Subject: [PATCH 28/50] fix: find_pointer_from_name refuses allocators that are
 not shared memory allocators

---
 src/umpire/Umpire.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/umpire/Umpire.cpp b/src/umpire/Umpire.cpp
index 76297c3..9f0d06f 100644
--- a/src/umpire/Umpire.cpp
+++ b/src/umpire/Umpire.cpp
@@ -214,7 +214,7 @@ void* find_pointer_from_name(Allocator allocator, const std::string& name)
   auto base_strategy = util::unwrap_allocator<strategy::AllocationStrategy>(allocator);
 
   umpire::resource::HostSharedMemoryResource* shared_resource =
-      reinterpret_cast<umpire::resource::HostSharedMemoryResource*>(base_strategy);
+      dynamic_cast<umpire::resource::HostSharedMemoryResource*>(base_strategy);
 
   if (shared_resource != nullptr) {
     ptr = shared_resource->find_pointer_from_name(name);
-- 
2.43.0


From 43c88d316346f336bc33f36a39e52877cbd3f0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:14 +0000
Subject: [PATCH 29/50] fix: a shared memory request near the maximum size is
 refused instead of wrapping around

---
 src/umpire/resource/HostSharedMemoryResourceImpl.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
index 672dc42..c7f9c9a 100644
--- a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
+++ b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
@@ -201,7 +201,10 @@ class HostSharedMemoryResource::impl {
     if (best != nullptr) {
       best->reference_count++;
     } else { // New allocation
-      findUsableBlock(best, prev, adjusted_size);
+      // A request larger than the segment must not wrap around in adjusted_size
+      if (requested_size <= m_segment->segment_size) {
+        findUsableBlock(best, prev, adjusted_size);
+      }
 
       if (best != nullptr) {
         // Split the free block
-- 
2.43.0


From 2a3d3d5bf172a67b743268cb3f72eaa39a70ee8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:44 +0000
Subject: [PATCH 30/50] fix: a shared memory segment that could not be set up
 is removed

---
 .../resource/HostSharedMemoryResourceImpl.hpp  | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
index c7f9c9a..442df89 100644
--- a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
+++ b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
@@ -88,6 +88,22 @@ class HostSharedMemoryResource::impl {
       std::this_thread::yield();
     }
 
+    // Gives the segment up again when setting it up does not complete
+    struct SetupGuard {
+      impl* self;
+      bool created;
+      ~SetupGuard()
+      {
+        if (self) {
+          if (self->m_segment)
+            munmap(self->m_segment, self->m_segment_size);
+          close(self->m_segment_fd);
+          if (created)
+            shm_unlink(self->m_segment_name.c_str());
+        }
+      }
+    } guard{this, created};
+
     if (created) {
       if (0 != ftruncate(m_segment_fd, size)) {
         err = errno;
@@ -155,6 +171,8 @@ class HostSharedMemoryResource::impl {
         value = __atomic_load_n(&m_segment->init_flag, __ATOMIC_SEQ_CST);
       }
     }
+
+    guard.self = nullptr;
   }
 
   ~impl()
-- 
2.43.0


From 39fe76472e2ec0c3ca3bf03055f420d0dedf3800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:54 +0000
Subject: [PATCH 31/50] fix: a shared memory segment too small for its own
 headers is refused

---
 src/umpire/resource/HostSharedMemoryResourceImpl.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
index 442df89..705f11e 100644
--- a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
+++ b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
@@ -105,6 +105,11 @@ class HostSharedMemoryResource::impl {
     } guard{this, created};
 
     if (created) {
+      if (size < sizeof(SharedMemorySegmentHeader) + sizeof(SharedMemoryBlock)) {
+        UMPIRE_ERROR(runtime_error, fmt::format("Size {} is too small for shared memory segment \"{}\"", size,
+                                                m_segment_name));
+      }
+
       if (0 != ftruncate(m_segment_fd, size)) {
         err = errno;
         UMPIRE_ERROR(runtime_error, fmt::format("Failed to set size for shared memory segment \"{}\": {}",
-- 
2.43.0


From 7c65fcb55267050b82e8491658efc156cbc66783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:49 +0000
Subject: [PATCH 32/50] fix: pools unpoison the memory they give back to their
 parent

---
 src/umpire/strategy/mixins/AlignedAllocation.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/umpire/strategy/mixins/AlignedAllocation.inl b/src/umpire/strategy/mixins/AlignedAllocation.inl
index a8f4d18..11b8c99 100644
--- a/src/umpire/strategy/mixins/AlignedAllocation.inl
+++ b/src/umpire/strategy/mixins/AlignedAllocation.inl
@@ -57,6 +57,9 @@ inline void AlignedAllocation::aligned_deallocate(void* ptr)
   void* buffer{ std::get<0>(ptr_info) };
   std::size_t size = std::get<1>(ptr_info);
   base_pointer_map.erase(ptr);
+
+  UMPIRE_UNPOISON_MEMORY_REGION(m_allocator, buffer, size);
+
   m_allocator->deallocate_internal(buffer, size);
 }
 
-- 
2.43.0


From dc172f840b411dc59d63064aeff5a47a1f310be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:30 +0000
Subject: [PATCH 33/50] fix: TypedAllocator refuses a number of objects whose
 size does not fit

---
 src/umpire/TypedAllocator.inl | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/umpire/TypedAllocator.inl b/src/umpire/TypedAllocator.inl
index 9db0e5c..0c23684 100644
--- a/src/umpire/TypedAllocator.inl
+++ b/src/umpire/TypedAllocator.inl
@@ -7,7 +7,10 @@
 #ifndef UMPIRE_TypedAllocator_INL
 #define UMPIRE_TypedAllocator_INL
 
+#include <limits>
+
 #include "umpire/util/Macros.hpp"
+#include "umpire/util/error.hpp"
 
 namespace umpire {
 
@@ -25,6 +28,10 @@ TypedAllocator<T>::TypedAllocator(const TypedAllocator<U>& other) : m_allocator(
 template <typename T>
 T* TypedAllocator<T>::allocate(std::size_t size)
 {
+  if (size > std::numeric_limits<std::size_t>::max() / sizeof(T)) {
+    UMPIRE_ERROR(out_of_memory_error, fmt::format("{} objects of {} bytes are more than can be allocated", size, sizeof(T)));
+  }
+
   return static_cast<T*>(m_allocator.allocate(sizeof(T) * size));
 }
 
-- 
2.43.0


From 27c0c9070f6f116b24962395b0f4172d3fb11b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:13 +0000
Subject: [PATCH 34/50] fix: allocators used by different threads share the
 zero-byte pool safely

---
 src/umpire/strategy/mixins/AllocateNull.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/umpire/strategy/mixins/AllocateNull.cpp b/src/umpire/strategy/mixins/AllocateNull.cpp
index 12fa1f3..64b29dc 100644
--- a/src/umpire/strategy/mixins/AllocateNull.cpp
+++ b/src/umpire/strategy/mixins/AllocateNull.cpp
@@ -6,6 +6,8 @@
 //////////////////////////////////////////////////////////////////////////////
 #include "umpire/strategy/mixins/AllocateNull.hpp"
 
+#include <mutex>
+
 #include "umpire/ResourceManager.hpp"
 #include "umpire/strategy/FixedPool.hpp"
 #include "umpire/util/Macros.hpp"
@@ -14,6 +16,11 @@ namespace umpire {
 namespace strategy {
 namespace mixins {
 
+namespace {
+// All allocators share one zero-byte pool, and each ThreadSafeAllocator only holds a mutex of its own
+std::mutex zero_byte_mutex;
+} // namespace
+
 AllocateNull::AllocateNull() :
   m_zero_byte_pool{nullptr}
 {
@@ -25,6 +32,7 @@ void* AllocateNull::allocateNull()
     m_zero_byte_pool = static_cast<FixedPool*>(
           ResourceManager::getInstance().getZeroByteAllocator());
 
+  std::lock_guard<std::mutex> lock(zero_byte_mutex);
   return m_zero_byte_pool->allocate(1);
 }
 
@@ -34,6 +42,7 @@ bool AllocateNull::deallocateNull(void* ptr)
     m_zero_byte_pool = static_cast<FixedPool*>(
           ResourceManager::getInstance().getZeroByteAllocator());
 
+  std::lock_guard<std::mutex> lock(zero_byte_mutex);
   if (m_zero_byte_pool->pointerIsFromPool(ptr)) {
     m_zero_byte_pool->deallocate(ptr, 1);
     return true;
-- 
2.43.0


From 0b6d12d2f39972df68967a36c13352ac03ff0e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:17 +0000
Subject: [PATCH 35/50] fix: the event log escapes allocation names and accepts
 any text

---
 src/umpire/event/json_file_store.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/umpire/event/json_file_store.cpp b/src/umpire/event/json_file_store.cpp
index 3705ff7..4448f5c 100644
--- a/src/umpire/event/json_file_store.cpp
+++ b/src/umpire/event/json_file_store.cpp
@@ -22,6 +22,14 @@
 namespace umpire {
 namespace event {
 
+namespace {
+// Names come from the user: bytes that are not valid UTF-8 are replaced instead of making the operation fail.
+std::string to_text(const nlohmann::json& value)
+{
+  return value.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
+}
+} // namespace
+
 json_file_store::json_file_store(const std::string& filename, bool read_only)
     : m_filename{filename}, m_read_only{read_only}
 {
@@ -31,9 +39,7 @@ void json_file_store::insert(const event& e)
 {
   open_store();
   nlohmann::json json_event = e;
-  std::stringstream ss;
-  ss << json_event;
-  fprintf(m_fstream, "%s\n", ss.str().c_str());
+  fprintf(m_fstream, "%s\n", to_text(json_event).c_str());
 }
 
 void json_file_store::insert(const allocate& e)
@@ -55,11 +61,11 @@ void json_file_store::insert(const named_allocate& e)
   fprintf(m_fstream,
           R"({"category":"operation","name":"named_allocate")"
           R"(,"numeric_args":{"size":%ld})"
-          R"(,"string_args":{"allocator_ref":"%p","pointer":"%p","allocation_name":"%s"})"
+          R"(,"string_args":{"allocator_ref":"%p","pointer":"%p","allocation_name":%s})"
           R"(,"tags":{"replay":"true"})"
           R"(,"timestamp":%lld})"
           "\n",
-          e.size, e.ref, e.ptr, e.name.c_str(),
+          e.size, e.ref, e.ptr, to_text(e.name).c_str(),
           static_cast<long long>(
               std::chrono::time_point_cast<std::chrono::nanoseconds>(e.timestamp).time_since_epoch().count()));
 }
-- 
2.43.0


From f0d4828e834e6398e49b2b9c19746def3df2ef8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:17 +0000
Subject: [PATCH 36/50] fix: json_file_store opens its file whichever event
 comes first

---
 src/umpire/event/json_file_store.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/umpire/event/json_file_store.cpp b/src/umpire/event/json_file_store.cpp
index 4448f5c..725d155 100644
--- a/src/umpire/event/json_file_store.cpp
+++ b/src/umpire/event/json_file_store.cpp
@@ -44,9 +44,10 @@ void json_file_store::insert(const event& e)
 
 void json_file_store::insert(const allocate& e)
 {
+  open_store();
   fprintf(m_fstream,
           R"({"category":"operation","name":"allocate")"
-          R"(,"numeric_args":{"size":%ld})"
+          R"(,"numeric_args":{"size":%zu})"
           R"(,"string_args":{"allocator_ref":"%p","pointer":"%p"})"
           R"(,"tags":{"replay":"true"})"
           R"(,"timestamp":%lld})"
@@ -58,9 +59,10 @@ void json_file_store::insert(const allocate& e)
 
 void json_file_store::insert(const named_allocate& e)
 {
+  open_store();
   fprintf(m_fstream,
           R"({"category":"operation","name":"named_allocate")"
-          R"(,"numeric_args":{"size":%ld})"
+          R"(,"numeric_args":{"size":%zu})"
           R"(,"string_args":{"allocator_ref":"%p","pointer":"%p","allocation_name":%s})"
           R"(,"tags":{"replay":"true"})"
           R"(,"timestamp":%lld})"
@@ -72,6 +74,7 @@ void json_file_store::insert(const named_allocate& e)
 
 void json_file_store::insert(const deallocate& e)
 {
+  open_store();
   fprintf(m_fstream,
           R"({"category":"operation","name":"deallocate")"
           R"(,"string_args":{"allocator_ref":"%p","pointer":"%p"})"
-- 
2.43.0


From 4b1bf13a1750ab2fda2268c3dc3498b6c57b3e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:17 +0000
Subject: [PATCH 37/50] fix: the memset event records the number of bytes set

---
 src/umpire/ResourceManager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/umpire/ResourceManager.cpp b/src/umpire/ResourceManager.cpp
index b6b528e..f956e30 100644
--- a/src/umpire/ResourceManager.cpp
+++ b/src/umpire/ResourceManager.cpp
@@ -486,7 +486,7 @@ void ResourceManager::memset(void* ptr, int value, std::size_t length)
         .category(event::category::operation)
         .arg("ptr", ptr)
         .arg("value", value)
-        .arg("size", size)
+        .arg("size", length)
         .arg("allocator_ref", (void*)alloc_record->strategy)
         .tag("allocator_name", alloc_record->strategy->getName())
         .tag("replay", "true");
@@ -523,7 +523,7 @@ camp::resources::EventProxy<camp::resources::Resource> ResourceManager::memset(v
         .category(event::category::operation)
         .arg("ptr", ptr)
         .arg("value", value)
-        .arg("size", size)
+        .arg("size", length)
         .arg("allocator_ref", (void*)alloc_record->strategy)
         .tag("allocator_name", alloc_record->strategy->getName())
         .tag("replay", "true")
-- 
2.43.0


From 0a03a6092739bde232745226d8cf0a11716a2baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:21 +0000
Subject: [PATCH 38/50] fix: replay accepts logs with named allocations and
 memset

---
 tools/replay/ReplayInterpreter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/replay/ReplayInterpreter.cpp b/tools/replay/ReplayInterpreter.cpp
index 4556001..17bd1ec 100644
--- a/tools/replay/ReplayInterpreter.cpp
+++ b/tools/replay/ReplayInterpreter.cpp
@@ -113,7 +113,7 @@ umpire::event::json_file_store store{m_options.input_file, true};
       continue;
 
     try {
-      if ( m_event.name == "allocate" ) {
+      if ( m_event.name == "allocate" || m_event.name == "named_allocate" ) {
         m_allocate_ops++;
         compile_allocate();
       }
@@ -134,6 +134,9 @@ umpire::event::json_file_store store{m_options.input_file, true};
       else if ( m_event.name == "copy" ) {
         m_copy_ops++;
       }
+      else if ( m_event.name == "memset" ) {
+        // Only changes the contents of memory: nothing to replay
+      }
       else if ( m_event.name == "move" ) {
         m_move_ops++;
       }
-- 
2.43.0


From 0420703f3184cb76b57447a174112a68190890b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:48 +0000
Subject: [PATCH 39/50] fix: replay statistics work for allocators without
 introspection

---
 tools/replay/ReplayOperationManager.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tools/replay/ReplayOperationManager.cpp b/tools/replay/ReplayOperationManager.cpp
index 43c86d9..b7cc988 100644
--- a/tools/replay/ReplayOperationManager.cpp
+++ b/tools/replay/ReplayOperationManager.cpp
@@ -197,9 +197,7 @@ void ReplayOperationManager::runOperations()
           break;
         case ReplayFile::otype::DEALLOCATE:
           if (m_options.track_stats || m_options.dump_statistics) {
-            auto alloc = &m_ops_table->allocators[op->op_allocator];
-            auto ptr = m_ops_table->ops[op->op_alloc_ops[0]].op_allocated_ptr;
-            size_histogram[op->op_allocator].decrement(alloc->allocator->getSize(ptr));
+            size_histogram[op->op_allocator].decrement(m_ops_table->ops[op->op_alloc_ops[0]].op_size);
           }
           makeDeallocate(op);
           break;
-- 
2.43.0


From 348cd7be11ae1fd2e2355d26d6fc83fc311f306f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:09 +0000
Subject: [PATCH 40/50] fix: replay skips reallocations that failed when the
 log was recorded

---
 tools/replay/ReplayInterpreter.cpp | 21 +++++++++++++++++++++
 tools/replay/ReplayInterpreter.hpp |  1 +
 2 files changed, 22 insertions(+)

diff --git a/tools/replay/ReplayInterpreter.cpp b/tools/replay/ReplayInterpreter.cpp
index 17bd1ec..095a617 100644
--- a/tools/replay/ReplayInterpreter.cpp
+++ b/tools/replay/ReplayInterpreter.cpp
@@ -142,6 +142,9 @@ umpire::event::json_file_store store{m_options.input_file, true};
       }
       else if ( m_event.name == "reallocate" ) {
         m_reallocate_ops++;
+        if (reallocate_failed(events)) {
+          continue;
+        }
         compile_reallocate();
       }
       else if ( m_event.name == "set_default_allocator" ) {
@@ -721,6 +724,24 @@ void ReplayInterpreter::compile_allocate()
   hdr->num_operations++;
 }
 
+//
+// A reallocate is logged as two events, before and after.  The second one is missing if the reallocate failed.
+//
+bool ReplayInterpreter::reallocate_failed(const std::vector<umpire::event::event>& events) const
+{
+  if (m_event.string_args.find("new_ptr") != m_event.string_args.end()) {
+    return false;
+  }
+
+  for (std::size_t i{m_line_number}; i < events.size(); ++i) {
+    if (events[i].cat == umpire::event::category::operation && events[i].name == "reallocate") {
+      return events[i].string_args.find("new_ptr") == events[i].string_args.end();
+    }
+  }
+
+  return true;
+}
+
 void ReplayInterpreter::compile_reallocate()
 {
   const std::string      allocator_ref{m_event.string_args["allocator_ref"]};
diff --git a/tools/replay/ReplayInterpreter.hpp b/tools/replay/ReplayInterpreter.hpp
index 9455e24..8c8ec56 100644
--- a/tools/replay/ReplayInterpreter.hpp
+++ b/tools/replay/ReplayInterpreter.hpp
@@ -73,6 +73,7 @@ class ReplayInterpreter {
     void compile_make_memory_resource();
     void compile_set_default_allocator();
     void compile_make_allocator();
+    bool reallocate_failed(const std::vector<umpire::event::event>& events) const;
     void compile_reallocate();
     void compile_allocate();
     bool compile_deallocate();
-- 
2.43.0


From 4ccb751d49ff4888e957b2c66cb9f4000b73af27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:46 +0000
Subject: [PATCH 41/50] fix: replay coalesces the pool that was coalesced, also
 if its name ends in _base

---
 tools/replay/ReplayInterpreter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/replay/ReplayInterpreter.cpp b/tools/replay/ReplayInterpreter.cpp
index 095a617..d4c2e30 100644
--- a/tools/replay/ReplayInterpreter.cpp
+++ b/tools/replay/ReplayInterpreter.cpp
@@ -828,7 +828,9 @@ bool ReplayInterpreter::compile_deallocate()
 void ReplayInterpreter::compile_coalesce()
 {
   std::string allocator_name{m_event.tags["allocator_name"]};
-  strip_off_base(allocator_name);
+  if (m_allocator_index.find(allocator_name) == m_allocator_index.end()) {
+    strip_off_base(allocator_name);
+  }
 
   ReplayFile::Header* hdr = m_ops->getOperationsTable();
   ReplayFile::Operation* op = &hdr->ops[hdr->num_operations];
-- 
2.43.0


From a9b0b851cdf2af965fdd8cab65207e8972500df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:33 +0000
Subject: [PATCH 42/50] fix: replaydiff reports logs with different numbers of
 operations

---
 tools/replay/ReplayInterpreter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/replay/ReplayInterpreter.cpp b/tools/replay/ReplayInterpreter.cpp
index d4c2e30..98922cf 100644
--- a/tools/replay/ReplayInterpreter.cpp
+++ b/tools/replay/ReplayInterpreter.cpp
@@ -274,6 +274,7 @@ bool ReplayInterpreter::compareOperations(ReplayInterpreter& rh)
         << m_ops->getOperationsTable()->num_operations
         << " != " << rh.m_ops->getOperationsTable()->num_operations
         << std::endl;
+    rval = false;
   }
 
   if ( rval != false ) {
-- 
2.43.0


From 06a46900ac8b562eb183e4dd21bbe9b01c419989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:30 +0000
Subject: [PATCH 43/50] fix: give the memory back when an advice or prefetch
 operation fails

---
 src/umpire/strategy/AllocationAdvisor.cpp    | 7 ++++++-
 src/umpire/strategy/AllocationPrefetcher.cpp | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/umpire/strategy/AllocationAdvisor.cpp b/src/umpire/strategy/AllocationAdvisor.cpp
index e7682fa..87903c9 100644
--- a/src/umpire/strategy/AllocationAdvisor.cpp
+++ b/src/umpire/strategy/AllocationAdvisor.cpp
@@ -45,7 +45,12 @@ AllocationAdvisor::AllocationAdvisor(const std::string& name, int id, Allocator
 void* AllocationAdvisor::allocate(std::size_t bytes)
 {
   void* ptr = m_allocator->allocate_internal(bytes);
-  m_advice_operation->apply(ptr, nullptr, m_device, bytes);
+  try {
+    m_advice_operation->apply(ptr, nullptr, m_device, bytes);
+  } catch (...) {
+    m_allocator->deallocate_internal(ptr, bytes);
+    throw;
+  }
 
   return ptr;
 }
diff --git a/src/umpire/strategy/AllocationPrefetcher.cpp b/src/umpire/strategy/AllocationPrefetcher.cpp
index 1507dd4..6e298b0 100644
--- a/src/umpire/strategy/AllocationPrefetcher.cpp
+++ b/src/umpire/strategy/AllocationPrefetcher.cpp
@@ -27,7 +27,12 @@ void* AllocationPrefetcher::allocate(std::size_t bytes)
 {
   void* ptr = m_allocator->allocate_internal(bytes);
 
-  m_prefetch_operation->apply(ptr, nullptr, m_device, bytes);
+  try {
+    m_prefetch_operation->apply(ptr, nullptr, m_device, bytes);
+  } catch (...) {
+    m_allocator->deallocate_internal(ptr, bytes);
+    throw;
+  }
 
   return ptr;
 }
-- 
2.43.0


From c4de79a4ec1a4725f116e806c8bae33180a87fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:15 +0000
Subject: [PATCH 44/50] fix: refuse FixedPool sizes that wrap around, and stop
 MixedPool object sizes from wrapping

---
 src/umpire/strategy/FixedPool.cpp | 5 +++++
 src/umpire/strategy/MixedPool.cpp | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/umpire/strategy/FixedPool.cpp b/src/umpire/strategy/FixedPool.cpp
index 4249ef3..9cea983 100644
--- a/src/umpire/strategy/FixedPool.cpp
+++ b/src/umpire/strategy/FixedPool.cpp
@@ -50,6 +50,11 @@ FixedPool::FixedPool(const std::string& name, int id, Allocator allocator, const
       m_highwatermark{0},
       m_pool{}
 {
+  if (m_obj_bytes != 0 && m_data_bytes / m_obj_bytes != m_obj_per_pool) {
+    UMPIRE_ERROR(out_of_memory_error,
+                 fmt::format("{} objects of {} bytes do not fit into memory", m_obj_per_pool, m_obj_bytes));
+  }
+
   newPool();
 }
 
diff --git a/src/umpire/strategy/MixedPool.cpp b/src/umpire/strategy/MixedPool.cpp
index adba672..31b211d 100644
--- a/src/umpire/strategy/MixedPool.cpp
+++ b/src/umpire/strategy/MixedPool.cpp
@@ -46,6 +46,10 @@ MixedPool::MixedPool(const std::string& name, int id, Allocator allocator, std::
     } else {
       break;
     }
+    // The next object size has to be larger than this one, and representable
+    if (fixed_size_multiplier < 2 || obj_size > largest_fixed_obj_size / fixed_size_multiplier) {
+      break;
+    }
     obj_size *= fixed_size_multiplier;
   }
 
-- 
2.43.0


From a56051bab4c6532733470ccc6f74cf32287897ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:59 +0000
Subject: [PATCH 45/50] fix: refuse a shared memory request that is larger than
 the existing block of that name

---
 src/umpire/resource/HostSharedMemoryResourceImpl.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
index 705f11e..eedd9fd 100644
--- a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
+++ b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
@@ -222,6 +222,14 @@ class HostSharedMemoryResource::impl {
     SharedMemoryBlock* prev{nullptr};
 
     if (best != nullptr) {
+      // The block of an existing allocation is fixed and may be too small for this request
+      const std::size_t capacity{best->name_offset - best->memory_offset};
+      if (requested_size > capacity) {
+        pthread_mutex_unlock(&m_segment->mutex);
+        UMPIRE_ERROR(out_of_memory_error,
+                     fmt::format("shared memory allocation \"{}\" exists with {} bytes, {} bytes were requested", name,
+                                 capacity, requested_size));
+      }
       best->reference_count++;
     } else { // New allocation
       // A request larger than the segment must not wrap around in adjusted_size
-- 
2.43.0


From 7b078b98f38572f497cf73d97a9dd102f6cef957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:39 +0000
Subject: [PATCH 46/50] fix: NumaPolicy gives the memory back when it cannot be
 placed on the node

---
 src/umpire/strategy/NumaPolicy.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/umpire/strategy/NumaPolicy.cpp b/src/umpire/strategy/NumaPolicy.cpp
index aaea75d..f6ddc24 100644
--- a/src/umpire/strategy/NumaPolicy.cpp
+++ b/src/umpire/strategy/NumaPolicy.cpp
@@ -48,7 +48,12 @@ void* NumaPolicy::allocate(std::size_t bytes)
 {
   void* ret = m_allocator->allocate_internal(bytes);
 
-  numa::move_to_node(ret, bytes, m_node);
+  try {
+    numa::move_to_node(ret, bytes, m_node);
+  } catch (...) {
+    m_allocator->deallocate_internal(ret, bytes);
+    throw;
+  }
 
   UMPIRE_LOG(Debug, "(bytes=" << bytes << ") returning " << ret);
 
-- 
2.43.0


From 1befaf98fd8cca388954de82bfce273ccb709a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:39 +0000
Subject: [PATCH 47/50] fix: free the node and CPU masks when a NUMA call fails

---
 src/umpire/util/numa.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/umpire/util/numa.cpp b/src/umpire/util/numa.cpp
index 474170f..1d089b8 100644
--- a/src/umpire/util/numa.cpp
+++ b/src/umpire/util/numa.cpp
@@ -10,6 +10,9 @@
 #include <numaif.h>
 #include <unistd.h>
 
+#include <cerrno>
+#include <cstring>
+
 #include "umpire/util/Macros.hpp"
 #include "umpire/util/error.hpp"
 
@@ -39,13 +42,15 @@ void move_to_node(void* ptr, std::size_t bytes, int node)
   numa_bitmask_clearall(mask);
   numa_bitmask_setbit(mask, node);
 
-  if (mbind(ptr, bytes, MPOL_BIND, mask->maskp, mask->size + 1, MPOL_MF_MOVE | MPOL_MF_STRICT) != 0) {
+  const long error = mbind(ptr, bytes, MPOL_BIND, mask->maskp, mask->size + 1, MPOL_MF_MOVE | MPOL_MF_STRICT);
+  const int saved_errno = errno;
+  numa_bitmask_free(mask);
+
+  if (error != 0) {
     UMPIRE_ERROR(runtime_error,
                  fmt::format("numa::move_to_node error: mbind( ptr = {}, bytes = {}, node = {} ) failed: {}", ptr,
-                             bytes, node, strerror(errno)));
+                             bytes, node, strerror(saved_errno)));
   }
-
-  numa_bitmask_free(mask);
 }
 
 int get_location(void* ptr)
@@ -71,6 +76,7 @@ std::vector<int> get_host_nodes()
     if (numa_bitmask_isbitset(numa_all_nodes_ptr, i)) {
       // Check if this has CPUs
       if (numa_node_to_cpus(i, cpus) != 0) {
+        numa_free_cpumask(cpus);
         UMPIRE_ERROR(runtime_error, "Error getting CPU list for NUMA node.");
       }
 
@@ -99,6 +105,7 @@ std::vector<int> get_device_nodes()
     if (numa_bitmask_isbitset(numa_all_nodes_ptr, i)) {
       // Check if this has CPUs
       if (numa_node_to_cpus(i, cpus) != 0) {
+        numa_free_cpumask(cpus);
         UMPIRE_ERROR(runtime_error, "Error getting CPU list for NUMA node.");
       }
 
-- 
2.43.0


From ce3d91528fd7e5012cbec3acc9cf52947e07cf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:22 +0000
Subject: [PATCH 48/50] fix: refuse to move an offset pointer to a NUMA policy,
 as for any other allocator

---
 src/umpire/ResourceManager.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/umpire/ResourceManager.cpp b/src/umpire/ResourceManager.cpp
index f956e30..1566b75 100644
--- a/src/umpire/ResourceManager.cpp
+++ b/src/umpire/ResourceManager.cpp
@@ -780,6 +780,10 @@ void* ResourceManager::move(void* ptr, Allocator allocator)
     return ptr;
   }
 
+  if (ptr != alloc_record->ptr) {
+    UMPIRE_ERROR(runtime_error, fmt::format("Cannot move an offset ptr (ptr={}, base={})", ptr, alloc_record->ptr));
+  }
+
 #if defined(UMPIRE_ENABLE_NUMA)
   {
     auto base_strategy = util::unwrap_allocator<strategy::AllocationStrategy>(allocator);
@@ -815,10 +819,6 @@ void* ResourceManager::move(void* ptr, Allocator allocator)
   }
 #endif
 
-  if (ptr != alloc_record->ptr) {
-    UMPIRE_ERROR(runtime_error, fmt::format("Cannot move an offset ptr (ptr={}, base={})", ptr, alloc_record->ptr));
-  }
-
   void* dst_ptr{allocator.allocate(alloc_record->size)};
 
   try {
-- 
2.43.0


From 568bc581c421b436566655aa1f4ac1f2cef281fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:32 +0000
Subject: [PATCH 49/50] fix: an operation that is refused leaves the
 allocation's backtrace as it was

---
 src/umpire/ResourceManager.cpp            |  6 +++++-
 src/umpire/op/HostReallocateOperation.cpp |  2 +-
 src/umpire/strategy/mixins/Inspector.cpp  | 10 +++++++++-
 src/umpire/strategy/mixins/Inspector.hpp  |  3 +++
 4 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/umpire/ResourceManager.cpp b/src/umpire/ResourceManager.cpp
index 1566b75..0c1d33a 100644
--- a/src/umpire/ResourceManager.cpp
+++ b/src/umpire/ResourceManager.cpp
@@ -354,7 +354,11 @@ void ResourceManager::registerAllocation(void* ptr, util::AllocationRecord recor
   UMPIRE_LOG(Debug,
              "(ptr=" << ptr << ", size=" << record.size << ", strategy=" << record.strategy << ") with " << this);
 
-  UMPIRE_RECORD_BACKTRACE(record);
+#if defined(UMPIRE_ENABLE_BACKTRACE)
+  // A record that is put back keeps the backtrace of the call that made the allocation
+  if (record.allocation_backtrace.frames.empty())
+#endif
+    UMPIRE_RECORD_BACKTRACE(record);
 
   m_allocations.insert(ptr, record);
 }
diff --git a/src/umpire/op/HostReallocateOperation.cpp b/src/umpire/op/HostReallocateOperation.cpp
index cd07090..12eb114 100644
--- a/src/umpire/op/HostReallocateOperation.cpp
+++ b/src/umpire/op/HostReallocateOperation.cpp
@@ -41,7 +41,7 @@ void HostReallocateOperation::transform(void* current_ptr, void** new_ptr, util:
 
     if (!*new_ptr) {
       // The original allocation is untouched by a failed ::realloc
-      inspector.registerAllocation(current_ptr, old_record.size, strategy, old_record.name);
+      inspector.registerAllocation(old_record);
       UMPIRE_ERROR(runtime_error, fmt::format("::realloc(current_ptr={}, old_size={}, new_size={}) failed.",
                                               current_ptr, old_record.size, new_size));
     }
diff --git a/src/umpire/strategy/mixins/Inspector.cpp b/src/umpire/strategy/mixins/Inspector.cpp
index eca487a..8a2cf06 100644
--- a/src/umpire/strategy/mixins/Inspector.cpp
+++ b/src/umpire/strategy/mixins/Inspector.cpp
@@ -38,6 +38,14 @@ void Inspector::registerAllocation(void* ptr, std::size_t size, strategy::Alloca
   ResourceManager::getInstance().registerAllocation(ptr, {ptr, size, s, name});
 }
 
+void Inspector::registerAllocation(const util::AllocationRecord& record)
+{
+  record.strategy->m_current_size += record.size;
+  record.strategy->m_allocation_count++;
+
+  ResourceManager::getInstance().registerAllocation(record.ptr, record);
+}
+
 util::AllocationRecord
 Inspector::deregisterAllocation(void* ptr, strategy::AllocationStrategy* s)
 {
@@ -48,7 +56,7 @@ Inspector::deregisterAllocation(void* ptr, strategy::AllocationStrategy* s)
     s->m_allocation_count--;
   } else {
     // Re-register the pointer and throw an error
-    ResourceManager::getInstance().registerAllocation(ptr, {ptr, record.size, record.strategy, record.name});
+    ResourceManager::getInstance().registerAllocation(ptr, record);
     UMPIRE_ERROR(runtime_error, fmt::format("{} was not allocated by {}", ptr, s->getName()));
   }
 
diff --git a/src/umpire/strategy/mixins/Inspector.hpp b/src/umpire/strategy/mixins/Inspector.hpp
index 9d285bd..3d82d30 100644
--- a/src/umpire/strategy/mixins/Inspector.hpp
+++ b/src/umpire/strategy/mixins/Inspector.hpp
@@ -28,6 +28,9 @@ class Inspector
 
     void registerAllocation(void* ptr, std::size_t size, strategy::AllocationStrategy* strategy, const std::string& name);
 
+    // Puts back an allocation that deregisterAllocation removed, as it was
+    void registerAllocation(const util::AllocationRecord& record);
+
     // Deregisters the allocation if the strategy matches, otherwise throws an error
     util::AllocationRecord deregisterAllocation(void* ptr, strategy::AllocationStrategy* strategy);
 };
-- 
2.43.0


From f5c0d5b242a114714ab7dd627fddad2ca0315f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:52 +0000
Subject: [PATCH 50/50] fix: the SQLite event store keeps names of any length
 and with any characters, and sizes above 2^63

---
 src/umpire/event/sqlite_database.cpp | 100 +++++++++++++++------------
 1 file changed, 55 insertions(+), 45 deletions(-)

diff --git a/src/umpire/event/sqlite_database.cpp b/src/umpire/event/sqlite_database.cpp
index 8419d98..4267a0e 100644
--- a/src/umpire/event/sqlite_database.cpp
+++ b/src/umpire/event/sqlite_database.cpp
@@ -10,6 +10,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 
+#include <chrono>
 #include <iostream>
 #include <sstream>
 #include <string>
@@ -40,6 +41,40 @@ namespace event {
     }                                                                                                            \
   }
 
+namespace {
+std::string to_text(const void* p)
+{
+  char buffer[32];
+  snprintf(buffer, sizeof(buffer), "%p", p);
+  return buffer;
+}
+
+long long to_nanoseconds(std::chrono::time_point<std::chrono::system_clock> timestamp)
+{
+  return std::chrono::time_point_cast<std::chrono::nanoseconds>(timestamp).time_since_epoch().count();
+}
+
+// Names come from the user, so the event is bound as a parameter and not made part of the statement. Bytes that are not
+// valid UTF-8 are replaced.
+void insert_json(sqlite3* database, const nlohmann::json& value)
+{
+  const std::string text{value.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace)};
+  sqlite3_stmt* statement{nullptr};
+
+  int error = sqlite3_prepare_v2(database, "INSERT INTO EVENTS VALUES(json(?));", -1, &statement, nullptr);
+  if (!error) {
+    sqlite3_bind_text(statement, 1, text.c_str(), static_cast<int>(text.size()), SQLITE_STATIC);
+    sqlite3_step(statement);
+    error = sqlite3_finalize(statement);
+  }
+  if (error) {
+    std::cout << __PRETTY_FUNCTION__ << ":" << __LINE__ << " (" << error << ") " << sqlite3_errmsg(database)
+              << std::endl;
+    exit(1);
+  }
+}
+} // namespace
+
 sqlite_database::sqlite_database(const std::string& name)
 {
   {
@@ -58,63 +93,38 @@ sqlite_database::sqlite_database(const std::string& name)
 void sqlite_database::insert(const event& e)
 {
   nlohmann::json json_event = e;
-  const std::string sql{"INSERT INTO EVENTS VALUES(json('" + json_event.dump() + "'));"};
-  UMP_SQ3_EXE(m_database, sql.c_str(), NULL, 0);
+  insert_json(m_database, json_event);
 }
 
 void sqlite_database::insert(const allocate& e)
 {
-  char buffer[512];
-  sprintf(buffer,
-          "INSERT INTO EVENTS VALUES(json('"
-          R"({"category":"operation","name":"allocate")"
-          R"(,"numeric_args":{"size":%ld})"
-          R"(,"string_args":{"allocator_ref":"%p","pointer":"%p"})"
-          R"(,"tags":{"replay":"true"})"
-          R"(,"timestamp":%lld})"
-          "'));",
-          e.size, e.ref, e.ptr,
-          static_cast<long long>(
-              std::chrono::time_point_cast<std::chrono::nanoseconds>(e.timestamp).time_since_epoch().count()));
-
-  UMP_SQ3_EXE(m_database, buffer, NULL, 0);
+  insert_json(m_database, {{"category", "operation"},
+                           {"name", "allocate"},
+                           {"numeric_args", {{"size", e.size}}},
+                           {"string_args", {{"allocator_ref", to_text(e.ref)}, {"pointer", to_text(e.ptr)}}},
+                           {"tags", {{"replay", "true"}}},
+                           {"timestamp", to_nanoseconds(e.timestamp)}});
 }
 
 void sqlite_database::insert(const named_allocate& e)
 {
-  char buffer[512];
-
-  sprintf(buffer,
-          "INSERT INTO EVENTS VALUES(json('"
-          R"({"category":"operation","name":"named_allocate")"
-          R"(,"numeric_args":{"size":%ld})"
-          R"(,"string_args":{"allocator_ref":"%p","pointer":"%p","allocation_name":"%s"})"
-          R"(,"tags":{"replay":"true"})"
-          R"(,"timestamp":%lld})"
-          "'));",
-          e.size, e.ref, e.ptr, e.name.c_str(),
-          static_cast<long long>(
-              std::chrono::time_point_cast<std::chrono::nanoseconds>(e.timestamp).time_since_epoch().count()));
-
-  UMP_SQ3_EXE(m_database, buffer, NULL, 0);
+  insert_json(m_database,
+              {{"category", "operation"},
+               {"name", "named_allocate"},
+               {"numeric_args", {{"size", e.size}}},
+               {"string_args",
+                {{"allocator_ref", to_text(e.ref)}, {"pointer", to_text(e.ptr)}, {"allocation_name", e.name}}},
+               {"tags", {{"replay", "true"}}},
+               {"timestamp", to_nanoseconds(e.timestamp)}});
 }
 
 void sqlite_database::insert(const deallocate& e)
 {
-  char buffer[512];
-
-  sprintf(buffer,
-          "INSERT INTO EVENTS VALUES(json('"
-          R"({"category":"operation","name":"deallocate")"
-          R"(,"string_args":{"allocator_ref":"%p","pointer":"%p"})"
-          R"(,"tags":{"replay":"true"})"
-          R"(,"timestamp":%lld})"
-          "'));",
-          e.ref, e.ptr,
-          static_cast<long long>(
-              std::chrono::time_point_cast<std::chrono::nanoseconds>(e.timestamp).time_since_epoch().count()));
-
-  UMP_SQ3_EXE(m_database, buffer, NULL, 0);
+  insert_json(m_database, {{"category", "operation"},
+                           {"name", "deallocate"},
+                           {"string_args", {{"allocator_ref", to_text(e.ref)}, {"pointer", to_text(e.ptr)}}},
+                           {"tags", {{"replay", "true"}}},
+                           {"timestamp", to_nanoseconds(e.timestamp)}});
 }
 
 std::vector<event> sqlite_database::get_events()
-- 
2.43.0

