From 8825d0d307c728eda58a6e1e65bc2837474366b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:03 +0000
Subject: [PATCH 01/35] fix: simple_resource must follow region links, not
 their truth value

The actions passed to apply() returned bool, so after a region that did not
fit (or that was just released) the walk continued at block 1 with whatever
stale links were there: allocate() could return memory overlapping a live
allocation and release() could leave regions busy.
---
 sources/include/utils/memory/simple_resource.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index 995d026..042299e 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -214,7 +214,7 @@ class simple_resource : public memory_resource
     void release() noexcept
     {
         apply([this](BIndex aIndex) noexcept -> bool { return in_use(aIndex); },
-              [this](BIndex aIndex) mutable noexcept -> bool
+              [this](BIndex aIndex) mutable noexcept -> BIndex
               { return at(deallocate_blocks(aIndex)).next_index(); });
     }
 
@@ -302,7 +302,7 @@ class simple_resource : public memory_resource
                 apply([this](BIndex aIndex) noexcept -> bool
                       { return not in_use(aIndex); },
                       [this, &pointer, aAlignment,
-                       aSize](BIndex aIndex) mutable noexcept -> bool
+                       aSize](BIndex aIndex) mutable noexcept -> BIndex
                       {
                           const auto block_size = block_size_in_bytes(aIndex);
                           std::byte *const block_pointer =
@@ -391,7 +391,7 @@ class simple_resource : public memory_resource
 
     template <typename Predicate, typename Action>
     std::enable_if_t<std::is_nothrow_invocable_r_v<bool, Predicate, BIndex> &&
-                     std::is_nothrow_invocable_r_v<bool, Action, BIndex>>
+                     std::is_nothrow_invocable_r_v<BIndex, Action, BIndex>>
     apply(Predicate &&aPredicate, Action &&aAction) noexcept
     {
         BIndex i = 0;
-- 
2.43.0


From d7301bd580e3204c4d8206a71e7f003dd931a8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:03 +0000
Subject: [PATCH 02/35] fix: simple_resource allocation of a whole number of
 blocks

The last block of an allocation was computed from the one-past-the-end
address, so a request of exactly n blocks took n + 1 and a request that
exactly filled a free region ran into the following region or past the end
of the block table.
---
 sources/include/utils/memory/simple_resource.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index 042299e..e0ddca3 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -413,7 +413,7 @@ class simple_resource : public memory_resource
                          std::size_t aSize) noexcept
     {
         const BIndex first = pointer_to_block_index(aPtr);
-        const BIndex last = pointer_to_block_index(aPtr + aSize);
+        const BIndex last = pointer_to_block_index(aPtr + aSize - 1);
         const BIndex after_free = at(aFreeRegion).next_index();
         const BIndex last_of_free =
             after_free ? after_free - 1 : static_cast<BIndex>(block_count_ - 1);
-- 
2.43.0


From 49dea297b93fadec5af5808e7781e596665dded0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:03 +0000
Subject: [PATCH 03/35] fix: simple_resource size check must not wrap around

skip + aSize wrapped for sizes close to the maximum, so such a request was
answered with a pointer to a region that cannot hold it.
---
 sources/include/utils/memory/simple_resource.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index e0ddca3..2e49aca 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -309,7 +309,8 @@ class simple_resource : public memory_resource
                               block_index_to_pointer(aIndex);
                           const auto skip =
                               skip_to_align(block_pointer, aAlignment);
-                          if (skip + aSize <= block_size)
+                          if ((skip <= block_size) &&
+                              (aSize <= block_size - skip))
                           {
                               pointer = block_pointer + skip;
                               allocate_blocks(aIndex, pointer, aSize);
-- 
2.43.0


From 0c73e1c54eff7fd7c0518a1bfeb9c35c5f7ea2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:03 +0000
Subject: [PATCH 04/35] fix: simple_resource without any block has no free
 region to walk

A resource whose buffer cannot hold one block reported one free region and
release() accessed the non-existing block 0 (assertion failure).
---
 sources/include/utils/memory/simple_resource.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index 2e49aca..c19d5d9 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -213,6 +213,11 @@ class simple_resource : public memory_resource
 
     void release() noexcept
     {
+        if (!data_)
+        {
+            return;
+        }
+
         apply([this](BIndex aIndex) noexcept -> bool { return in_use(aIndex); },
               [this](BIndex aIndex) mutable noexcept -> BIndex
               { return at(deallocate_blocks(aIndex)).next_index(); });
@@ -277,6 +282,7 @@ class simple_resource : public memory_resource
         , block_count_(
               std::min(std::get<1>(aOriginAndBlockCount), MaxBlockCount))
         , upstream_(aUpstream)
+        , free_count_(block_count_ ? 1 : 0)
     {
     }
 
@@ -552,7 +558,7 @@ class simple_resource : public memory_resource
     memory_resource *upstream_{memory::get_default_resource()};
     block_info infos_[MaxBlockCount]{};
     std::bitset<MaxBlockCount> in_use_{};
-    std::size_t free_count_{1};
+    std::size_t free_count_{};
     std::size_t busy_count_{};
 };
 }  // namespace memory
-- 
2.43.0


From 43c7573217857e4ebd421f80eb56ab0cd8a154d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:03 +0000
Subject: [PATCH 05/35] fix: simple_resource must get block aligned memory from
 its upstream

allocate() asserts and deallocate() aborts when a pointer is not aligned to
the block size, but the upstream resource was only asked for the caller's
alignment, so memory taken from it could not be given back.
---
 sources/include/utils/memory/simple_resource.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index c19d5d9..ba54373 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -330,7 +330,7 @@ class simple_resource : public memory_resource
         if (!pointer && upstream_)
         {
             pointer = static_cast<std::byte *>(
-                upstream_->allocate(aSize, aAlignment));
+                upstream_->allocate(aSize, std::max(aAlignment, BlockSize)));
         }
 
         assert(is_aligned(pointer, BlockSize));
-- 
2.43.0


From 45826c882a18559ed12983583cb8a255e6491805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:03 +0000
Subject: [PATCH 06/35] fix: compute alignments of 2^31 and above in
 std::size_t

1 << n is an int shift: undefined from n = 31 on, which made
max_alignment_inside_block() and simple_resource give wrong answers for big
blocks and for buffers that happen to start at a highly aligned address.
---
 sources/include/utils/common.h                 | 2 +-
 sources/include/utils/memory/simple_resource.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 45589ff..677b675 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -423,7 +423,7 @@ constexpr std::size_t max_alignment_inside_block(
     const std::size_t msb = bits_count(value) - 1;
 
     // 2. return 2^msb
-    const std::size_t max_alignment = 1 << msb;
+    const std::size_t max_alignment = std::size_t{1} << msb;
 
     return max_alignment;
     ;
diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index ba54373..107845a 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -301,7 +301,7 @@ class simple_resource : public memory_resource
         if (data_)
         {
             const std::size_t kBufferAlignment =
-                1 << ctz(reinterpret_cast<uintptr_t>(data_));
+                std::size_t{1} << ctz(reinterpret_cast<uintptr_t>(data_));
             if (aAlignment <= max_alignment_inside_block(
                                   kBufferAlignment, block_count_ * BlockSize))
             {
-- 
2.43.0


From 060aeccb020fa6b23e94ef51b7f68f0e9eb3a9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:03 +0000
Subject: [PATCH 07/35] fix: monotonic_buffer_resource size check must not wrap
 around

For sizes close to the maximum the end address wrapped, the request was
answered from the buffer and the next free position moved backwards, so
later allocations overlapped live ones.
---
 .../include/utils/memory/monotonic_buffer_resource.h   | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sources/include/utils/memory/monotonic_buffer_resource.h b/sources/include/utils/memory/monotonic_buffer_resource.h
index 33f5368..6da5e32 100644
--- a/sources/include/utils/memory/monotonic_buffer_resource.h
+++ b/sources/include/utils/memory/monotonic_buffer_resource.h
@@ -72,12 +72,12 @@ class monotonic_buffer_resource : public memory_resource
         if (data_)
         {
             const auto skip = skip_to_align(next_, aAlignment);
-            std::byte *supposed_result = next_ + skip;
-            if (std::less_equal<std::byte *>{}(supposed_result + aSize,
-                                               data_ + size_))
+            const auto available =
+                static_cast<std::size_t>(data_ + size_ - next_);
+            if ((skip <= available) && (aSize <= available - skip))
             {
-                next_ = supposed_result + aSize;
-                pointer = supposed_result;
+                pointer = next_ + skip;
+                next_ = pointer + aSize;
             }
         }
 
-- 
2.43.0


From a6f6d2f5decbc110e259ab684f0fc882e559b69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:03 +0000
Subject: [PATCH 08/35] fix: allocator must not return a short block when the
 size overflows

count * sizeof(T) wrapped around and a much smaller block was returned as
if it could hold count objects.
---
 sources/include/utils/memory/allocator.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sources/include/utils/memory/allocator.h b/sources/include/utils/memory/allocator.h
index c783925..07ef526 100644
--- a/sources/include/utils/memory/allocator.h
+++ b/sources/include/utils/memory/allocator.h
@@ -1,6 +1,7 @@
 #ifndef utils_allocator_h
 #define utils_allocator_h
 
+#include <limits>
 #include <type_traits>
 
 #include "memory.h"
@@ -28,6 +29,10 @@ class allocator
 
     [[nodiscard]] T* allocate(std::size_t aCount) noexcept
     {
+        if (aCount > std::numeric_limits<std::size_t>::max() / sizeof(T))
+        {
+            return nullptr;
+        }
         return static_cast<T*>(
             resource_->allocate(aCount * sizeof(T), alignof(T)));
     }
@@ -52,6 +57,10 @@ class allocator
     template <typename U>
     [[nodiscard]] U* allocate_object(std::size_t aCount = 1) noexcept
     {
+        if (aCount > std::numeric_limits<std::size_t>::max() / sizeof(U))
+        {
+            return nullptr;
+        }
         return static_cast<U*>(allocate_bytes(aCount * sizeof(U), alignof(U)));
     }
 
-- 
2.43.0


From ce3ca1ece92b8f9a0536543f79c7af8708db422d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:03 +0000
Subject: [PATCH 09/35] fix: allocator must forward constructor arguments as
 they were passed

construct() forwarded every argument as the allocator's value type, which
moved from lvalues and did not compile for other argument types;
new_object() passed rvalues on as lvalues.
---
 sources/include/utils/memory/allocator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/memory/allocator.h b/sources/include/utils/memory/allocator.h
index 07ef526..2b9c148 100644
--- a/sources/include/utils/memory/allocator.h
+++ b/sources/include/utils/memory/allocator.h
@@ -42,7 +42,7 @@ class allocator
     template <typename U, typename... Args>
     void construct(U* aPtr, Args&&... aArgs) noexcept
     {
-        new (aPtr) U(std::forward<T>(aArgs)...);
+        new (aPtr) U(std::forward<Args>(aArgs)...);
     }
 
     [[nodiscard]] void* allocate_bytes(
@@ -77,7 +77,7 @@ class allocator
         U* ptr = this->allocate_object<U>();
         if (ptr)
         {
-            this->construct(ptr, aArgs...);
+            this->construct(ptr, std::forward<CtorArgs>(aArgs)...);
         }
         return ptr;
     }
-- 
2.43.0


From 00f63eca8f7e24ca9758277ceca0c48257332a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:03 +0000
Subject: [PATCH 10/35] fix: conversion and comparison of allocators of
 different types

Both accessed a private member of another specialization and never
compiled.
---
 sources/include/utils/memory/allocator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/memory/allocator.h b/sources/include/utils/memory/allocator.h
index 2b9c148..3617cf1 100644
--- a/sources/include/utils/memory/allocator.h
+++ b/sources/include/utils/memory/allocator.h
@@ -21,7 +21,7 @@ class allocator
     allocator& operator=(const allocator&) = delete;
 
     template <typename U>
-    allocator(const allocator<U>& aOther) noexcept : resource_(aOther.resource_)
+    allocator(const allocator<U>& aOther) noexcept : resource_(aOther.resource())
     {
     }
 
@@ -113,7 +113,7 @@ class allocator
 template <class T1, class T2>
 bool operator==(const allocator<T1>& aLhs, const allocator<T2>& aRhs) noexcept
 {
-    return *aLhs.resource_ == *aRhs.resource_;
+    return *aLhs.resource() == *aRhs.resource();
 }
 
 template <class T1, class T2>
-- 
2.43.0


From 39f0e3cdfb37a0c15449aa287722777a0ff7826b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:42 +0000
Subject: [PATCH 11/35] fix: div must not pass unsigned values through a signed
 type

At run time 64 bit unsigned operands were converted to long long before
the division, so values above the maximum of long long gave a wrong
quotient and remainder, different from the constant evaluated result.
---
 sources/include/utils/common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 677b675..3dc694b 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -591,7 +591,7 @@ constexpr decltype(auto) div(T aNumerator, U aDenominator) noexcept
     static_assert(std::is_integral_v<T>);
     static_assert(std::is_integral_v<U>);
     using type = std::common_type_t<remove_cvref_t<T>, remove_cvref_t<U>>;
-    if (__builtin_is_constant_evaluated())
+    if (std::is_unsigned_v<type> || __builtin_is_constant_evaluated())
     {
         return div_t<type>{static_cast<type>(static_cast<type>(aNumerator) /
                                              static_cast<type>(aDenominator)),
-- 
2.43.0


From e89ec177dea8b607c47d16c71a6501f8d466307c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:03 +0000
Subject: [PATCH 12/35] fix: system and null resources must be the same object
 in every source file

The accessors were static functions of a header, so each translation
unit had its own resource objects: resources obtained in different files
compared unequal, and the initial default resource was unequal to the
system resource of every file but one.
---
 sources/include/utils/memory/memory.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/include/utils/memory/memory.h b/sources/include/utils/memory/memory.h
index 8daca9f..7ba612d 100644
--- a/sources/include/utils/memory/memory.h
+++ b/sources/include/utils/memory/memory.h
@@ -218,8 +218,8 @@ class memory_resource
     deallocate_t deallocate_{};
 };
 
-static memory_resource *system_memory_resource() noexcept;
-static memory_resource *null_memory_resource() noexcept;
+inline memory_resource *system_memory_resource() noexcept;
+inline memory_resource *null_memory_resource() noexcept;
 
 namespace details
 {
@@ -286,13 +286,13 @@ class null_memory_resource : public memory_resource
 };
 }  // namespace details
 
-[[maybe_unused]] static memory_resource *system_memory_resource() noexcept
+inline memory_resource *system_memory_resource() noexcept
 {
     static details::system_memory_resource r;
     return &r;
 }
 
-[[maybe_unused]] static memory_resource *null_memory_resource() noexcept
+inline memory_resource *null_memory_resource() noexcept
 {
     static details::null_memory_resource r;
     return &r;
-- 
2.43.0


From e40e1790de29bd1c43c04d3ab14509618f03af43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:03 +0000
Subject: [PATCH 13/35] fix: constant evaluated memmove of overlapping ranges

When the destination starts inside the source range the forward copy
overwrote source bytes before they were read, so the result differed
from the run time one.
---
 sources/include/utils/memory/memory.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/sources/include/utils/memory/memory.h b/sources/include/utils/memory/memory.h
index 7ba612d..b25980c 100644
--- a/sources/include/utils/memory/memory.h
+++ b/sources/include/utils/memory/memory.h
@@ -98,6 +98,19 @@ constexpr std::byte *memmove(std::byte *aDst, const std::byte *aSrc,
         {
             return aDst;
         }
+        bool is_dst_inside_src = false;
+        for (std::size_t i = 1; i < aCount; ++i)
+        {
+            is_dst_inside_src = is_dst_inside_src || (aDst == aSrc + i);
+        }
+        if (is_dst_inside_src)
+        {
+            for (std::size_t i = aCount; i > 0; --i)
+            {
+                *(aDst + i - 1) = *(aSrc + i - 1);
+            }
+            return aDst;
+        }
         for (std::size_t i = 0; i < aCount; ++i)
         {
             *(aDst + i) = *(aSrc + i);
-- 
2.43.0


From fb17171279575971b93e9e43e8fc4dd2b1879200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:15 +0000
Subject: [PATCH 14/35] fix: secure_zero_memory must not be optimised away

The portable path used plain stores, which an optimising compiler
removes when the buffer is not read again (for example just before it
is freed or goes out of scope), leaving the secret in memory.
---
 sources/include/utils/memory/memory.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/memory.h b/sources/include/utils/memory/memory.h
index b25980c..70477a9 100644
--- a/sources/include/utils/memory/memory.h
+++ b/sources/include/utils/memory/memory.h
@@ -66,7 +66,11 @@ inline constexpr void secure_zero_memory(std::byte *aPtr,
 #ifdef __STDC_LIB_EXT1__
         sysops::memory::ops::memset_s(aPtr, aSize, '\0', aSize);
 #else
-        handmade_zero_mem(aPtr, aSize);
+        volatile std::byte *const buf = aPtr;
+        for (std::size_t i = 0; i < aSize; ++i)
+        {
+            *(buf + i) = std::byte{};
+        }
 #endif
 #endif
     }
-- 
2.43.0


From d72efe70f0de415ad25215e00784379b4fb80f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:13 +0000
Subject: [PATCH 15/35] fix: make_array_from_range up to the last value of the
 type

Stepping past the end value wrapped around (endless evaluation for
unsigned types, overflow for signed ones), so a range which ends at the
maximum of its type did not compile.
---
 sources/include/utils/common.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 3dc694b..6d81da3 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -290,8 +290,9 @@ constexpr auto make_array_from_range() noexcept
 
     auto step_count = [](auto aBegin, auto aEnd, auto aStep) constexpr
     {
-        std::size_t count{};
-        while (aBegin <= aEnd)
+        std::size_t count{1};
+        while ((aBegin < aEnd) &&
+               (aEnd - aBegin >= static_cast<decltype(aEnd - aBegin)>(aStep)))
         {
             ++count;
             aBegin += aStep;
@@ -303,10 +304,14 @@ constexpr auto make_array_from_range() noexcept
 
     std::array<CommonT, kCount> result{};
     auto currentValue = Begin;
+    std::size_t count{};
     for (auto& v: result)
     {
         v = CommonT{currentValue};
-        currentValue = currentValue + Step;
+        if (++count < kCount)
+        {
+            currentValue = currentValue + Step;
+        }
     }
     return result;
 }
-- 
2.43.0


From eac2cbf94350a772ee31b0daa3d1ba670c864b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:13 +0000
Subject: [PATCH 16/35] fix: values_in_range must not truncate the number of
 values

The number of values was converted to the type of the values, so the
range which covers a whole 8 or 16 bit type gave an empty list.
---
 sources/include/utils/common.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 6d81da3..9f2ab12 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -709,13 +709,13 @@ struct values_in_range
 {
    private:
     using SeqT = std::common_type_t<decltype(First), decltype(Last)>;
-    using Indices = shifted_sequence_t<
-        std::make_integer_sequence<SeqT, static_cast<SeqT>(Last + 1 - First)>,
-        static_cast<SeqT>(First)>;
+    using Indices =
+        std::make_index_sequence<static_cast<std::size_t>(Last - First) + 1>;
 
-    template <auto... I>
-    static value_list<I...> values_in_range_impl(
-        std::integer_sequence<SeqT, I...>) noexcept;
+    template <std::size_t... I>
+    static value_list<static_cast<SeqT>(static_cast<std::size_t>(First) +
+                                        I)...>
+        values_in_range_impl(std::index_sequence<I...>) noexcept;
 
    public:
     using type = decltype(values_in_range_impl(Indices{}));
-- 
2.43.0


From ba1f3197bcb2baafa39316ad8e1fd9e2ce2d9f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:39 +0000
Subject: [PATCH 17/35] fix: timer must keep its callback when it is assigned
 to itself

The assignment disarmed the source after taking its callback, so a self
move assignment lost the callback and it was never called.
---
 sources/include/utils/timer.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sources/include/utils/timer.h b/sources/include/utils/timer.h
index 002ea87..953199b 100644
--- a/sources/include/utils/timer.h
+++ b/sources/include/utils/timer.h
@@ -123,10 +123,13 @@ class timer
     timer &operator=(const timer &) = delete;
     timer &operator=(timer &&aOther) noexcept
     {
-        start_ = aOther.start_;
-        callback_ = aOther.callback_;
-        aOther.callback_ = nullptr;
-        impl::template copy(data_, aOther.data_);
+        if (this != &aOther)
+        {
+            start_ = aOther.start_;
+            callback_ = aOther.callback_;
+            aOther.callback_ = nullptr;
+            impl::template copy(data_, aOther.data_);
+        }
         return *this;
     }
 
-- 
2.43.0


From 4ccad3754fa00d68dc00cac70285479d15b0f190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:23 +0000
Subject: [PATCH 18/35] fix: every header must include the standard headers it
 uses

Most headers did not compile on their own (no <cstdint>, <algorithm>,
<utility>, <functional> or <new>), so they worked only after other
includes in the right order.
---
 sources/include/utils/cartesian_product.h | 2 ++
 sources/include/utils/common.h            | 5 +++++
 sources/include/utils/details/cxz.h       | 2 ++
 sources/include/utils/fast_pimpl.h        | 2 ++
 sources/include/utils/memory/allocator.h  | 3 +++
 sources/include/utils/memory/memory.h     | 2 ++
 sources/include/utils/timer.h             | 3 +++
 sources/include/utils/value_list.h        | 1 +
 8 files changed, 20 insertions(+)

diff --git a/sources/include/utils/cartesian_product.h b/sources/include/utils/cartesian_product.h
index 563c628..f8fb21a 100644
--- a/sources/include/utils/cartesian_product.h
+++ b/sources/include/utils/cartesian_product.h
@@ -1,6 +1,8 @@
 #ifndef utils_cartesian_product_h
 #define utils_cartesian_product_h
 
+#include <cstddef>
+
 namespace utils
 {
 template <typename... Ts>
diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 9f2ab12..4dcec90 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -1,18 +1,23 @@
 #ifndef utils_common_h
 #define utils_common_h
 
+#include <algorithm>
 #include <array>
 #include <cassert>
 #include <climits>
 #include <cstdarg>
+#include <cstddef>
+#include <cstdint>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
 #include <functional>
+#include <initializer_list>
 #include <limits>
 #include <string_view>
 #include <tuple>
 #include <type_traits>
+#include <utility>
 
 #include "value_list.h"
 
diff --git a/sources/include/utils/details/cxz.h b/sources/include/utils/details/cxz.h
index f477c96..14a4fa7 100644
--- a/sources/include/utils/details/cxz.h
+++ b/sources/include/utils/details/cxz.h
@@ -1,6 +1,8 @@
 #ifndef utils_details_cxz_h
 #define utils_details_cxz_h
 
+#include <type_traits>
+
 namespace utils
 {
 namespace details
diff --git a/sources/include/utils/fast_pimpl.h b/sources/include/utils/fast_pimpl.h
index 6514c47..61dbf26 100644
--- a/sources/include/utils/fast_pimpl.h
+++ b/sources/include/utils/fast_pimpl.h
@@ -1,8 +1,10 @@
 #ifndef utils_fast_pimpl_h
 #define utils_fast_pimpl_h
 
+#include <cstddef>
 #include <new>
 #include <type_traits>
+#include <utility>
 
 namespace utils
 {
diff --git a/sources/include/utils/memory/allocator.h b/sources/include/utils/memory/allocator.h
index 3617cf1..3311f1d 100644
--- a/sources/include/utils/memory/allocator.h
+++ b/sources/include/utils/memory/allocator.h
@@ -1,8 +1,11 @@
 #ifndef utils_allocator_h
 #define utils_allocator_h
 
+#include <cstddef>
 #include <limits>
+#include <new>
 #include <type_traits>
+#include <utility>
 
 #include "memory.h"
 
diff --git a/sources/include/utils/memory/memory.h b/sources/include/utils/memory/memory.h
index 70477a9..909aeac 100644
--- a/sources/include/utils/memory/memory.h
+++ b/sources/include/utils/memory/memory.h
@@ -5,7 +5,9 @@
 
 #include <algorithm>
 #include <atomic>
+#include <cassert>
 #include <cstddef>
+#include <cstdint>
 #include <cstdlib>
 #include <cstring>
 #include <functional>
diff --git a/sources/include/utils/timer.h b/sources/include/utils/timer.h
index 953199b..17a1db5 100644
--- a/sources/include/utils/timer.h
+++ b/sources/include/utils/timer.h
@@ -2,6 +2,9 @@
 #define utils_timer_h
 
 #include <chrono>
+#include <cstddef>
+#include <functional>
+#include <new>
 #include <type_traits>
 #include <utility>
 
diff --git a/sources/include/utils/value_list.h b/sources/include/utils/value_list.h
index 5247db4..a40e30b 100644
--- a/sources/include/utils/value_list.h
+++ b/sources/include/utils/value_list.h
@@ -1,6 +1,7 @@
 #ifndef utils_value_list_h
 #define utils_value_list_h
 
+#include <algorithm>
 #include <cstddef>
 #include <tuple>
 #include <type_traits>
-- 
2.43.0


From 3ec56acd2636c4b29eb995d26dd0dcec9c169123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:08 +0000
Subject: [PATCH 19/35] fix: make_array must put the value into every element

The value was moved into each element in turn, so for types with a real
move constructor (std::string, std::vector) only the first element got
it and the rest were copies of a moved from object.
---
 sources/include/utils/common.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 4dcec90..c7e30b0 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -183,7 +183,14 @@ template <typename T, std::size_t... I>
 constexpr std::array<T, sizeof...(I)> make_array_with_value_impl(
     [[maybe_unused]] T aValue, std::index_sequence<I...>) noexcept
 {
-    return {make_element_for_index<T, I>(std::move(aValue))...};
+    if constexpr (std::is_copy_constructible_v<T>)
+    {
+        return {make_element_for_index<const T&, I>(aValue)...};
+    }
+    else
+    {
+        return {make_element_for_index<T, I>(std::move(aValue))...};
+    }
 }
 
 template <std::size_t... I>
-- 
2.43.0


From 855fb6dd9e9c19269e4f2907633ab7ac339bb5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:31 +0000
Subject: [PATCH 20/35] fix: shift_left of negative values and into the sign
 bit is not undefined

---
 sources/include/utils/common.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index c7e30b0..6c64d3b 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -798,7 +798,10 @@ inline constexpr decltype(auto) shift_left(T&& aValue,
         std::conjunction_v<std::is_integral<ValueT>,
                            std::negation<std::is_same<ValueT, bool>>>);
     assert(aNumBits < sizeof(ValueT) * CHAR_BIT);
-    return static_cast<ValueT>(aValue << aNumBits);
+    // left shift of a signed value is undefined when the value is negative or
+    // the result does not fit
+    using UnsignedT = std::make_unsigned_t<ValueT>;
+    return static_cast<ValueT>(static_cast<UnsignedT>(aValue) << aNumBits);
 }
 }  // namespace utils
 
-- 
2.43.0


From f3d2e7462a4e445cfbca5eb4c2f2f73104e74fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:24 +0000
Subject: [PATCH 21/35] fix: make_array_from_range over more than half of a
 signed type

The distance to the end was computed in the signed type and overflowed, so
such a range did not compile.
---
 sources/include/utils/common.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 6c64d3b..112093c 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -303,8 +303,9 @@ constexpr auto make_array_from_range() noexcept
     auto step_count = [](auto aBegin, auto aEnd, auto aStep) constexpr
     {
         std::size_t count{1};
-        while ((aBegin < aEnd) &&
-               (aEnd - aBegin >= static_cast<decltype(aEnd - aBegin)>(aStep)))
+        while ((aBegin < aEnd) && (static_cast<std::size_t>(aEnd) -
+                                       static_cast<std::size_t>(aBegin) >=
+                                   static_cast<std::size_t>(aStep)))
         {
             ++count;
             aBegin += aStep;
-- 
2.43.0


From 80d6eee2bded8cb4f09cc22ef3b57c3f143c724f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:36 +0000
Subject: [PATCH 22/35] fix: cartesian product with an empty list is empty, not
 ill-formed

---
 sources/include/utils/cartesian_product.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/include/utils/cartesian_product.h b/sources/include/utils/cartesian_product.h
index f8fb21a..7b3a2a0 100644
--- a/sources/include/utils/cartesian_product.h
+++ b/sources/include/utils/cartesian_product.h
@@ -87,6 +87,7 @@ template <std::size_t I, auto... Values, typename List>
 struct cartesian_product_impl<I, value_list<Values...>, List>
 {
     using type = concatenate_t<
+        type_list<>,
         typename one_element_mult<I == 0, value_list<Values>, List>::type...>;
 };
 
@@ -94,6 +95,7 @@ template <std::size_t I, typename... Ts, typename List>
 struct cartesian_product_impl<I, type_list<Ts...>, List>
 {
     using type = concatenate_t<
+        type_list<>,
         typename one_element_mult<I == 0, type_list<Ts>, List>::type...>;
 };
 }  // namespace details
-- 
2.43.0


From 7a23ae3c9724250a213aa11e3ca2ff93e46cf190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:05 +0000
Subject: [PATCH 23/35] fix: timer callbacks are checked against the argument
 they are called with

---
 sources/include/utils/timer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/timer.h b/sources/include/utils/timer.h
index 17a1db5..09b0234 100644
--- a/sources/include/utils/timer.h
+++ b/sources/include/utils/timer.h
@@ -30,7 +30,7 @@ struct timer_impl
         using type = std::conditional_t<
             std::is_same_v<Callable, callback_ref_t>, callback_ptr_t,
             std::enable_if_t<
-                std::is_invocable_r_v<void, Callable, duration>,
+                std::is_invocable_r_v<void, Callable, const Timer &>,
                 std::remove_cv_t<std::remove_reference_t<Callable>>>>;
     };
 
@@ -102,7 +102,8 @@ class timer
         using callback_ref_t = typename impl::callback_ref_t;
         static_assert(alignof(stored_callback_t) <= MaxCallbackAlignment);
         static_assert(sizeof(stored_callback_t) <= MaxCallbackSize);
-        static_assert(std::is_invocable_r_v<void, FinishCallback, duration>);
+        static_assert(
+            std::is_invocable_r_v<void, FinishCallback, const timer &>);
         if constexpr (std::is_same_v<FinishCallback, callback_ref_t>)
         {
             new (&impl::template callback<stored_callback_t>(data_))
-- 
2.43.0


From 4cef7af84b89f2b125f2c3ee15a63a84feb4b858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:58 +0000
Subject: [PATCH 24/35] fix: has_convertible_type_X is false when the member
 type is absent

---
 sources/include/utils/function_traits.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/function_traits.h b/sources/include/utils/function_traits.h
index 72ba4a5..af56cb7 100644
--- a/sources/include/utils/function_traits.h
+++ b/sources/include/utils/function_traits.h
@@ -62,8 +62,10 @@
                                                                             \
     template <typename T, typename To>                                      \
     struct has_convertible_type_##member_type                               \
-        : ::utils::is_detected_convertible<                                 \
-              To, details::has_type_##member_type##_helper, T>              \
+        : std::conjunction<                                                 \
+              has_type_##member_type<T>,                                    \
+              ::utils::is_detected_convertible<                             \
+                  To, details::has_type_##member_type##_helper, T>>         \
     {                                                                       \
     };                                                                      \
                                                                             \
-- 
2.43.0


From 7a11905c491c0ebec39041c86195fd1700c41f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:51 +0000
Subject: [PATCH 25/35] fix: has_padding of an empty aggregate is true, not
 ill-formed

---
 sources/include/utils/padding_checker.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sources/include/utils/padding_checker.h b/sources/include/utils/padding_checker.h
index 9855444..81f11b2 100644
--- a/sources/include/utils/padding_checker.h
+++ b/sources/include/utils/padding_checker.h
@@ -17,9 +17,10 @@ struct sum_size_of_all_members;
 template <typename T, std::size_t... I>
 std::integral_constant<
     std::size_t,
-    (... + sum_size_of_all_members<
-               pfr::tuple_element_t<I, T>,
-               std::is_aggregate_v<pfr::tuple_element_t<I, T>>>::value)>
+    (std::size_t{} + ... +
+     sum_size_of_all_members<
+         pfr::tuple_element_t<I, T>,
+         std::is_aggregate_v<pfr::tuple_element_t<I, T>>>::value)>
     sum(std::index_sequence<I...>);
 
 template <typename T, bool IsAggregate>
-- 
2.43.0


From 02b95f53e81fd45e12ea0ea7adf365398bd27c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:04 +0000
Subject: [PATCH 26/35] fix: a file name with a percent sign is not a format in
 UTILS_ABORT_IF

---
 sources/include/utils/common.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 112093c..6b31cca 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -50,10 +50,9 @@
 #endif
 
 #ifndef UTILS_ABORT_IF
-#define UTILS_ABORT_IF_HELPER(condition, format_str, ...)                \
-    utils::abort_if(condition,                                           \
-                    "[ERROR]\n" UTILS_FILE_LINE "\nfunc: %s" format_str, \
-                    UTILS_FUNC, __VA_ARGS__)
+#define UTILS_ABORT_IF_HELPER(condition, format_str, ...)            \
+    utils::abort_if(condition, "[ERROR]\n%s\nfunc: %s" format_str,   \
+                    UTILS_FILE_LINE, UTILS_FUNC, __VA_ARGS__)
 #define UTILS_ABORT_IF(...) UTILS_ABORT_IF_HELPER(__VA_ARGS__, "", "")
 #else
 #error "UTILS_ABORT_IF already defined somewhere"
-- 
2.43.0


From fc15690eaed851e89e235746453e5ba0514697b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:33 +0000
Subject: [PATCH 27/35] fix: the default resource is set before any static
 object can read it

---
 sources/include/utils/memory/memory.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sources/include/utils/memory/memory.h b/sources/include/utils/memory/memory.h
index 909aeac..1f28162 100644
--- a/sources/include/utils/memory/memory.h
+++ b/sources/include/utils/memory/memory.h
@@ -242,8 +242,11 @@ inline memory_resource *null_memory_resource() noexcept;
 
 namespace details
 {
-inline std::atomic<memory_resource *> default_resource =
-    system_memory_resource();
+inline std::atomic<memory_resource *> &default_resource() noexcept
+{
+    static std::atomic<memory_resource *> r{system_memory_resource()};
+    return r;
+}
 
 class system_memory_resource : public memory_resource
 {
@@ -320,12 +323,12 @@ inline memory_resource *null_memory_resource() noexcept
 [[maybe_unused]] static memory_resource *set_default_resource(
     memory_resource *aResource) noexcept
 {
-    return details::default_resource.exchange(aResource);
+    return details::default_resource().exchange(aResource);
 }
 
 [[maybe_unused]] static memory_resource *get_default_resource() noexcept
 {
-    return details::default_resource.load();
+    return details::default_resource().load();
 }
 }  // namespace memory
 }  // namespace utils
-- 
2.43.0


From a368ffda556fe02544598ae24f54255c264ee5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:05 +0000
Subject: [PATCH 28/35] fix: is_uint of cv bool is false, is_uint_or_byte of cv
 std::byte is true

---
 sources/include/utils/common.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 6b31cca..bf90a9e 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -69,7 +69,7 @@ namespace utils
 template <typename T>
 struct is_uint
     : std::conjunction<std::is_unsigned<T>,
-                       std::negation<std::is_same<T, bool>>>
+                       std::negation<std::is_same<std::remove_cv_t<T>, bool>>>
 {
 };
 
@@ -78,7 +78,8 @@ inline constexpr bool is_uint_v = is_uint<T>::value;
 
 template <typename T>
 struct is_uint_or_byte
-    : std::disjunction<is_uint<T>, std::is_same<T, std::byte>>
+    : std::disjunction<is_uint<T>,
+                       std::is_same<std::remove_cv_t<T>, std::byte>>
 {
 };
 
-- 
2.43.0


From 9c7fdde2171718b3f21889c85dbc909bbe2b5fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:51 +0000
Subject: [PATCH 29/35] fix: for_each_arg accepts functions whose result has a
 comma operator

---
 sources/include/utils/common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index bf90a9e..ddfe17a 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -667,7 +667,7 @@ template <typename F, typename... Ts>
 void for_each_arg(F&& f, Ts&&... ts)
 {
     using I = std::initializer_list<int>;
-    (void)I{(std::forward<F>(f)(std::forward<Ts>(ts)), 0)...};
+    (void)I{(static_cast<void>(std::forward<F>(f)(std::forward<Ts>(ts))), 0)...};
 }
 
 template <typename F, typename T>
-- 
2.43.0


From 9decc9c32c278a165bb9e5b3c03e9be0fcf1e027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:54 +0000
Subject: [PATCH 30/35] fix: allocators create objects of classes with an
 operator new of their own

---
 sources/include/utils/memory/allocator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/allocator.h b/sources/include/utils/memory/allocator.h
index 3311f1d..67b2763 100644
--- a/sources/include/utils/memory/allocator.h
+++ b/sources/include/utils/memory/allocator.h
@@ -45,7 +45,7 @@ class allocator
     template <typename U, typename... Args>
     void construct(U* aPtr, Args&&... aArgs) noexcept
     {
-        new (aPtr) U(std::forward<Args>(aArgs)...);
+        ::new (static_cast<void*>(aPtr)) U(std::forward<Args>(aArgs)...);
     }
 
     [[nodiscard]] void* allocate_bytes(
-- 
2.43.0


From 91f791d1e1d8beae1300be9b1079e3a422f9d853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:54 +0000
Subject: [PATCH 31/35] fix: fast_pimpl holds classes with an operator new or
 address operator of their own

---
 sources/include/utils/fast_pimpl.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/sources/include/utils/fast_pimpl.h b/sources/include/utils/fast_pimpl.h
index 61dbf26..0528200 100644
--- a/sources/include/utils/fast_pimpl.h
+++ b/sources/include/utils/fast_pimpl.h
@@ -24,37 +24,37 @@ class fast_pimpl final
 
     fast_pimpl() noexcept(std::is_nothrow_constructible_v<T>)
     {
-        new (&get()) T();
+        ::new (static_cast<void *>(data_)) T();
     }
 
     template <typename... Args>
     explicit fast_pimpl(forwarding_constructor, Args &&...args) noexcept(
         std::is_nothrow_constructible_v<T, Args...>)
     {
-        new (&get()) T(std::forward<Args>(args)...);
+        ::new (static_cast<void *>(data_)) T(std::forward<Args>(args)...);
     }
 
     fast_pimpl(const fast_pimpl &aOther) noexcept(
         std::is_nothrow_copy_constructible_v<T>)
     {
-        new (&get()) T(aOther.get());
+        ::new (static_cast<void *>(data_)) T(aOther.get());
     }
 
     fast_pimpl(const T &aOther) noexcept(
         std::is_nothrow_copy_constructible_v<T>)
     {
-        new (&get()) T(aOther);
+        ::new (static_cast<void *>(data_)) T(aOther);
     }
 
     fast_pimpl(fast_pimpl &&aOther) noexcept(
         std::is_nothrow_move_constructible_v<T>)
     {
-        new (&get()) T(std::move(aOther.get()));
+        ::new (static_cast<void *>(data_)) T(std::move(aOther.get()));
     }
 
     fast_pimpl(T &&aOther) noexcept(std::is_nothrow_move_constructible_v<T>)
     {
-        new (&get()) T(std::move(aOther));
+        ::new (static_cast<void *>(data_)) T(std::move(aOther));
     }
 
     fast_pimpl &operator=(const fast_pimpl &aOther) noexcept(
@@ -85,9 +85,12 @@ class fast_pimpl final
         return *this;
     }
 
-    T *operator->() noexcept { return &get(); }
+    T *operator->() noexcept { return reinterpret_cast<T *>(this); }
 
-    const T *operator->() const noexcept { return &get(); }
+    const T *operator->() const noexcept
+    {
+        return reinterpret_cast<const T *>(this);
+    }
 
     template <std::size_t ActualSize, std::size_t ActualAlignment>
     static void validate() noexcept
-- 
2.43.0


From eeaf6cd31714bfa37b0095c39977d42ec8fd7707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:54 +0000
Subject: [PATCH 32/35] fix: timers take callbacks with an operator new or
 address operator of their own

---
 sources/include/utils/timer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/timer.h b/sources/include/utils/timer.h
index 09b0234..501caed 100644
--- a/sources/include/utils/timer.h
+++ b/sources/include/utils/timer.h
@@ -111,7 +111,7 @@ class timer
         }
         else
         {
-            new (&impl::template callback<stored_callback_t>(data_))
+            ::new (static_cast<void *>(data_))
                 stored_callback_t(std::forward<FinishCallback>(aCallback));
         }
     }
-- 
2.43.0


From 2632a2c943e19b0e1ac722cd55ea511f2b20e77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:54 +0000
Subject: [PATCH 33/35] fix: num_bits of const or volatile bool was 8

---
 sources/include/utils/common.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index ddfe17a..9609a5c 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -577,13 +577,8 @@ using fast_uint_from_nbytes_t =
 template <typename T>
 constexpr std::size_t num_bits()
 {
-    return CHAR_BIT * sizeof(T);
-}
-
-template <>
-constexpr std::size_t num_bits<bool>()
-{
-    return 1;
+    return std::is_same_v<std::remove_cv_t<T>, bool> ? 1
+                                                     : CHAR_BIT * sizeof(T);
 }
 
 template <typename T>
-- 
2.43.0


From 12d421c83e1e5b776fb8923ef70234b161e5ff40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:54 +0000
Subject: [PATCH 34/35] fix: bit_cast of types with an address operator of
 their own and to const types did not compile

---
 sources/include/utils/common.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 9609a5c..f25c759 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -14,6 +14,7 @@
 #include <functional>
 #include <initializer_list>
 #include <limits>
+#include <memory>
 #include <string_view>
 #include <tuple>
 #include <type_traits>
@@ -684,8 +685,8 @@ bit_cast(const From& src) noexcept
                   "This implementation additionally requires destination type "
                   "to be trivially constructible");
 
-    To dst;
-    std::memcpy(&dst, &src, sizeof(To));
+    std::remove_cv_t<To> dst;
+    std::memcpy(std::addressof(dst), std::addressof(src), sizeof(To));
     return dst;
 }
 
-- 
2.43.0


From 491263e75cc4bc49636b1ad9807afd94dfadd2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:04:28 +0000
Subject: [PATCH 35/35] fix: buffer resources could be assigned over each other

The copy constructors are deleted, but the assignments were still generated:
afterwards both resources handed out the same memory.
---
 sources/include/utils/memory/monotonic_buffer_resource.h | 2 ++
 sources/include/utils/memory/simple_resource.h           | 1 +
 2 files changed, 3 insertions(+)

diff --git a/sources/include/utils/memory/monotonic_buffer_resource.h b/sources/include/utils/memory/monotonic_buffer_resource.h
index 6da5e32..7901d39 100644
--- a/sources/include/utils/memory/monotonic_buffer_resource.h
+++ b/sources/include/utils/memory/monotonic_buffer_resource.h
@@ -15,6 +15,8 @@ class monotonic_buffer_resource : public memory_resource
 
    public:
     monotonic_buffer_resource(const monotonic_buffer_resource &) = delete;
+    monotonic_buffer_resource &operator=(const monotonic_buffer_resource &) =
+        delete;
     monotonic_buffer_resource(std::byte *const aBuffer, const std::size_t aSize,
                               memory_resource *aUpstream) noexcept
         : memory_resource(
diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index 107845a..d49217f 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -176,6 +176,7 @@ class simple_resource : public memory_resource
     }
 
     simple_resource(const simple_resource &) = delete;
+    simple_resource &operator=(const simple_resource &) = delete;
     simple_resource() noexcept = delete;
     simple_resource(std::byte *const aBuffer, const std::size_t aSize,
                     memory_resource *aUpstream) noexcept
-- 
2.43.0

