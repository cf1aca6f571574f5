From 2daf88275e583bf64cab79bf84dd8628127cc30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 01/50] fix: HashTable must not claim a capacity when init()
 fails to allocate

---
 amtl/am-hashtable.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/amtl/am-hashtable.h b/amtl/am-hashtable.h
index 51a384b..acd8967 100644
--- a/amtl/am-hashtable.h
+++ b/amtl/am-hashtable.h
@@ -417,12 +417,11 @@ class HashTable : private AllocPolicy
         minCapacity_ = uint32_t(capacity);
 
         assert(IsPowerOfTwo(capacity));
-        capacity_ = uint32_t(capacity);
-
-        table_ = createTable(capacity_);
+        table_ = createTable(uint32_t(capacity));
         if (!table_)
             return false;
 
+        capacity_ = uint32_t(capacity);
         return true;
     }
 
-- 
2.43.0


From d18b7f2f1c58749fa5d39d5ceaf168d1850e557e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 02/50] fix: HashMap and HashSet allocPolicy() must expose the
 policy their table uses

---
 amtl/am-hashmap.h | 4 ++--
 amtl/am-hashset.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/amtl/am-hashmap.h b/amtl/am-hashmap.h
index 2f705bb..1d35201 100644
--- a/amtl/am-hashmap.h
+++ b/amtl/am-hashmap.h
@@ -163,10 +163,10 @@ class HashMap : private AllocPolicy
     }
 
     AllocPolicy& allocPolicy() {
-        return *this;
+        return table_.allocPolicy();
     }
     const AllocPolicy& allocPolicy() const {
-        return *this;
+        return table_.allocPolicy();
     }
 
   private:
diff --git a/amtl/am-hashset.h b/amtl/am-hashset.h
index cbc90fc..ea046dd 100644
--- a/amtl/am-hashset.h
+++ b/amtl/am-hashset.h
@@ -146,10 +146,10 @@ class HashSet : private AllocPolicy
     }
 
     AllocPolicy& allocPolicy() {
-        return *this;
+        return table_.allocPolicy();
     }
     const AllocPolicy& allocPolicy() const {
-        return *this;
+        return table_.allocPolicy();
     }
 
   private:
-- 
2.43.0


From e8ef44e898d91a424f43d201980e0df420a41447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 03/50] fix: HashTable must report overflow instead of growing
 past its maximum capacity

---
 amtl/am-hashtable.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amtl/am-hashtable.h b/amtl/am-hashtable.h
index acd8967..282811d 100644
--- a/amtl/am-hashtable.h
+++ b/amtl/am-hashtable.h
@@ -245,7 +245,7 @@ class HashTable : private AllocPolicy
     }
 
     bool grow() {
-        if (capacity_ >= kMaxCapacity) {
+        if (capacity_ > kMaxCapacity / 2) {
             this->reportAllocationOverflow();
             return false;
         }
@@ -409,7 +409,8 @@ class HashTable : private AllocPolicy
     bool init(size_t capacity = 0) {
         if (capacity < kMinCapacity) {
             capacity = kMinCapacity;
-        } else if (capacity > kMaxCapacity) {
+        }
+        if (capacity > kMaxCapacity) {
             this->reportAllocationOverflow();
             return false;
         }
-- 
2.43.0


From 32cbcbe58dd1d024c510c91f818992dfffc6753a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 04/50] fix: FixedArray must use the allocation policy it is
 given

---
 amtl/am-fixedarray.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/amtl/am-fixedarray.h b/amtl/am-fixedarray.h
index 85df0b5..e685ecb 100644
--- a/amtl/am-fixedarray.h
+++ b/amtl/am-fixedarray.h
@@ -31,6 +31,7 @@
 
 #include <assert.h>
 
+#include <utility>
 #include <vector>
 
 #include <amtl/am-allocator-policies.h>
@@ -43,20 +44,26 @@ class FixedArray : private AllocPolicy
   public:
     FixedArray() : size_(0), data_(nullptr)
     {}
-    FixedArray(size_t size, AllocPolicy = AllocPolicy()) {
+    FixedArray(size_t size, AllocPolicy ap = AllocPolicy())
+     : AllocPolicy(std::move(ap))
+    {
         if (!allocate(size))
             return;
         for (size_t i = 0; i < size_; i++)
             new (&data_[i]) T();
     }
-    FixedArray(const FixedArray& other) {
+    FixedArray(const FixedArray& other)
+     : AllocPolicy(other)
+    {
         if (!allocate(other.size()))
             return;
         for (size_t i = 0; i < size_; i++)
             new (&data_[i]) T(other[i]);
     }
 
-    FixedArray(FixedArray&& other) {
+    FixedArray(FixedArray&& other)
+     : AllocPolicy(std::move(other))
+    {
         size_ = other.size_;
         data_ = other.data_;
         other.size_ = 0;
-- 
2.43.0


From 15588c4c1257c8360a0992076a74899fef109e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:42 +0000
Subject: [PATCH 05/50] fix: FixedArray must survive a failed allocation and
 report size overflow

---
 amtl/am-fixedarray.h | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/amtl/am-fixedarray.h b/amtl/am-fixedarray.h
index e685ecb..ff6ddc8 100644
--- a/amtl/am-fixedarray.h
+++ b/amtl/am-fixedarray.h
@@ -53,9 +53,11 @@ class FixedArray : private AllocPolicy
             new (&data_[i]) T();
     }
     FixedArray(const FixedArray& other)
-     : AllocPolicy(other)
+     : AllocPolicy(other),
+       size_(other.size()),
+       data_(nullptr)
     {
-        if (!allocate(other.size()))
+        if (!other.initialize() || !allocate(other.size()))
             return;
         for (size_t i = 0; i < size_; i++)
             new (&data_[i]) T(other[i]);
@@ -94,7 +96,7 @@ class FixedArray : private AllocPolicy
     }
 
     // This call may be skipped if the allocator policy is infallible.
-    bool initialize() {
+    bool initialize() const {
         return size_ == 0 || !!data_;
     }
 
@@ -132,9 +134,11 @@ class FixedArray : private AllocPolicy
 
     FixedArray& operator =(const FixedArray& other) {
         destruct();
-        if (size_ != other.size()) {
+        if (size_ != other.size() || !initialize() || !other.initialize()) {
             deallocate();
-            if (!allocate(other.size()))
+            size_ = other.size();
+            data_ = nullptr;
+            if (!other.initialize() || !allocate(other.size()))
                 return *this;
         }
         for (size_t i = 0; i < size_; i++)
@@ -165,10 +169,17 @@ class FixedArray : private AllocPolicy
   private:
     bool allocate(size_t size) {
         size_ = size;
+        data_ = nullptr;
+        if (size > size_t(-1) / sizeof(T)) {
+            this->reportAllocationOverflow();
+            return false;
+        }
         data_ = (T*)this->am_malloc(sizeof(T) * size_);
         return !!data_;
     }
     void destruct() {
+        if (!data_)
+            return;
         for (size_t i = 0; i < size_; i++)
             data_[i].~T();
     }
-- 
2.43.0


From fe96e3e17c81224fec38dc03827b7bdd823ea539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 06/50] fix: FixedArray assignment must release old elements
 and survive self-assignment

---
 amtl/am-fixedarray.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/amtl/am-fixedarray.h b/amtl/am-fixedarray.h
index ff6ddc8..952e3d8 100644
--- a/amtl/am-fixedarray.h
+++ b/amtl/am-fixedarray.h
@@ -133,6 +133,8 @@ class FixedArray : private AllocPolicy
     T* buffer() const { return data_; }
 
     FixedArray& operator =(const FixedArray& other) {
+        if (this == &other)
+            return *this;
         destruct();
         if (size_ != other.size() || !initialize() || !other.initialize()) {
             deallocate();
@@ -146,6 +148,11 @@ class FixedArray : private AllocPolicy
         return *this;
     }
     FixedArray& operator =(FixedArray&& other) {
+        if (this == &other)
+            return *this;
+        destruct();
+        deallocate();
+        static_cast<AllocPolicy&>(*this) = std::move(static_cast<AllocPolicy&>(other));
         size_ = other.size_;
         data_ = other.data_;
         other.size_ = 0;
-- 
2.43.0


From 7740f2dbf0b0a6552c05a918c08f851779d6cd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 07/50] fix: HashInt32 and HashInt64 must not overflow signed
 integers

---
 amtl/am-hashtable.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/amtl/am-hashtable.h b/amtl/am-hashtable.h
index 282811d..f9e0eda 100644
--- a/amtl/am-hashtable.h
+++ b/amtl/am-hashtable.h
@@ -605,23 +605,24 @@ static inline uint32_t
 HashInt32(int32_t a)
 {
     a = (a ^ 61) ^ (a >> 16);
-    a = a + (a << 3);
+    a = int32_t(uint32_t(a) + (uint32_t(a) << 3));
     a = a ^ (a >> 4);
-    a = a * 0x27d4eb2d;
+    a = int32_t(uint32_t(a) * 0x27d4eb2d);
     a = a ^ (a >> 15);
     return a;
 }
 
 // From http://www.cris.com/~Ttwang/tech/inthash.htm
 static inline uint32_t
-HashInt64(int64_t key)
+HashInt64(int64_t value)
 {
+    uint64_t key = uint64_t(value);
     key = (~key) + (key << 18); // key = (key << 18) - key - 1;
-    key = key ^ (uint64_t(key) >> 31);
+    key = key ^ (key >> 31);
     key = key * 21; // key = (key + (key << 2)) + (key << 4);
-    key = key ^ (uint64_t(key) >> 11);
+    key = key ^ (key >> 11);
     key = key + (key << 6);
-    key = key ^ (uint64_t(key) >> 22);
+    key = key ^ (key >> 22);
     return uint32_t(key);
 }
 
-- 
2.43.0


From d54e190e9b126894eb62c568533bcf0e0b91c0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 08/50] fix: InlineList::remove must unlink the node in release
 builds too

---
 amtl/am-inlinelist.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/amtl/am-inlinelist.h b/amtl/am-inlinelist.h
index 5226cd5..79c2280 100644
--- a/amtl/am-inlinelist.h
+++ b/amtl/am-inlinelist.h
@@ -212,10 +212,8 @@ class InlineList
         t->next_->prev_ = t->prev_;
         length_--;
 
-#if !defined(NDEBUG)
         t->next_ = nullptr;
         t->prev_ = nullptr;
-#endif
     }
 
     void append(Node* t) {
-- 
2.43.0


From 6839c1b6bf1e4b9e0dd49bdc63a2baf4f42b7559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 09/50] fix: InlineList::length must not count nodes removed
 through removeFromParentList()

---
 amtl/am-inlinelist.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/amtl/am-inlinelist.h b/amtl/am-inlinelist.h
index 79c2280..b1805b2 100644
--- a/amtl/am-inlinelist.h
+++ b/amtl/am-inlinelist.h
@@ -88,7 +88,6 @@ class InlineList
     typedef InlineListNode<T> Node;
 
     Node head_;
-    size_t length_;
 
     // Work around a clang bug where we can't initialize with &head_ in the ctor.
     inline Node* head() {
@@ -97,8 +96,7 @@ class InlineList
 
   public:
     InlineList()
-     : head_(head(), head()),
-       length_(0)
+     : head_(head(), head())
     {}
 
     ~InlineList() {
@@ -210,8 +208,6 @@ class InlineList
     void remove(Node* t) {
         t->prev_->next_ = t->next_;
         t->next_->prev_ = t->prev_;
-        length_--;
-
         t->next_ = nullptr;
         t->prev_ = nullptr;
     }
@@ -224,11 +220,15 @@ class InlineList
         t->next_ = &head_;
         head_.prev_->next_ = t;
         head_.prev_ = t;
-        length_++;
     }
 
+    // Nodes can leave the list without its knowledge (removeFromParentList()),
+    // so this has to count them.
     size_t length() const {
-        return length_;
+        size_t length = 0;
+        for (const Node* iter = head_.next_; iter != &head_; iter = iter->next_)
+            length++;
+        return length;
     }
 };
 
-- 
2.43.0


From a1d7b4b789a251ac09e90e4b0189bca970f285be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 10/50] fix: TryUint64Multiply must detect an overflow whose
 product wraps to zero

---
 amtl/am-arithmetic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-arithmetic.h b/amtl/am-arithmetic.h
index 45ced6e..289a326 100644
--- a/amtl/am-arithmetic.h
+++ b/amtl/am-arithmetic.h
@@ -37,7 +37,7 @@ static inline bool
 TryUint64Multiply(uint64_t left, uint64_t right, uint64_t* out)
 {
     uint64_t r = left * right;
-    if (r != 0 && ((r / left) != right))
+    if (left != 0 && ((r / left) != right))
         return false;
 
     *out = r;
-- 
2.43.0


From bb45c12f013a1c2edc0aad44272f9ef0d1e23bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 11/50] fix: am-arithmetic.h must include <stdint.h>, which it
 uses

---
 amtl/am-arithmetic.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amtl/am-arithmetic.h b/amtl/am-arithmetic.h
index 289a326..4ba43e2 100644
--- a/amtl/am-arithmetic.h
+++ b/amtl/am-arithmetic.h
@@ -29,6 +29,8 @@
 #ifndef _include_amtl_bits_h_
 #define _include_amtl_bits_h_
 
+#include <stdint.h>
+
 #include <algorithm>
 
 namespace ke {
-- 
2.43.0


From 3bff7163daae57df45c6244a3533efaf414f7b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 12/50] fix: IsUintAddSafe must report overflow

---
 amtl/am-bits.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/amtl/am-bits.h b/amtl/am-bits.h
index f90cdeb..66d2f3f 100644
--- a/amtl/am-bits.h
+++ b/amtl/am-bits.h
@@ -182,11 +182,7 @@ template <typename T>
 static inline bool
 IsUintAddSafe(const T& a, const T& b)
 {
-    if (!a || !b)
-        return true;
-    size_t log2_a = Log2(a);
-    size_t log2_b = Log2(b);
-    return (log2_a < sizeof(T) * 8) && (log2_b < sizeof(T) * 8);
+    return b <= static_cast<T>(~a);
 }
 
 static inline bool
-- 
2.43.0


From 5b746d0a6702060a8a74882f4a1f5a318b494524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 13/50] fix: IsUintMultiplySafe must be exact

---
 amtl/am-bits.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/amtl/am-bits.h b/amtl/am-bits.h
index 66d2f3f..d895ad8 100644
--- a/amtl/am-bits.h
+++ b/amtl/am-bits.h
@@ -210,9 +210,7 @@ IsUintMultiplySafe(const T& a, const T& b)
     if (a <= 1 || b <= 1)
         return true;
 
-    size_t log2_a = Log2(a);
-    size_t log2_b = Log2(b);
-    return log2_a + log2_b < sizeof(T) * 8;
+    return b <= static_cast<T>(~static_cast<T>(0)) / a;
 }
 
 static inline bool
-- 
2.43.0


From fa8cd4969d1e7930ebf685457c5e3b1cb7357808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 14/50] fix: Log2 must not ignore the upper 32 bits of a 64-bit
 number

---
 amtl/am-bits.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amtl/am-bits.h b/amtl/am-bits.h
index d895ad8..1253eb5 100644
--- a/amtl/am-bits.h
+++ b/amtl/am-bits.h
@@ -97,7 +97,11 @@ Log2(size_t number)
     assert(number != 0);
 
 #    ifdef __GNUC__
+#        ifdef __LP64__
+    return 63 - __builtin_clzl(number);
+#        else
     return 31 - __builtin_clz(number);
+#        endif
 #    else
     size_t bit;
     asm("bsr %1, %0\n" : "=r"(bit) : "rm"(number));
-- 
2.43.0


From 3217305d936d80e69efb707c172296978151ed58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 15/50] fix: GetPointerBits and ClearPointerBits must not
 overflow for 31 bits or more

---
 amtl/am-bits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amtl/am-bits.h b/amtl/am-bits.h
index 1253eb5..2f994a4 100644
--- a/amtl/am-bits.h
+++ b/amtl/am-bits.h
@@ -257,12 +257,12 @@ static inline T* SetPointerBits(T* ptr, uintptr_t bits) {
 
 template <uintptr_t NumBits>
 static inline uintptr_t GetPointerBits(void* ptr) {
-  return (reinterpret_cast<uintptr_t>(ptr) & ((1 << NumBits) - 1));
+  return (reinterpret_cast<uintptr_t>(ptr) & ((uintptr_t(1) << NumBits) - 1));
 }
 
 template <uintptr_t NumBits, typename T>
 static inline T* ClearPointerBits(T* ptr) {
-  return reinterpret_cast<T*>(reinterpret_cast<uintptr_t>(ptr) & ~uintptr_t((1 << NumBits) - 1));
+  return reinterpret_cast<T*>(reinterpret_cast<uintptr_t>(ptr) & ~((uintptr_t(1) << NumBits) - 1));
 }
 
 } // namespace ke
-- 
2.43.0


From 76e895ea42420f1ac639884f02c1ac47cd543002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:17 +0000
Subject: [PATCH 16/50] fix: float64_bits must use the layout and exponent mask
 of a double

---
 amtl/am-float.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/amtl/am-float.h b/amtl/am-float.h
index 1adc865..9989b26 100644
--- a/amtl/am-float.h
+++ b/amtl/am-float.h
@@ -38,7 +38,7 @@
 namespace ke {
 
 static const uint32_t kFloat32ExponentMask = 0x7F800000;
-static const uint64_t kFloat64ExponentMask = 0x7FFF000000000000ULL;
+static const uint64_t kFloat64ExponentMask = 0x7FF0000000000000ULL;
 
 struct float32_bits {
     static const uint32_t kExponentMask = kFloat32ExponentMask;
@@ -64,10 +64,10 @@ struct float64_bits {
 
     union layout {
         uint64_t bits;
-        float value;
+        double value;
     };
 
-    static layout to_layout(float value) {
+    static layout to_layout(double value) {
         layout impl;
         impl.value = value;
         return impl;
-- 
2.43.0


From fd1a0be4e2d626dd38399a9dc2e3feb4f5934cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:17 +0000
Subject: [PATCH 17/50] fix: IsInfinite must not report NaNs

---
 amtl/am-float.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amtl/am-float.h b/amtl/am-float.h
index 9989b26..b1ec9db 100644
--- a/amtl/am-float.h
+++ b/amtl/am-float.h
@@ -99,7 +99,8 @@ IsInfinite(T value)
     typedef float_bits<T> Properties;
     typedef typename Properties::Bits Bits;
     Bits bits = Properties::to_layout(value).bits;
-    return (bits & Properties::kExponentMask) == Properties::kExponentMask;
+    // NaNs have the same exponent, but a nonzero mantissa.
+    return (bits & Properties::kExponentMask) == Properties::kExponentMask && !IsNaN(value);
 };
 
 // Performs the operation (x % y) where x and y are floating-point values.
-- 
2.43.0


From 96b7001612e310ab78545e2f4f437efaa630774b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:17 +0000
Subject: [PATCH 18/50] fix: enum_integral_type needs typename with
 KE_ALLOW_STD_CXX

---
 amtl/am-enum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-enum.h b/amtl/am-enum.h
index 8c8aa3b..cb17ba0 100644
--- a/amtl/am-enum.h
+++ b/amtl/am-enum.h
@@ -37,7 +37,7 @@ namespace ke {
 template <typename T>
 struct enum_integral_type {
 #ifdef KE_ALLOW_STD_CXX
-    using type = std::underlying_type<T>::type;
+    using type = typename std::underlying_type<T>::type;
 #else
     using type = __underlying_type(T);
 #endif
-- 
2.43.0


From cfb91e28411b7efd9187601d481b89135278272a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 19/50] fix: Function must copy a non-const Function instead of
 wrapping it

---
 amtl/am-function.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/amtl/am-function.h b/amtl/am-function.h
index 6b26677..06c18be 100644
--- a/amtl/am-function.h
+++ b/amtl/am-function.h
@@ -33,6 +33,7 @@
 #include <stddef.h>
 
 #include <new>
+#include <type_traits>
 #include <utility>
 
 namespace ke {
@@ -97,6 +98,10 @@ class Function<ReturnType(ArgTypes...)>
 {
     typedef impl::FunctionHolderBase<ReturnType, ArgTypes...> HolderType;
 
+    template <typename T>
+    using EnableIfCallable =
+        typename std::enable_if<!std::is_same<typename std::decay<T>::type, Function>::value>::type;
+
   public:
     Function()
      : impl_(nullptr)
@@ -111,7 +116,8 @@ class Function<ReturnType(ArgTypes...)>
         move(std::forward<Function>(other));
     }
 
-    template <typename T>
+    // Functions, of any constness, are copied or moved and not wrapped.
+    template <typename T, typename = EnableIfCallable<T>>
     Function(T&& obj) {
         assign(std::forward<T>(obj));
     }
@@ -136,7 +142,7 @@ class Function<ReturnType(ArgTypes...)>
         return *this;
     }
 
-    template <typename T>
+    template <typename T, typename = EnableIfCallable<T>>
     Function& operator =(T&& other) {
         destroy();
         assign(other);
-- 
2.43.0


From d30ce50f898eda8b61746ff55b2978bd769523b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 20/50] fix: Function assignment must not use a callable it has
 destroyed

---
 amtl/am-function.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/amtl/am-function.h b/amtl/am-function.h
index 06c18be..326cd53 100644
--- a/amtl/am-function.h
+++ b/amtl/am-function.h
@@ -132,13 +132,14 @@ class Function<ReturnType(ArgTypes...)>
         return *this;
     }
     Function& operator =(const Function& other) {
-        destroy();
-        assign(other);
-        return *this;
+        return *this = Function(other);
     }
     Function& operator =(Function&& other) {
+        // The other function may be this one, or live inside of the callable
+        // that is being replaced.
+        Function tmp(std::move(other));
         destroy();
-        move(std::move(other));
+        move(std::move(tmp));
         return *this;
     }
 
-- 
2.43.0


From bf45250cf935c28d2e51d789618cc359f59dbced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 21/50] fix: Function must move an rvalue callable it is
 assigned

---
 amtl/am-function.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/amtl/am-function.h b/amtl/am-function.h
index 326cd53..9f4b6e3 100644
--- a/amtl/am-function.h
+++ b/amtl/am-function.h
@@ -145,9 +145,7 @@ class Function<ReturnType(ArgTypes...)>
 
     template <typename T, typename = EnableIfCallable<T>>
     Function& operator =(T&& other) {
-        destroy();
-        assign(other);
-        return *this;
+        return *this = Function(std::forward<T>(other));
     }
 
     explicit operator bool() const {
-- 
2.43.0


From 7238b00b2e4d9465c3c267ffd789aeee19b04ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:20 +0000
Subject: [PATCH 22/50] fix: Function must store callables of three words
 inline, as documented

---
 amtl/am-function.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/amtl/am-function.h b/amtl/am-function.h
index 9f4b6e3..50d4466 100644
--- a/amtl/am-function.h
+++ b/amtl/am-function.h
@@ -206,7 +206,7 @@ class Function<ReturnType(ArgTypes...)>
         typedef typename std::decay<T>::type CallableType;
         typedef impl::FunctionHolder<CallableType, ReturnType, ArgTypes...> ImplType;
 
-        if (sizeof(ImplType) <= sizeof(buffer_)) {
+        if (sizeof(ImplType) <= sizeof(buffer_) && alignof(ImplType) <= alignof(Buffer)) {
             impl_ = reinterpret_cast<ImplType*>(inline_buffer());
             new (inline_buffer()) ImplType(std::forward<T>(obj));
         } else {
@@ -216,9 +216,10 @@ class Function<ReturnType(ArgTypes...)>
 
   private:
     HolderType* impl_;
-    union {
+    union Buffer {
         double alignment_;
-        char alias_[impl::kMinFunctionInlineBufferSize];
+        // The holder has a vtable pointer in addition to the callable.
+        char alias_[sizeof(void*) + impl::kMinFunctionInlineBufferSize];
     } buffer_;
 };
 
-- 
2.43.0


From ba4fd9e42170f57744bd1ffbd2ed11031a80498a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:20 +0000
Subject: [PATCH 23/50] fix: Function must not move the callable when moving a
 copy of a non-const Function

---
 amtl/am-function.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amtl/am-function.h b/amtl/am-function.h
index 50d4466..e786597 100644
--- a/amtl/am-function.h
+++ b/amtl/am-function.h
@@ -112,6 +112,11 @@ class Function<ReturnType(ArgTypes...)>
     Function(const Function& other) {
         assign(other);
     }
+    // A copy of a non-const Function is kept on the heap: moving the copy does
+    // not move the callable.
+    Function(Function& other)
+     : impl_(other ? other.impl_->clone(nullptr) : nullptr)
+    {}
     Function(Function&& other) {
         move(std::forward<Function>(other));
     }
-- 
2.43.0


From 6f8d8a0301909826086537789645cc0183eef567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:30 +0000
Subject: [PATCH 24/50] fix: Maybe::operator-> must return a pointer

---
 amtl/am-maybe.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amtl/am-maybe.h b/amtl/am-maybe.h
index 159b27d..7dea5b8 100644
--- a/amtl/am-maybe.h
+++ b/amtl/am-maybe.h
@@ -79,7 +79,7 @@ class Maybe
         return initialized_;
     }
 
-    T& operator ->() {
+    T* operator ->() {
         assert(isValid());
         return t_.address();
     }
@@ -87,7 +87,7 @@ class Maybe
         assert(isValid());
         return *t_.address();
     }
-    const T& operator ->() const {
+    const T* operator ->() const {
         assert(isValid());
         return t_.address();
     }
-- 
2.43.0


From 260120d0ee6f2524c9eeba89368d8b5aa47a748b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 25/50] fix: Maybe must destroy values it drops, and survive
 self-assignment

---
 amtl/am-maybe.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/amtl/am-maybe.h b/amtl/am-maybe.h
index 7dea5b8..c64879e 100644
--- a/amtl/am-maybe.h
+++ b/amtl/am-maybe.h
@@ -109,13 +109,13 @@ class Maybe
     }
 
     Maybe& operator =(const Maybe& other) {
-        initialized_ = false;
-        copyFrom(other);
-        return *this;
+        return *this = Maybe(other);
     }
     Maybe& operator =(Maybe&& other) {
-        initialized_ = false;
-        moveFrom(std::move(other));
+        // The other may be this object, or live inside of the old value.
+        Maybe tmp(std::move(other));
+        reset();
+        moveFrom(std::move(tmp));
         return *this;
     }
 
@@ -128,7 +128,13 @@ class Maybe
     void moveFrom(Maybe&& other) {
         if (other.initialized_) {
             init(std::move(*other.t_.address()));
-            other.initialized_ = false;
+            other.reset();
+        }
+    }
+    void reset() {
+        if (isValid()) {
+            initialized_ = false;
+            t_.address()->~T();
         }
     }
 
-- 
2.43.0


From 2d10e785bc5597a347421eeef95afc55bbf8036f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:34 +0000
Subject: [PATCH 26/50] fix: StorageBuffer must be aligned for its contents

---
 amtl/am-storagebuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-storagebuffer.h b/amtl/am-storagebuffer.h
index f328922..b233219 100644
--- a/amtl/am-storagebuffer.h
+++ b/amtl/am-storagebuffer.h
@@ -49,7 +49,7 @@ class StorageBuffer
 
   private:
     union {
-        char buffer_[sizeof(T)];
+        alignas(T) char buffer_[sizeof(T)];
         uint64_t aligned_;
     };
 };
-- 
2.43.0


From a97952ce5268ef32f5d784165d4bc26d8809cd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:21 +0000
Subject: [PATCH 27/50] fix: am-raii.h and am-utility.h must include the
 headers they use

---
 amtl/am-raii.h    | 2 ++
 amtl/am-utility.h | 1 +
 2 files changed, 3 insertions(+)

diff --git a/amtl/am-raii.h b/amtl/am-raii.h
index b942e50..71dfe74 100644
--- a/amtl/am-raii.h
+++ b/amtl/am-raii.h
@@ -30,6 +30,8 @@
 #ifndef _include_amtl_am_raii_h_
 #define _include_amtl_am_raii_h_
 
+#include <assert.h>
+
 #include <utility>
 
 namespace ke {
diff --git a/amtl/am-utility.h b/amtl/am-utility.h
index 49463dd..8df3745 100644
--- a/amtl/am-utility.h
+++ b/amtl/am-utility.h
@@ -35,6 +35,7 @@
 #include <stddef.h>
 #include <stdint.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include <amtl/am-cxx.h>
 
-- 
2.43.0


From 6abdb7e881b63e274ee9f4ef005d215c1b14ed26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:46 +0000
Subject: [PATCH 28/50] fix: RefPtr assignment must take the new reference
 before dropping the old one

---
 amtl/am-refcounting.h | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/amtl/am-refcounting.h b/amtl/am-refcounting.h
index b44a3d2..e2e84cb 100644
--- a/amtl/am-refcounting.h
+++ b/amtl/am-refcounting.h
@@ -264,30 +264,21 @@ class RefPtr
 
     template <typename S>
     RefPtr& operator =(S* thing) {
-        Release();
-        thing_ = thing;
-        AddRef();
-        return *this;
+        return *this = RefPtr(thing);
     }
 
     template <typename S>
     RefPtr& operator =(const AlreadyRefed<S>& other) {
-        Release();
-        thing_ = other.take();
+        Replace(other.take());
         return *this;
     }
 
     RefPtr& operator =(const RefPtr& other) {
-        Release();
-        thing_ = other.thing_;
-        AddRef();
-        return *this;
+        return *this = RefPtr(other);
     }
 
     RefPtr& operator =(RefPtr&& other) {
-        Release();
-        thing_ = other.thing_;
-        other.thing_ = nullptr;
+        Replace(ReturnAndVoid(other.thing_));
         return *this;
     }
 
@@ -313,6 +304,14 @@ class RefPtr
         if (thing_)
             thing_->Release();
     }
+    // Takes over a reference to |thing|. The old object is released last, since
+    // the new one may be the same, or kept alive only by the old one.
+    void Replace(T* thing) {
+        T* old = thing_;
+        thing_ = thing;
+        if (old)
+            old->Release();
+    }
 
   protected:
     T* thing_;
-- 
2.43.0


From bfbb118c1bd94f62b59633fcdf5c00d3bb5c9122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 29/50] fix: SafeStrcpyN must stop at the end of the source,
 and terminate for n = 0

---
 amtl/am-string.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amtl/am-string.h b/amtl/am-string.h
index d5d2178..18e1cee 100644
--- a/amtl/am-string.h
+++ b/amtl/am-string.h
@@ -230,12 +230,12 @@ SafeStrcat(char* dest, size_t maxlength, const char* src)
 static inline size_t
 SafeStrcpyN(char* dest, size_t maxlength, const char* src, size_t n)
 {
-    if (!dest || !maxlength || !n)
+    if (!dest || !maxlength)
         return 0;
 
     char* iter = dest;
     size_t count = maxlength;
-    while (--count && n--)
+    while (--count && n-- && *src)
         *iter++ = *src++;
     *iter = '\0';
 
-- 
2.43.0


From c56f80514dc472b28557839d965509b94afed1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 30/50] fix: SafeVsprintf must not report a formatting failure
 as truncated output

---
 amtl/am-string.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/amtl/am-string.h b/amtl/am-string.h
index 18e1cee..d7bcc7f 100644
--- a/amtl/am-string.h
+++ b/amtl/am-string.h
@@ -155,8 +155,16 @@ SafeVsprintf(char* buffer, size_t maxlength, const char* fmt, va_list ap)
     if (!maxlength)
         return 0;
 
-    size_t len = KE_VSNPRINTF(buffer, maxlength, fmt, ap);
+    int rv = KE_VSNPRINTF(buffer, maxlength, fmt, ap);
+#if !defined(_MSC_VER)
+    // Formatting failed. (_vsnprintf also returns a negative value if it truncates.)
+    if (rv < 0) {
+        buffer[0] = '\0';
+        return 0;
+    }
+#endif
 
+    size_t len = size_t(rv);
     if (len >= maxlength) {
         buffer[maxlength - 1] = '\0';
         return maxlength - 1;
-- 
2.43.0


From 9fbaf3f3925261fbea7724dce3416d5a8cb771fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 31/50] fix: Split must not cut a std::string at an embedded
 null character

---
 amtl/am-string.h | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/amtl/am-string.h b/amtl/am-string.h
index d7bcc7f..f604e4e 100644
--- a/amtl/am-string.h
+++ b/amtl/am-string.h
@@ -292,7 +292,26 @@ Split(const char* str, const char* split)
 static inline std::vector<std::string>
 Split(const std::string& str, const char* split)
 {
-    return ke::Split(str.c_str(), split);
+    size_t split_len = strlen(split);
+    assert(split_len > 0);
+
+    std::vector<std::string> out;
+
+    // Unlike strstr(), find() does not stop at embedded null characters.
+    size_t cursor = 0;
+    size_t match = std::string::npos;
+    while (cursor < str.size()) {
+        match = str.find(split, cursor, split_len);
+        if (match == std::string::npos)
+            break;
+
+        out.emplace_back(str, cursor, match - cursor);
+        cursor = match + split_len;
+    }
+
+    if (cursor < str.size() || match != std::string::npos)
+        out.emplace_back(str, cursor, std::string::npos);
+    return out;
 }
 
 // Given a list of strings, return a string combining them all with |sep|
-- 
2.43.0


From 2c40b1e37888e9989eaac64f1daacc341c17b824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:50 +0000
Subject: [PATCH 32/50] fix: argparser must reject an unknown option prefixed
 with --no-

---
 amtl/experimental/am-argparser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index 43a3e32..271cbf8 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -671,7 +671,7 @@ Parser::parse_impl(const std::vector<const char*>& args)
 
             if (!option && strncmp(arg, "--no-", 5) == 0) {
                 option = find_long(&arg[5], len - 5);
-                if (option->canPrefixWithNo())
+                if (option && option->canPrefixWithNo())
                     value_ptr = "false";
                 else
                     option = nullptr;
-- 
2.43.0


From 8b1ffdf75b330951ef1ef7b630d800e945c15cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:50 +0000
Subject: [PATCH 33/50] fix: argparser must reject integers out of range
 instead of truncating them

---
 amtl/experimental/am-argparser.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index 271cbf8..dd9907c 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -30,6 +30,8 @@
 #define _include_amtl_am_argparser_h_
 
 #include <assert.h>
+#include <errno.h>
+#include <limits.h>
 #include <stdio.h>
 
 #include <algorithm>
@@ -538,9 +540,13 @@ template <>
 struct ValuePolicy<int> : public BaseValuePolicy {
     static bool consumeValue(const char* arg, int* out) {
         char* endptr = nullptr;
-        *out = strtol(arg, &endptr, 10);
+        errno = 0;
+        long value = strtol(arg, &endptr, 10);
         if (endptr == arg || *endptr != '\0')
             return false;
+        if (errno == ERANGE || value < INT_MIN || value > INT_MAX)
+            return false;
+        *out = int(value);
         return true;
     }
 };
-- 
2.43.0


From ec6e38e5cb2e58c79ae96427b7e2910c3ffe59e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:50 +0000
Subject: [PATCH 34/50] fix: argparser must pass through a second --

---
 amtl/experimental/am-argparser.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index dd9907c..27e29d0 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -634,14 +634,14 @@ Parser::parse_impl(const std::vector<const char*>& args)
         const char* arg = args[i];
         IOption* option = nullptr;
 
-        if (allow_passthrough_args_ && !strcmp(arg, "--")) {
-            has_passthrough_args_ = true;
-            continue;
-        }
         if (has_passthrough_args_) {
             passthrough_args_.emplace_back(arg);
             continue;
         }
+        if (allow_passthrough_args_ && !strcmp(arg, "--")) {
+            has_passthrough_args_ = true;
+            continue;
+        }
 
         const char* value_ptr = nullptr;
         if (arg[0] == '-' || (allow_slashes_ && arg[0] == '/')) {
-- 
2.43.0


From b5997e2ff45ad02c201fe0890db5409ac0e190dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:50 +0000
Subject: [PATCH 35/50] fix: argparser must reject an invalid attached value of
 an option with an optional value

---
 amtl/experimental/am-argparser.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index 27e29d0..b070e81 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -722,10 +722,9 @@ Parser::parse_impl(const std::vector<const char*>& args)
         }
 
         if (!option->consumeValue(value_ptr)) {
-            if (!option->canOmitValue())
+            if (!option->canOmitValue() || !took_next_arg)
                 return option_invalid_value(option, value_ptr);
-            if (took_next_arg)
-                i--;
+            i--;
         }
 
         if (option->haltOnValue()) {
-- 
2.43.0


From f15c3815b1204bac56ce03588ac4fdd101f9dc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:50 +0000
Subject: [PATCH 36/50] fix: argparser must set an option whose optional value
 is omitted before another argument

---
 amtl/experimental/am-argparser.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index b070e81..2455333 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -724,7 +724,10 @@ Parser::parse_impl(const std::vector<const char*>& args)
         if (!option->consumeValue(value_ptr)) {
             if (!option->canOmitValue() || !took_next_arg)
                 return option_invalid_value(option, value_ptr);
+            // The next argument is not a value, so the value was omitted.
             i--;
+            if (!option->consumeValue(nullptr))
+                return option_needs_value(option);
         }
 
         if (option->haltOnValue()) {
-- 
2.43.0


From 4b11504d3a51a998902554d003e4c82750ee5378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:50 +0000
Subject: [PATCH 37/50] fix: argparser must accept -key:value where the value
 contains '='

---
 amtl/experimental/am-argparser.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index 2455333..be18d78 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -656,9 +656,7 @@ Parser::parse_impl(const std::vector<const char*>& args)
             //   -keyval
             //   -key:val
             size_t len = strlen(arg);
-            const char* sep = strchr(arg, '=');
-            if (!sep && inline_values_)
-                sep = strchr(arg, ':');
+            const char* sep = strpbrk(arg, inline_values_ ? "=:" : "=");
             if (inline_values_ && sep && strlen(sep + 1) == 0)
                 sep = nullptr;    // Don't allow -key= or -key: with no arg.
             if (sep)
-- 
2.43.0


From 264645622c8191424ca3ba431a899f8682162252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:50 +0000
Subject: [PATCH 38/50] fix: argparser reset() must forget the error, extra and
 passthrough arguments

---
 amtl/experimental/am-argparser.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index be18d78..37a7cb9 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -1045,6 +1045,11 @@ Parser::reset()
         option->reset();
     if (help_option_)
         help_option_->reset();
+
+    error_.clear();
+    has_passthrough_args_ = false;
+    extra_args_.clear();
+    passthrough_args_.clear();
 }
 
 } // namespace args
-- 
2.43.0


From c9eb0babb8b9dd6d0608296cf874b0ca3cfb513e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:30 +0000
Subject: [PATCH 39/50] fix: argparser usage must not crash on an argument
 vector without a program name

---
 amtl/experimental/am-argparser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index 37a7cb9..eeafa2b 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -1017,7 +1017,7 @@ Parser::usage_line(char** argv, FILE* out)
     std::vector<std::string> words;
 
     words.emplace_back("Usage:");
-    words.emplace_back(argv ? argv[0] : " ");
+    words.emplace_back(argv && argv[0] ? argv[0] : " ");
     if (usage_line_.empty()) {
         words.emplace_back("[-h]");
         for (IOption* option : positionals_)
-- 
2.43.0


From a8cad58e1d7aaf2a8717f273e67e8b1d48141da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:26 +0000
Subject: [PATCH 40/50] fix: TimespecToDuration must not overflow for
 representable negative times

---
 amtl/am-time.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amtl/am-time.h b/amtl/am-time.h
index 35fd496..03cb915 100644
--- a/amtl/am-time.h
+++ b/amtl/am-time.h
@@ -44,6 +44,11 @@ namespace ke {
 static inline constexpr std::chrono::nanoseconds 
 TimespecToDuration(timespec ts)
 {
+    // Just above the minimum, the seconds alone would overflow.
+    if (ts.tv_sec < 0 && ts.tv_nsec > 0)
+        return std::chrono::seconds{ts.tv_sec + 1} +
+               (std::chrono::nanoseconds{ts.tv_nsec} - std::chrono::seconds{1});
+
     auto duration = std::chrono::seconds{ts.tv_sec} + std::chrono::nanoseconds{ts.tv_nsec};
     return std::chrono::duration_cast<std::chrono::nanoseconds>(duration);
 }
-- 
2.43.0


From db8924faa4a96a182fe9bd083ea8613075a8d59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:38 +0000
Subject: [PATCH 41/50] fix: VirtualRefcountedThreadsafe must destroy the
 object with its last reference

---
 amtl/am-refcounting-threadsafe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-refcounting-threadsafe.h b/amtl/am-refcounting-threadsafe.h
index adb2e5d..7641dbb 100644
--- a/amtl/am-refcounting-threadsafe.h
+++ b/amtl/am-refcounting-threadsafe.h
@@ -95,7 +95,7 @@ class VirtualRefcountedThreadsafe : public IRefcounted
         refcount_ += 1;
     }
     void Release() override {
-        if (refcount_.fetch_sub(1) == 0) {
+        if (refcount_.fetch_sub(1) == 1) {
             assert(refcount_.load() == 0);
 #if !defined(NDEBUG)
             destroying_ = true;
-- 
2.43.0


From 8dcceab547152e602761237a039b378fe94298e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 42/50] fix: AtomicRef must acquire when it takes its lock

---
 amtl/am-refcounting-threadsafe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-refcounting-threadsafe.h b/amtl/am-refcounting-threadsafe.h
index 7641dbb..475c8fb 100644
--- a/amtl/am-refcounting-threadsafe.h
+++ b/amtl/am-refcounting-threadsafe.h
@@ -181,7 +181,7 @@ class AtomicRef
         // indefinitely waiting for it to become unlocked. So we must have a
         // strong guarantee on failure.
         void* oldval = untagged(thing_);
-        while (!thing_.compare_exchange_strong(oldval, tagged(oldval), std::memory_order_release,
+        while (!thing_.compare_exchange_strong(oldval, tagged(oldval), std::memory_order_acquire,
                                                std::memory_order_relaxed))
         {
             std::this_thread::yield();
-- 
2.43.0


From d2b9bf5f46ed821368790d5f482cfb64eef4ea47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 43/50] fix: Mutex::try_lock must record the owner

---
 amtl/am-mutex.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/amtl/am-mutex.h b/amtl/am-mutex.h
index 38d5940..066cfe9 100644
--- a/amtl/am-mutex.h
+++ b/amtl/am-mutex.h
@@ -48,6 +48,13 @@ class Mutex : public std::mutex
        owner_ = std::this_thread::get_id();
     };
 
+    bool try_lock() {
+       if (!std::mutex::try_lock())
+           return false;
+       owner_ = std::this_thread::get_id();
+       return true;
+    }
+
     void unlock() {
        owner_ = {};
        std::mutex::unlock();
-- 
2.43.0


From 72e223fb599537b10be36da6ae7c4ec5215996a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:13 +0000
Subject: [PATCH 44/50] fix: Mutex must not race with itself when a non-owner
 asserts ownership

---
 amtl/am-mutex.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amtl/am-mutex.h b/amtl/am-mutex.h
index 066cfe9..f8b3b2d 100644
--- a/amtl/am-mutex.h
+++ b/amtl/am-mutex.h
@@ -31,6 +31,7 @@
 
 #include <assert.h>
 
+#include <atomic>
 #include <mutex>
 #include <thread>
 
@@ -56,7 +57,7 @@ class Mutex : public std::mutex
     }
 
     void unlock() {
-       owner_ = {};
+       owner_ = std::thread::id();
        std::mutex::unlock();
     }
 
@@ -65,7 +66,8 @@ class Mutex : public std::mutex
     }
 
   private:
-    std::thread::id owner_ = {};
+    // Threads that do not own the mutex read this while the owner writes it.
+    std::atomic<std::thread::id> owner_{std::thread::id()};
 #endif
 };
 
-- 
2.43.0


From a6ce2647ad25d6b8789f0e815f1330e1537e0dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:27 +0000
Subject: [PATCH 45/50] fix: ThreadLocal must not use its slot before it has
 got one

---
 amtl/am-threadlocal.h | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/amtl/am-threadlocal.h b/amtl/am-threadlocal.h
index 9634d55..897a62b 100644
--- a/amtl/am-threadlocal.h
+++ b/amtl/am-threadlocal.h
@@ -31,10 +31,12 @@
 #define _include_amtl_thread_local_h_
 
 #include <amtl/am-utility.h>
+#include <atomic>
 #include <stddef.h>
 #include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <thread>
 
 #ifdef _WIN32
 # include <windows.h>
@@ -92,20 +94,34 @@ class ThreadLocal
 
 #if !defined(KE_SINGLE_THREADED)
   private:
-    volatile int allocated_;
+    // key_ belongs to the allocating thread until the state becomes kAllocated.
+    enum State { kUnallocated, kAllocating, kAllocated };
+    std::atomic<int> allocated_;
 
   public:
-    ThreadLocal() {
-        allocated_ = 0;
-    }
+    ThreadLocal()
+     : allocated_(kUnallocated)
+    {}
 
     T get() const {
-        if (!allocated_)
+        if (allocated_ != kAllocated)
             return T();
         return internalGet();
     }
+    bool allocate() {
+        int state = kUnallocated;
+        while (!allocated_.compare_exchange_strong(state, kAllocating)) {
+            if (state == kAllocated)
+                return true;
+            std::this_thread::yield();
+            state = kUnallocated;
+        }
+        bool created = createKey();
+        allocated_ = created ? kAllocated : kUnallocated;
+        return created;
+    }
     void set(const T& t) {
-        if (!allocated_ && !allocate()) {
+        if (allocated_ != kAllocated && !allocate()) {
             fprintf(stderr, "could not allocate thread-local storage\n");
             abort();
         }
@@ -114,7 +130,7 @@ class ThreadLocal
 
 #    if defined(_MSC_VER)
     ~ThreadLocal() {
-        if (allocated_)
+        if (allocated_ == kAllocated)
             TlsFree(key_);
     }
 
@@ -125,9 +141,7 @@ class ThreadLocal
     void internalSet(const T& t) {
         TlsSetValue(key_, cast_to_pointer<T>::cast(t));
     }
-    bool allocate() {
-        if (InterlockedCompareExchange((volatile LONG*)&allocated_, 1, 0) == 1)
-            return true;
+    bool createKey() {
         key_ = TlsAlloc();
         return key_ != TLS_OUT_OF_INDEXES;
     }
@@ -137,17 +151,14 @@ class ThreadLocal
 #    else
   public:
     ~ThreadLocal() {
-        if (allocated_)
+        if (allocated_ == kAllocated)
             pthread_key_delete(key_);
     }
 
-    bool allocate() {
-        if (!__sync_bool_compare_and_swap(&allocated_, 0, 1))
-            return true;
+  private:
+    bool createKey() {
         return pthread_key_create(&key_, nullptr) == 0;
     }
-
-  private:
     T internalGet() const {
         return (T) reinterpret_cast<uintptr_t>(pthread_getspecific(key_));
     }
-- 
2.43.0


From 72dc3e28e720565001e27e38aeede4c134bf3dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:14 +0000
Subject: [PATCH 46/50] fix: ThreadLocal must not lose a value that cannot be
 stored

---
 amtl/am-threadlocal.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/amtl/am-threadlocal.h b/amtl/am-threadlocal.h
index 897a62b..4d4abe2 100644
--- a/amtl/am-threadlocal.h
+++ b/amtl/am-threadlocal.h
@@ -125,7 +125,10 @@ class ThreadLocal
             fprintf(stderr, "could not allocate thread-local storage\n");
             abort();
         }
-        internalSet(t);
+        if (!internalSet(t)) {
+            fprintf(stderr, "could not store a thread-local value\n");
+            abort();
+        }
     }
 
 #    if defined(_MSC_VER)
@@ -138,8 +141,8 @@ class ThreadLocal
     T internalGet() const {
         return (T)reinterpret_cast<uintptr_t>(TlsGetValue(key_));
     }
-    void internalSet(const T& t) {
-        TlsSetValue(key_, cast_to_pointer<T>::cast(t));
+    bool internalSet(const T& t) {
+        return !!TlsSetValue(key_, cast_to_pointer<T>::cast(t));
     }
     bool createKey() {
         key_ = TlsAlloc();
@@ -162,8 +165,8 @@ class ThreadLocal
     T internalGet() const {
         return (T) reinterpret_cast<uintptr_t>(pthread_getspecific(key_));
     }
-    void internalSet(const T& t) {
-        pthread_setspecific(key_, reinterpret_cast<void*>(t));
+    bool internalSet(const T& t) {
+        return pthread_setspecific(key_, reinterpret_cast<void*>(t)) == 0;
     }
 
     pthread_key_t key_;
-- 
2.43.0


From a46d934f0ab16f1e952fc8bbfd1507b0d9e24446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:01 +0000
Subject: [PATCH 47/50] fix: FloatModulo of zero on Windows must be NaN for a
 zero or NaN divisor

---
 amtl/am-float.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-float.h b/amtl/am-float.h
index b1ec9db..7e71d62 100644
--- a/amtl/am-float.h
+++ b/amtl/am-float.h
@@ -127,7 +127,7 @@ FloatModulo(T left, T right)
     // Windows fmod() does not follow the contract above, in that:
     //  42 % Infinity => NaN, instead of 42, and
     //  -0 % -N => 0, instead of -0.
-    if ((!IsInfinite(left) && IsInfinite(right)) || (left == 0 && !IsInfinite(right))) {
+    if ((!IsInfinite(left) && IsInfinite(right)) || (left == 0 && right != 0 && !IsNaN(right))) {
         return left;
     }
 #endif
-- 
2.43.0


From 2577c3c6c2355653743b5b0713e703dbb39cdfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:01 +0000
Subject: [PATCH 48/50] fix: SetThreadName on Windows must release kernel32.dll
 if it cannot name threads

---
 amtl/am-thread.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/amtl/am-thread.h b/amtl/am-thread.h
index 7f3f71d..602e015 100644
--- a/amtl/am-thread.h
+++ b/amtl/am-thread.h
@@ -60,8 +60,10 @@ static void SetThreadName(HANDLE thread, const char* name) {
 
     typedef HRESULT (WINAPI * SetThreadDescriptionFn)(HANDLE, PCWSTR);
     auto fn = (SetThreadDescriptionFn)GetProcAddress(module, "SetThreadDescription");
-    if (!fn)
+    if (!fn) {
+        FreeLibrary(module);
         return;
+    }
 
     std::wstring_convert<std::codecvt_utf8_utf16<wchar_t>> converter;
     std::wstring utf16 = converter.from_bytes(name);
-- 
2.43.0


From 31dca5bbed4e5d1d8c12d4d1872b7ae22315de27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:01 +0000
Subject: [PATCH 49/50] fix: SetThreadName on Windows must not throw for a name
 that is not UTF-8

---
 amtl/am-thread.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amtl/am-thread.h b/amtl/am-thread.h
index 602e015..4cd161d 100644
--- a/amtl/am-thread.h
+++ b/amtl/am-thread.h
@@ -65,7 +65,8 @@ static void SetThreadName(HANDLE thread, const char* name) {
         return;
     }
 
-    std::wstring_convert<std::codecvt_utf8_utf16<wchar_t>> converter;
+    // A name that is not valid UTF-8 is dropped, instead of throwing an exception.
+    std::wstring_convert<std::codecvt_utf8_utf16<wchar_t>> converter("", L"");
     std::wstring utf16 = converter.from_bytes(name);
     fn(thread, utf16.c_str());
 	
-- 
2.43.0


From 6dbd5e02596e129e4a4c9f736f13fcce44cbd8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:01 +0000
Subject: [PATCH 50/50] fix: KE_CRITICAL_LIKELY must keep its condition
 together on other compilers

---
 amtl/am-utility.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-utility.h b/amtl/am-utility.h
index 8df3745..1f2763c 100644
--- a/amtl/am-utility.h
+++ b/amtl/am-utility.h
@@ -59,7 +59,7 @@ MemsetZero(T* t) {
 #if defined(__GNUC__)
 #    define KE_CRITICAL_LIKELY(x) __builtin_expect(!!(x), 1)
 #else
-#    define KE_CRITICAL_LIKELY(x) x
+#    define KE_CRITICAL_LIKELY(x) (x)
 #endif
 
 template <typename T>
-- 
2.43.0

