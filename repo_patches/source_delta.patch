From 0c37e711e60d77456b7413c953ffdb23b6031783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:34 +0000
Subject: [PATCH 01/47] fix: WidthMask(64) shifts by the word width

Shifting a 64-bit value by 64 is undefined; on x86 it gave an empty mask
instead of a full one.
---
 include/sim_ds/bit_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/bit_util.hpp b/include/sim_ds/bit_util.hpp
index f208c75..04ccaed 100644
--- a/include/sim_ds/bit_util.hpp
+++ b/include/sim_ds/bit_util.hpp
@@ -32,7 +32,7 @@ inline constexpr mask_type width_mask<64> = kMaskFill;
 
 inline constexpr mask_type WidthMask(size_t width) {
     assert(width <= kMaxWidthOfMask);
-    return (1ull << width) - 1;
+    return width < kMaxWidthOfMask ? (1ull << width) - 1 : kMaskFill;
 }
 
 template <size_t Offset>
-- 
2.43.0


From a58dbbc8e0ac1f87a93fedbfa3ef32d17a119d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:34 +0000
Subject: [PATCH 02/47] fix: portable popcnt32 overflows its nibble sums

When the even or the odd nibbles together hold 16 one bits (0x0F0F0F0F,
0xFFFFFFFF, ...) the 4-bit sum wrapped to 0, which also broke sel().
---
 include/sim_ds/bit_util.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/bit_util.hpp b/include/sim_ds/bit_util.hpp
index 04ccaed..a187327 100644
--- a/include/sim_ds/bit_util.hpp
+++ b/include/sim_ds/bit_util.hpp
@@ -79,7 +79,8 @@ inline uint32_t popcnt32(uint32_t x) {
 #else
     x = x-((x>>1) & 0x55555555ull);
     x = (x & 0x33333333ull) + ((x>>2) & 0x33333333ull);
-    return (0x10101010*x >>28)+(0x01010101*x >>28);
+    x = (x + (x >> 4)) & 0x0F0F0F0F;
+    return 0x01010101*x >> 24;
 #endif
 }
 
-- 
2.43.0


From 23c8bdfec1889649d8bfb3cb7959d7d1b2c5ca76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:34 +0000
Subject: [PATCH 03/47] fix: portable 32-bit clz is off by 32

The 32-bit overload complemented its count against 63.
---
 include/sim_ds/bit_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/bit_util.hpp b/include/sim_ds/bit_util.hpp
index a187327..0c573bd 100644
--- a/include/sim_ds/bit_util.hpp
+++ b/include/sim_ds/bit_util.hpp
@@ -294,7 +294,7 @@ inline int clz(uint32_t x) {
     if (x & 0xAAAAAAAA) {
         c |= 1;
     }
-    return c ^ 63;
+    return c ^ 31;
 #endif
 }
     
-- 
2.43.0


From 64c64ecf9ed0f831e6a1dbca94a6c1fe28b2cf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:34 +0000
Subject: [PATCH 04/47] fix: sel does not compile with BMI2

_pdep_u64 returns unsigned long long, so the call of the overloaded ctz was
ambiguous and the header failed to compile with -mbmi2.
---
 include/sim_ds/bit_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/bit_util.hpp b/include/sim_ds/bit_util.hpp
index 0c573bd..d8f0f6e 100644
--- a/include/sim_ds/bit_util.hpp
+++ b/include/sim_ds/bit_util.hpp
@@ -511,7 +511,7 @@ constexpr uint8_t kLtSel[9][256] = {
 /* Select operation for 1 index at byte */
 inline int sel(uint64_t x, size_t i) {
 #ifdef __BMI2__
-    return ctz(_pdep_u64(1ull << (i-1), x)) + 1; // for 1 index
+    return ctz(uint64_t(_pdep_u64(1ull << (i-1), x))) + 1; // for 1 index
 #else
     size_t ret = 0;
     auto bit_cnt = bit_util::popcnt32(x);
-- 
2.43.0


From e30684a67d6b8561e5490250ec77d23c6b422975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:34 +0000
Subject: [PATCH 05/47] fix: clz256 counts the words below the highest set one

The leading zeros are those of the words above it.
---
 include/sim_ds/bit_util256.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/bit_util256.hpp b/include/sim_ds/bit_util256.hpp
index a32e93b..4d4ce17 100644
--- a/include/sim_ds/bit_util256.hpp
+++ b/include/sim_ds/bit_util256.hpp
@@ -76,7 +76,7 @@ inline int ctz256(const uint64_t* x_addr) {
 
 inline int clz256(const uint64_t* x_addr) {
     for (int i = 3; i >= 0; i--) if (*(x_addr+i))
-        return 64 * i + clz(*(x_addr+i));
+        return 64 * (3 - i) + clz(*(x_addr+i));
     return 256;
 }
 
-- 
2.43.0


From b4a985ea3876a06d2032968abb5dd986747f9d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:37 +0000
Subject: [PATCH 06/47] fix: SizeFitsInUnits does not end for values that use
 the top unit

---
 include/sim_ds/calc.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/calc.hpp b/include/sim_ds/calc.hpp
index 3920af7..fbafce2 100644
--- a/include/sim_ds/calc.hpp
+++ b/include/sim_ds/calc.hpp
@@ -14,8 +14,9 @@ namespace sim_ds::calc {
 
 /* Calculate minimal number of units of argument required for value expression. */
 inline constexpr size_t SizeFitsInUnits(unsigned long long value, const size_t unit) {
-    size_t size = 0;
-    while (static_cast<bool>(value >> (++size * unit))) continue;
+    const size_t value_bits = sizeof(value) * 8;
+    size_t size = 1;
+    while (size * unit < value_bits && static_cast<bool>(value >> (size * unit))) size++;
     return size;
 }
 
-- 
2.43.0


From 2c8c9466ad736530feea8a8043786241d1ac1b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:37 +0000
Subject: [PATCH 07/47] fix: the DAC layer plan reads and writes one entry past
 its arrays

---
 include/sim_ds/calc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/calc.hpp b/include/sim_ds/calc.hpp
index fbafce2..b6722ce 100644
--- a/include/sim_ds/calc.hpp
+++ b/include/sim_ds/calc.hpp
@@ -121,7 +121,7 @@ inline void split_positions_optimized_for_dac(const Container& list, std::vector
     std::vector<size_t> bk;
     bk.reserve(8);
     bk.resize(L);
-    for (size_t k = 0; k <= L; k++) {
+    for (size_t k = 0; k < L; k++) {
         bk[k] = b[t];
         t = t + b[t];
     }
-- 
2.43.0


From fa578efce738a6d86fa125de6fb49403c8cd3220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 08/47] fix: rank(size()) reads the word behind the bit vector

---
 include/sim_ds/SuccinctBitVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/SuccinctBitVector.hpp b/include/sim_ds/SuccinctBitVector.hpp
index 7e3ea33..3adbf8a 100644
--- a/include/sim_ds/SuccinctBitVector.hpp
+++ b/include/sim_ds/SuccinctBitVector.hpp
@@ -133,7 +133,7 @@ SuccinctBitVector<UseSelect>::rank_1(const size_t index) const {
     size_t block_index = index / 512 * 2;
     return (basic_block_[block_index] +
             ((basic_block_[block_index+1] >> (63-9*((index/64)%8))) & bit_util::width_mask<9>) +
-            bit_util::cnt(bits_.data()[index/64], index%64));
+            (index % 64 == 0 ? 0 : bit_util::cnt(bits_.data()[index/64], index%64)));
 }
 
 
-- 
2.43.0


From 0db123364ee3c3c3e44bf0bd4ce058711c396e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 09/47] fix: a default-constructed SuccinctBitVector has no
 rank block

---
 include/sim_ds/SuccinctBitVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/SuccinctBitVector.hpp b/include/sim_ds/SuccinctBitVector.hpp
index 3adbf8a..d12f7bb 100644
--- a/include/sim_ds/SuccinctBitVector.hpp
+++ b/include/sim_ds/SuccinctBitVector.hpp
@@ -20,7 +20,7 @@ private:
     /* Contains large/small block as follows:
      * || large tip - 64bits - || small tip reversal - 9bits - | ... * 8||   -- 127bits per block
      */
-    std::vector<uint64_t> basic_block_;
+    std::vector<uint64_t> basic_block_ = {0, 0};
     // Available if only UseSelect
     std::vector<uint32_t> select_tips_;
     
-- 
2.43.0


From 10e4dc583b8c0288029b67a1480516c55ca8809f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:28 +0000
Subject: [PATCH 10/47] fix: select reads behind its tips when the last block
 crosses a threshold

---
 include/sim_ds/SuccinctBitVector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sim_ds/SuccinctBitVector.hpp b/include/sim_ds/SuccinctBitVector.hpp
index d12f7bb..681fb66 100644
--- a/include/sim_ds/SuccinctBitVector.hpp
+++ b/include/sim_ds/SuccinctBitVector.hpp
@@ -123,6 +123,8 @@ SuccinctBitVector<UseSelect>::SuccinctBitVector(BitVector&& bits) : bits_(std::f
                 sum_threshold += 512;
             }
         }
+        // Twice, because the last threshold may be crossed inside of the last block.
+        select_tips_.push_back(basic_block_size - 1);
         select_tips_.push_back(basic_block_size - 1);
     }
 }
-- 
2.43.0


From b165d4b0086524a0022e96ec4679cc3246d0ed21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:28 +0000
Subject: [PATCH 11/47] fix: assigning an initializer list to a block reference
 returns nothing

---
 include/sim_ds/MultipleVector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sim_ds/MultipleVector.hpp b/include/sim_ds/MultipleVector.hpp
index 87746f7..8e73c4e 100644
--- a/include/sim_ds/MultipleVector.hpp
+++ b/include/sim_ds/MultipleVector.hpp
@@ -65,6 +65,7 @@ public:
         size_t i = 0;
         for (auto v : x)
             set_at(i++, v);
+        return *this;
     }
     
 private:
-- 
2.43.0


From 5774cde461d8d158fef7e73bd17925fc50fb1f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:28 +0000
Subject: [PATCH 12/47] fix: set_at shifts values narrower than the element by
 more than their width

---
 include/sim_ds/MultipleVector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/MultipleVector.hpp b/include/sim_ds/MultipleVector.hpp
index 8e73c4e..25a3dc6 100644
--- a/include/sim_ds/MultipleVector.hpp
+++ b/include/sim_ds/MultipleVector.hpp
@@ -103,7 +103,7 @@ private:
         
         auto relative_pointer = pointer_ + element_table_[Id].pos;
         for (size_t i = 0; i < width; i++)
-            *(relative_pointer + i) = static_cast<storage_type>(value >> (i * kBitsPerWord));
+            *(relative_pointer + i) = static_cast<storage_type>(static_cast<id_type>(value) >> (i * kBitsPerWord));
         
         return value;
     }
@@ -113,7 +113,7 @@ private:
         auto relative_pointer = pointer_ + element_table_[id].pos;
         auto width = element_table_[id].size;
         for (size_t i = 0; i < width; i++)
-            *(relative_pointer + i) = static_cast<storage_type>(value >> (i * kBitsPerWord));
+            *(relative_pointer + i) = static_cast<storage_type>(static_cast<id_type>(value) >> (i * kBitsPerWord));
         
         return value;
     }
-- 
2.43.0


From 9bf389e498465cac59736109726fe5f69f3071b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:28 +0000
Subject: [PATCH 13/47] fix: set_element_sizes appends to the element table it
 should replace

---
 include/sim_ds/MultipleVector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sim_ds/MultipleVector.hpp b/include/sim_ds/MultipleVector.hpp
index 25a3dc6..17624f9 100644
--- a/include/sim_ds/MultipleVector.hpp
+++ b/include/sim_ds/MultipleVector.hpp
@@ -239,6 +239,7 @@ public:
     template <typename T>
     void set_element_sizes(std::vector<T> sizes) {
         size_t pos = 0;
+        element_table_.clear();
         element_table_.reserve(sizes.size());
         for (auto size : sizes) {
             element_table_.emplace_back(pos, size);
-- 
2.43.0


From fc5f7a9fa025f1acc6376ac3f64f700b2aba2585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:33 +0000
Subject: [PATCH 14/47] fix: an empty DacVector has no first layer to ask for
 its size

---
 include/sim_ds/DacVector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sim_ds/DacVector.hpp b/include/sim_ds/DacVector.hpp
index d58f76e..b9c1f04 100644
--- a/include/sim_ds/DacVector.hpp
+++ b/include/sim_ds/DacVector.hpp
@@ -121,13 +121,13 @@ public:
     }
     
 private:
-    size_t num_layers_;
+    size_t num_layers_ = 0;
     std::vector<size_t> layers_unit_bits_;
     std::vector<layer_type> layers_;
     std::vector<rank_support_bv_type> paths_;
     
 public:
-    DacVector() : num_layers_(0), layers_unit_bits_(8, 8), layers_(8, layer_type(8)), paths_(7) {}
+    DacVector() = default;
     
     template <typename T>
     DacVector(const std::vector<T>& vector) : DacVector(vector, std::vector<size_t>{}) {}
@@ -141,7 +141,7 @@ public:
     
     // MARK: getter
     
-    size_t size() const {return layers_[0].size();}
+    size_t size() const {return layers_.empty() ? 0 : layers_[0].size();}
     
     bool empty() const {return size() == 0;}
     
-- 
2.43.0


From ff82243cd06e6f7e78023c5554056e23b5f28ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:33 +0000
Subject: [PATCH 15/47] fix: DacVector layers beyond the longest element read
 past the frequency list

---
 include/sim_ds/DacVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/DacVector.hpp b/include/sim_ds/DacVector.hpp
index b9c1f04..e386c5f 100644
--- a/include/sim_ds/DacVector.hpp
+++ b/include/sim_ds/DacVector.hpp
@@ -268,7 +268,7 @@ DacVector::DacVector(const std::vector<T>& vector, const std::vector<S>& unit_bi
     { // Memory reservation
         std::vector<size_t> cf;
         calc::cummulative_frequency_list(vector, &cf);
-        for (size_t i = 0, t = 0; i < num_layers; t += layers_unit_bits_[i], i++) {
+        for (size_t i = 0, t = 0; i < num_layers && t < cf.size(); t += layers_unit_bits_[i], i++) {
             layers_[i].reserve(cf[t]);
             if (i < num_layers - 1)
                 paths_src_[i].reserve(cf[t]);
-- 
2.43.0


From 741ee83827118e1fbeff7d01115c871d80fa211a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:33 +0000
Subject: [PATCH 16/47] fix: a 64-bit DacVector layer shifts by the word width

---
 include/sim_ds/DacVector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/DacVector.hpp b/include/sim_ds/DacVector.hpp
index e386c5f..f26bd7c 100644
--- a/include/sim_ds/DacVector.hpp
+++ b/include/sim_ds/DacVector.hpp
@@ -278,7 +278,7 @@ DacVector::DacVector(const std::vector<T>& vector, const std::vector<S>& unit_bi
     for (auto v : vector) {
         value_type x = v;
         layers_[0].push_back(x & bit_util::WidthMask(layers_unit_bits_[0]));
-        x >>= layers_unit_bits_[0];
+        x = layers_unit_bits_[0] < 64 ? x >> layers_unit_bits_[0] : 0;
         for (size_t depth = 1; depth < num_layers; depth++) {
             bool exist = x > 0;
             paths_src_[depth - 1].push_back(exist);
@@ -286,7 +286,7 @@ DacVector::DacVector(const std::vector<T>& vector, const std::vector<S>& unit_bi
                 break;
             auto unit_bits = layers_unit_bits_[depth];
             layers_[depth].push_back(x & bit_util::WidthMask(unit_bits));
-            x >>= unit_bits;
+            x = unit_bits < 64 ? x >> unit_bits : 0;
         }
     }
     
-- 
2.43.0


From cf97b40887019cb39ec74737ca3c141728afd86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:33 +0000
Subject: [PATCH 17/47] fix: DacVector::ShowStatus reads a path that a
 single-layer vector lacks

---
 include/sim_ds/DacVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/DacVector.hpp b/include/sim_ds/DacVector.hpp
index f26bd7c..a79cb2b 100644
--- a/include/sim_ds/DacVector.hpp
+++ b/include/sim_ds/DacVector.hpp
@@ -230,7 +230,7 @@ public:
         os << "size:   " << size_bytes << endl;
         os << "sizeBits/element:   " << (float(size_bytes * 8) / size()) << endl;
         auto bitsSize = 0;
-        for (size_t i = 0; i == 0 || i + 1 < num_layers(); i++)
+        for (size_t i = 0; i + 1 < num_layers(); i++)
             bitsSize += paths_[i].size_in_bytes();
         os << "size bits:   " << bitsSize << endl;
         auto flowSize = 0;
-- 
2.43.0


From 2f50de7710c7e157c96f7cb9066ba9e782be9649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:46 +0000
Subject: [PATCH 18/47] fix: Heap::push shifts every element and breaks the
 heap order below the root

---
 include/sim_ds/Heap.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/Heap.hpp b/include/sim_ds/Heap.hpp
index 3c7f22d..9dd9bdb 100644
--- a/include/sim_ds/Heap.hpp
+++ b/include/sim_ds/Heap.hpp
@@ -63,8 +63,9 @@ public:
     }
     
     void push(id_type value) {
-        base_.insert(base_.begin(), value);
-        Heapify(root());
+        base_.push_back(value);
+        for (size_t id = size(); id > root() && Compare(base_[id - 1], base_[parent(id) - 1]); id = parent(id))
+            std::swap(base_[id - 1], base_[parent(id) - 1]);
     }
     
     void pop() {
-- 
2.43.0


From cbc1dd0ee692d520fffeb1f5871a926f5cb2a135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:03 +0000
Subject: [PATCH 19/47] fix: HeapSort of an empty range steps before its
 beginning

---
 include/sim_ds/sort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/sort.hpp b/include/sim_ds/sort.hpp
index 9f7f8d3..eea3eb3 100644
--- a/include/sim_ds/sort.hpp
+++ b/include/sim_ds/sort.hpp
@@ -23,7 +23,7 @@ public:
     HeapSorter(Iterator begin, Iterator end, Compare compare) : begin_(begin), end_(end), compare_(compare) {
         for (auto id = size() / 2; id > 0; --id)
             Heapify(id);
-        while (begin_ < end_ - 1) {
+        while (end_ - begin_ > 1) {
             std::swap(*begin_, *(end_ - 1));
             --end_;
             Heapify(1);
-- 
2.43.0


From 76b68d49413400f93adec5df9791c011fc8e26ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:40 +0000
Subject: [PATCH 20/47] fix: the bijective hash has no multipliers for its
 default width of 64

---
 include/sim_ds/BijectiveHash.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/BijectiveHash.hpp b/include/sim_ds/BijectiveHash.hpp
index 7f1f46f..a3dd402 100644
--- a/include/sim_ds/BijectiveHash.hpp
+++ b/include/sim_ds/BijectiveHash.hpp
@@ -88,7 +88,8 @@ constexpr uint64_t PRIME_TABLE[][2][3] = {
     {{1152921504606846883ULL, 1152921504606846803ULL, 1152921504606846697ULL}, {12397005425880075ULL, 566464323072728283ULL, 4132335141960025ULL}},  // 60
     {{2305843009213693951ULL, 2305843009213693669ULL, 2305843009213693613ULL}, {2305843009213693951ULL, 1768084568902373101ULL, 360500529464087845ULL}},  // 61
     {{4611686018427387733ULL, 4611686018427387421ULL, 4611686018427387271ULL}, {4557748170258646525ULL, 152768066863019061ULL, 1515372340968241207ULL}},  // 62
-    {{9223372036854775291ULL, 9223372036854775279ULL, 9223372036854775181ULL}, {3657236494304118067ULL, 2545580940228350223ULL, 3339243145719352645ULL}}  // 63
+    {{9223372036854775291ULL, 9223372036854775279ULL, 9223372036854775181ULL}, {3657236494304118067ULL, 2545580940228350223ULL, 3339243145719352645ULL}},  // 63
+    {{18446744073709551557ULL, 18446744073709551533ULL, 18446744073709551521ULL}, {3751880150584993549ULL, 6667497857967307813ULL, 12815632724892951649ULL}}  // 64
 };
 
 class MultiplyHash {
-- 
2.43.0


From 0cf7a66e4f3bfc4952fe9016b5678b181e4f2294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:23 +0000
Subject: [PATCH 21/47] fix: CHT::erase divides by the bucket bits instead of
 shifting

---
 include/sim_ds/CHT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index 49b7fe2..aff3222 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -175,7 +175,7 @@ public:
         }
 
         auto initial_h = hasher_.hash(key);
-        auto quo = initial_h / bucket_bits_;
+        auto quo = initial_h >> bucket_bits_;
         auto initial_i = initial_h & bucket_mask_;
         if (!IsOccupied(initial_i))
             return;
-- 
2.43.0


From 7fd38540bc40598d227636198481dea0173f1e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:23 +0000
Subject: [PATCH 22/47] fix: CHT::get finds erased keys

---
 include/sim_ds/CHT.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index aff3222..3aca0de 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -96,6 +96,8 @@ public:
         i = ToClusterHead(i);
         do {
             if (Quotient(i) == quo) {
+                if (IsDeleted(i))
+                    return {false, 0};
                 return {true, values_[i]};
             }
             i = succ(i);
-- 
2.43.0


From 56c7a3d13feef6440dfc91bc0d3ac7175436a911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:23 +0000
Subject: [PATCH 23/47] fix: CHT::set leaves the deleted flag behind when it
 moves an element

---
 include/sim_ds/CHT.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index 3aca0de..9b85688 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -142,8 +142,8 @@ public:
             do {
                 auto pj = pred(j);
                 arr_[j] = (
-                    (arr_[j] & (kOccupiedMask|kDeletedMask)) |
-                    (arr_[pj] & (quo_mask_|kContinuationMask)) |
+                    (arr_[j] & kOccupiedMask) |
+                    (arr_[pj] & (quo_mask_|kContinuationMask|kDeletedMask)) |
                     kShiftedMask
                 );
                 values_[j] = values_[pj];
-- 
2.43.0


From 7fdc1d4d9e13ff5f9068c99cbb76137c644cc2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:07 +0000
Subject: [PATCH 24/47] fix: a filled CHT without elements does not grow

---
 include/sim_ds/CHT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index 9b85688..4381acc 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -114,7 +114,7 @@ public:
         assert(64-bit_util::clz(value) <= values_.unit_width());
 
         if (IsFilled()) {
-            reserve(size()*2);
+            reserve(std::max<size_t>(size()*2, 1));
         }
 
         uint64_t initial_h = hasher_.hash(key);
-- 
2.43.0


From eccface95a9a0f61e5952ccd449a00f51d4433c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:09 +0000
Subject: [PATCH 25/47] fix: CDRWArray::set erases the old value from the table
 of the next width

---
 include/sim_ds/CDRWArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/CDRWArray.hpp b/include/sim_ds/CDRWArray.hpp
index b72ecfc..8d6d885 100644
--- a/include/sim_ds/CDRWArray.hpp
+++ b/include/sim_ds/CDRWArray.hpp
@@ -46,7 +46,7 @@ public:
         auto value_bits = 64-bit_util::clz((uint64_t)value);
         auto pw = widthes_[i];
         if (pw != 0 and pw != value_bits)
-            sat_table_[pw].erase(i);
+            sat_table_[pw-1].erase(i);
         widthes_[i] = value_bits;
         if (value_bits > 0)
             sat_table_[value_bits-1].set(i, value);
-- 
2.43.0


From 942eed5e4a6c21feb631e4a9b03a5656a929bce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:09 +0000
Subject: [PATCH 26/47] fix: CDRWVector::push_back does not grow an empty
 vector

---
 include/sim_ds/CDRWArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/CDRWArray.hpp b/include/sim_ds/CDRWArray.hpp
index 8d6d885..ae02127 100644
--- a/include/sim_ds/CDRWArray.hpp
+++ b/include/sim_ds/CDRWArray.hpp
@@ -99,7 +99,7 @@ public:
 
     void push_back(uint64_t value) {
         if (size() == cap_)
-            _allocate(size()*2);
+            _allocate(std::max<size_t>(size()*2, 1));
         size_++;
         set(size()-1, value);
     }
-- 
2.43.0


From 77aaeb9a1b9835dbc512cffba3562c7a20ab72d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:21 +0000
Subject: [PATCH 27/47] fix: InitializableArray of floating values follows its
 links as numbers

Links are stored as bit patterns; reading one as a floating value gives another index.
---
 include/sim_ds/InitializableArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/InitializableArray.hpp b/include/sim_ds/InitializableArray.hpp
index 94b48ae..0e87146 100644
--- a/include/sim_ds/InitializableArray.hpp
+++ b/include/sim_ds/InitializableArray.hpp
@@ -97,7 +97,7 @@ public:
             return k != kNoneBlock ? init_v_ : a_[i];
         } else { // Written Chained Area
             if (k != kNoneBlock) {
-                return i%2==0 ? a_[a_[i]+1] : a_[i];
+                return i%2==0 ? a_[2*k+1] : a_[i];
             } else {
                 return init_v_;
             }
-- 
2.43.0


From ff6292c0a96d7aa241989491c2e91cf7d287462a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:21 +0000
Subject: [PATCH 28/47] fix: KMP search reads behind its key after a match

The automaton stayed in the final state, which has no character to compare.
---
 include/sim_ds/string_util/PatternMatching.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index 249df70..f850d08 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -101,6 +101,7 @@ Kmp::find_all(std::string_view text) const {
         pos++;
         if (pos == difference_type(key_.size())) {
             matchies.push_back(i + 1 - key_.size());
+            pos = next_[pos];
         }
     }
     return matchies;
-- 
2.43.0


From 37be7508dba1e910349da6ddcc20f30bb0315860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:21 +0000
Subject: [PATCH 29/47] fix: Boyer-Moore search indexes its skip table with
 signed characters

and the table lacks an entry for 0xFF.
---
 include/sim_ds/string_util/PatternMatching.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index f850d08..7f79b74 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -115,9 +115,9 @@ private:
     std::vector<size_t> skip_;
     
 public:
-    Bm(std::string_view key) : _PatternMatchingBase(key), skip_(0xFF, key.size()) {
+    Bm(std::string_view key) : _PatternMatchingBase(key), skip_(0x100, key.size()) {
         for (size_t i = 0; i < key.size() - 1; i++) {
-            skip_[key[i]] = key.size() - i - 1;
+            skip_[uint8_t(key[i])] = key.size() - i - 1;
         }
     }
     
@@ -141,7 +141,7 @@ Bm::find_all(std::string_view text) const {
         }
         if (k == -1) // match
             matchies.push_back(pos + 1);
-        i += skip_[text[i]];
+        i += skip_[uint8_t(text[i])];
         
     }
     return matchies;
-- 
2.43.0


From 22c7c745dab4d4ae0bf18dc1b09c5756bfb0454a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:21 +0000
Subject: [PATCH 30/47] fix: Sunday search indexes its shift table with signed
 characters

and the table lacks an entry for 0xFF.
---
 include/sim_ds/string_util/PatternMatching.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index 7f79b74..7617738 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -284,9 +284,9 @@ public:
     // Deltas like improved bm skip function
     SundayQS(std::string_view key) : Sunday(key) {
         const size_t kKeySize = key_.size();
-        td1_.assign(0xFF, kKeySize + 1);
+        td1_.assign(0x100, kKeySize + 1);
         for (size_t i = 0; i < key_.size(); i++)
-            td1_[key_[i]] = kKeySize - i;
+            td1_[uint8_t(key_[i])] = kKeySize - i;
     }
     
     size_t delta1(uint8_t type) const {return td1_[type];}
-- 
2.43.0


From c7ff02e543b826202e1890d9c1a7aa1a6be22e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:21 +0000
Subject: [PATCH 31/47] fix: Sunday search never matches bytes above 0x7F

Pattern characters were unsigned, those of key and text are signed.
---
 include/sim_ds/string_util/PatternMatching.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index 7617738..9a90dfd 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -245,7 +245,7 @@ TurboBom::find_all(std::string_view text) const {
 
 class Sunday : protected _PatternMatchingBase {
 protected:
-    using Pat = std::pair<difference_type, uint8_t>;
+    using Pat = std::pair<difference_type, char>;
     std::vector<Pat> pattern_;
     
 public:
-- 
2.43.0


From 3fb9aa11e045caf4939ad8e9bcb9e2ad96bc3713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:21 +0000
Subject: [PATCH 32/47] fix: Sunday search reads behind texts shorter than the
 key

---
 include/sim_ds/string_util/PatternMatching.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index 9a90dfd..dfaddda 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -300,6 +300,8 @@ SundayQS::find_all(std::string_view text) const {
     const size_t kKeySize = key_.size();
     
     std::vector<size_t> matchies;
+    if (text.size() < kKeySize)
+        return matchies;
     size_t i = 0;
     while (i <= text.size() - kKeySize) {
         size_t pos = 0;
@@ -372,6 +374,8 @@ SundayMS::find_all(std::string_view text) const {
     const size_t kKeySize = key_.size();
     
     std::vector<size_t> matchies;
+    if (text.size() < kKeySize)
+        return matchies;
     size_t i = 0;
     while (i <= text.size() - kKeySize) {
         size_t pos = 0;
-- 
2.43.0


From def9be2bb327462ffa1ace821aa7276e8c628a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:50 +0000
Subject: [PATCH 33/47] fix: FactorOracle reads behind its text in the final
 state

---
 include/sim_ds/string_util/FactorOracle.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/FactorOracle.hpp b/include/sim_ds/string_util/FactorOracle.hpp
index 4a07330..b43816a 100644
--- a/include/sim_ds/string_util/FactorOracle.hpp
+++ b/include/sim_ds/string_util/FactorOracle.hpp
@@ -244,6 +244,8 @@ public:
     
     id_type next(size_t index) const {return next_[index];}
     
+    size_t size() const {return check_.size();}
+    
 };
 
 
@@ -281,7 +283,7 @@ public:
     FactorOracle(InputIter begin, InputIter end) : Base(begin, end) {}
     
     bool image(size_t& state, uint8_t c) const {
-        if (Base::check(state + 1) == c) {
+        if (state < Base::size() and Base::check(state + 1) == c) {
             state++;
         } else {
             auto b = Base::base(state);
-- 
2.43.0


From 9e07c0fe90016731f77f6c9e7e859aff8b5d7e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:50 +0000
Subject: [PATCH 34/47] fix: FactorOracle of an empty text writes into an empty
 vector

---
 include/sim_ds/string_util/FactorOracle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/FactorOracle.hpp b/include/sim_ds/string_util/FactorOracle.hpp
index b43816a..94c957d 100644
--- a/include/sim_ds/string_util/FactorOracle.hpp
+++ b/include/sim_ds/string_util/FactorOracle.hpp
@@ -39,7 +39,7 @@ private:
         
 //        std::cerr << " expand block" << std::endl;
         int cnt = 0;
-        while (next_.size() < kNumStates - 1) {
+        while (next_.size() < kNumStates) {
 //            std::cerr << ++cnt << std::endl;
             _expand_block();
         }
-- 
2.43.0


From 1f1b5a0bf3384af9beed29029af9cc1cfe73c4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:18 +0000
Subject: [PATCH 35/47] fix: Turbo-BOM misses matches that end in its KMP part
 and reads behind the key

---
 include/sim_ds/string_util/PatternMatching.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index dfaddda..8cbdd3b 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -199,13 +199,15 @@ public:
     std::vector<size_t> find_all(std::string_view text) const override;
     
 private:
-    long long kmp_search(std::string_view text, difference_type pos = 0) const {
-        for (size_t i = 0; i < text.size(); i++) {
+    // Reads text from state pos until its end or the first match. Returns number of characters read.
+    long long kmp_search(std::string_view text, difference_type& pos) const {
+        size_t i = 0;
+        for (; i < text.size() and pos < difference_type(key_.size()); i++) {
             while (pos > -1 and key_[pos] != text[i])
                 pos = kmp_.next(pos);
-                pos++;
+            pos++;
         }
-        return pos;
+        return i;
     }
     
 };
@@ -230,11 +232,10 @@ TurboBom::find_all(std::string_view text) const {
             critpos = back + 1;
             back += kWindowSize - kmp_.next(kWindowSize);
         } else {
-            const auto prefix_size = pos > critpos ? 0 : critpos - begin;
+            difference_type next = pos > critpos ? 0 : critpos - begin;
             const auto kmp_begin = std::max(pos, critpos);
-            const auto next = kmp_search(text.substr(kmp_begin, kKmpWindowSize), prefix_size);
-            critpos = kmp_begin + kKmpWindowSize;
-            back = kmp_begin + kKmpWindowSize - next + kWindowSize - 1;
+            critpos = kmp_begin + kmp_search(text.substr(kmp_begin, kKmpWindowSize), next);
+            back = critpos - next + kWindowSize - 1;
         }
     }
     return matchies;
-- 
2.43.0


From 6caa4de9059250b91ec475959f0067c225bd711b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:23 +0000
Subject: [PATCH 36/47] fix: FactorOracle construction never ends once its
 empty elements are used up

---
 include/sim_ds/string_util/FactorOracle.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sim_ds/string_util/FactorOracle.hpp b/include/sim_ds/string_util/FactorOracle.hpp
index 94c957d..fd82d3e 100644
--- a/include/sim_ds/string_util/FactorOracle.hpp
+++ b/include/sim_ds/string_util/FactorOracle.hpp
@@ -97,6 +97,8 @@ private:
     }
     
     size_t _find_base(const std::vector<id_type>& transes) {
+        if (used_trans_[empty_trans_front_]) // No empty element is left
+            _expand_block();
         for (auto index = empty_trans_front_; ; index = next(index)) {
             assert(not used_trans_[index]);
             auto b = index ^ check(transes.front());
-- 
2.43.0


From b786fccbd26289f4efed227c2e157671bd784946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:59 +0000
Subject: [PATCH 37/47] fix: Samc::accept follows a NUL byte of the query out
 of its tables

---
 include/sim_ds/string_util/Samc.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/Samc.hpp b/include/sim_ds/string_util/Samc.hpp
index 8d13ebe..1912e78 100644
--- a/include/sim_ds/string_util/Samc.hpp
+++ b/include/sim_ds/string_util/Samc.hpp
@@ -322,7 +322,8 @@ Samc<CodeType, LegacyBuild>::accept(std::string_view key) const {
   for (; depth < key.size(); depth++) {
     uint8_t c = key[depth];
     auto target = node + _base::code(depth, c);
-    if (not in_range(target, depth+1) or
+    if (c == kLeafChar or
+        not in_range(target, depth+1) or
         _base::check(target) != c) {
       return false;
     }
-- 
2.43.0


From 66c064d9546cd8df6c98f4d6993e62b82bfe46ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:59 +0000
Subject: [PATCH 38/47] fix: SamcDict::lookup follows a NUL byte of the query
 out of its tables

---
 include/sim_ds/string_util/Samc.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/Samc.hpp b/include/sim_ds/string_util/Samc.hpp
index 1912e78..2efc697 100644
--- a/include/sim_ds/string_util/Samc.hpp
+++ b/include/sim_ds/string_util/Samc.hpp
@@ -445,7 +445,8 @@ SamcDict<CodeType>::lookup(std::string_view key) const {
   for (; depth < key.size(); depth++) {
     uint8_t c = key[depth];
     auto target = node + _base::code(depth, c);
-    if (not in_range(target, depth+1) or
+    if (c == _base::kLeafChar or
+        not in_range(target, depth+1) or
         _base::check(target) != c) {
       return kSearchError;
     }
-- 
2.43.0


From 5e41b6ee5555669dc039c899eed8358110144224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:52 +0000
Subject: [PATCH 39/47] fix: SuffixArray indexes its buckets with signed
 characters

---
 include/sim_ds/string_util/SuffixArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/SuffixArray.hpp b/include/sim_ds/string_util/SuffixArray.hpp
index c406f87..dda3d3f 100644
--- a/include/sim_ds/string_util/SuffixArray.hpp
+++ b/include/sim_ds/string_util/SuffixArray.hpp
@@ -140,7 +140,7 @@ void SuffixArray::BuildSA_(const string &str) {
 void SuffixArray::SaisStr_(vector<size_t> &saisS, const string &str) const {
     saisS.resize(str.size());
     for (size_t i = 0; i < str.size(); i++)
-        saisS[i] = size_t(str[i]);
+        saisS[i] = uint8_t(str[i]);
     saisS.push_back(0);
 }
 
-- 
2.43.0


From e69cd9311dc7d790a5c40c370ec1a6e290543421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:03 +0000
Subject: [PATCH 40/47] fix: SuffixArray does not induce from the sorted LMS
 suffixes when their substrings are unique

---
 include/sim_ds/string_util/SuffixArray.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/sim_ds/string_util/SuffixArray.hpp b/include/sim_ds/string_util/SuffixArray.hpp
index dda3d3f..bd249ba 100644
--- a/include/sim_ds/string_util/SuffixArray.hpp
+++ b/include/sim_ds/string_util/SuffixArray.hpp
@@ -212,16 +212,17 @@ inline vector<size_t> SuffixArray::Sais_(const vector<size_t> &str, size_t maxVa
     const vector<size_t> lmsIds = FindLMSs_(slTypes);
     const InducedRV inducedSorted = InducedSort_(maxValue, str, slTypes, lmsIds);
     using std::get;
-    const vector<size_t> sArr = std::move(get<0>(inducedSorted));
     size_t countShared = get<2>(inducedSorted);
+    const vector<size_t> subStr = std::move(get<1>(inducedSorted));
+    vector<size_t> subSais;
     if (countShared == 0) {
-        return sArr;
+        subSais.resize(subStr.size());
+        for (size_t i = 0; i < subStr.size(); i++)
+            subSais[subStr[i]] = i;
     } else {
-        const vector<size_t> subStr = std::move(get<1>(inducedSorted));
-        const vector<size_t> subSais = Sais_(subStr, lmsIds.size() - 1 - countShared);
-        const vector<size_t> rSais = Induce_(maxValue, str, slTypes, lmsIds, &subSais);
-        return rSais;
+        subSais = Sais_(subStr, lmsIds.size() - 1 - countShared);
     }
+    return Induce_(maxValue, str, slTypes, lmsIds, &subSais);
 }
 
 inline typename SuffixArray::InducedRV SuffixArray::InducedSort_(size_t maxValue, const vector<size_t> &str, const vector<bool> &slTypes, const vector<size_t> &lmsIds) const {
-- 
2.43.0


From 682ec96844e5d9d2ba12be8f0845cf0acd549115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:18 +0000
Subject: [PATCH 41/47] fix: WaveletTree::Read reads as many nodes as the tree
 held before

---
 include/sim_ds/WaveletTree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sim_ds/WaveletTree.hpp b/include/sim_ds/WaveletTree.hpp
index 9a73697..c96855b 100644
--- a/include/sim_ds/WaveletTree.hpp
+++ b/include/sim_ds/WaveletTree.hpp
@@ -128,6 +128,7 @@ public:
         height_ = read_val<size_t>(is);
         leafs_ = read_val<size_t>(is);
         size_ = read_val<size_t>(is);
+        bv_list_.resize((1U << height_) - 1);
         for (auto &l : bv_list_)
             l.Read(is);
     }
-- 
2.43.0


From c50121ac97fa1bed9f76f78ba0d0627f3ef7a2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:12 +0000
Subject: [PATCH 42/47] fix: SuffixArray of an empty text reads out of bounds

---
 include/sim_ds/string_util/SuffixArray.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sim_ds/string_util/SuffixArray.hpp b/include/sim_ds/string_util/SuffixArray.hpp
index bd249ba..e52ee8f 100644
--- a/include/sim_ds/string_util/SuffixArray.hpp
+++ b/include/sim_ds/string_util/SuffixArray.hpp
@@ -33,6 +33,7 @@ public:
     SuffixArray() = default;
     
     SuffixArray(const string &str) {
+        if (str.empty()) return;
         BuildSA_(str);
         BuildLCP_();
     }
-- 
2.43.0


From f3e4105c31dfc88154b8f99119c255c34d52104f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:12 +0000
Subject: [PATCH 43/47] fix: WaveletTree of an empty sequence dereferences its
 end

---
 include/sim_ds/WaveletTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/WaveletTree.hpp b/include/sim_ds/WaveletTree.hpp
index c96855b..8bb4901 100644
--- a/include/sim_ds/WaveletTree.hpp
+++ b/include/sim_ds/WaveletTree.hpp
@@ -29,7 +29,7 @@ private:
 public:
     template <typename T>
     WaveletTree(const std::vector<T>& vec) {
-        size_t max_char = *std::max_element(vec.begin(), vec.end());
+        size_t max_char = vec.empty() ? 0 : *std::max_element(vec.begin(), vec.end());
         leafs_ = max_char + 1;
         
         auto height = calc::SizeFitsInBits(max_char);
-- 
2.43.0


From 0797841308b6e56a53e943e3d7cbf7e383dfc174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:12 +0000
Subject: [PATCH 44/47] fix: Samc of an empty key list dereferences its end

---
 include/sim_ds/string_util/Samc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/Samc.hpp b/include/sim_ds/string_util/Samc.hpp
index 2efc697..d7bfe60 100644
--- a/include/sim_ds/string_util/Samc.hpp
+++ b/include/sim_ds/string_util/Samc.hpp
@@ -38,7 +38,7 @@ public:
       if (depth_ == kInvalidDepth)
         throw std::logic_error("class is not initialized");
       auto it = begin_;
-      if (begin_->size() == depth_) {
+      if (begin_ != end_ and begin_->size() == depth_) {
         action('\0', string_array_explorer(end_, end_, depth_));
         while (++it != end_ and it->size() == depth_) {}
       }
-- 
2.43.0


From 748571eb50e99c7f02e3581c1e8fd18334ee1419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:11 +0000
Subject: [PATCH 45/47] fix: CHT is left half assigned when an allocation fails
 while it grows

---
 include/sim_ds/CHT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index 4381acc..d16b131 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -264,7 +264,7 @@ private:
                 i = succ(i);
             } while (IsShifted(i));
         }
-        *this = next;
+        *this = std::move(next);
     }
 
 };
-- 
2.43.0


From d1740c8be0db3b70b55e72a4e444a67d107707be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:11 +0000
Subject: [PATCH 46/47] fix: Trie::insert leaves a dangling edge when an
 allocation fails

---
 include/sim_ds/string_util/graph_util.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/sim_ds/string_util/graph_util.hpp b/include/sim_ds/string_util/graph_util.hpp
index e17f0f6..3651ac7 100644
--- a/include/sim_ds/string_util/graph_util.hpp
+++ b/include/sim_ds/string_util/graph_util.hpp
@@ -92,9 +92,9 @@ public:
             if (target != kRootIndex) {
                 node = target;
             } else {
-                n.add(c, container_.size());
-                node = container_.size();
-                container_.emplace_back();
+                container_.emplace_back(); // Invalidates n. Before the edge, which must not dangle if this throws.
+                container_[node].add(c, container_.size()-1);
+                node = container_.size()-1;
             }
         }
         // Add leaf label as '\0'.
@@ -103,9 +103,9 @@ public:
         if (target != kRootIndex) {
             node = target;
         } else {
-            n.add(kLeafChar, container_.size());
-            node = container_.size();
             container_.emplace_back();
+            container_[node].add(kLeafChar, container_.size()-1);
+            node = container_.size()-1;
         }
         
         auto& terminal = container_[node];
-- 
2.43.0


From be75a092fde617132da4a8044f0f1c23702770f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:11 +0000
Subject: [PATCH 47/47] fix: CDRWArray and CDRWVector lose an element when an
 allocation fails

---
 include/sim_ds/CDRWArray.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/sim_ds/CDRWArray.hpp b/include/sim_ds/CDRWArray.hpp
index ae02127..b02d168 100644
--- a/include/sim_ds/CDRWArray.hpp
+++ b/include/sim_ds/CDRWArray.hpp
@@ -45,11 +45,12 @@ public:
     void set(size_t i, uint64_t value) {
         auto value_bits = 64-bit_util::clz((uint64_t)value);
         auto pw = widthes_[i];
+        // The tables may throw: the old value stays until the new one is in place.
+        if (value_bits > 0)
+            sat_table_[value_bits-1].set(i, value);
         if (pw != 0 and pw != value_bits)
             sat_table_[pw-1].erase(i);
         widthes_[i] = value_bits;
-        if (value_bits > 0)
-            sat_table_[value_bits-1].set(i, value);
     }
 
     size_t size() const { return size_; }
@@ -100,8 +101,8 @@ public:
     void push_back(uint64_t value) {
         if (size() == cap_)
             _allocate(std::max<size_t>(size()*2, 1));
+        set(size(), value);
         size_++;
-        set(size()-1, value);
     }
 
     void pop_back() {
@@ -125,7 +126,7 @@ private:
         CDRWArray next(new_cap);
         for (size_t i = 0; i < size(); i++)
             next.set(i, get(i));
-        arr_ = next;
+        arr_ = std::move(next);
         cap_ = new_cap;
     }
 
-- 
2.43.0

