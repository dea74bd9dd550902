From 0af982d1b3561a14cc07a120ab56a58c5ec0845f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:56 +0000
Subject: [PATCH 01/51] fix: bounds-check stretchy payload headers during tuple
 audit

---
 src/audit.cxx | 42 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/audit.cxx b/src/audit.cxx
index f09b189..b1aa3cb 100644
--- a/src/audit.cxx
+++ b/src/audit.cxx
@@ -97,6 +97,10 @@ public:
                           const unit_t *begin_payload,
                           const unit_t *end_payload);
 
+  const char *check_stretchy(const relative_payload *payload, const genus type,
+                             const unit_t *begin_payload,
+                             const unit_t *end_payload);
+
   const char *check_loose(const field_loose *loose, const unit_t *begin_payload,
                           const unit_t *end_payload);
 };
@@ -188,6 +192,28 @@ const char *auditor::check_chunk(const unit_t *chunk_begin,
   return nullptr;
 }
 
+const char *auditor::check_stretchy(const relative_payload *payload,
+                                    const genus type,
+                                    const unit_t *begin_payload,
+                                    const unit_t *end_payload) {
+  /* the header unit must be inside the payload before reading a length */
+  if (unlikely(payload->flat < begin_payload))
+    return AUDIT_FAILURE("stretchy_begin < begin_payload");
+  if (unlikely(payload->flat >= end_payload))
+    return AUDIT_FAILURE("stretchy_begin >= end_payload");
+
+  const std::size_t units = payload->stretchy.brutto_units(type);
+  if (unlikely(units < 1))
+    return AUDIT_FAILURE("tuple.stretchy_field.length == 0");
+  if (type == genus::varbin && unlikely(units < 2) &&
+      (payload->stretchy.varbin.reserved14_tailbytes & 3) != 0)
+    return AUDIT_FAILURE("tuple.varbin_field.length < 0");
+  if (type == genus::nested &&
+      unlikely(units < 1 + payload->stretchy.tuple.index_size()))
+    return AUDIT_FAILURE("nested_tuple.pivot > nested_tuple.end");
+  return check_chunk(payload->flat, units, begin_payload, end_payload);
+}
+
 const char *auditor::check_loose(const field_loose *loose,
                                  const unit_t *begin_payload,
                                  const unit_t *end_payload) {
@@ -218,9 +244,8 @@ const char *auditor::check_loose(const field_loose *loose,
 
   /* stretchy */
   if (loose->relative.have_payload())
-    return check_chunk(loose->relative.payload()->flat,
-                       loose->relative.payload()->stretchy.brutto_units(type),
-                       begin_payload, end_payload);
+    return check_stretchy(loose->relative.payload(), type, begin_payload,
+                          end_payload);
   return nullptr;
 }
 } // namespace
@@ -286,10 +311,9 @@ __hot const char *audit_tuple(const fptu::schema *const schema,
 
       if (!target->relative.have_payload())
         continue;
-      const auto payload = target->relative.payload();
-      trouble = validator.check_chunk(
-          payload->flat, payload->stretchy.brutto_units(field_token.type()),
-          payload_begin, payload_end);
+      trouble = validator.check_stretchy(target->relative.payload(),
+                                         field_token.type(), payload_begin,
+                                         payload_end);
       if (unlikely(trouble))
         return AUDIT_FAILURE(trouble);
     }
@@ -338,7 +362,9 @@ __hot const char *audit_tuple(const fptu::schema *const schema,
           return AUDIT_FAILURE("tuple have unmerged adjacent holes");
       }
     }
-  }
+  } else if (unlikely(payload_begin + bytes2units(preplaced_bytes) !=
+                      payload_end))
+    return AUDIT_FAILURE("lose space at the end of tuple");
 
   if ((flags & audit_flags::audit_tuple_sorted_loose) != 0 &&
       !std::is_sorted(index_begin, index_end,
-- 
2.43.0


From c7d783509a01817180daa96d0ac323f8e4fab2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:41 +0000
Subject: [PATCH 02/51] fix: advance a partially used hole by the size of the
 allocated chunk

---
 src/gear.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index c8b921f..9238d4d 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -297,7 +297,7 @@ field_loose *gear::alloc_loose(const tag_t tag, unsigned units) {
   field_loose *loose = index_alloc(units);
   loose->genus_and_id = uint16_t(tag);
   loose->relative.set_payload(hole->hole_begin());
-  hole->relative.add_delta(excess);
+  hole->relative.add_delta(units);
   hole->hole_set_units(excess);
   junk_.volume -= uint16_t(units);
   mark_unsorted();
-- 
2.43.0


From 67e7d7c07fcca63865881548b3bd6bc63b6d3119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:41 +0000
Subject: [PATCH 03/51] fix: skip preplaced stretchy fields without payload
 during compactification

---
 src/gear.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index 9238d4d..69a5dc7 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -832,7 +832,8 @@ inline void gear::compactify(onstack_allocation_arena &onstack_arena) {
           const field_preplaced *const preplaced =
               erthink::constexpr_pointer_cast<const field_preplaced *>(
                   begin_data_bytes() + ident.preplaced_offset());
-          vector.emplace_back(basis, ident.type(), preplaced);
+          if (preplaced->relative.have_payload())
+            vector.emplace_back(basis, ident.type(), preplaced);
         }
       }
     }
-- 
2.43.0


From 985a4f49d2b8936a387a56a91f16ed9e0ca72b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:41 +0000
Subject: [PATCH 04/51] fix: keep fields without payload intact while removing
 holes from index

---
 src/gear.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index 69a5dc7..8c1e4c5 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -780,7 +780,7 @@ inline void gear::compactify(onstack_allocation_arena &onstack_arena) {
           !is_inplaced(src->type()) && src->relative.have_payload();
       if (src != dst) {
         dst->loose_header = src->loose_header;
-        if (!is_inplaced(src->type()))
+        if (!is_inplaced(src->type()) && src->relative.have_payload())
           dst->relative.sub_delta(dst - src);
       }
       --dst;
-- 
2.43.0


From d9356a44ec7c010fb76a2e7d24733145364d7e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:41 +0000
Subject: [PATCH 05/51] fix: don't write twice as many descriptors as the index
 holds while sorting

---
 src/gear.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index 8c1e4c5..8c88e26 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -921,7 +921,8 @@ bool gear::sort(onstack_allocation_arena &onstack_arena) {
     return false;
   }
 
-  sort_vector vector(index_size(), onstack_arena);
+  sort_vector vector(onstack_arena);
+  vector.reserve(index_size());
   const unit_t *const basis = &area_[head_];
   /* заполняем вектор */
   for (field_loose *loose = begin_index(); loose < end_index(); ++loose)
-- 
2.43.0


From cf5471319d55fba6bb8eafbe2dad7e255c5c33bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:41 +0000
Subject: [PATCH 06/51] fix: give back to tail a chunk exchanged with a hole
 when it ends the data

---
 src/gear.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index 8c88e26..0b32d4a 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -588,7 +588,7 @@ relative_payload *gear::realloc_data(relative_offset &ref, const unsigned have,
       junk_.volume += uint16_t(have - needed);
 
       /* если дырка примыкает к концу данных, то её нужно "испарить" */
-      if (chunk == end_data_units()) {
+      if (chunk + have == end_data_units()) {
         /* возвращем место в нераспределенное */
         tail_ -= have;
         junk_.volume -= uint16_t(have);
-- 
2.43.0


From 5ca69635c323daca2528f8f2cfef490fae41d3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:41 +0000
Subject: [PATCH 07/51] fix: actual length of varbinary values which are not a
 multiple of unit size

---
 fast_positive/tuples/details/field.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/field.h b/fast_positive/tuples/details/field.h
index 5a05fb2..7f4b8d5 100644
--- a/fast_positive/tuples/details/field.h
+++ b/fast_positive/tuples/details/field.h
@@ -121,7 +121,7 @@ union stretchy_value_varbin {
     static_assert(8 - genus_bitness == 3, "Oops");
     const std::size_t tailbytes = reserved14_tailbytes & 3;
     constexpr_assert(brutto_units > 1 || tailbytes == 0);
-    return units2bytes(brutto_units) - 4 + tailbytes;
+    return units2bytes(brutto_units - 1u) - ((4 - tailbytes) & 3);
   }
 
   static std::size_t estimate_space(const string_view &value) {
-- 
2.43.0


From fc4a20201c342f76d4c41d771c8440790f5f00bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:56 +0000
Subject: [PATCH 08/51] fix: return 128-bit integers by value instead of a
 dangling reference

---
 fast_positive/tuples.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fast_positive/tuples.h b/fast_positive/tuples.h
index 6f85a16..3097a59 100644
--- a/fast_positive/tuples.h
+++ b/fast_positive/tuples.h
@@ -270,8 +270,8 @@ public:
   HERE_CRTP_MAKE(decimal64, get_decimal)
   HERE_CRTP_MAKE(datetime_t, get_datetime)
   HERE_CRTP_MAKE(const uuid_t &, get_uuid)
-  HERE_CRTP_MAKE(const int128_t &, get_int128)
-  HERE_CRTP_MAKE(const uint128_t &, get_uint128)
+  HERE_CRTP_MAKE(int128_t, get_int128)
+  HERE_CRTP_MAKE(uint128_t, get_uint128)
   HERE_CRTP_MAKE(const binary96_t &, get_bin96)
   HERE_CRTP_MAKE(const binary128_t &, get_bin128)
   HERE_CRTP_MAKE(const binary160_t &, get_bin160)
@@ -636,8 +636,8 @@ public:
   HERE_CRTP_MAKE(decimal64, get_decimal)
   HERE_CRTP_MAKE(datetime_t, get_datetime)
   HERE_CRTP_MAKE(const uuid_t &, get_uuid)
-  HERE_CRTP_MAKE(const int128_t &, get_int128)
-  HERE_CRTP_MAKE(const uint128_t &, get_uint128)
+  HERE_CRTP_MAKE(int128_t, get_int128)
+  HERE_CRTP_MAKE(uint128_t, get_uint128)
   HERE_CRTP_MAKE(const binary96_t &, get_bin96)
   HERE_CRTP_MAKE(const binary128_t &, get_bin128)
   HERE_CRTP_MAKE(const binary160_t &, get_bin160)
-- 
2.43.0


From 42a7fc4ac4817d67d2365b23b055a7260f4a229e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:56 +0000
Subject: [PATCH 09/51] fix: don't read beyond a value which is smaller than
 its field

---
 fast_positive/tuples/details/meta.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fast_positive/tuples/details/meta.h b/fast_positive/tuples/details/meta.h
index 9a367a3..f6eb797 100644
--- a/fast_positive/tuples/details/meta.h
+++ b/fast_positive/tuples/details/meta.h
@@ -241,7 +241,7 @@ template <unsigned N, typename TYPE = uint32_t[N]> struct unit_n {
   static void write(details::field_preplaced *preplaced,
                     return_type value) cxx11_noexcept {
     static_assert(sizeof(value_type) <= preplaced_bytes, "WTF?");
-    std::memcpy(preplaced->bytes, &value, preplaced_bytes);
+    std::memcpy(preplaced->bytes, &value, sizeof(value_type));
     if (preplaced_bytes != sizeof(value_type))
       std::memset(preplaced->bytes + sizeof(value_type), 0,
                   preplaced_bytes - sizeof(value_type));
@@ -267,7 +267,7 @@ template <unsigned N, typename TYPE = uint32_t[N]> struct unit_n {
 #endif /* GNU C >= 10.x */
 
     static_assert(sizeof(ptr->fixed) >= preplaced_bytes, "WTF?");
-    std::memcpy(&ptr->fixed.words, &value, preplaced_bytes);
+    std::memcpy(&ptr->fixed.words, &value, sizeof(value_type));
     if (preplaced_bytes != sizeof(value_type))
       std::memset(ptr->fixed.bytes + sizeof(value_type), 0,
                   preplaced_bytes - sizeof(value_type));
-- 
2.43.0


From b203560b16a4944008deeb5e5d715a124f464c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:13 +0000
Subject: [PATCH 10/51] fix: keep junk counters when a tuple moves to a larger
 buffer

---
 src/autogrowth.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/autogrowth.cxx b/src/autogrowth.cxx
index 88634e8..ecdcea5 100644
--- a/src/autogrowth.cxx
+++ b/src/autogrowth.cxx
@@ -188,6 +188,7 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
 
   new_tuple->head_ = new_tuple->pivot_ - (pimpl_->pivot_ - pimpl_->head_);
   new_tuple->tail_ = new_tuple->pivot_ + (pimpl_->tail_ - pimpl_->pivot_);
+  new_tuple->junk_ = pimpl_->junk_;
   std::memcpy(static_cast<void *>(new_tuple->begin_index()),
               pimpl_->begin_index(),
               details::units2bytes(pimpl_->tail_ - pimpl_->head_));
-- 
2.43.0


From b7e68c7c74e2f706ff68526c1a1dac33a4f888c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:57 +0000
Subject: [PATCH 11/51] fix: AVX field lookup must not read beyond the last
 descriptor

---
 src/scan_AVX.cxx | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/scan_AVX.cxx b/src/scan_AVX.cxx
index 55c768b..376f8e2 100644
--- a/src/scan_AVX.cxx
+++ b/src/scan_AVX.cxx
@@ -33,21 +33,25 @@ namespace fptu {
 namespace details {
 
 #if __SANITIZE_ADDRESS__
-static __m256i __attribute__((no_sanitize_address, noinline))
-bypass_asan_read_m256(const void *src) {
-  return _mm256_loadu_si256((const __m256i *)src);
+static __m128i __attribute__((no_sanitize_address, noinline))
+bypass_asan_read_m128(const void *src) {
+  return _mm_loadu_si128((const __m128i *)src);
 }
-#define _mm256_loadu_si256(ptr) bypass_asan_read_m256(ptr)
+#define _mm_loadu_si128(ptr) bypass_asan_read_m128(ptr)
 #endif
 
 static __always_inline unsigned cmp2mask(const __m256 pattern,
                                          const field_loose *scan) {
-  const char *ptr = (const char *)scan + 2;
-  const __m256 even = _mm256_castsi256_ps(_mm256_set1_epi32(0x0000ffffu));
+  /* Тэги выбираются сдвигом, а не чтением со смещением в два байта, так как
+   * иначе затрагивается память за последним дескриптором. */
+  const __m128i lo =
+      _mm_srli_epi32(_mm_loadu_si128((const __m128i *)scan), 16);
+  const __m128i hi =
+      _mm_srli_epi32(_mm_loadu_si128((const __m128i *)(scan + 4)), 16);
   return _mm256_movemask_ps(_mm256_cmp_ps(
       pattern,
-      _mm256_and_ps(
-          even, _mm256_castsi256_ps(_mm256_loadu_si256((const __m256i *)ptr))),
+      _mm256_castsi256_ps(
+          _mm256_insertf128_si256(_mm256_castsi128_si256(lo), hi, 1)),
       _CMP_EQ_OQ));
 }
 
-- 
2.43.0


From e4bbf355481e953b7085302cde460b28e6476412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:30 +0000
Subject: [PATCH 12/51] fix: postfix increment and decrement of iterators must
 move the iterator and return its previous position

---
 fast_positive/tuples/details/getter.h |  4 ++--
 fast_positive/tuples/details/ro.h     | 20 ++++++++++++--------
 fast_positive/tuples/details/rw.h     |  4 ++--
 3 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/fast_positive/tuples/details/getter.h b/fast_positive/tuples/details/getter.h
index 725e281..08fd123 100644
--- a/fast_positive/tuples/details/getter.h
+++ b/fast_positive/tuples/details/getter.h
@@ -492,9 +492,9 @@ public:
                             detent_, accessor::token_.tag());
     return *this;
   }
-  collection_iterator_ro operator++(int) const cxx11_noexcept {
+  collection_iterator_ro operator++(int) cxx11_noexcept {
     collection_iterator_ro iterator(*this);
-    ++iterator;
+    ++*this;
     return iterator;
   }
   cxx11_constexpr const accessor &operator*() const cxx11_noexcept {
diff --git a/fast_positive/tuples/details/ro.h b/fast_positive/tuples/details/ro.h
index 9d5143e..87e49b6 100644
--- a/fast_positive/tuples/details/ro.h
+++ b/fast_positive/tuples/details/ro.h
@@ -182,17 +182,19 @@ public:
     --field_;
     return *this;
   }
-  loose_iterator_ro operator++(int) const cxx11_noexcept {
+  loose_iterator_ro operator++(int) cxx11_noexcept {
     loose_iterator_ro iterator(*this);
-    return --iterator;
+    ++*this;
+    return iterator;
   }
   loose_iterator_ro &operator--() cxx11_noexcept {
     ++field_;
     return *this;
   }
-  loose_iterator_ro operator--(int) const cxx11_noexcept {
+  loose_iterator_ro operator--(int) cxx11_noexcept {
     loose_iterator_ro iterator(*this);
-    return ++iterator;
+    --*this;
+    return iterator;
   }
   loose_iterator_ro &operator+=(const difference_type shift) cxx11_noexcept {
     field_ -= shift;
@@ -504,14 +506,16 @@ public:
   }
 
   field_iterator_ro &operator++();
-  field_iterator_ro operator++(int) const {
+  field_iterator_ro operator++(int) {
     field_iterator_ro iterator(*this);
-    return ++iterator;
+    ++*this;
+    return iterator;
   }
   field_iterator_ro &operator--();
-  field_iterator_ro operator--(int) const {
+  field_iterator_ro operator--(int) {
     field_iterator_ro iterator(*this);
-    return --iterator;
+    --*this;
+    return iterator;
   }
 };
 
diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index 5590fdb..1f4f1bf 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -924,9 +924,9 @@ public:
                accessor::tuple_->end_index(), accessor::token_.tag());
       return *this;
     }
-    collection_iterator_rw operator++(int) const cxx11_noexcept {
+    collection_iterator_rw operator++(int) cxx11_noexcept {
       collection_iterator_rw iterator(*this);
-      ++iterator;
+      ++*this;
       return iterator;
     }
     cxx14_constexpr accessor operator*() const cxx11_noexcept {
-- 
2.43.0


From 5f13600bcd08c301680443493d57ef607341f886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:00 +0000
Subject: [PATCH 13/51] fix: subscript of the loose fields iterator must use
 the type of the addressed field

---
 fast_positive/tuples/details/ro.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/ro.h b/fast_positive/tuples/details/ro.h
index 87e49b6..da9b6e1 100644
--- a/fast_positive/tuples/details/ro.h
+++ b/fast_positive/tuples/details/ro.h
@@ -87,7 +87,7 @@ public:
            - is_discernible_null: не имеет значения, ибо точно знаем что
              loose-поле есть.
            - is_rangechecking/is_saturated: не нужен при чтении. */
-        field_token(false, false, false));
+        token((field_ - index)->genus_and_id, false, false, false));
   }
   cxx14_constexpr dynamic_accessor_ro operator*() const cxx11_noexcept {
     return operator[](0);
-- 
2.43.0


From 0180a2af40269d40e24a9c90b54401cdceb747cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:53 +0000
Subject: [PATCH 14/51] fix: storing a signed number as unsigned must go to
 unsigned fields

---
 fast_positive/tuples/details/rw.h | 2 +-
 src/rw.cxx                        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index 1f4f1bf..3e151ad 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -524,7 +524,7 @@ public:
     void set_unsigned(const int64_t value) {
       if (unlikely(value < 0))
         throw_value_range();
-      return set_integer(static_cast<uint64_t>(value));
+      return set_unsigned(static_cast<uint64_t>(value));
     }
 
     void set_int128(const int128_t &value) {
diff --git a/src/rw.cxx b/src/rw.cxx
index 374d3de..dfd9666 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -315,7 +315,7 @@ FPTU_API dynamic_collection_iterator_rw
 tuple_rw::insert_unsigned(const token &ident, const int64_t value) {
   if (unlikely(value < 0))
     throw_value_range();
-  return insert_integer(ident, static_cast<uint64_t>(value));
+  return insert_unsigned(ident, static_cast<uint64_t>(value));
 }
 
 FPTU_API dynamic_collection_iterator_rw
-- 
2.43.0


From 615f8753a5cbdf0f47952b6c411244233873d65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:54 +0000
Subject: [PATCH 15/51] fix: 128-bit integers must not be silently truncated
 when stored in narrower fields

---
 fast_positive/tuples/details/rw.h | 4 ++++
 src/rw.cxx                        | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index 3e151ad..a17c138 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -531,6 +531,8 @@ public:
       if (base::type() == bin128)
         return assign<bin128>(
             *erthink::constexpr_pointer_cast<const binary128_t *>(&value));
+      if (unlikely(value != int128_t(int64_t(value))))
+        throw_value_range();
       return set_integer(int64_t(value));
     }
 
@@ -538,6 +540,8 @@ public:
       if (base::type() == bin128)
         return assign<bin128>(
             *erthink::constexpr_pointer_cast<const binary128_t *>(&value));
+      if (unlikely(value != uint128_t(uint64_t(value))))
+        throw_value_range();
       return set_unsigned(uint64_t(value));
     }
 
diff --git a/src/rw.cxx b/src/rw.cxx
index dfd9666..0937fcd 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -323,6 +323,8 @@ tuple_rw::insert_int128(const token &ident, const int128_t &value) {
   if (ident.type() == bin128)
     return insert_bin128(
         ident, *erthink::constexpr_pointer_cast<const binary128_t *>(&value));
+  if (unlikely(value != int128_t(int64_t(value))))
+    throw_value_range();
   return insert_integer(ident, int64_t(value));
 }
 
@@ -331,6 +333,8 @@ tuple_rw::insert_uint128(const token &ident, const uint128_t &value) {
   if (ident.type() == bin128)
     return insert_bin128(
         ident, *erthink::constexpr_pointer_cast<const binary128_t *>(&value));
+  if (unlikely(value != uint128_t(uint64_t(value))))
+    throw_value_range();
   return insert_unsigned(ident, uint64_t(value));
 }
 
-- 
2.43.0


From 98d6253048b0f597149663a57ec2eb2d3d1e3750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:16 +0000
Subject: [PATCH 16/51] fix: presence of preplaced fields was inverted

---
 fast_positive/tuples/details/getter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/getter.h b/fast_positive/tuples/details/getter.h
index 08fd123..9b58f9b 100644
--- a/fast_positive/tuples/details/getter.h
+++ b/fast_positive/tuples/details/getter.h
@@ -211,7 +211,7 @@ public:
 
   cxx11_constexpr bool exist() const cxx11_noexcept {
     return token_.is_preplaced()
-               ? static_cast<const field_preplaced *>(field_)->is_null(
+               ? !static_cast<const field_preplaced *>(field_)->is_null(
                      token_.tag())
                : field_ != nullptr;
   }
-- 
2.43.0


From dd36107cfe1f3992e85effd51a3166bd74f89ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:41 +0000
Subject: [PATCH 17/51] fix: failed release of a preplaced value must not
 change the counters of holes

---
 src/gear.cxx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index 0b32d4a..3de016e 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -389,6 +389,13 @@ gear::release_data(relative_payload *chunk, unsigned units,
     return nullptr;
   }
 
+  if (!before_after.first && !before_after.second && hole0 == nullptr) {
+    /* Соседних дырок нет, потребуется новая. Здесь может быть исключение,
+     * поэтому до изменения счетчиков. */
+    hole0 = index_alloc(0);
+    junk_.count += 1;
+  }
+
   /* добавляем в счетчики, чтобы прошли проверки внутри merge и trim */
   junk_.volume += uint16_t(units);
 
@@ -413,10 +420,6 @@ gear::release_data(relative_payload *chunk, unsigned units,
     /* не нашлось соседних дырок для объединения с куском */
     assert(chunk->flat + units != end_data_units());
     /* кусок НЕ может примыкать к концу данных, оформляем дыркой */
-    if (hole0 == nullptr) {
-      hole0 = index_alloc(0);
-      junk_.count += 1;
-    }
     hole0->hole_set_units(units);
     hole0->relative.set_payload(chunk);
     return hole0;
-- 
2.43.0


From 194db1eea4b1357b6855307938f50354d57fcd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:30 +0000
Subject: [PATCH 18/51] fix: import of preplaced definitions must respect their
 offsets

---
 src/schema.cxx | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/schema.cxx b/src/schema.cxx
index e1b30cf..96885fc 100644
--- a/src/schema.cxx
+++ b/src/schema.cxx
@@ -148,8 +148,9 @@ void schema_impl::add_definition(std::string &&name, const token &ident,
         throw_schema_definition_error(
             "preplaced field is overlapped by another");
     }
-    preplaced_image_.reserve(ident.preplaced_offset() + ident.preplaced_size() -
-                             preplaced_image_.size());
+    preplaced_image_.reserve(
+        std::max(preplaced_image_.size(),
+                 ident.preplaced_offset() + ident.preplaced_size()));
   }
   sorted_tokens_.reserve(sorted_tokens_.size() + 1);
   name2token_.reserve(name2token_.size() + 1);
@@ -157,14 +158,17 @@ void schema_impl::add_definition(std::string &&name, const token &ident,
 
   try {
     if (ident.is_preplaced()) {
-      if (ident.preplaced_offset() > ptrdiff_t(preplaced_image_.size()))
-        preplaced_image_.append(
-            ident.preplaced_offset() - preplaced_image_.size(), '\0');
+      /* поле может быть расположено не только в конце образа, но и между уже
+       * определёнными полями (при импорте или слиянии схем) */
+      const std::size_t end = ident.preplaced_offset() + ident.preplaced_size();
+      if (end > preplaced_image_.size())
+        preplaced_image_.append(end - preplaced_image_.size(), '\0');
       if (initial_value)
-        preplaced_image_.append(static_cast<const char *>(initial_value),
-                                ident.preplaced_size());
+        preplaced_image_.replace(ident.preplaced_offset(),
+                                 ident.preplaced_size(),
+                                 static_cast<const char *>(initial_value),
+                                 ident.preplaced_size());
       else {
-        preplaced_image_.append(ident.preplaced_size(), '\0');
         const auto initial_value_ptr =
             erthink::constexpr_pointer_cast<details::field_preplaced *>(
                 const_cast<char *>(preplaced_image_.data()) +
-- 
2.43.0


From c2bdd5ea0600c853327ff8a0b1542ee0ba8a7f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:57 +0000
Subject: [PATCH 19/51] fix: netto_size() must subtract junk in bytes

---
 fast_positive/tuples/details/rw.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index a17c138..f3dcdd0 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -1132,7 +1132,7 @@ public: //----------------------------------------------------------------------
     return units2bytes(tail_ - head_ + /* header */ 1);
   }
   __pure_function std::size_t netto_size() const cxx11_noexcept {
-    return brutto_size() - junk_units();
+    return brutto_size() - junk_bytes();
   }
   __pure_function std::size_t capacity() const cxx11_noexcept {
     return units2bytes(end_);
-- 
2.43.0


From 6247573e1428933c50fdef00912fa529c0d446c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:57 +0000
Subject: [PATCH 20/51] fix: a modifiable tuple which holds junk only is empty

---
 fast_positive/tuples/details/rw.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index f3dcdd0..be6f4d0 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -1111,7 +1111,7 @@ public: //----------------------------------------------------------------------
     return units2bytes(junk_units());
   }
   __pure_function bool empty() const cxx11_noexcept {
-    return head_ + junk_.count == tail_;
+    return head_ + junk_units() == tail_;
   }
   __pure_function std::size_t index_size() const cxx11_noexcept {
     assert(pivot_ >= head_);
-- 
2.43.0


From 7b66efb72ad6bcf55fb69291908c94c4261bdc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:09 +0000
Subject: [PATCH 21/51] fix: reset() must not abort a tuple without room for
 loose fields

---
 src/rw.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rw.cxx b/src/rw.cxx
index 0937fcd..d758167 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -612,7 +612,7 @@ tuple_rw::insert_number(const token &ident, const double value) {
 
 void tuple_rw::reset() {
   /* sanity check for corruption */
-  if (unlikely(pivot_ < 1 || pivot_ > fptu::max_fields || pivot_ > end_ ||
+  if (unlikely(pivot_ > fptu::max_fields || pivot_ > end_ ||
                end_ > bytes2units(fptu::buffer_limit)))
     throw_tuple_bad(this);
 
-- 
2.43.0


From 25c7f6512b9ba65d3ccf2cdd34cab6a6801f583c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:09 +0000
Subject: [PATCH 22/51] fix: dont_optimize of take_weak() and
 take_managed_clone() was inverted

---
 fast_positive/tuples.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/fast_positive/tuples.h b/fast_positive/tuples.h
index 3097a59..415774f 100644
--- a/fast_positive/tuples.h
+++ b/fast_positive/tuples.h
@@ -850,8 +850,8 @@ public:
 
   /* возвращает пару, во втором элементе признак инвалидации итераторов */
   std::pair<tuple_ro_weak, bool> take_weak(bool dont_optimize = false) {
-    return dont_optimize ? take_weak_optimized()
-                         : std::make_pair(take_weak_asis(), false);
+    return dont_optimize ? std::make_pair(take_weak_asis(), false)
+                         : take_weak_optimized();
   }
 
   tuple_ro_managed move_to_ro(bool dont_optimize = false) {
@@ -887,10 +887,9 @@ public:
       bool dont_optimize = false, bool hollow_if_empty = false,
       const hippeus::buffer_tag &allot_tag = default_buffer_allot()) {
     return dont_optimize
-               ? take_managed_clone_optimized(hollow_if_empty, allot_tag)
-               : std::make_pair(
-                     take_managed_clone_asis(hollow_if_empty, allot_tag),
-                     false);
+               ? std::make_pair(
+                     take_managed_clone_asis(hollow_if_empty, allot_tag), false)
+               : take_managed_clone_optimized(hollow_if_empty, allot_tag);
   }
 
   __pure_function static cxx11_constexpr size_t estimate_required_space(
-- 
2.43.0


From db9d94ad446b92059204d760ba1d055957eb1e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:56 +0000
Subject: [PATCH 23/51] fix: fptu_upsert_nested() must use the type of nested
 tuples

---
 src/compat_rw.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compat_rw.cxx b/src/compat_rw.cxx
index 790afc6..b2d84b1 100644
--- a/src/compat_rw.cxx
+++ b/src/compat_rw.cxx
@@ -335,7 +335,7 @@ fptu_error fptu_upsert_opaque_iov(fptu_rw *pt, unsigned column,
 fptu_error fptu_upsert_nested(fptu_rw *pt, unsigned column,
                               fptu_ro ro) cxx11_noexcept {
   try {
-    const fptu::token id(fptu::genus::varbin, column, false, true, false);
+    const fptu::token id(fptu::genus::nested, column, false, true, false);
     pt->set_nested(id, fptu::details::tuple_ro::make_from_buffer(
                            ro.sys.iov_base, ro.sys.iov_len, nullptr, false));
     return FPTU_OK;
-- 
2.43.0


From 0bbe6661727397b7feed175237e7a22b294b6ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:56 +0000
Subject: [PATCH 24/51] fix: fptu_insert_96/128/160/256() must not drop zero
 values

---
 src/compat_rw.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compat_rw.cxx b/src/compat_rw.cxx
index b2d84b1..759f17d 100644
--- a/src/compat_rw.cxx
+++ b/src/compat_rw.cxx
@@ -373,7 +373,7 @@ FPTU_INSERT_IMPL(datetime, datetime, t64, fptu_datetime_t)
   fptu_error fptu_insert_##BITS(fptu_rw *pt, unsigned column,                  \
                                 const void *data) cxx11_noexcept {             \
     try {                                                                      \
-      const fptu::token id(fptu::genus::bin##BITS, column, true);              \
+      const fptu::token id(fptu::genus::bin##BITS, column, true, true, false); \
       pt->insert_bin##BITS(                                                    \
           id,                                                                  \
           *erthink::constexpr_pointer_cast<const fptu::binary##BITS##_t *>(    \
-- 
2.43.0


From bbbf7e17ae0507a99e1c97d87fdf05f1d0d21016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:56 +0000
Subject: [PATCH 25/51] fix: fptu_init() and fptu_fetch() must not write to a
 buffer which is too small

---
 src/rw.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rw.cxx b/src/rw.cxx
index d758167..a6a1535 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -689,6 +689,8 @@ tuple_rw *tuple_rw::create_new(std::size_t items_limit, std::size_t data_bytes,
 
 tuple_rw *tuple_rw::create_legacy(void *buffer_space, std::size_t buffer_size,
                                   std::size_t items_limit) {
+  if (unlikely(buffer_size < pure_tuple_size()))
+    throw_insufficient_space(items_limit, buffer_size);
   return new (buffer_space) tuple_rw(0, buffer_size, items_limit, nullptr);
 }
 
@@ -779,6 +781,8 @@ tuple_rw *tuple_rw::fetch_legacy(const audit_holes_info &holes_info,
                                  std::size_t buffer_size,
                                  std::size_t more_items) {
   assert(ro->audit(nullptr, holes_info.count == 0) == nullptr);
+  if (unlikely(buffer_size < pure_tuple_size()))
+    throw_insufficient_space(more_items, buffer_size);
   return new (buffer_space)
       tuple_rw(holes_info, ro, 0, buffer_size, more_items, nullptr);
 }
-- 
2.43.0


From 920a44d9fcb08de87214a62d271760830c14f88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:11 +0000
Subject: [PATCH 26/51] fix: fptu_fetch() must account the holes of the source
 tuple

---
 src/compat_rw.cxx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/compat_rw.cxx b/src/compat_rw.cxx
index 759f17d..03c942e 100644
--- a/src/compat_rw.cxx
+++ b/src/compat_rw.cxx
@@ -148,8 +148,16 @@ fptu_rw *fptu_fetch(fptu_ro ro, void *buffer_space, std::size_t buffer_bytes,
     const fptu::details::tuple_ro *tuple_ro =
         static_cast<const fptu::details::tuple_ro *>(ro.sys.iov_base);
 
+    fptu::details::audit_holes_info holes_info = {0, 0};
+    for (auto pf = fptu_begin_ro(ro); pf < fptu_end_ro(ro); ++pf)
+      if (pf->is_hole()) {
+        holes_info.count = uint16_t(holes_info.count + 1);
+        holes_info.volume =
+            uint16_t(holes_info.volume + pf->hole_get_units());
+      }
+
     const auto tuple_rw = fptu::details::tuple_rw::fetch_legacy(
-        {0, 0}, tuple_ro, buffer_space, buffer_bytes, more_items);
+        holes_info, tuple_ro, buffer_space, buffer_bytes, more_items);
     return static_cast<fptu_rw *>(tuple_rw);
   } catch (const std::exception &e) {
     fptu_set_error(e);
-- 
2.43.0


From 46b0352d617513fad48257773909a0819a293296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:57 +0000
Subject: [PATCH 27/51] fix: fptu_field_as_iovec() must return the bytes of the
 value

---
 src/compat_field.cxx | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/compat_field.cxx b/src/compat_field.cxx
index 84b498c..640eb4b 100644
--- a/src/compat_field.cxx
+++ b/src/compat_field.cxx
@@ -38,18 +38,25 @@ void fptu_erase_field(fptu_rw *pt, fptu_field *pf) cxx11_noexcept {
 //------------------------------------------------------------------------------
 
 struct iovec fptu_field_as_iovec(const fptu_field *pf) cxx11_noexcept {
-  if (likely(pf)) {
+  if (likely(!fptu_field_is_dead(pf))) {
     const auto type = pf->type();
     if (fptu::details::is_inplaced(type))
-      return fptu::iovec(&pf->inplaced, fptu::details::loose_units(type));
+      return fptu::iovec(&pf->inplaced,
+                         fptu::details::preplaced_bytes_dynamic(type));
 
     if (fptu::details::is_fixed_size(type))
       return fptu::iovec(pf->relative.payload(),
-                         fptu::details::loose_units(type));
-
-    if (pf->relative.have_payload())
-      return fptu::iovec(pf->relative.payload(),
-                         pf->relative.payload()->stretchy.length(type));
+                         fptu::details::preplaced_bytes_dynamic(type));
+
+    if (pf->relative.have_payload()) {
+      const auto &stretchy = pf->relative.payload()->stretchy;
+      const void *data = &stretchy;
+      if (type == fptu::genus::text)
+        data = stretchy.string.begin();
+      else if (type == fptu::genus::varbin)
+        data = stretchy.varbin.begin();
+      return fptu::iovec(data, stretchy.length(type));
+    }
   }
   return fptu::iovec(nullptr, 0);
 }
-- 
2.43.0


From 120e202c4c2e7f07b964e203db653302e026ac6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:57 +0000
Subject: [PATCH 28/51] fix: lookup of an impossible column must not find a
 field of another type

---
 src/compat_common.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compat_common.cxx b/src/compat_common.cxx
index cc26ddb..0619f20 100644
--- a/src/compat_common.cxx
+++ b/src/compat_common.cxx
@@ -76,6 +76,9 @@ static cxx11_constexpr bool match(const fptu_field *pf, unsigned column,
 __hot const fptu_field *
 fptu_first(const fptu_field *begin, const fptu_field *end, unsigned column,
            fptu_type_or_filter type_or_filter) cxx11_noexcept {
+  if (unlikely(column > fptu_max_cols))
+    return end;
+
   if (!is_filter(type_or_filter)) {
     const fptu_field *pf =
         static_cast<const fptu_field *>(fptu::details::lookup(
-- 
2.43.0


From 765ebb2c2bba399faf7e9eca8358cc8d363f726b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:57 +0000
Subject: [PATCH 29/51] fix: fptu_is_empty_ro() must ignore holes

---
 src/compat_ro.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/compat_ro.cxx b/src/compat_ro.cxx
index 304f300..97f527c 100644
--- a/src/compat_ro.cxx
+++ b/src/compat_ro.cxx
@@ -30,10 +30,10 @@ static cxx11_constexpr bool is_hollow(const fptu_ro &ro) cxx11_noexcept {
 }
 
 bool fptu_is_empty_ro(fptu_ro ro) cxx11_noexcept {
-  return is_hollow(ro)
-             ? true
-             : static_cast<const fptu::details::tuple_ro *>(ro.sys.iov_base)
-                       ->index_size() < 1;
+  for (auto pf = fptu_begin_ro(ro); pf < fptu_end_ro(ro); ++pf)
+    if (!pf->is_hole())
+      return false;
+  return true;
 }
 
 static inline const fptu::details::tuple_ro *impl(const fptu_ro &ro) {
-- 
2.43.0


From b2950b432ae0b1ffddcddbf13177e96d83a23ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:57 +0000
Subject: [PATCH 30/51] fix: fptu_field_column() must be negative for removed
 fields

---
 src/compat_field.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compat_field.cxx b/src/compat_field.cxx
index 640eb4b..57f6a4f 100644
--- a/src/compat_field.cxx
+++ b/src/compat_field.cxx
@@ -27,7 +27,7 @@ fptu_type fptu_field_type(const fptu_field *pf) cxx11_noexcept {
   return pf ? pf->legacy_type() : fptu_null;
 }
 int fptu_field_column(const fptu_field *pf) cxx11_noexcept {
-  return pf ? pf->colnum() : -1;
+  return fptu_field_is_dead(pf) ? -1 : int(pf->colnum());
 }
 
 void fptu_erase_field(fptu_rw *pt, fptu_field *pf) cxx11_noexcept {
-- 
2.43.0


From 81d260ae324e951dd4741aece5df5b0b5769ac63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:57 +0000
Subject: [PATCH 31/51] fix: fptu_field_cstr() must not read beyond the field

---
 src/compat_field.cxx | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/compat_field.cxx b/src/compat_field.cxx
index 57f6a4f..43b4f8c 100644
--- a/src/compat_field.cxx
+++ b/src/compat_field.cxx
@@ -116,10 +116,8 @@ static const char *string_view_to_CAPI(const fptu::string_view &value,
 
   const char *const cstr_begin = value.data();
   const char *const cstr_end = value.end();
-  if (cstr_end < detend) {
-    assert(*cstr_end == '\0');
+  if (cstr_end < detend && *cstr_end == '\0')
     return cstr_begin;
-  }
 
   holder.assign(cstr_begin, cstr_end);
   assert(holder.c_str()[holder.length()] == '\0');
@@ -130,12 +128,15 @@ const char *fptu_field_cstr(const fptu_field *pf) cxx11_noexcept {
   error_guard raii(nullptr);
   if (likely(pf)) {
     try {
+      const fptu::string_view value =
+          fptu::details::get<fptu::genus::text>(pf, true);
+      if (value.empty())
+        return FPTU_DENIL_CSTR;
       const auto payload = pf->relative.payload();
       const char *const field_end =
           erthink::constexpr_pointer_cast<const char *>(
               payload->flat + payload->stretchy.string.brutto_units());
-      return string_view_to_CAPI(
-          fptu::details::get<fptu::genus::text>(pf, true), field_end);
+      return string_view_to_CAPI(value, field_end);
     } catch (const std::exception &e) {
       raii.feed(e);
     }
-- 
2.43.0


From 71e51273737ab0bb19409efaa940fdc58bd2a1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:57 +0000
Subject: [PATCH 32/51] fix: fptu_get_cstr() must reset the error code on
 success

---
 src/compat_ro.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compat_ro.cxx b/src/compat_ro.cxx
index 97f527c..166d0e1 100644
--- a/src/compat_ro.cxx
+++ b/src/compat_ro.cxx
@@ -125,8 +125,11 @@ FPTU_GET_IMPL(256)
 const char *fptu_get_cstr(fptu_ro ro, unsigned column,
                           int *error) cxx11_noexcept {
   const fptu_field *pf = fptu::lookup(ro, column, fptu_cstr);
-  if (pf)
+  if (pf) {
+    if (error)
+      *error = FPTU_OK;
     return fptu_field_cstr(pf);
+  }
   fptu_set_error(FPTU_ENOFIELD, "fptu: no such field");
   if (error)
     *error = FPTU_ENOFIELD;
-- 
2.43.0


From d4f2c4b67f3c7ea0a779d61dea8835e753ba7c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:02 +0000
Subject: [PATCH 33/51] fix: tuple_ro_managed::clone() without validation must
 account the holes

---
 src/managed.cxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/managed.cxx b/src/managed.cxx
index 928b566..ceef624 100644
--- a/src/managed.cxx
+++ b/src/managed.cxx
@@ -476,7 +476,13 @@ tuple_ro_managed tuple_ro_managed::clone(const tuple_ro_weak &src,
         src.data(), src.size(),
         /* more_items */ 0, /* more_payload */ 0, schema, allot_tag));
 
-  const details::audit_holes_info &holes_info = {0, 0};
+  details::audit_holes_info holes_info = {0, 0};
+  for (auto pf = src.get_impl()->begin_index();
+       pf != src.get_impl()->end_index(); ++pf)
+    if (pf->is_hole()) {
+      holes_info.count = uint16_t(holes_info.count + 1);
+      holes_info.volume = uint16_t(holes_info.volume + pf->hole_get_units());
+    }
   return tuple_ro_managed(tuple_rw_fixed(
       holes_info, src,
       /* more_items */ 0, /* more_payload */ 0, schema, allot_tag));
-- 
2.43.0


From 5ca13cb369cb89d4182b2989b47d2dac3f251cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:02 +0000
Subject: [PATCH 34/51] fix: tuple_ro_managed::clone() must validate a weak
 tuple against the given schema

---
 src/managed.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/managed.cxx b/src/managed.cxx
index ceef624..189158e 100644
--- a/src/managed.cxx
+++ b/src/managed.cxx
@@ -470,7 +470,7 @@ tuple_ro_managed tuple_ro_managed::clone(const tuple_ro_weak &src,
       /* если схема не задана, то считаем что необходимые проверки были
          сделаны при создании tuple_ro_weak, иначе выполняем повторную
          проверку для исключения несоответствия схеме */
-      schema == nullptr);
+      schema != nullptr);
   if (wanna_validation)
     return tuple_ro_managed(tuple_rw_fixed(
         src.data(), src.size(),
-- 
2.43.0


From be564b5f2f48b1603dcf2a62ab50cecb171247b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:40 +0000
Subject: [PATCH 35/51] fix: a field definition which lacks memory must not
 purge the schema

---
 src/schema.cxx | 69 +++++++++++++++++++++-----------------------------
 1 file changed, 29 insertions(+), 40 deletions(-)

diff --git a/src/schema.cxx b/src/schema.cxx
index 96885fc..dab9844 100644
--- a/src/schema.cxx
+++ b/src/schema.cxx
@@ -49,14 +49,6 @@ struct schema_impl : public schema {
   map_name2token name2token_;
   map_token2name token2name_;
 
-  void purge() cxx11_noexcept {
-    sorted_tokens_.clear();
-    number_of_preplaced_ = number_of_stretchy_preplaced_ = 0;
-    preplaced_image_.clear();
-    name2token_.clear();
-    token2name_.clear();
-  }
-
   void add_definition(std::string &&name, const token &ident,
                       const void *initial_value);
 
@@ -156,44 +148,41 @@ void schema_impl::add_definition(std::string &&name, const token &ident,
   name2token_.reserve(name2token_.size() + 1);
   token2name_.reserve(token2name_.size() + 1);
 
+  auto const pair = name2token_.emplace(std::move(name), ident);
+  assert(pair.second);
   try {
-    if (ident.is_preplaced()) {
-      /* поле может быть расположено не только в конце образа, но и между уже
-       * определёнными полями (при импорте или слиянии схем) */
-      const std::size_t end = ident.preplaced_offset() + ident.preplaced_size();
-      if (end > preplaced_image_.size())
-        preplaced_image_.append(end - preplaced_image_.size(), '\0');
-      if (initial_value)
-        preplaced_image_.replace(ident.preplaced_offset(),
-                                 ident.preplaced_size(),
-                                 static_cast<const char *>(initial_value),
-                                 ident.preplaced_size());
-      else {
-        const auto initial_value_ptr =
-            erthink::constexpr_pointer_cast<details::field_preplaced *>(
-                const_cast<char *>(preplaced_image_.data()) +
-                ident.preplaced_offset());
-        details::preplaced_erase(ident.type(), initial_value_ptr,
-                                 ident.is_discernible_null());
-      }
-      number_of_stretchy_preplaced_ += ident.is_stretchy();
-      number_of_preplaced_ += 1;
-    }
-
-    sorted_tokens_.push_back(ident);
-    auto const pair = name2token_.emplace(std::move(name), ident);
-    assert(pair.second);
     token2name_.emplace(ident, string_view(pair.first->first));
-    assert(name2token_.size() == sorted_tokens_.size());
-    assert(sorted_tokens_.size() == token2name_.size());
   } catch (...) {
-    /* исключений быть не должно, но если что-то пошло не так,
-     * то на всякий случай стираем всё, чтобы не заботиться о
-     * взаимном соответствии потрохов схемы. */
-    purge();
+    name2token_.erase(pair.first);
     throw;
   }
 
+  /* далее исключений быть не может, так как место зарезервировано выше */
+  if (ident.is_preplaced()) {
+    /* поле может быть расположено не только в конце образа, но и между уже
+     * определёнными полями (при импорте или слиянии схем) */
+    const std::size_t end = ident.preplaced_offset() + ident.preplaced_size();
+    if (end > preplaced_image_.size())
+      preplaced_image_.append(end - preplaced_image_.size(), '\0');
+    if (initial_value)
+      preplaced_image_.replace(ident.preplaced_offset(), ident.preplaced_size(),
+                               static_cast<const char *>(initial_value),
+                               ident.preplaced_size());
+    else {
+      const auto initial_value_ptr =
+          erthink::constexpr_pointer_cast<details::field_preplaced *>(
+              const_cast<char *>(preplaced_image_.data()) +
+              ident.preplaced_offset());
+      details::preplaced_erase(ident.type(), initial_value_ptr,
+                               ident.is_discernible_null());
+    }
+    number_of_stretchy_preplaced_ += ident.is_stretchy();
+    number_of_preplaced_ += 1;
+  }
+
+  sorted_tokens_.push_back(ident);
+  assert(name2token_.size() == sorted_tokens_.size());
+  assert(sorted_tokens_.size() == token2name_.size());
   std::sort(sorted_tokens_.begin(), sorted_tokens_.end());
 }
 
-- 
2.43.0


From 36808c77c8121c4259be98370c1911942242e50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:06 +0000
Subject: [PATCH 36/51] fix: erase() by a static token did not compile

---
 fast_positive/tuples/details/rw.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index be6f4d0..213fd9a 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -1087,7 +1087,7 @@ public: //----------------------------------------------------------------------
   FPTU_TEMPLATE_FOR_STATIC_TOKEN
   bool erase(const TOKEN &ident) {
     return likely(!ident.is_collection()) ? remove(ident)
-                                          : erase(collection(ident)) > 0;
+                                          : erase(collection(token(ident))) > 0;
   }
   bool erase(const token &ident);
   __pure_function const char *audit() const cxx11_noexcept {
-- 
2.43.0


From 17c7348cb1692527361f00689f26b9808102ff48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:06 +0000
Subject: [PATCH 37/51] fix: preplaced stretchy members of structures must take
 a whole aligned unit

---
 fast_positive/tuples/details/field.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/field.h b/fast_positive/tuples/details/field.h
index 7f4b8d5..f9be38a 100644
--- a/fast_positive/tuples/details/field.h
+++ b/fast_positive/tuples/details/field.h
@@ -460,7 +460,9 @@ cxx11_constexpr const void *stretchy_value_tuple::pivot() const cxx11_noexcept {
   return begin_index() + index_size();
 }
 
-class preplaced_stretchy_value : protected relative_offset {
+/* takes a whole aligned unit, since the payload is addressed in units */
+class alignas(sizeof(unit_t)) preplaced_stretchy_value
+    : protected relative_offset {
 public:
   cxx11_constexpr bool nil() const cxx11_noexcept {
     return !relative_offset::have_payload();
-- 
2.43.0


From 18a85d1d12d30237cc569e2b16d5290952c7cf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:14 +0000
Subject: [PATCH 38/51] fix: set_number() and insert_number() of growing tuples
 were not defined

---
 src/autogrowth.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/autogrowth.cxx b/src/autogrowth.cxx
index ecdcea5..1e3f7ae 100644
--- a/src/autogrowth.cxx
+++ b/src/autogrowth.cxx
@@ -265,6 +265,12 @@ HERE_THUNK_MAKE(uint64_t, integer)
 HERE_THUNK_MAKE(int64_t, unsigned)
 HERE_THUNK_MAKE(uint64_t, unsigned)
 HERE_THUNK_MAKE(double, float)
+HERE_THUNK_MAKE(int32_t, number)
+HERE_THUNK_MAKE(uint32_t, number)
+HERE_THUNK_MAKE(int64_t, number)
+HERE_THUNK_MAKE(uint64_t, number)
+HERE_THUNK_MAKE(float, number)
+HERE_THUNK_MAKE(double, number)
 #undef HERE_THUNK_MAKE
 
 bool tuple_rw_managed::erase(const dynamic_collection_iterator_rw &it) {
-- 
2.43.0


From 97e9f93e3fcb1bbfd89acaaf50141a54a0b6d0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:24 +0000
Subject: [PATCH 39/51] fix: opening a large tuple with a reserve for fields
 must not place its data beyond the end

---
 src/rw.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rw.cxx b/src/rw.cxx
index a6a1535..ed067f5 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -709,8 +709,11 @@ inline tuple_rw::tuple_rw(const audit_holes_info &holes_info,
     throw_invalid_argument("buffer_bytes > fptu::buffer_limit");
 
   const std::size_t have_items = ro->index_size();
+  /* Место резервируемое под индекс ограничено не только max_fields, но и
+   * предельным размером кортежа вместе с уже имеющимися данными. */
   const std::size_t reserve_items =
-      std::min(size_t(fptu::max_fields), have_items + more_items);
+      std::min(std::min(size_t(fptu::max_fields), have_items + more_items),
+               size_t(max_tuple_units_netto) - ro->payload_units());
   const std::size_t space_needed = tuple_rw::estimate_required_space(
       reserve_items, ro->payload_bytes(), schema,
       /* не учитываем размер preplaced-полей, ибо они уже должы быть в ro */
-- 
2.43.0


From 84eb78373af7a0b11b627b3c7164d088da1c2e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:24 +0000
Subject: [PATCH 40/51] fix: preplaced fields must not be counted twice against
 the limit of size

---
 fast_positive/tuples/details/rw.h |  5 +++--
 src/autogrowth.cxx                |  3 ++-
 src/managed.cxx                   | 17 +++++++++++------
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index 213fd9a..802cbba 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -1158,8 +1158,9 @@ public: //----------------------------------------------------------------------
     const std::size_t preplaced_bytes = schema ? schema->preplaced_bytes() : 0;
     if (unlikely(preplaced_bytes > fundamentals::max_tuple_bytes_netto))
       throw_invalid_schema();
-    if (unlikely(data_bytes >
-                     fundamentals::max_tuple_bytes_netto - preplaced_bytes ||
+    if (unlikely(data_bytes > fundamentals::max_tuple_bytes_netto -
+                                  (dont_account_preplaced ? 0
+                                                          : preplaced_bytes) ||
                  items > fundamentals::max_fields))
       throw_tuple_too_large();
 
diff --git a/src/autogrowth.cxx b/src/autogrowth.cxx
index 1e3f7ae..0f434d3 100644
--- a/src/autogrowth.cxx
+++ b/src/autogrowth.cxx
@@ -129,7 +129,8 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
                    : pimpl_->pivot_);
 
   size_t growth_space = details::tuple_rw::estimate_required_space(
-      growth_index, growth_data, pimpl_->schema_);
+      growth_index, growth_data, pimpl_->schema_,
+      /* preplaced-поля уже учтены в data_capacity_units */ true);
   hippeus::buffer *old_buffer = pimpl_->get_buffer();
   if (unlikely(!old_buffer)) {
     /* Буфера нет (buffer_offset_ равен нулю). Кортеж был создан через
diff --git a/src/managed.cxx b/src/managed.cxx
index 189158e..14b94f3 100644
--- a/src/managed.cxx
+++ b/src/managed.cxx
@@ -53,13 +53,18 @@ static const unsigned scale2more[unsigned(initiation_scale::extreme) + 1] = {
     unsigned(max_tuple_bytes_netto - details::units2bytes(max_fields)),
 };
 
-std::size_t estimate_space_for_tuple(const initiation_scale &scale,
-                                     const fptu::schema *schema) {
+/* Размер под данные за вычетом места занимаемого preplaced-полями. */
+static std::size_t scale2data(const initiation_scale &scale,
+                              const fptu::schema *schema) {
   const size_t preplaced_bytes = schema ? schema->preplaced_bytes() : 0;
   const size_t scale_bytes = scale2bytes[scale];
-  size_t data_bytes = scale_bytes - std::min(scale_bytes, preplaced_bytes);
-  return details::tuple_rw::estimate_required_space(scale2items[scale],
-                                                    data_bytes, schema);
+  return scale_bytes - std::min(scale_bytes, preplaced_bytes);
+}
+
+std::size_t estimate_space_for_tuple(const initiation_scale &scale,
+                                     const fptu::schema *schema) {
+  return details::tuple_rw::estimate_required_space(
+      scale2items[scale], scale2data(scale, schema), schema);
 }
 
 //------------------------------------------------------------------------------
@@ -72,7 +77,7 @@ tuple_rw_fixed::tuple_rw_fixed(const initiation_scale scale)
 tuple_rw_fixed::tuple_rw_fixed(const initiation_scale scale,
                                const fptu::schema *schema,
                                const hippeus::buffer_tag &allot_tag)
-    : tuple_rw_fixed(scale2items[scale], scale2bytes[scale], schema,
+    : tuple_rw_fixed(scale2items[scale], scale2data(scale, schema), schema,
                      allot_tag) {}
 tuple_rw_fixed::tuple_rw_fixed(std::size_t items_limit, std::size_t data_bytes,
                                const fptu::schema *schema,
-- 
2.43.0


From c82ca37281e8080f893789336cd0310211e54fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:24 +0000
Subject: [PATCH 41/51] fix: growing tuples must respect the limits of size and
 number of fields

---
 src/autogrowth.cxx | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/autogrowth.cxx b/src/autogrowth.cxx
index 0f434d3..fcd9cf6 100644
--- a/src/autogrowth.cxx
+++ b/src/autogrowth.cxx
@@ -29,7 +29,9 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
   size_t allocated_units = pimpl_->tail_ - pimpl_->head_;
   size_t unallocated_units = pimpl_->end_ - allocated_units;
   if (unlikely(allocated_units - junk_units + wanna_units >= UINT16_MAX ||
-               wanna.index_space > fundamentals::max_fields ||
+               pimpl_->pivot_ - pimpl_->head_ - pimpl_->junk_.count +
+                       wanna.index_space >
+                   fundamentals::max_fields ||
                wanna.data_space > fundamentals::max_tuple_bytes_netto)) {
     /* Запрос превышает максимальный размер. Чтобы не искажать картину бросаем
      * исключение не изменяя кортеж. */
@@ -60,7 +62,10 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
                    std::min((unallocated_units * index_used + whole_used - 1) /
                                 whole_used,
                             unallocated_units - wanna.data_space));
-      shift = reserve - pimpl_->head_;
+      /* Индекс вместе с резервом не должен превысить max_fields. */
+      shift = std::min(reserve, ptrdiff_t(fundamentals::max_fields) -
+                                    ptrdiff_t(index_used - wanna.index_space)) -
+              pimpl_->head_;
     } else if (wanna.data_space > pimpl_->end_ - pimpl_->tail_) {
       /* Недостаточно места для данных, перемещаем всё вперед. Пытаемся
        * переместить "с запасом", распределяя свободное место пропорционально
@@ -100,6 +105,8 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
    * будет размером из "линейки масштабов". */
 
   if (allocated_units + wanna_units >= UINT16_MAX ||
+      pimpl_->pivot_ - pimpl_->head_ + wanna.index_space >
+          fundamentals::max_fields ||
       junk_units + junk_units > allocated_units) {
     /* Без компактификации расширение на запрошенное место превысит предел
      * размера кортежа.
@@ -120,9 +127,13 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
           : details::units2bytes(data_capacity_units + 42));
 
   /* Место под индекс: удваиваем если не хватило или использовано хотя-бы на
-   * половину, иначе оставляем как есть. */
+   * половину, иначе оставляем как есть. Но не более чем позволяет предельный
+   * размер кортежа вместе с уже имеющимися и добавляемыми данными. */
   const size_t growth_index =
-      std::min(size_t(fundamentals::max_fields),
+      std::min(std::min(size_t(fundamentals::max_fields),
+                        size_t(fundamentals::max_tuple_units_netto) -
+                            (pimpl_->tail_ - pimpl_->pivot_) -
+                            wanna.data_space),
                (wanna.index_space > pimpl_->head_space() ||
                 pimpl_->head_ + pimpl_->head_ < pimpl_->pivot_)
                    ? (wanna.index_space + pimpl_->pivot_) * 2
-- 
2.43.0


From d64b2a2ee8500f4fcea82535761b8a4bc83d1fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:24 +0000
Subject: [PATCH 42/51] fix: growth of a tuple without a buffer miscalculated
 its new size

---
 src/autogrowth.cxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/autogrowth.cxx b/src/autogrowth.cxx
index fcd9cf6..7160dab 100644
--- a/src/autogrowth.cxx
+++ b/src/autogrowth.cxx
@@ -153,16 +153,16 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
       throw std::bad_alloc();
     pimpl_ =
         erthink::constexpr_pointer_cast<details::tuple_rw *>(new_legacy_buffer);
-    pimpl_->end_ = unsigned(std::min(
-        ptrdiff_t(max_tuple_units_netto),
-        erthink::constexpr_pointer_cast<details::unit_t *>(new_legacy_buffer) +
-            growth_space % fundamentals::unit_size - pimpl_->area_));
+    pimpl_->end_ = unsigned(
+        std::min(size_t(max_tuple_units_netto),
+                 (growth_space - details::tuple_rw::pure_tuple_size()) >>
+                     fundamentals::unit_shift));
     debug_check();
 
     /* Память перевыделенна. Теперь должно быть достаточно места для данных, но
      * для расширения места под индекс потроха кортежа нужно передвинуть. */
-    assert(wanna.data_space >= pimpl_->end_ - pimpl_->tail_);
-    assert(wanna_units >= pimpl_->end_ - pimpl_->tail_ + pimpl_->head_);
+    assert(wanna.data_space <= pimpl_->end_ - pimpl_->tail_);
+    assert(wanna_units <= pimpl_->end_ - pimpl_->tail_ + pimpl_->head_);
     if (growth_index > pimpl_->pivot_) {
       /* Недостаточно места для индекса, перемещаем всё назад */
       const ptrdiff_t shift = growth_index - pimpl_->pivot_;
-- 
2.43.0


From b71c66a9895bff150764b42c965f80bab9ccb85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:10 +0000
Subject: [PATCH 43/51] fix: a tuple of the largest size must not be refused by
 its own check

---
 src/audit.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/audit.cxx b/src/audit.cxx
index b1aa3cb..18a3bd5 100644
--- a/src/audit.cxx
+++ b/src/audit.cxx
@@ -384,7 +384,7 @@ tuple_ro::inline_lite_checkup(const void *ptr,
 
   if (unlikely(bytes < sizeof(unit_t)))
     return AUDIT_FAILURE("hollow tuple (too short)");
-  if (unlikely(bytes > fptu::max_tuple_bytes_netto))
+  if (unlikely(bytes > fptu::max_tuple_bytes_brutto))
     return AUDIT_FAILURE("tuple too large");
   if (unlikely(bytes % sizeof(unit_t)))
     return AUDIT_FAILURE("odd tuple size");
-- 
2.43.0


From 5e2ff8088df45e475b281973f2565823c289521d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:39 +0000
Subject: [PATCH 44/51] fix: schema::by_loose() missed fields of schemas with
 four or more loose fields

---
 src/schema.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/schema.cxx b/src/schema.cxx
index dab9844..143501b 100644
--- a/src/schema.cxx
+++ b/src/schema.cxx
@@ -425,6 +425,11 @@ schema::by_loose(const details::field_loose *field) const cxx11_noexcept {
       ++iter;
       __fallthrough /* fall through */;
     case 0:
+      /* элемент, на котором диапазон был разделен пополам, не входит в span,
+       * но может быть искомым */
+      if (iter != sorted_tokens_.end() &&
+          details::tag2genus_and_id(iter->tag()) == field->genus_and_id)
+        return *iter;
       break;
     default:
       assert(false);
-- 
2.43.0


From ada2c7c8d2145e9aed1eed7e69dc040ee748e666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:08 +0000
Subject: [PATCH 45/51] fix: compactification must not break a tuple when there
 is no memory for its work

---
 src/gear.cxx | 65 +++++++++++++++++++++++-----------------------------
 1 file changed, 29 insertions(+), 36 deletions(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index 3de016e..f9ea4a0 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -764,23 +764,43 @@ inline void gear::compactify(onstack_allocation_arena &onstack_arena) {
    *  - эти ДВА ШАГА взаимосвязаны и не могут выполняться по-отдельности
    *    или в другом порядке! */
 
-  int moveable_count = -1 /* счетчик потенциально перемещаемых элементов для
-                               оценки требуемого размера вектора */
-      ;
+  /* LY: сначала готовим вектор, так как при нехватке памяти будет исключение,
+   * а после начала перемещения данных вернуться назад уже нельзя. */
+  compact_vector vector(onstack_arena);
+  if (junk_.volume) {
+    /* считаем требуемый размер вектора подсчитывая перемещаемые элементы */
+    std::size_t moveable_count = 0;
+    /* TODO: SIMD */
+    for (field_loose *loose = begin_index(); loose < end_index(); ++loose) {
+      if (loose->is_hole())
+        continue;
+      moveable_count +=
+          !is_inplaced(loose->type()) && loose->relative.have_payload();
+    }
+    if (schema_) {
+      for (const token &ident : schema_->tokens()) {
+        if (!ident.is_preplaced())
+          break;
+        if (!is_fixed_size(ident.type())) {
+          const field_preplaced *const preplaced =
+              erthink::constexpr_pointer_cast<const field_preplaced *>(
+                  begin_data_bytes() + ident.preplaced_offset());
+          moveable_count += preplaced->relative.have_payload();
+        }
+      }
+    }
+    vector.reserve(moveable_count);
+  }
 
-  /* LY: при необходимости сначала убираем дырки/зазоры из индекса */
+  /* LY: при необходимости убираем дырки/зазоры из индекса */
   if (junk_.count) {
     debug_check();
     field_loose *src, *dst;
-    /* копируем индекс пропуская дырки, одновременно подсчитываем перемещаемые
-     * элементы для оценки размера вектора */
-    moveable_count = 0;
+    /* копируем индекс пропуская дырки */
     for (src = dst = end_index() - 1; src >= begin_index(); --src) {
       /* TODO: SIMD? */
       if (src->is_hole())
         continue;
-      moveable_count +=
-          !is_inplaced(src->type()) && src->relative.have_payload();
       if (src != dst) {
         dst->loose_header = src->loose_header;
         if (!is_inplaced(src->type()) && src->relative.have_payload())
@@ -801,33 +821,7 @@ inline void gear::compactify(onstack_allocation_arena &onstack_arena) {
 
   /* теперь при необходимости дефрагментируем данные */
   if (junk_.volume) {
-    /* считаем требуемый размер вектора подсчитывая перемещаемые элементы */
-    if (moveable_count < 0) {
-      moveable_count = 0;
-      /* TODO: SIMD */
-      for (field_loose *loose = begin_index(); loose < end_index(); ++loose) {
-        assert(!loose->is_hole());
-        moveable_count +=
-            !is_inplaced(loose->type()) && loose->relative.have_payload();
-      }
-    }
-    if (schema_) {
-      for (const token &ident : schema_->tokens()) {
-        if (!ident.is_preplaced())
-          break;
-        if (!is_fixed_size(ident.type())) {
-          const field_preplaced *const preplaced =
-              erthink::constexpr_pointer_cast<const field_preplaced *>(
-                  begin_data_bytes() + ident.preplaced_offset());
-          moveable_count += preplaced->relative.have_payload();
-        }
-      }
-    }
-    assert(moveable_count > 0);
-
     /* заполняем вектор описаниями чанков данных */
-    compact_vector vector(onstack_arena);
-    vector.reserve(moveable_count);
     const unit_t *const basis = &area_[head_];
     if (schema_) {
       for (const token &ident : schema_->tokens()) {
@@ -848,7 +842,6 @@ inline void gear::compactify(onstack_allocation_arena &onstack_arena) {
         vector.emplace_back(basis, loose);
       }
     }
-    assert(vector.size() == (size_t)moveable_count);
 
     /* сортируем в порядке возрастания адресов/смещений */
     std::sort(vector.begin(), vector.end(),
-- 
2.43.0


From 3ff8f3112718632f27fcbbda783fd9601b5cf19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:08 +0000
Subject: [PATCH 46/51] fix: lack of memory during an audit of a modifiable
 tuple must not terminate the program

---
 src/audit.cxx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/audit.cxx b/src/audit.cxx
index 18a3bd5..71c5dcb 100644
--- a/src/audit.cxx
+++ b/src/audit.cxx
@@ -459,9 +459,13 @@ __hot const char *tuple_rw::audit(const tuple_rw *self) cxx11_noexcept {
     flags |= audit_flags::audit_tuple_have_preplaced;
 
   audit_holes_info holes_info;
-  const char *trouble =
-      audit_tuple(self->schema_, self->begin_index(), self->pivot(),
-                  self->end_data_bytes(), flags, holes_info);
+  const char *trouble;
+  try {
+    trouble = audit_tuple(self->schema_, self->begin_index(), self->pivot(),
+                          self->end_data_bytes(), flags, holes_info);
+  } catch (const std::bad_alloc &) {
+    return AUDIT_FAILURE("not enough memory to audit tuple");
+  }
   if (unlikely(trouble))
     return trouble;
 
-- 
2.43.0


From 34ab616b550027eb1b309c412499091743ee5d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:08 +0000
Subject: [PATCH 47/51] fix: audit refused to work with a full index and a
 schema with stretchy preplaced fields

---
 src/audit.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/audit.cxx b/src/audit.cxx
index 71c5dcb..5df80e2 100644
--- a/src/audit.cxx
+++ b/src/audit.cxx
@@ -88,7 +88,8 @@ public:
   auditor(onstack_allocation_arena &area, std::size_t limit)
       : map_(area), holes_count_(0), holes_volume_(0) {
     static_assert(sizeof(interval) == 2 * sizeof(offset), "WTF?");
-    FPTU_ENSURE(limit <= fptu::max_fields);
+    /* индекс и preplaced-поля переменной длины */
+    FPTU_ENSURE(limit <= fptu::max_tuple_units_netto);
     map_.reserve(limit);
   }
 
-- 
2.43.0


From f3a2e242ec584851a26a06e8190e0c8d92edd419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:33 +0000
Subject: [PATCH 48/51] fix: lack of memory during fptu_check_ro() must not
 terminate the program

---
 src/compat_ro.cxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/compat_ro.cxx b/src/compat_ro.cxx
index 166d0e1..a7c1fa9 100644
--- a/src/compat_ro.cxx
+++ b/src/compat_ro.cxx
@@ -19,8 +19,12 @@
 
 const char *fptu_check_ro_ex(fptu_ro ro,
                              bool holes_are_not_allowed) cxx11_noexcept {
-  return fptu::details::tuple_ro::audit(ro.sys.iov_base, ro.sys.iov_len,
-                                        nullptr, holes_are_not_allowed);
+  try {
+    return fptu::details::tuple_ro::audit(ro.sys.iov_base, ro.sys.iov_len,
+                                          nullptr, holes_are_not_allowed);
+  } catch (const std::bad_alloc &) {
+    return "not enough memory to check tuple";
+  }
 }
 
 static cxx11_constexpr bool is_hollow(const fptu_ro &ro) cxx11_noexcept {
-- 
2.43.0


From 2770d12f9833590f0f1feb5f17488ee3684c1fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:33 +0000
Subject: [PATCH 49/51] fix: fptu_get_buffer_size() must not terminate the
 program when asked for too much

---
 src/compat_rw.cxx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/compat_rw.cxx b/src/compat_rw.cxx
index 03c942e..ba6f7d5 100644
--- a/src/compat_rw.cxx
+++ b/src/compat_rw.cxx
@@ -169,8 +169,13 @@ size_t fptu_get_buffer_size(fptu_ro ro, unsigned more_items,
                             unsigned more_payload) cxx11_noexcept {
   const fptu::details::tuple_ro *tuple_ro =
       static_cast<const fptu::details::tuple_ro *>(ro.sys.iov_base);
-  return fptu::details::tuple_rw::estimate_required_space(
-      tuple_ro, more_items, more_payload, nullptr);
+  try {
+    return fptu::details::tuple_rw::estimate_required_space(
+        tuple_ro, more_items, more_payload, nullptr);
+  } catch (const std::exception &e) {
+    fptu_set_error(e);
+    return 0;
+  }
 }
 
 static const char cbfs_ok_sign[] = "FPTU_SUCCESS";
-- 
2.43.0


From 2984cf257845cdbc9f8ec644e78aec7fbc864483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:33 +0000
Subject: [PATCH 50/51] fix: lack of memory during
 fptu_check_and_get_buffer_size_ex() must not terminate the program

---
 src/compat_rw.cxx | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/compat_rw.cxx b/src/compat_rw.cxx
index ba6f7d5..ffa91b4 100644
--- a/src/compat_rw.cxx
+++ b/src/compat_rw.cxx
@@ -214,19 +214,19 @@ size_t fptu_check_and_get_buffer_size_ex(
   if (unlikely(cbfs == nullptr))
     return ~size_t(0);
 
-  fptu::details::audit_holes_info holes_info;
-  const char *trouble = fptu::details::tuple_ro::audit(
-      ro.sys.iov_base, ro.sys.iov_len, nullptr, holes_info);
-  if (unlikely(trouble)) {
-    const auto &error_info = fptu_set_error(FPTU_EINVAL, trouble);
-    cbfs->err = error_info.first;
-    cbfs->err_msg = error_info.second.c_str();
-    return 0;
-  }
-
-  const fptu::details::tuple_ro *tuple_ro =
-      static_cast<const fptu::details::tuple_ro *>(ro.sys.iov_base);
   try {
+    fptu::details::audit_holes_info holes_info;
+    const char *trouble = fptu::details::tuple_ro::audit(
+        ro.sys.iov_base, ro.sys.iov_len, nullptr, holes_info);
+    if (unlikely(trouble)) {
+      const auto &error_info = fptu_set_error(FPTU_EINVAL, trouble);
+      cbfs->err = error_info.first;
+      cbfs->err_msg = error_info.second.c_str();
+      return 0;
+    }
+
+    const fptu::details::tuple_ro *tuple_ro =
+        static_cast<const fptu::details::tuple_ro *>(ro.sys.iov_base);
     const auto result = fptu::details::tuple_rw::estimate_required_space(
         tuple_ro, more_items, more_payload, nullptr);
     cbfs->err = FPTU_OK;
-- 
2.43.0


From e1f0886327d225dc29867e50f98b67cb311c4df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:23 +0000
Subject: [PATCH 51/51] fix: lack of memory during validate() must not
 terminate the program

---
 fast_positive/tuples.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/fast_positive/tuples.h b/fast_positive/tuples.h
index 415774f..820c281 100644
--- a/fast_positive/tuples.h
+++ b/fast_positive/tuples.h
@@ -297,12 +297,20 @@ public:
   __pure_function const char *
   validate(const fptu::schema *schema,
            bool holes_are_not_allowed = false) const cxx11_noexcept {
-    return get_impl()->audit(schema, holes_are_not_allowed);
+    try {
+      return get_impl()->audit(schema, holes_are_not_allowed);
+    } catch (const std::bad_alloc &) {
+      return "not enough memory to audit tuple";
+    }
   }
   __pure_function static const char *
   validate(const void *ptr, std::size_t bytes, const fptu::schema *schema,
            bool holes_are_not_allowed = false) cxx11_noexcept {
-    return TUPLE::impl::audit(ptr, bytes, schema, holes_are_not_allowed);
+    try {
+      return TUPLE::impl::audit(ptr, bytes, schema, holes_are_not_allowed);
+    } catch (const std::bad_alloc &) {
+      return "not enough memory to audit tuple";
+    }
   }
   __pure_function cxx11_constexpr bool empty() const cxx11_noexcept {
     return get_impl()->empty();
-- 
2.43.0

