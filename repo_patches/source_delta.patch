From 72ad2c4e96e00aef94f935eea7eeee6eb296e5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:01 +0000
Subject: [PATCH 01/65] fix: presence of preplaced fields was reported inverted

accessor_ro::exist() returned is_null() for preplaced fields, therefore
is_present(), exist() and the result of erase() were inverted, and erase()
of a present preplaced field did nothing.
---
 fast_positive/tuples/details/getter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/getter.h b/fast_positive/tuples/details/getter.h
index 725e281..83d8bdc 100644
--- a/fast_positive/tuples/details/getter.h
+++ b/fast_positive/tuples/details/getter.h
@@ -211,7 +211,7 @@ public:
 
   cxx11_constexpr bool exist() const cxx11_noexcept {
     return token_.is_preplaced()
-               ? static_cast<const field_preplaced *>(field_)->is_null(
+               ? !static_cast<const field_preplaced *>(field_)->is_null(
                      token_.tag())
                : field_ != nullptr;
   }
-- 
2.43.0


From 220d42c1291e1d238f24030ad28e979dc60239e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:35 +0000
Subject: [PATCH 02/65] fix: postfix increment and decrement of tuple iterators
 did not advance them

---
 fast_positive/tuples/details/getter.h |  4 ++--
 fast_positive/tuples/details/ro.h     | 20 ++++++++++++--------
 fast_positive/tuples/details/rw.h     |  4 ++--
 3 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/fast_positive/tuples/details/getter.h b/fast_positive/tuples/details/getter.h
index 83d8bdc..9b58f9b 100644
--- a/fast_positive/tuples/details/getter.h
+++ b/fast_positive/tuples/details/getter.h
@@ -492,9 +492,9 @@ public:
                             detent_, accessor::token_.tag());
     return *this;
   }
-  collection_iterator_ro operator++(int) const cxx11_noexcept {
+  collection_iterator_ro operator++(int) cxx11_noexcept {
     collection_iterator_ro iterator(*this);
-    ++iterator;
+    ++*this;
     return iterator;
   }
   cxx11_constexpr const accessor &operator*() const cxx11_noexcept {
diff --git a/fast_positive/tuples/details/ro.h b/fast_positive/tuples/details/ro.h
index 9d5143e..87e49b6 100644
--- a/fast_positive/tuples/details/ro.h
+++ b/fast_positive/tuples/details/ro.h
@@ -182,17 +182,19 @@ public:
     --field_;
     return *this;
   }
-  loose_iterator_ro operator++(int) const cxx11_noexcept {
+  loose_iterator_ro operator++(int) cxx11_noexcept {
     loose_iterator_ro iterator(*this);
-    return --iterator;
+    ++*this;
+    return iterator;
   }
   loose_iterator_ro &operator--() cxx11_noexcept {
     ++field_;
     return *this;
   }
-  loose_iterator_ro operator--(int) const cxx11_noexcept {
+  loose_iterator_ro operator--(int) cxx11_noexcept {
     loose_iterator_ro iterator(*this);
-    return ++iterator;
+    --*this;
+    return iterator;
   }
   loose_iterator_ro &operator+=(const difference_type shift) cxx11_noexcept {
     field_ -= shift;
@@ -504,14 +506,16 @@ public:
   }
 
   field_iterator_ro &operator++();
-  field_iterator_ro operator++(int) const {
+  field_iterator_ro operator++(int) {
     field_iterator_ro iterator(*this);
-    return ++iterator;
+    ++*this;
+    return iterator;
   }
   field_iterator_ro &operator--();
-  field_iterator_ro operator--(int) const {
+  field_iterator_ro operator--(int) {
     field_iterator_ro iterator(*this);
-    return --iterator;
+    --*this;
+    return iterator;
   }
 };
 
diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index 5590fdb..1f4f1bf 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -924,9 +924,9 @@ public:
                accessor::tuple_->end_index(), accessor::token_.tag());
       return *this;
     }
-    collection_iterator_rw operator++(int) const cxx11_noexcept {
+    collection_iterator_rw operator++(int) cxx11_noexcept {
       collection_iterator_rw iterator(*this);
-      ++iterator;
+      ++*this;
       return iterator;
     }
     cxx14_constexpr accessor operator*() const cxx11_noexcept {
-- 
2.43.0


From a9f304f1683f9e9e13bb7f3e26090dcce32d144d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:31 +0000
Subject: [PATCH 03/65] fix: loose_iterator_ro::operator[] gave an accessor
 with the token of another field

---
 fast_positive/tuples/details/ro.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/ro.h b/fast_positive/tuples/details/ro.h
index 87e49b6..da9b6e1 100644
--- a/fast_positive/tuples/details/ro.h
+++ b/fast_positive/tuples/details/ro.h
@@ -87,7 +87,7 @@ public:
            - is_discernible_null: не имеет значения, ибо точно знаем что
              loose-поле есть.
            - is_rangechecking/is_saturated: не нужен при чтении. */
-        field_token(false, false, false));
+        token((field_ - index)->genus_and_id, false, false, false));
   }
   cxx14_constexpr dynamic_accessor_ro operator*() const cxx11_noexcept {
     return operator[](0);
-- 
2.43.0


From 8b479872f73e72aff7bfa41d4ef5b6ccba346cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:46 +0000
Subject: [PATCH 04/65] fix: netto_size() subtracted junk units from bytes

---
 fast_positive/tuples/details/rw.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index 1f4f1bf..ad91693 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -1128,7 +1128,7 @@ public: //----------------------------------------------------------------------
     return units2bytes(tail_ - head_ + /* header */ 1);
   }
   __pure_function std::size_t netto_size() const cxx11_noexcept {
-    return brutto_size() - junk_units();
+    return brutto_size() - junk_bytes();
   }
   __pure_function std::size_t capacity() const cxx11_noexcept {
     return units2bytes(end_);
-- 
2.43.0


From 5d4f6bf0147c55b68f64afad59fc703965f97cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:39 +0000
Subject: [PATCH 05/65] fix: schema::by_loose() missed tokens at the pivots of
 its binary search

---
 src/schema.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/schema.cxx b/src/schema.cxx
index e1b30cf..85f6f82 100644
--- a/src/schema.cxx
+++ b/src/schema.cxx
@@ -432,6 +432,10 @@ schema::by_loose(const details::field_loose *field) const cxx11_noexcept {
       ++iter;
       __fallthrough /* fall through */;
     case 0:
+      /* искомым может быть middle последнего сужения диапазона */
+      if (iter != sorted_tokens_.end() &&
+          details::tag2genus_and_id(iter->tag()) == field->genus_and_id)
+        return *iter;
       break;
     default:
       assert(false);
-- 
2.43.0


From e9a76c959328ddbf57dc2ec3fcbe19aec2a371e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:03 +0000
Subject: [PATCH 06/65] fix: partial reuse of a hole moved its beginning by a
 wrong distance

---
 src/gear.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index c8b921f..9238d4d 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -297,7 +297,7 @@ field_loose *gear::alloc_loose(const tag_t tag, unsigned units) {
   field_loose *loose = index_alloc(units);
   loose->genus_and_id = uint16_t(tag);
   loose->relative.set_payload(hole->hole_begin());
-  hole->relative.add_delta(excess);
+  hole->relative.add_delta(units);
   hole->hole_set_units(excess);
   junk_.volume -= uint16_t(units);
   mark_unsorted();
-- 
2.43.0


From 5d6d6f867919fd49285cdd5e00136195607ed276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:28 +0000
Subject: [PATCH 07/65] fix: writing a value whose slot is larger read past the
 end of the given value

---
 fast_positive/tuples/details/meta.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fast_positive/tuples/details/meta.h b/fast_positive/tuples/details/meta.h
index 9a367a3..f6eb797 100644
--- a/fast_positive/tuples/details/meta.h
+++ b/fast_positive/tuples/details/meta.h
@@ -241,7 +241,7 @@ template <unsigned N, typename TYPE = uint32_t[N]> struct unit_n {
   static void write(details::field_preplaced *preplaced,
                     return_type value) cxx11_noexcept {
     static_assert(sizeof(value_type) <= preplaced_bytes, "WTF?");
-    std::memcpy(preplaced->bytes, &value, preplaced_bytes);
+    std::memcpy(preplaced->bytes, &value, sizeof(value_type));
     if (preplaced_bytes != sizeof(value_type))
       std::memset(preplaced->bytes + sizeof(value_type), 0,
                   preplaced_bytes - sizeof(value_type));
@@ -267,7 +267,7 @@ template <unsigned N, typename TYPE = uint32_t[N]> struct unit_n {
 #endif /* GNU C >= 10.x */
 
     static_assert(sizeof(ptr->fixed) >= preplaced_bytes, "WTF?");
-    std::memcpy(&ptr->fixed.words, &value, preplaced_bytes);
+    std::memcpy(&ptr->fixed.words, &value, sizeof(value_type));
     if (preplaced_bytes != sizeof(value_type))
       std::memset(ptr->fixed.bytes + sizeof(value_type), 0,
                   preplaced_bytes - sizeof(value_type));
-- 
2.43.0


From 2d7c5d967e63f7b94ca91871b3a6de1f3143198f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:19 +0000
Subject: [PATCH 08/65] fix: length of variable binary values was wrong unless
 a multiple of four

---
 fast_positive/tuples/details/field.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/field.h b/fast_positive/tuples/details/field.h
index 5a05fb2..b5b2929 100644
--- a/fast_positive/tuples/details/field.h
+++ b/fast_positive/tuples/details/field.h
@@ -121,7 +121,7 @@ union stretchy_value_varbin {
     static_assert(8 - genus_bitness == 3, "Oops");
     const std::size_t tailbytes = reserved14_tailbytes & 3;
     constexpr_assert(brutto_units > 1 || tailbytes == 0);
-    return units2bytes(brutto_units) - 4 + tailbytes;
+    return units2bytes(brutto_units) - 4 - ((4 - tailbytes) & 3);
   }
 
   static std::size_t estimate_space(const string_view &value) {
-- 
2.43.0


From 641338e786d40f6d441d26d0ecdbdef7bf3472c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:21 +0000
Subject: [PATCH 09/65] fix: cloning of a weak R/O tuple skipped validation
 with a schema and lost the hole counters

---
 src/managed.cxx | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/managed.cxx b/src/managed.cxx
index 928b566..bc14d56 100644
--- a/src/managed.cxx
+++ b/src/managed.cxx
@@ -469,14 +469,21 @@ tuple_ro_managed tuple_ro_managed::clone(const tuple_ro_weak &src,
       validation,
       /* если схема не задана, то считаем что необходимые проверки были
          сделаны при создании tuple_ro_weak, иначе выполняем повторную
-         проверку для исключения несоответствия схеме */
-      schema == nullptr);
+         проверку для исключения несоответствия схеме. Без схемы нельзя
+         обслуживать preplaced-поля, это будет выявлено проверкой. */
+      schema != nullptr || src.have_preplaced());
   if (wanna_validation)
     return tuple_ro_managed(tuple_rw_fixed(
         src.data(), src.size(),
         /* more_items */ 0, /* more_payload */ 0, schema, allot_tag));
 
-  const details::audit_holes_info &holes_info = {0, 0};
+  details::audit_holes_info holes_info = {0, 0};
+  for (auto scan = src.get_impl()->begin_index();
+       scan != src.get_impl()->end_index(); ++scan)
+    if (scan->is_hole()) {
+      holes_info.count += 1;
+      holes_info.volume += uint16_t(scan->hole_get_units());
+    }
   return tuple_ro_managed(tuple_rw_fixed(
       holes_info, src,
       /* more_items */ 0, /* more_payload */ 0, schema, allot_tag));
-- 
2.43.0


From 9f1b0afc2fee2896da7d6b76cdd2bc21c86f8e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:44 +0000
Subject: [PATCH 10/65] fix: compactification treated absent preplaced stretchy
 fields as having a payload

---
 src/gear.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index 9238d4d..69a5dc7 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -832,7 +832,8 @@ inline void gear::compactify(onstack_allocation_arena &onstack_arena) {
           const field_preplaced *const preplaced =
               erthink::constexpr_pointer_cast<const field_preplaced *>(
                   begin_data_bytes() + ident.preplaced_offset());
-          vector.emplace_back(basis, ident.type(), preplaced);
+          if (preplaced->relative.have_payload())
+            vector.emplace_back(basis, ident.type(), preplaced);
         }
       }
     }
-- 
2.43.0


From da884b4afa6761e911bef637074d8798f858a3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:11 +0000
Subject: [PATCH 11/65] fix: compactification shifted references of
 payload-less loose fields

---
 src/gear.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index 69a5dc7..8c1e4c5 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -780,7 +780,7 @@ inline void gear::compactify(onstack_allocation_arena &onstack_arena) {
           !is_inplaced(src->type()) && src->relative.have_payload();
       if (src != dst) {
         dst->loose_header = src->loose_header;
-        if (!is_inplaced(src->type()))
+        if (!is_inplaced(src->type()) && src->relative.have_payload())
           dst->relative.sub_delta(dst - src);
       }
       --dst;
-- 
2.43.0


From 5a9b9304723d590b20f70209af09296c2a299d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:01 +0000
Subject: [PATCH 12/65] fix: sorting of the index overran it with twice as many
 descriptors

---
 src/gear.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index 8c1e4c5..8c88e26 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -921,7 +921,8 @@ bool gear::sort(onstack_allocation_arena &onstack_arena) {
     return false;
   }
 
-  sort_vector vector(index_size(), onstack_arena);
+  sort_vector vector(onstack_arena);
+  vector.reserve(index_size());
   const unit_t *const basis = &area_[head_];
   /* заполняем вектор */
   for (field_loose *loose = begin_index(); loose < end_index(); ++loose)
-- 
2.43.0


From fdeb5b90e387c86471941c436fb1f9f645cee6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:29 +0000
Subject: [PATCH 13/65] fix: junk counters were spoiled when there is no room
 for a hole descriptor

---
 src/gear.cxx | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index 8c88e26..900f1f9 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -389,6 +389,13 @@ gear::release_data(relative_payload *chunk, unsigned units,
     return nullptr;
   }
 
+  if (hole0 == nullptr && !before_after.first && !before_after.second) {
+    /* слить не с чем, потребуется отдельная дырка. Выделяем её до изменения
+     * счетчиков, ибо тут может выскочить исключение */
+    hole0 = index_alloc(0);
+    junk_.count += 1;
+  }
+
   /* добавляем в счетчики, чтобы прошли проверки внутри merge и trim */
   junk_.volume += uint16_t(units);
 
@@ -413,10 +420,7 @@ gear::release_data(relative_payload *chunk, unsigned units,
     /* не нашлось соседних дырок для объединения с куском */
     assert(chunk->flat + units != end_data_units());
     /* кусок НЕ может примыкать к концу данных, оформляем дыркой */
-    if (hole0 == nullptr) {
-      hole0 = index_alloc(0);
-      junk_.count += 1;
-    }
+    assert(hole0 != nullptr);
     hole0->hole_set_units(units);
     hole0->relative.set_payload(chunk);
     return hole0;
-- 
2.43.0


From 19c91eb111e345acb0bbc4c99665dc68c6837bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:00 +0000
Subject: [PATCH 14/65] fix: reset() terminated the process for tuples without
 room for loose fields

---
 src/rw.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rw.cxx b/src/rw.cxx
index 374d3de..18bf3b3 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -608,7 +608,7 @@ tuple_rw::insert_number(const token &ident, const double value) {
 
 void tuple_rw::reset() {
   /* sanity check for corruption */
-  if (unlikely(pivot_ < 1 || pivot_ > fptu::max_fields || pivot_ > end_ ||
+  if (unlikely(pivot_ > fptu::max_fields || pivot_ > end_ ||
                end_ > bytes2units(fptu::buffer_limit)))
     throw_tuple_bad(this);
 
-- 
2.43.0


From 52ca111d9f33fe4e3d76163613bf1ba48e68bad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:49 +0000
Subject: [PATCH 15/65] fix: NaN and infinity were mishandled since the library
 was built with -ffinite-math-only

---
 src/CMakeLists.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CMakeLists.txt b/src/CMakeLists.txt
index 65d3728..3d3ac76 100644
--- a/src/CMakeLists.txt
+++ b/src/CMakeLists.txt
@@ -224,7 +224,7 @@ else()
 endif()
 
 if(CC_HAS_FASTMATH)
-  target_compile_options(${fptu_target} PRIVATE "-ffast-math")
+  target_compile_options(${fptu_target} PRIVATE "-ffast-math" "-fno-finite-math-only")
 endif()
 
 if(BUILD_FOR_NATIVE_CPU AND CC_HAS_ARCH_NATIVE)
-- 
2.43.0


From ec67a0d32e4a0792d19a9ba2b2932d9edfae0117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:21 +0000
Subject: [PATCH 16/65] fix: hole counters were lost when an autogrowing tuple
 moved to a larger buffer

---
 src/autogrowth.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/autogrowth.cxx b/src/autogrowth.cxx
index 88634e8..ecdcea5 100644
--- a/src/autogrowth.cxx
+++ b/src/autogrowth.cxx
@@ -188,6 +188,7 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
 
   new_tuple->head_ = new_tuple->pivot_ - (pimpl_->pivot_ - pimpl_->head_);
   new_tuple->tail_ = new_tuple->pivot_ + (pimpl_->tail_ - pimpl_->pivot_);
+  new_tuple->junk_ = pimpl_->junk_;
   std::memcpy(static_cast<void *>(new_tuple->begin_index()),
               pimpl_->begin_index(),
               details::units2bytes(pimpl_->tail_ - pimpl_->head_));
-- 
2.43.0


From 92202b6a6384b6a3bc272284568aa6b473161176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:40 +0000
Subject: [PATCH 17/65] fix: compactification failed its own assertion when the
 index takes all the space

---
 src/gear.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index 900f1f9..e581b96 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -792,7 +792,7 @@ inline void gear::compactify(onstack_allocation_arena &onstack_arena) {
     assert(dst - src == junk_.count);
     assert(dst + 1 == begin_index() + junk_.count);
     assert(src + 1 == begin_index());
-    assert(dst > erthink::constexpr_pointer_cast<field_loose *>(area_) &&
+    assert(dst >= erthink::constexpr_pointer_cast<field_loose *>(area_) &&
            dst < end_index());
     head_ += junk_.count;
     junk_.count = 0;
-- 
2.43.0


From b7ded9eccdb455813f752f721174113baed1651a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:13 +0000
Subject: [PATCH 18/65] fix: a hole adjoining the end of data was left behind
 when exchanging chunks

---
 src/gear.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index e581b96..f267259 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -592,7 +592,7 @@ relative_payload *gear::realloc_data(relative_offset &ref, const unsigned have,
       junk_.volume += uint16_t(have - needed);
 
       /* если дырка примыкает к концу данных, то её нужно "испарить" */
-      if (chunk == end_data_units()) {
+      if (chunk + have == end_data_units()) {
         /* возвращем место в нераспределенное */
         tail_ -= have;
         junk_.volume -= uint16_t(have);
-- 
2.43.0


From 70442352138a48a77f97d940843b95bd46582553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:52 +0000
Subject: [PATCH 19/65] fix: cloning of a large tuple with preplaced fields was
 refused as too large

estimate_required_space() subtracted the preplaced area from the limit even
when told that it is already counted.
---
 fast_positive/tuples/details/rw.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index ad91693..470d36e 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -1155,7 +1155,8 @@ public: //----------------------------------------------------------------------
     if (unlikely(preplaced_bytes > fundamentals::max_tuple_bytes_netto))
       throw_invalid_schema();
     if (unlikely(data_bytes >
-                     fundamentals::max_tuple_bytes_netto - preplaced_bytes ||
+                     fundamentals::max_tuple_bytes_netto -
+                         (dont_account_preplaced ? 0 : preplaced_bytes) ||
                  items > fundamentals::max_fields))
       throw_tuple_too_large();
 
-- 
2.43.0


From f637eeae7c9907f0b6c3d6fc73d3b45254239148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:09 +0000
Subject: [PATCH 20/65] fix: autogrowth refused to enlarge large tuples with
 preplaced fields

The preplaced area was counted twice, thus over the limit, and tuple_too_large
was thrown for tuples far below the maximal size.
---
 src/autogrowth.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/autogrowth.cxx b/src/autogrowth.cxx
index ecdcea5..a44f79d 100644
--- a/src/autogrowth.cxx
+++ b/src/autogrowth.cxx
@@ -129,7 +129,8 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
                    : pimpl_->pivot_);
 
   size_t growth_space = details::tuple_rw::estimate_required_space(
-      growth_index, growth_data, pimpl_->schema_);
+      growth_index, growth_data, pimpl_->schema_,
+      /* preplaced-поля уже учтены в data_capacity_units */ true);
   hippeus::buffer *old_buffer = pimpl_->get_buffer();
   if (unlikely(!old_buffer)) {
     /* Буфера нет (buffer_offset_ равен нулю). Кортеж был создан через
-- 
2.43.0


From 8ebafe9a04116f2f9486e1115c583964cf5d2747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:02 +0000
Subject: [PATCH 21/65] fix: autogrowing tuple accepted more loose fields than
 the format can count

The number of loose fields is stored in 13 bits; the index grew over
max_fields, then the header of the serialized form was corrupted.
---
 src/autogrowth.cxx | 6 ++++--
 src/gear.cxx       | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/autogrowth.cxx b/src/autogrowth.cxx
index a44f79d..7e27613 100644
--- a/src/autogrowth.cxx
+++ b/src/autogrowth.cxx
@@ -21,7 +21,8 @@ namespace fptu {
 
 void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
   assert(wanna.data_space > pimpl_->end_ - pimpl_->tail_ ||
-         wanna.index_space > pimpl_->head_);
+         wanna.index_space > pimpl_->head_ ||
+         wanna.index_space + pimpl_->index_size() > fundamentals::max_fields);
   debug_check();
 
   const size_t wanna_units = wanna.data_space + wanna.index_space;
@@ -29,7 +30,8 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
   size_t allocated_units = pimpl_->tail_ - pimpl_->head_;
   size_t unallocated_units = pimpl_->end_ - allocated_units;
   if (unlikely(allocated_units - junk_units + wanna_units >= UINT16_MAX ||
-               wanna.index_space > fundamentals::max_fields ||
+               wanna.index_space + pimpl_->loose_count() >
+                   fundamentals::max_fields ||
                wanna.data_space > fundamentals::max_tuple_bytes_netto)) {
     /* Запрос превышает максимальный размер. Чтобы не искажать картину бросаем
      * исключение не изменяя кортеж. */
diff --git a/src/gear.cxx b/src/gear.cxx
index f267259..9ea821e 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -227,7 +227,7 @@ field_loose *gear::index_alloc(size_t notify_data_space) {
   }
 
   /* проверяем наличие места и двигаем голову индекса */
-  if (unlikely(head_space() < 1))
+  if (unlikely(head_space() < 1 || index_size() >= max_fields))
     throw_insufficient_space(1, notify_data_space);
   return erthink::constexpr_pointer_cast<field_loose *>(&area_[--head_]);
 }
-- 
2.43.0


From d644dc1accccfcae9d2c665661ae37b82a612a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:02 +0000
Subject: [PATCH 22/65] fix: validation terminated the process when there are
 too many loose and stretchy fields

A tuple may have max_fields loose fields and stretchy preplaced ones as well.
---
 src/audit.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/audit.cxx b/src/audit.cxx
index f09b189..76414d4 100644
--- a/src/audit.cxx
+++ b/src/audit.cxx
@@ -88,7 +88,7 @@ public:
   auditor(onstack_allocation_arena &area, std::size_t limit)
       : map_(area), holes_count_(0), holes_volume_(0) {
     static_assert(sizeof(interval) == 2 * sizeof(offset), "WTF?");
-    FPTU_ENSURE(limit <= fptu::max_fields);
+    FPTU_ENSURE(limit <= fptu::max_fields + details::max_preplaced_offset);
     map_.reserve(limit);
   }
 
-- 
2.43.0


From 65d872d49d79f08cfade78249fbe01bd1b59b363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:14 +0000
Subject: [PATCH 23/65] fix: validation read the length of a stretchy value
 outside of the tuple

The offset was checked only after reading the length by it.  Zero-length values
and varbins with tail bytes but without a body were accepted too, whereas their
length wraps around on reading.
---
 src/audit.cxx | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/audit.cxx b/src/audit.cxx
index 76414d4..2d18f90 100644
--- a/src/audit.cxx
+++ b/src/audit.cxx
@@ -97,6 +97,10 @@ public:
                           const unit_t *begin_payload,
                           const unit_t *end_payload);
 
+  const char *check_stretchy(const genus type, const relative_payload *payload,
+                             const unit_t *begin_payload,
+                             const unit_t *end_payload);
+
   const char *check_loose(const field_loose *loose, const unit_t *begin_payload,
                           const unit_t *end_payload);
 };
@@ -188,6 +192,26 @@ const char *auditor::check_chunk(const unit_t *chunk_begin,
   return nullptr;
 }
 
+const char *auditor::check_stretchy(const genus type,
+                                    const relative_payload *payload,
+                                    const unit_t *begin_payload,
+                                    const unit_t *end_payload) {
+  /* размер хранится внутри значения, поэтому сначала проверяем что хотя-бы его
+   * первый юнит внутри кортежа */
+  if (unlikely(payload->flat < begin_payload))
+    return AUDIT_FAILURE("chunk_begin < begin_payload");
+  if (unlikely(payload->flat >= end_payload))
+    return AUDIT_FAILURE("chunk_end > end_payload");
+
+  const std::size_t units = payload->stretchy.brutto_units(type);
+  if (unlikely(units < 1))
+    return AUDIT_FAILURE("zero-length stretchy value");
+  if (unlikely(type == genus::varbin && units == 1 &&
+               (payload->stretchy.varbin.reserved14_tailbytes & 3) != 0))
+    return AUDIT_FAILURE("varbin.length < varbin.tailbytes");
+  return check_chunk(payload->flat, units, begin_payload, end_payload);
+}
+
 const char *auditor::check_loose(const field_loose *loose,
                                  const unit_t *begin_payload,
                                  const unit_t *end_payload) {
@@ -218,9 +242,8 @@ const char *auditor::check_loose(const field_loose *loose,
 
   /* stretchy */
   if (loose->relative.have_payload())
-    return check_chunk(loose->relative.payload()->flat,
-                       loose->relative.payload()->stretchy.brutto_units(type),
-                       begin_payload, end_payload);
+    return check_stretchy(type, loose->relative.payload(), begin_payload,
+                          end_payload);
   return nullptr;
 }
 } // namespace
@@ -286,10 +309,9 @@ __hot const char *audit_tuple(const fptu::schema *const schema,
 
       if (!target->relative.have_payload())
         continue;
-      const auto payload = target->relative.payload();
-      trouble = validator.check_chunk(
-          payload->flat, payload->stretchy.brutto_units(field_token.type()),
-          payload_begin, payload_end);
+      trouble =
+          validator.check_stretchy(field_token.type(), target->relative.payload(),
+                                   payload_begin, payload_end);
       if (unlikely(trouble))
         return AUDIT_FAILURE(trouble);
     }
-- 
2.43.0


From 132987fd118e4281d079771355e825796d89d227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:14 +0000
Subject: [PATCH 24/65] fix: validation accepted trailing garbage in a tuple
 without payload chunks

---
 src/audit.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/audit.cxx b/src/audit.cxx
index 2d18f90..69bdd18 100644
--- a/src/audit.cxx
+++ b/src/audit.cxx
@@ -360,7 +360,9 @@ __hot const char *audit_tuple(const fptu::schema *const schema,
           return AUDIT_FAILURE("tuple have unmerged adjacent holes");
       }
     }
-  }
+  } else if (unlikely(payload_end !=
+                      payload_begin + bytes2units(preplaced_bytes)))
+    return AUDIT_FAILURE("lose space at the end of tuple");
 
   if ((flags & audit_flags::audit_tuple_sorted_loose) != 0 &&
       !std::is_sorted(index_begin, index_end,
-- 
2.43.0


From a8533bd96bc33f788b838e66318633aa2e1a4ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:55 +0000
Subject: [PATCH 25/65] fix: validation rejected serialized tuples of exactly
 the maximal size

---
 src/audit.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/audit.cxx b/src/audit.cxx
index 69bdd18..5927ec7 100644
--- a/src/audit.cxx
+++ b/src/audit.cxx
@@ -382,7 +382,7 @@ tuple_ro::inline_lite_checkup(const void *ptr,
 
   if (unlikely(bytes < sizeof(unit_t)))
     return AUDIT_FAILURE("hollow tuple (too short)");
-  if (unlikely(bytes > fptu::max_tuple_bytes_netto))
+  if (unlikely(bytes > fptu::max_tuple_bytes_brutto))
     return AUDIT_FAILURE("tuple too large");
   if (unlikely(bytes % sizeof(unit_t)))
     return AUDIT_FAILURE("odd tuple size");
-- 
2.43.0


From e0a826e4cc0f11362258910fa18f8fa66f270c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:35 +0000
Subject: [PATCH 26/65] fix: releasing more than 8 KB of payload corrupted the
 tuple

The length of a hole is stored in 11 bits of its descriptor, so erasing or
resizing a value of more than 2047 units, as well as merging of adjacent holes
up to such length, wrapped around.  Instead of making such a hole the data
behind it is moved.
---
 src/gear.cxx | 98 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 98 insertions(+)

diff --git a/src/gear.cxx b/src/gear.cxx
index 9ea821e..aa6a018 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -88,6 +88,14 @@ class gear : public tuple_rw {
                  lookup_adjacent_holes(chunk->flat, chunk->flat + units),
                  nullptr);
   }
+  using adjacent_holes = std::pair<field_loose *, field_loose *>;
+  void shift_data(unit_t *from, ptrdiff_t delta) cxx11_noexcept;
+  void squeeze_hole(field_loose *hole) cxx11_noexcept;
+  unit_t *squeeze_adjacent(unit_t *chunk, const adjacent_holes &) cxx11_noexcept;
+  static unsigned adjacent_units(const adjacent_holes &before_after) {
+    return (before_after.first ? before_after.first->hole_get_units() : 0) +
+           (before_after.second ? before_after.second->hole_get_units() : 0);
+  }
   inline relative_payload *realloc_data(relative_offset &ref, unsigned have,
                                         unsigned needed);
   inline void compactify(onstack_allocation_arena &onstack_arena);
@@ -328,7 +336,75 @@ field_loose *gear::merge_holes(field_loose *first,
   }
 }
 
+/* Сдвигает данные от указанного места и до конца, корректируя ссылки.
+ * Используется вместо дырок, которые больше представимых (max_ident). */
+void gear::shift_data(unit_t *const from,
+                      const ptrdiff_t delta) cxx11_noexcept {
+  for (field_loose *loose = begin_index(); loose < end_index(); ++loose)
+    if (!is_inplaced(loose->type()) && loose->relative.have_payload() &&
+        loose->relative.payload()->flat >= from)
+      loose->relative.add_delta(delta);
+
+  if (schema_) {
+    for (const token &ident : schema_->tokens()) {
+      if (!ident.is_preplaced())
+        break;
+      if (is_fixed_size(ident.type()))
+        continue;
+      const field_preplaced *const preplaced =
+          erthink::constexpr_pointer_cast<const field_preplaced *>(
+              begin_data_bytes() + ident.preplaced_offset());
+      if (preplaced->relative.have_payload() &&
+          preplaced->relative.payload()->flat >= from)
+        const_cast<field_preplaced *>(preplaced)->relative.add_delta(delta);
+    }
+  }
+
+  std::memmove(from + delta, from,
+               units2bytes(std::size_t(&area_[tail_] - from)));
+  tail_ += int(delta);
+}
+
+/* Удаляет дырку, сдвигая последующие данные. */
+void gear::squeeze_hole(field_loose *hole) cxx11_noexcept {
+  const unsigned units = hole->hole_get_units();
+  unit_t *const end = hole->relative.payload()->flat + units;
+  hole->hole_purge();
+  junk_.volume -= uint16_t(units);
+  shift_data(end, -ptrdiff_t(units));
+  if (hole == begin_index())
+    trim_hole(hole);
+}
+
+/* Удаляет соседние с куском дырки, возвращает новое место куска. */
+unit_t *
+gear::squeeze_adjacent(unit_t *chunk,
+                       const adjacent_holes &before_after) cxx11_noexcept {
+  if (before_after.second)
+    squeeze_hole(before_after.second);
+  if (before_after.first) {
+    chunk -= before_after.first->hole_get_units();
+    squeeze_hole(before_after.first);
+  }
+  return chunk;
+}
+
 void gear::release_loose(field_loose *loose, unsigned units) {
+  if (unlikely(units + junk_.volume > max_ident)) {
+    unit_t *chunk = loose->relative.payload()->flat;
+    const auto before_after = lookup_adjacent_holes(chunk, chunk + units);
+    if (units + adjacent_units(before_after) > max_ident) {
+      /* слишком большая дырка, убираем её сдвигая данные */
+      junk_.count += 1;
+      loose->hole_purge();
+      chunk = squeeze_adjacent(chunk, before_after);
+      shift_data(chunk + units, -ptrdiff_t(units));
+      if (loose == begin_index())
+        trim_hole(loose);
+      return;
+    }
+  }
+
   junk_.count += 1;
   if (units) {
     /* дыра с данными, т.е. НЕ только в индексе */
@@ -389,6 +465,13 @@ gear::release_data(relative_payload *chunk, unsigned units,
     return nullptr;
   }
 
+  if (unlikely(units + adjacent_units(before_after) > max_ident)) {
+    /* слишком большая дырка, убираем её сдвигая данные */
+    unit_t *const place = squeeze_adjacent(chunk->flat, before_after);
+    shift_data(place + units, -ptrdiff_t(units));
+    return nullptr;
+  }
+
   if (hole0 == nullptr && !before_after.first && !before_after.second) {
     /* слить не с чем, потребуется отдельная дырка. Выделяем её до изменения
      * счетчиков, ибо тут может выскочить исключение */
@@ -459,6 +542,21 @@ relative_payload *gear::realloc_data(relative_offset &ref, const unsigned have,
    *     и первая в опасных случаях (при нехватке места).
    */
 
+  if (unlikely(have + junk_.volume > max_ident)) {
+    const auto before_after =
+        lookup_adjacent_holes(ref.payload()->flat, ref.payload()->flat + have);
+    if (have + adjacent_units(before_after) > max_ident) {
+      /* Могла-бы потребоваться слишком большая дырка, поэтому меняем размер
+       * на месте сдвигая последующие данные. */
+      unit_t *const chunk =
+          squeeze_adjacent(ref.payload()->flat, before_after);
+      if (needed > have && unlikely(tail_space_units() < needed - have))
+        throw_insufficient_space(0, needed);
+      shift_data(chunk + have, ptrdiff_t(needed) - ptrdiff_t(have));
+      return ref.payload();
+    }
+  }
+
   if (junk_.volume == 0) {
     /* Если в кортеже нет зазоров/дыр, то возможны только три случая, которые
      * можно обработать по-быстрому без поиска и других лишних действий. */
-- 
2.43.0


From 06f353e13023c0cfa2e63166e05193fa73ef49f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:37 +0000
Subject: [PATCH 27/65] fix: set_number()/insert_number() of the autogrowing
 tuple were declared but not defined

---
 src/autogrowth.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/autogrowth.cxx b/src/autogrowth.cxx
index 7e27613..a2bc259 100644
--- a/src/autogrowth.cxx
+++ b/src/autogrowth.cxx
@@ -268,6 +268,12 @@ HERE_THUNK_MAKE(uint64_t, integer)
 HERE_THUNK_MAKE(int64_t, unsigned)
 HERE_THUNK_MAKE(uint64_t, unsigned)
 HERE_THUNK_MAKE(double, float)
+HERE_THUNK_MAKE(int32_t, number)
+HERE_THUNK_MAKE(uint32_t, number)
+HERE_THUNK_MAKE(int64_t, number)
+HERE_THUNK_MAKE(uint64_t, number)
+HERE_THUNK_MAKE(float, number)
+HERE_THUNK_MAKE(double, number)
 #undef HERE_THUNK_MAKE
 
 bool tuple_rw_managed::erase(const dynamic_collection_iterator_rw &it) {
-- 
2.43.0


From 76cb1c031a7291a72dfd119a4703af48b5b70c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:37 +0000
Subject: [PATCH 28/65] fix: get_int128()/get_uint128() returned a reference to
 a destroyed temporary

---
 fast_positive/tuples.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fast_positive/tuples.h b/fast_positive/tuples.h
index 6f85a16..3097a59 100644
--- a/fast_positive/tuples.h
+++ b/fast_positive/tuples.h
@@ -270,8 +270,8 @@ public:
   HERE_CRTP_MAKE(decimal64, get_decimal)
   HERE_CRTP_MAKE(datetime_t, get_datetime)
   HERE_CRTP_MAKE(const uuid_t &, get_uuid)
-  HERE_CRTP_MAKE(const int128_t &, get_int128)
-  HERE_CRTP_MAKE(const uint128_t &, get_uint128)
+  HERE_CRTP_MAKE(int128_t, get_int128)
+  HERE_CRTP_MAKE(uint128_t, get_uint128)
   HERE_CRTP_MAKE(const binary96_t &, get_bin96)
   HERE_CRTP_MAKE(const binary128_t &, get_bin128)
   HERE_CRTP_MAKE(const binary160_t &, get_bin160)
@@ -636,8 +636,8 @@ public:
   HERE_CRTP_MAKE(decimal64, get_decimal)
   HERE_CRTP_MAKE(datetime_t, get_datetime)
   HERE_CRTP_MAKE(const uuid_t &, get_uuid)
-  HERE_CRTP_MAKE(const int128_t &, get_int128)
-  HERE_CRTP_MAKE(const uint128_t &, get_uint128)
+  HERE_CRTP_MAKE(int128_t, get_int128)
+  HERE_CRTP_MAKE(uint128_t, get_uint128)
   HERE_CRTP_MAKE(const binary96_t &, get_bin96)
   HERE_CRTP_MAKE(const binary128_t &, get_bin128)
   HERE_CRTP_MAKE(const binary160_t &, get_bin160)
-- 
2.43.0


From c3854afa70cefc68c0714bcdf973ebc3f889a3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:56 +0000
Subject: [PATCH 29/65] fix: set_unsigned()/insert_unsigned() of a signed value
 rejected every unsigned field

---
 fast_positive/tuples/details/rw.h | 2 +-
 src/rw.cxx                        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index 470d36e..8dc3941 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -524,7 +524,7 @@ public:
     void set_unsigned(const int64_t value) {
       if (unlikely(value < 0))
         throw_value_range();
-      return set_integer(static_cast<uint64_t>(value));
+      return set_unsigned(static_cast<uint64_t>(value));
     }
 
     void set_int128(const int128_t &value) {
diff --git a/src/rw.cxx b/src/rw.cxx
index 18bf3b3..bd6574b 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -315,7 +315,7 @@ FPTU_API dynamic_collection_iterator_rw
 tuple_rw::insert_unsigned(const token &ident, const int64_t value) {
   if (unlikely(value < 0))
     throw_value_range();
-  return insert_integer(ident, static_cast<uint64_t>(value));
+  return insert_unsigned(ident, static_cast<uint64_t>(value));
 }
 
 FPTU_API dynamic_collection_iterator_rw
-- 
2.43.0


From 693a3a8fdff46e7aea399c099f5032b7befbc257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:13 +0000
Subject: [PATCH 30/65] fix: 128-bit integers were silently truncated when
 stored into 64-bit and smaller fields

---
 fast_positive/tuples/details/rw.h | 4 ++++
 src/rw.cxx                        | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index 8dc3941..0c51e8c 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -531,6 +531,8 @@ public:
       if (base::type() == bin128)
         return assign<bin128>(
             *erthink::constexpr_pointer_cast<const binary128_t *>(&value));
+      if (unlikely(value != int128_t(int64_t(value))))
+        throw_value_range();
       return set_integer(int64_t(value));
     }
 
@@ -538,6 +540,8 @@ public:
       if (base::type() == bin128)
         return assign<bin128>(
             *erthink::constexpr_pointer_cast<const binary128_t *>(&value));
+      if (unlikely(value != uint128_t(uint64_t(value))))
+        throw_value_range();
       return set_unsigned(uint64_t(value));
     }
 
diff --git a/src/rw.cxx b/src/rw.cxx
index bd6574b..d758167 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -323,6 +323,8 @@ tuple_rw::insert_int128(const token &ident, const int128_t &value) {
   if (ident.type() == bin128)
     return insert_bin128(
         ident, *erthink::constexpr_pointer_cast<const binary128_t *>(&value));
+  if (unlikely(value != int128_t(int64_t(value))))
+    throw_value_range();
   return insert_integer(ident, int64_t(value));
 }
 
@@ -331,6 +333,8 @@ tuple_rw::insert_uint128(const token &ident, const uint128_t &value) {
   if (ident.type() == bin128)
     return insert_bin128(
         ident, *erthink::constexpr_pointer_cast<const binary128_t *>(&value));
+  if (unlikely(value != uint128_t(uint64_t(value))))
+    throw_value_range();
   return insert_unsigned(ident, uint64_t(value));
 }
 
-- 
2.43.0


From affe82f688bacc641419536f0590f781e351c145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:35 +0000
Subject: [PATCH 31/65] fix: importing a preplaced field into a gap of the
 schema failed or spoiled the initial image

---
 src/schema.cxx | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/schema.cxx b/src/schema.cxx
index 85f6f82..7fd4ef7 100644
--- a/src/schema.cxx
+++ b/src/schema.cxx
@@ -148,8 +148,9 @@ void schema_impl::add_definition(std::string &&name, const token &ident,
         throw_schema_definition_error(
             "preplaced field is overlapped by another");
     }
-    preplaced_image_.reserve(ident.preplaced_offset() + ident.preplaced_size() -
-                             preplaced_image_.size());
+    preplaced_image_.reserve(
+        std::max(preplaced_image_.size(),
+                 ident.preplaced_offset() + ident.preplaced_size()));
   }
   sorted_tokens_.reserve(sorted_tokens_.size() + 1);
   name2token_.reserve(name2token_.size() + 1);
@@ -157,14 +158,16 @@ void schema_impl::add_definition(std::string &&name, const token &ident,
 
   try {
     if (ident.is_preplaced()) {
-      if (ident.preplaced_offset() > ptrdiff_t(preplaced_image_.size()))
-        preplaced_image_.append(
-            ident.preplaced_offset() - preplaced_image_.size(), '\0');
+      /* поле может быть как в конце, так и в зазоре между ранее добавленными */
+      const std::size_t end = ident.preplaced_offset() + ident.preplaced_size();
+      if (end > preplaced_image_.size())
+        preplaced_image_.append(end - preplaced_image_.size(), '\0');
       if (initial_value)
-        preplaced_image_.append(static_cast<const char *>(initial_value),
-                                ident.preplaced_size());
+        preplaced_image_.replace(ident.preplaced_offset(),
+                                 ident.preplaced_size(),
+                                 static_cast<const char *>(initial_value),
+                                 ident.preplaced_size());
       else {
-        preplaced_image_.append(ident.preplaced_size(), '\0');
         const auto initial_value_ptr =
             erthink::constexpr_pointer_cast<details::field_preplaced *>(
                 const_cast<char *>(preplaced_image_.data()) +
-- 
2.43.0


From e9d351adcba0be5a04bcf01d7a56e2974021b686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:16 +0000
Subject: [PATCH 32/65] fix: debug assertion failed on looking up the name of a
 token with overridden flags

---
 src/schema.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/schema.cxx b/src/schema.cxx
index 7fd4ef7..24a122d 100644
--- a/src/schema.cxx
+++ b/src/schema.cxx
@@ -325,7 +325,7 @@ schema_impl::get_name_nothrow(const token &ident) const cxx11_noexcept {
     assert(string_view().nil());
     return string_view();
   }
-  assert(name2token_.at(it->second) == ident);
+  assert(token::same()(name2token_.at(it->second), ident));
   return it->second;
 }
 
-- 
2.43.0


From b94dbcbd1bb8b66f144d2c64dbe96aec153c3236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:56 +0000
Subject: [PATCH 33/65] fix: the AVX index search read two bytes beyond the
 last item

The loads were shifted by two bytes, so the search touched memory beyond the
end of the index, crashing if that is the end of an accessible page.
---
 src/scan_AVX.cxx | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/scan_AVX.cxx b/src/scan_AVX.cxx
index 55c768b..cd598ef 100644
--- a/src/scan_AVX.cxx
+++ b/src/scan_AVX.cxx
@@ -42,13 +42,15 @@ bypass_asan_read_m256(const void *src) {
 
 static __always_inline unsigned cmp2mask(const __m256 pattern,
                                          const field_loose *scan) {
-  const char *ptr = (const char *)scan + 2;
-  const __m256 even = _mm256_castsi256_ps(_mm256_set1_epi32(0x0000ffffu));
-  return _mm256_movemask_ps(_mm256_cmp_ps(
-      pattern,
-      _mm256_and_ps(
-          even, _mm256_castsi256_ps(_mm256_loadu_si256((const __m256i *)ptr))),
-      _CMP_EQ_OQ));
+  /* LY: Don't read beyond the last item, i.e. don't shift the address. */
+  const __m256 upper = _mm256_castsi256_ps(_mm256_set1_epi32(-65536));
+  const __m256 diff = _mm256_and_ps(
+      upper, _mm256_xor_ps(pattern, _mm256_castsi256_ps(_mm256_loadu_si256(
+                                        (const __m256i *)scan))));
+  /* the conversion gives zero only for zero, nor NaNs, nor denormals */
+  return _mm256_movemask_ps(
+      _mm256_cmp_ps(_mm256_cvtepi32_ps(_mm256_castps_si256(diff)),
+                    _mm256_setzero_ps(), _CMP_EQ_OQ));
 }
 
 static __always_inline bool mask2ptr(unsigned mask, const field_loose *&ptr) {
@@ -83,10 +85,11 @@ __hot const field_loose *fptu_scan_AVX(const field_loose *begin,
   const __m256 pattern =
 #if 1 /* LY: avoid store to temporary on the stack */
       _mm256_permute2f128_ps(_mm256_castps128_ps256(_mm_castsi128_ps(
-                                 _mm_set1_epi32(genus_and_id))),
+                                 _mm_set1_epi32(int(uint32_t(genus_and_id) << 16)))),
                              _mm256_undefined_ps(), 0);
 #else
-      _mm256_castsi256_ps(_mm256_set1_epi32(genus_and_id));
+      _mm256_castsi256_ps(
+          _mm256_set1_epi32(int(uint32_t(genus_and_id) << 16)));
 #endif
   const field_loose *scan = begin;
 
-- 
2.43.0


From 926ad1eee1c9bdf4e743627ed106d18507dd9192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:35 +0000
Subject: [PATCH 34/65] fix: making an autogrowing tuple from a shared or
 hollow read-only one terminated the process on failure

The constructor was marked noexcept, but it copies data when the buffer is
shared and throws for a hollow source.
---
 fast_positive/tuples.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples.h b/fast_positive/tuples.h
index 3097a59..efd6f0f 100644
--- a/fast_positive/tuples.h
+++ b/fast_positive/tuples.h
@@ -1170,7 +1170,7 @@ public:
   tuple_rw_managed(const tuple_rw_managed &) = delete;
   tuple_rw_managed &operator=(const tuple_rw_managed &) = delete;
 
-  tuple_rw_managed(tuple_ro_managed &&src) cxx11_noexcept
+  tuple_rw_managed(tuple_ro_managed &&src) /* may allocate and throw */
       : base(std::move(src)) {}
 
   tuple_rw_managed &operator=(tuple_ro_managed &&src) {
-- 
2.43.0


From d13aa3bfa71f395bcdd68d74a95eb4eeb179bd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:18 +0000
Subject: [PATCH 35/65] fix: take_weak() and take_managed_clone() treated
 dont_optimize the other way round

---
 fast_positive/tuples.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/fast_positive/tuples.h b/fast_positive/tuples.h
index efd6f0f..9bcdb0e 100644
--- a/fast_positive/tuples.h
+++ b/fast_positive/tuples.h
@@ -850,8 +850,8 @@ public:
 
   /* возвращает пару, во втором элементе признак инвалидации итераторов */
   std::pair<tuple_ro_weak, bool> take_weak(bool dont_optimize = false) {
-    return dont_optimize ? take_weak_optimized()
-                         : std::make_pair(take_weak_asis(), false);
+    return dont_optimize ? std::make_pair(take_weak_asis(), false)
+                         : take_weak_optimized();
   }
 
   tuple_ro_managed move_to_ro(bool dont_optimize = false) {
@@ -887,10 +887,9 @@ public:
       bool dont_optimize = false, bool hollow_if_empty = false,
       const hippeus::buffer_tag &allot_tag = default_buffer_allot()) {
     return dont_optimize
-               ? take_managed_clone_optimized(hollow_if_empty, allot_tag)
-               : std::make_pair(
-                     take_managed_clone_asis(hollow_if_empty, allot_tag),
-                     false);
+               ? std::make_pair(
+                     take_managed_clone_asis(hollow_if_empty, allot_tag), false)
+               : take_managed_clone_optimized(hollow_if_empty, allot_tag);
   }
 
   __pure_function static cxx11_constexpr size_t estimate_required_space(
-- 
2.43.0


From bae344001e83ff7f05f0ce49761dcd83b6c0bb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:06 +0000
Subject: [PATCH 36/65] fix: the reference counter was read without
 synchronization with the releases by other threads

---
 fast_positive/tuples/1Hippeus/buffer.h | 9 ++++++++-
 src/1Hippeus/buffer.cxx                | 6 +++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/fast_positive/tuples/1Hippeus/buffer.h b/fast_positive/tuples/1Hippeus/buffer.h
index 30cb5b0..dc8d42a 100644
--- a/fast_positive/tuples/1Hippeus/buffer.h
+++ b/fast_positive/tuples/1Hippeus/buffer.h
@@ -430,8 +430,15 @@ public:
   bool is_warpable() const cxx11_noexcept {
     return (host.opacity_.uint & (HIPPEUS_LOCALWEAK | HIPPEUS_READONLY)) == 0;
   }
+  int32_t references() const cxx11_noexcept {
+#ifdef _MSC_VER
+    return ref_counter /* volatile means acquire here */;
+#else
+    return __atomic_load_n(&ref_counter, __ATOMIC_ACQUIRE);
+#endif
+  }
   bool is_alterable() const cxx11_noexcept {
-    return ref_counter == 1 && !is_readonly();
+    return references() == 1 && !is_readonly();
   }
 
   std::size_t size() const cxx11_noexcept { return space; }
diff --git a/src/1Hippeus/buffer.cxx b/src/1Hippeus/buffer.cxx
index 6cee739..ee8496d 100644
--- a/src/1Hippeus/buffer.cxx
+++ b/src/1Hippeus/buffer.cxx
@@ -52,7 +52,7 @@ __always_inline bool validate_buffer(const buffer *buf, bool deep_checking) {
   if (unlikely(0 > (ptrdiff_t)buf->space))
     goto bailout;
 
-  if (unlikely(buf->ref_counter <= 0))
+  if (unlikely(buf->references() <= 0))
     goto bailout;
 
   if (unlikely(!buf->host))
@@ -98,7 +98,7 @@ __hot __flatten bool buffer::ensure(bool deep_checking) const {
   deep_checking |= hippeus_buffer_enforce_deep_checking;
   FPTU_ENSURE((ptrdiff_t)space > 0);
   FPTU_ENSURE(host.opacity_.uint != 0);
-  FPTU_ENSURE(ref_counter > 0);
+  FPTU_ENSURE(references() > 0);
 
   HIPAGUT_ENSURE(guard_head, head);
   HIPAGUT_ENSURE(guard_under, under);
@@ -169,7 +169,7 @@ __hot __flatten void buffer::detach(const buffer *self) cxx11_noexcept {
     return;
 
   assert(self->check());
-  if (unlikely(self->ref_counter != 1)) {
+  if (unlikely(self->references() != 1)) {
     int after_decrement =
 #ifdef _MSC_VER
         _InterlockedDecrement((volatile long *)&self->ref_counter);
-- 
2.43.0


From b145d5d9b28ebec1639aa214787c187617be76be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:21 +0000
Subject: [PATCH 37/65] fix: fptu_upsert_nested() always failed due to the
 wrong type of a token

---
 src/compat_rw.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compat_rw.cxx b/src/compat_rw.cxx
index 790afc6..b2d84b1 100644
--- a/src/compat_rw.cxx
+++ b/src/compat_rw.cxx
@@ -335,7 +335,7 @@ fptu_error fptu_upsert_opaque_iov(fptu_rw *pt, unsigned column,
 fptu_error fptu_upsert_nested(fptu_rw *pt, unsigned column,
                               fptu_ro ro) cxx11_noexcept {
   try {
-    const fptu::token id(fptu::genus::varbin, column, false, true, false);
+    const fptu::token id(fptu::genus::nested, column, false, true, false);
     pt->set_nested(id, fptu::details::tuple_ro::make_from_buffer(
                            ro.sys.iov_base, ro.sys.iov_len, nullptr, false));
     return FPTU_OK;
-- 
2.43.0


From ed974c375adc9e673578cb8909fbc777f2ec50e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:21 +0000
Subject: [PATCH 38/65] fix: fptu_get_cstr() did not report the success

---
 src/compat_ro.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compat_ro.cxx b/src/compat_ro.cxx
index 304f300..ca004fe 100644
--- a/src/compat_ro.cxx
+++ b/src/compat_ro.cxx
@@ -125,8 +125,11 @@ FPTU_GET_IMPL(256)
 const char *fptu_get_cstr(fptu_ro ro, unsigned column,
                           int *error) cxx11_noexcept {
   const fptu_field *pf = fptu::lookup(ro, column, fptu_cstr);
-  if (pf)
+  if (pf) {
+    if (error)
+      *error = FPTU_OK;
     return fptu_field_cstr(pf);
+  }
   fptu_set_error(FPTU_ENOFIELD, "fptu: no such field");
   if (error)
     *error = FPTU_ENOFIELD;
-- 
2.43.0


From 4f47f9b344452418a2edd009b06f82306660e3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:21 +0000
Subject: [PATCH 39/65] fix: fptu_field_column() did not return a negative
 value for erased fields

---
 src/compat_field.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compat_field.cxx b/src/compat_field.cxx
index 84b498c..881a928 100644
--- a/src/compat_field.cxx
+++ b/src/compat_field.cxx
@@ -27,7 +27,7 @@ fptu_type fptu_field_type(const fptu_field *pf) cxx11_noexcept {
   return pf ? pf->legacy_type() : fptu_null;
 }
 int fptu_field_column(const fptu_field *pf) cxx11_noexcept {
-  return pf ? pf->colnum() : -1;
+  return (pf && !pf->is_hole()) ? int(pf->colnum()) : -1;
 }
 
 void fptu_erase_field(fptu_rw *pt, fptu_field *pf) cxx11_noexcept {
-- 
2.43.0


From 171efbd4ba77ac9fb5b18c476b9c99cbb7a0866e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:21 +0000
Subject: [PATCH 40/65] fix: fptu_field_as_iovec() returned units instead of
 bytes and the inner header of a value

---
 src/compat_field.cxx | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/compat_field.cxx b/src/compat_field.cxx
index 881a928..87f4082 100644
--- a/src/compat_field.cxx
+++ b/src/compat_field.cxx
@@ -40,16 +40,30 @@ void fptu_erase_field(fptu_rw *pt, fptu_field *pf) cxx11_noexcept {
 struct iovec fptu_field_as_iovec(const fptu_field *pf) cxx11_noexcept {
   if (likely(pf)) {
     const auto type = pf->type();
+    if (pf->is_hole())
+      return fptu::iovec(nullptr, 0);
+
     if (fptu::details::is_inplaced(type))
-      return fptu::iovec(&pf->inplaced, fptu::details::loose_units(type));
+      return fptu::iovec(&pf->inplaced, fptu::details::preplaced_bytes(type));
 
     if (fptu::details::is_fixed_size(type))
       return fptu::iovec(pf->relative.payload(),
-                         fptu::details::loose_units(type));
+                         fptu::details::preplaced_bytes(type));
 
-    if (pf->relative.have_payload())
-      return fptu::iovec(pf->relative.payload(),
-                         pf->relative.payload()->stretchy.length(type));
+    if (pf->relative.have_payload()) {
+      const auto payload = pf->relative.payload();
+      if (type == fptu::genus::text) {
+        const fptu::string_view value(
+            fptu::meta::genus_traits<fptu::genus::text>::read(payload));
+        return fptu::iovec(value.data(), value.length());
+      }
+      if (type == fptu::genus::varbin) {
+        const fptu::string_view value(
+            fptu::meta::genus_traits<fptu::genus::varbin>::read(payload));
+        return fptu::iovec(value.data(), value.length());
+      }
+      return fptu::iovec(payload, payload->stretchy.length(type));
+    }
   }
   return fptu::iovec(nullptr, 0);
 }
-- 
2.43.0


From c7735e92ccae9b29f98b0e87679219a0ebea9723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:21 +0000
Subject: [PATCH 41/65] fix: fptu_field_cstr() dereferenced the content of a
 field before checking its type

---
 src/compat_field.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compat_field.cxx b/src/compat_field.cxx
index 87f4082..679f433 100644
--- a/src/compat_field.cxx
+++ b/src/compat_field.cxx
@@ -137,12 +137,12 @@ const char *fptu_field_cstr(const fptu_field *pf) cxx11_noexcept {
   error_guard raii(nullptr);
   if (likely(pf)) {
     try {
+      const auto value = fptu::details::get<fptu::genus::text>(pf, true);
       const auto payload = pf->relative.payload();
       const char *const field_end =
           erthink::constexpr_pointer_cast<const char *>(
               payload->flat + payload->stretchy.string.brutto_units());
-      return string_view_to_CAPI(
-          fptu::details::get<fptu::genus::text>(pf, true), field_end);
+      return string_view_to_CAPI(value, field_end);
     } catch (const std::exception &e) {
       raii.feed(e);
     }
-- 
2.43.0


From 7c720014100de00e1091e5b0990b563b19a9db91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:40 +0000
Subject: [PATCH 42/65] fix: fptu_fetch() of a fragmented tuple lost its holes

---
 src/compat_rw.cxx | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/compat_rw.cxx b/src/compat_rw.cxx
index b2d84b1..c70c175 100644
--- a/src/compat_rw.cxx
+++ b/src/compat_rw.cxx
@@ -148,8 +148,17 @@ fptu_rw *fptu_fetch(fptu_ro ro, void *buffer_space, std::size_t buffer_bytes,
     const fptu::details::tuple_ro *tuple_ro =
         static_cast<const fptu::details::tuple_ro *>(ro.sys.iov_base);
 
+    /* the holes must be counted, since the tuple may be fragmented */
+    fptu::details::audit_holes_info holes_info = {0, 0};
+    const auto end = fptu_end_ro(ro);
+    for (auto field = fptu_begin_ro(ro); field != end; ++field)
+      if (field->is_hole()) {
+        holes_info.count += 1;
+        holes_info.volume += uint16_t(field->hole_get_units());
+      }
+
     const auto tuple_rw = fptu::details::tuple_rw::fetch_legacy(
-        {0, 0}, tuple_ro, buffer_space, buffer_bytes, more_items);
+        holes_info, tuple_ro, buffer_space, buffer_bytes, more_items);
     return static_cast<fptu_rw *>(tuple_rw);
   } catch (const std::exception &e) {
     fptu_set_error(e);
-- 
2.43.0


From 1fe5c1b8e997e330e6eb47acdfe7c34a528476bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:42 +0000
Subject: [PATCH 43/65] fix: legacy lookup of an excessive column number gave a
 field of another type

---
 src/compat_common.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compat_common.cxx b/src/compat_common.cxx
index cc26ddb..0619f20 100644
--- a/src/compat_common.cxx
+++ b/src/compat_common.cxx
@@ -76,6 +76,9 @@ static cxx11_constexpr bool match(const fptu_field *pf, unsigned column,
 __hot const fptu_field *
 fptu_first(const fptu_field *begin, const fptu_field *end, unsigned column,
            fptu_type_or_filter type_or_filter) cxx11_noexcept {
+  if (unlikely(column > fptu_max_cols))
+    return end;
+
   if (!is_filter(type_or_filter)) {
     const fptu_field *pf =
         static_cast<const fptu_field *>(fptu::details::lookup(
-- 
2.43.0


From 7b14c1075ecb5bc982c3eaf3f053f3606050c2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:16 +0000
Subject: [PATCH 44/65] fix: fptu_insert_96/128/160/256() of zero bytes
 inserted nothing

---
 src/compat_rw.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compat_rw.cxx b/src/compat_rw.cxx
index c70c175..6d54f14 100644
--- a/src/compat_rw.cxx
+++ b/src/compat_rw.cxx
@@ -382,7 +382,7 @@ FPTU_INSERT_IMPL(datetime, datetime, t64, fptu_datetime_t)
   fptu_error fptu_insert_##BITS(fptu_rw *pt, unsigned column,                  \
                                 const void *data) cxx11_noexcept {             \
     try {                                                                      \
-      const fptu::token id(fptu::genus::bin##BITS, column, true);              \
+      const fptu::token id(fptu::genus::bin##BITS, column, true, true, false); \
       pt->insert_bin##BITS(                                                    \
           id,                                                                  \
           *erthink::constexpr_pointer_cast<const fptu::binary##BITS##_t *>(    \
-- 
2.43.0


From bfc7f21cd7a8204284955c97d54abc5905aa10a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:59 +0000
Subject: [PATCH 45/65] fix: branchless_abs() of a minimal value overflowed
 (undefined behaviour)

---
 fast_positive/erthink/erthink_misc.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fast_positive/erthink/erthink_misc.h b/fast_positive/erthink/erthink_misc.h
index 60051e7..a5462b0 100644
--- a/fast_positive/erthink/erthink_misc.h
+++ b/fast_positive/erthink/erthink_misc.h
@@ -45,8 +45,9 @@ template <typename T> struct branchless_abs {
   cxx11_constexpr branchless_abs(const T value)
       : expanded_sign(signed_type(value) >>
                       (sizeof(signed_type) * CHAR_BIT - 1)),
-        unsigned_abs(unsigned_type((signed_type(value) + expanded_sign) ^
-                                   expanded_sign)) {
+        unsigned_abs(unsigned_type((unsigned_type(value) +
+                                    unsigned_type(expanded_sign)) ^
+                                   unsigned_type(expanded_sign))) {
     static_assert(((INT32_MIN >> 5) >> 29) == -1,
                   "requires arithmetic shift with sign expansion");
   }
-- 
2.43.0


From 6cadab8080af7f4e1bbf49d8283f5e9470931fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:59 +0000
Subject: [PATCH 46/65] fix: shodan_printer printed no digit after the dot for
 a single-digit mantissa

---
 fast_positive/erthink/erthink_d2a.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/erthink/erthink_d2a.h b/fast_positive/erthink/erthink_d2a.h
index a45eb7c..8a010a9 100644
--- a/fast_positive/erthink/erthink_d2a.h
+++ b/fast_positive/erthink/erthink_d2a.h
@@ -676,7 +676,7 @@ struct shodan_printer : public ieee754_default_printer<accurate> {
       inherited::begin[1] = '.';
       // strive branchless
       inherited::end[0] = '0';
-      inherited::end += (inherited::end == inherited::begin);
+      inherited::end += (inherited::end == inherited::begin + 2);
       inherited::exponenta(canon_exp);
     }
   }
-- 
2.43.0


From f716860e654a77077d0cb0475d0ef1331e1f0315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:59 +0000
Subject: [PATCH 47/65] fix: diy_fp::fixedpoint() shifted by a negative count
 and rounded by a wrong amount

---
 fast_positive/erthink/erthink_d2a.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/fast_positive/erthink/erthink_d2a.h b/fast_positive/erthink/erthink_d2a.h
index 8a010a9..7b4f5eb 100644
--- a/fast_positive/erthink/erthink_d2a.h
+++ b/fast_positive/erthink/erthink_d2a.h
@@ -176,11 +176,13 @@ struct diy_fp {
       const int gap = /* avoid underflow of (upper_bound - lower_bound) */ 3;
       const int shift = clz64(value) - gap;
       cxx11_constexpr_var uint64_t top = UINT64_MAX >> gap;
-      const uint64_t rounding = UINT64_C(1) << (1 - shift);
-      value =
-          (shift >= 0)
-              ? value << shift
-              : ((value < top - rounding) ? value + rounding : top) >> -shift;
+      if (shift >= 0)
+        value <<= shift;
+      else {
+        const uint64_t half = UINT64_C(1) << (-shift - 1);
+        value = (value < UINT64_MAX - half) ? (value + half) >> -shift : top;
+        value = (value < top) ? value : top;
+      }
       assert(top >= value && value > 0);
       return diy_fp(value, exp2 - shift);
     }
-- 
2.43.0


From 59e4a6f7f35b156fe6e44fe951e98a713f7ba900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:59 +0000
Subject: [PATCH 48/65] fix: short_alloc gave out a chunk for a size which
 overflows

---
 fast_positive/erthink/erthink_short_alloc.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fast_positive/erthink/erthink_short_alloc.h b/fast_positive/erthink/erthink_short_alloc.h
index 764b73b..d7e5d34 100644
--- a/fast_positive/erthink/erthink_short_alloc.h
+++ b/fast_positive/erthink/erthink_short_alloc.h
@@ -184,8 +184,9 @@ public:
 
     if (likely(pointer_in_buffer(ptr_))) {
       auto const aligned_n = align_up(n);
-      if (likely(static_cast<decltype(aligned_n)>(buf_ + size - ptr_) >=
-                 aligned_n)) {
+      if (likely(aligned_n >= n /* no overflow */ &&
+                 static_cast<decltype(aligned_n)>(buf_ + size - ptr_) >=
+                     aligned_n)) {
         char *r = ptr_;
 #ifndef NDEBUG
         std::memset(r, 0xCC, aligned_n);
@@ -289,6 +290,8 @@ public:
   };
 
   T *allocate(std::size_t n) {
+    if (unlikely(n > ~std::size_t(0) / sizeof(T)))
+      throw std::bad_alloc();
     return reinterpret_cast<T *>(
         arena_.template allocate<alignof(T)>(n * sizeof(T)));
   }
-- 
2.43.0


From f5612f7249413b5a43090d727a834e7f946154d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:59 +0000
Subject: [PATCH 49/65] fix: containers with short_alloc could not be copied
 nor compared by an allocator

---
 fast_positive/erthink/erthink_short_alloc.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fast_positive/erthink/erthink_short_alloc.h b/fast_positive/erthink/erthink_short_alloc.h
index d7e5d34..f848318 100644
--- a/fast_positive/erthink/erthink_short_alloc.h
+++ b/fast_positive/erthink/erthink_short_alloc.h
@@ -274,7 +274,7 @@ public:
   cxx11_constexpr short_alloc(/*allocation arena must be provided */) = delete;
   cxx11_constexpr short_alloc(const short_alloc &) cxx11_noexcept = default;
   short_alloc &operator=(const short_alloc &) = delete;
-  cxx11_constexpr short_alloc &
+  cxx11_constexpr short_alloc
   select_on_container_copy_construction() const cxx11_noexcept {
     return *this;
   }
@@ -321,7 +321,7 @@ inline bool operator==(const short_alloc<X, X_ARENA> &x,
 }
 
 template <class X, typename X_ARENA, class Y, typename Y_ARENA>
-inline bool operator!=(const short_alloc<X, Y_ARENA> &x,
+inline bool operator!=(const short_alloc<X, X_ARENA> &x,
                        const short_alloc<Y, Y_ARENA> &y) cxx11_noexcept {
   return !(x == y);
 }
-- 
2.43.0


From ad1074b85b3a7928dc1c812245f042e845ac3069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:33 +0000
Subject: [PATCH 50/65] fix: shodan_printer allowed limits of the decimal form
 which its buffer cannot hold

---
 fast_positive/erthink/erthink_d2a.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fast_positive/erthink/erthink_d2a.h b/fast_positive/erthink/erthink_d2a.h
index 7b4f5eb..3bfc431 100644
--- a/fast_positive/erthink/erthink_d2a.h
+++ b/fast_positive/erthink/erthink_d2a.h
@@ -615,8 +615,8 @@ struct shodan_printer : public ieee754_default_printer<accurate> {
 
   shodan_printer(char *buffer_begin, char *buffer_end) cxx11_noexcept
       : inherited(buffer_begin + gap, buffer_end - gap) {
-    static_assert(-min_exp4dec < gap, "Oops, min_exp4dec is too less");
-    static_assert(max_exp4dec < gap, "Oops, max_exp4dec is too large");
+    static_assert(-min_exp4dec < gap - 1, "Oops, min_exp4dec is too less");
+    static_assert(max_exp4dec < gap - 1, "Oops, max_exp4dec is too large");
   }
 
   bool is_negative = false;
-- 
2.43.0


From 2cce8a2396fc1317af1e520f6d43c931695a39c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:41 +0000
Subject: [PATCH 51/65] fix: tagged pointers stored a tag in bits of the
 pointer

---
 fast_positive/tuples/details/tagged_pointer.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fast_positive/tuples/details/tagged_pointer.h b/fast_positive/tuples/details/tagged_pointer.h
index e31809d..b27337e 100644
--- a/fast_positive/tuples/details/tagged_pointer.h
+++ b/fast_positive/tuples/details/tagged_pointer.h
@@ -87,7 +87,7 @@ public:
 
   cxx11_constexpr narrow_tagged_pointer_base(void *ptr,
                                              unsigned tag = 0) cxx11_noexcept
-      : body_((p2u(ptr) ^ ptr_xor) | (uintptr_t(tag) << bits)) {
+      : body_((p2u(ptr) ^ ptr_xor) | (uintptr_t(tag))) {
     constexpr_assert(((p2u(ptr) ^ ptr_xor) & tag_mask) == 0);
     constexpr_assert(tag < (1u << bits));
     constexpr_assert(this->ptr() == ptr && this->tag() == tag);
@@ -111,13 +111,13 @@ public:
   }
 
   cxx14_constexpr void set_tag(unsigned tag) cxx11_noexcept {
-    body_.uint = (body_.uint & ptr_mask) | (uintptr_t(tag) << bits);
+    body_.uint = (body_.uint & ptr_mask) | (uintptr_t(tag));
     constexpr_assert(tag < (1u << bits));
     constexpr_assert(this->tag() == tag);
   }
 
   cxx14_constexpr void set(void *ptr, unsigned tag) cxx11_noexcept {
-    body_.uint = (p2u(ptr) ^ ptr_xor) | (uintptr_t(tag) << bits);
+    body_.uint = (p2u(ptr) ^ ptr_xor) | (uintptr_t(tag));
     constexpr_assert(((p2u(ptr) ^ ptr_xor) & tag_mask) == 0);
     constexpr_assert(tag < (1u << bits));
     constexpr_assert(this->ptr() == ptr && this->tag() == tag);
@@ -197,7 +197,7 @@ public:
 
   cxx11_constexpr wide_tagged_pointer_base(void *ptr,
                                            unsigned tag = 0) cxx11_noexcept
-      : body_((p2u(ptr) ^ ptr_xor) | (uint64_t(tag) << bits)) {
+      : body_((p2u(ptr) ^ ptr_xor) | (uint64_t(tag) << (64 - bits))) {
     constexpr_assert(((p2u(ptr) ^ ptr_xor) & tag_mask) == 0);
     constexpr_assert(tag < (1u << bits));
     constexpr_assert(this->ptr() == ptr && this->tag() == tag);
@@ -221,13 +221,13 @@ public:
   }
 
   cxx14_constexpr void set_tag(unsigned tag) cxx11_noexcept {
-    body_.u64 = (body_.u64 & ptr_mask) | (uint64_t(tag) << bits);
+    body_.u64 = (body_.u64 & ptr_mask) | (uint64_t(tag) << (64 - bits));
     constexpr_assert(tag < (1u << bits));
     constexpr_assert(this->tag() == tag);
   }
 
   cxx14_constexpr void set(void *ptr, unsigned tag) cxx11_noexcept {
-    body_.u64 = (p2u(ptr) ^ ptr_xor) | (uint64_t(tag) << bits);
+    body_.u64 = (p2u(ptr) ^ ptr_xor) | (uint64_t(tag) << (64 - bits));
     constexpr_assert(((p2u(ptr) ^ ptr_xor) & tag_mask) == 0);
     constexpr_assert(tag < (1u << bits));
     constexpr_assert(this->ptr() == ptr && this->tag() == tag);
-- 
2.43.0


From 6590b15e2cd9915a36de6412ab6b7ed688a8cb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:11 +0000
Subject: [PATCH 52/65] fix: comparison of fptu::string_view with std::string
 was ambiguous

---
 fast_positive/tuples/string_view.h | 19 -------------------
 1 file changed, 19 deletions(-)

diff --git a/fast_positive/tuples/string_view.h b/fast_positive/tuples/string_view.h
index ad5ca5f..2a3c640 100644
--- a/fast_positive/tuples/string_view.h
+++ b/fast_positive/tuples/string_view.h
@@ -221,25 +221,6 @@ template <> struct hash<fptu::string_view> {
 };
 } // namespace std
 
-inline bool operator>(const fptu::string_view &a, const std::string &b) {
-  return fptu::string_view::compare(a, b) > 0;
-}
-inline bool operator>=(const fptu::string_view &a, const std::string &b) {
-  return fptu::string_view::compare(a, b) >= 0;
-}
-inline bool operator<(const fptu::string_view &a, const std::string &b) {
-  return fptu::string_view::compare(a, b) < 0;
-}
-inline bool operator<=(const fptu::string_view &a, const std::string &b) {
-  return fptu::string_view::compare(a, b) <= 0;
-}
-inline bool operator==(const fptu::string_view &a, const std::string &b) {
-  return fptu::string_view::compare(a, b) == 0;
-}
-inline bool operator!=(const fptu::string_view &a, const std::string &b) {
-  return fptu::string_view::compare(a, b) != 0;
-}
-
 inline bool operator>(const std::string &a, const fptu::string_view &b) {
   return fptu::string_view::compare(a, b) > 0;
 }
-- 
2.43.0


From d34585ded95ea2690a770fa9cfea9298a72219db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:11 +0000
Subject: [PATCH 53/65] fix: hipagut_allocator could not be rebound since C++20

---
 fast_positive/tuples/1Hippeus/hipagut_allocator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples/1Hippeus/hipagut_allocator.h b/fast_positive/tuples/1Hippeus/hipagut_allocator.h
index b897369..b30a74c 100644
--- a/fast_positive/tuples/1Hippeus/hipagut_allocator.h
+++ b/fast_positive/tuples/1Hippeus/hipagut_allocator.h
@@ -84,7 +84,7 @@ public:
   using pointer = typename unchecked_traits::pointer;
 
   template <typename T /*, typename ...Args*/> struct rebind {
-    typedef typename unchecked_base::template rebind<T /*, Args...*/>::other
+    typedef typename unchecked_traits::template rebind_alloc<T /*, Args...*/>
         other_unchecked;
     typedef hipagut_allocator<other_unchecked> other;
   };
-- 
2.43.0


From 160ca5df07d0e663763cd5ccbc7cd7656df09837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:28 +0000
Subject: [PATCH 54/65] fix: cloning of a large tuple with a big reserve for
 fields placed data beyond the end of the buffer

---
 src/rw.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rw.cxx b/src/rw.cxx
index d758167..d15ddf7 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -707,8 +707,10 @@ inline tuple_rw::tuple_rw(const audit_holes_info &holes_info,
     throw_invalid_argument("buffer_bytes > fptu::buffer_limit");
 
   const std::size_t have_items = ro->index_size();
-  const std::size_t reserve_items =
-      std::min(size_t(fptu::max_fields), have_items + more_items);
+  /* резерв под индекс не должен оттеснять данные за предельный размер кортежа */
+  const std::size_t reserve_items = std::min(
+      std::min(size_t(fptu::max_fields), have_items + more_items),
+      size_t(fptu::max_tuple_units_netto) - ro->payload_units());
   const std::size_t space_needed = tuple_rw::estimate_required_space(
       reserve_items, ro->payload_bytes(), schema,
       /* не учитываем размер preplaced-полей, ибо они уже должы быть в ro */
-- 
2.43.0


From 69ca857e5bf3117d0097b0825c1e73ff71767a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:28 +0000
Subject: [PATCH 55/65] fix: autogrowth of a large tuple placed data beyond the
 end of the buffer

---
 src/autogrowth.cxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/autogrowth.cxx b/src/autogrowth.cxx
index a2bc259..d1ac6a1 100644
--- a/src/autogrowth.cxx
+++ b/src/autogrowth.cxx
@@ -122,9 +122,13 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
           : details::units2bytes(data_capacity_units + 42));
 
   /* Место под индекс: удваиваем если не хватило или использовано хотя-бы на
-   * половину, иначе оставляем как есть. */
+   * половину, иначе оставляем как есть. При этом резерв под индекс не должен
+   * оттеснять данные за предельный размер кортежа. */
   const size_t growth_index =
-      std::min(size_t(fundamentals::max_fields),
+      std::min(std::min(size_t(fundamentals::max_fields),
+                        size_t(fundamentals::max_tuple_units_netto) -
+                            (pimpl_->tail_ - pimpl_->pivot_) -
+                            wanna.data_space),
                (wanna.index_space > pimpl_->head_space() ||
                 pimpl_->head_ + pimpl_->head_ < pimpl_->pivot_)
                    ? (wanna.index_space + pimpl_->pivot_) * 2
-- 
2.43.0


From 721fe3d588e45f9f08ebadcba4ea549b0c96dee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:28 +0000
Subject: [PATCH 56/65] fix: growth of an autogrowing tuple without a managed
 buffer corrupted memory

---
 src/autogrowth.cxx | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/autogrowth.cxx b/src/autogrowth.cxx
index d1ac6a1..817eacf 100644
--- a/src/autogrowth.cxx
+++ b/src/autogrowth.cxx
@@ -151,16 +151,15 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
     pimpl_->end_ = unsigned(std::min(
         ptrdiff_t(max_tuple_units_netto),
         erthink::constexpr_pointer_cast<details::unit_t *>(new_legacy_buffer) +
-            growth_space % fundamentals::unit_size - pimpl_->area_));
+            growth_space / fundamentals::unit_size - pimpl_->area_));
     debug_check();
 
     /* Память перевыделенна. Теперь должно быть достаточно места для данных, но
      * для расширения места под индекс потроха кортежа нужно передвинуть. */
-    assert(wanna.data_space >= pimpl_->end_ - pimpl_->tail_);
-    assert(wanna_units >= pimpl_->end_ - pimpl_->tail_ + pimpl_->head_);
-    if (growth_index > pimpl_->pivot_) {
-      /* Недостаточно места для индекса, перемещаем всё назад */
-      const ptrdiff_t shift = growth_index - pimpl_->pivot_;
+    assert(wanna_units <= pimpl_->end_ - pimpl_->tail_ + pimpl_->head_);
+    if (growth_index != pimpl_->pivot_) {
+      /* Перемещаем всё чтобы зарезервировать место для индекса */
+      const ptrdiff_t shift = ptrdiff_t(growth_index) - pimpl_->pivot_;
 
       assert(ptrdiff_t(pimpl_->tail_) + shift <= ptrdiff_t(pimpl_->end_));
       auto src = &pimpl_->area_[pimpl_->head_];
-- 
2.43.0


From 4865bdeb643a508bc447217292828c7284869442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:28 +0000
Subject: [PATCH 57/65] fix: tuple without a managed buffer was silently hollow
 when out of memory

---
 src/rw.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rw.cxx b/src/rw.cxx
index d15ddf7..4f7a0e9 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -681,7 +681,7 @@ tuple_rw *tuple_rw::create_new(std::size_t items_limit, std::size_t data_bytes,
 
   std::unique_ptr<void, malloc_deleter> ptr(::malloc(buffer_size));
   if (unlikely(!ptr))
-    return nullptr;
+    throw std::bad_alloc();
   tuple_rw *rw = new (ptr.get()) tuple_rw(0, buffer_size, items_limit, schema);
   ptr.release();
   return rw;
@@ -769,7 +769,7 @@ tuple_rw *tuple_rw::create_from_ro(const audit_holes_info &holes_info,
 
   std::unique_ptr<void, malloc_deleter> ptr(::malloc(buffer_size));
   if (unlikely(!ptr))
-    return nullptr;
+    throw std::bad_alloc();
   tuple_rw *rw = new (ptr.get())
       tuple_rw(holes_info, ro, 0, buffer_size, more_items, schema);
   ptr.release();
-- 
2.43.0


From 4118bbff8ae50cf9095b7394d15b37a18e21d39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:40 +0000
Subject: [PATCH 58/65] fix: autogrowth reserved more index space than the
 limit, after which the tuple was treated as corrupted

---
 src/autogrowth.cxx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/autogrowth.cxx b/src/autogrowth.cxx
index 817eacf..782fa30 100644
--- a/src/autogrowth.cxx
+++ b/src/autogrowth.cxx
@@ -57,11 +57,13 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
        * переместить "с запасом", распределяя свободное место пропорционально
        * актуальным размерам индекса (с учетом приращения) и данных. При этом
        * выполняем ceil-округление для места резервируемого под индекс. */
-      const ptrdiff_t reserve =
-          std::max(wanna.index_space,
-                   std::min((unallocated_units * index_used + whole_used - 1) /
+      const ptrdiff_t reserve = std::max(
+          wanna.index_space,
+          std::min(std::min((unallocated_units * index_used + whole_used - 1) /
                                 whole_used,
-                            unallocated_units - wanna.data_space));
+                            unallocated_units - wanna.data_space),
+                   /* резервировать сверх предельного кол-ва полей нельзя */
+                   size_t(fundamentals::max_fields) - pimpl_->index_size()));
       shift = reserve - pimpl_->head_;
     } else if (wanna.data_space > pimpl_->end_ - pimpl_->tail_) {
       /* Недостаточно места для данных, перемещаем всё вперед. Пытаемся
-- 
2.43.0


From 7fcf19d1ea91404a573080a4ff6003789ce923d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:55 +0000
Subject: [PATCH 59/65] fix: a tuple of the extreme scale could not be created
 for a schema with preplaced fields

---
 src/managed.cxx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/managed.cxx b/src/managed.cxx
index bc14d56..3fdb9f0 100644
--- a/src/managed.cxx
+++ b/src/managed.cxx
@@ -72,8 +72,13 @@ tuple_rw_fixed::tuple_rw_fixed(const initiation_scale scale)
 tuple_rw_fixed::tuple_rw_fixed(const initiation_scale scale,
                                const fptu::schema *schema,
                                const hippeus::buffer_tag &allot_tag)
-    : tuple_rw_fixed(scale2items[scale], scale2bytes[scale], schema,
-                     allot_tag) {}
+    : tuple_rw_fixed(scale2items[scale],
+                     /* место под preplaced-поля добавляется отдельно, поэтому
+                      * вместе с ним не следует выходить за предел */
+                     std::min(size_t(scale2bytes[scale]),
+                              max_tuple_bytes_netto -
+                                  (schema ? schema->preplaced_bytes() : 0)),
+                     schema, allot_tag) {}
 tuple_rw_fixed::tuple_rw_fixed(std::size_t items_limit, std::size_t data_bytes,
                                const fptu::schema *schema,
                                const hippeus::buffer_tag &allot_tag)
-- 
2.43.0


From 4704aed56b6e6f6e6fb1af6c58f990bc080a5307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:21 +0000
Subject: [PATCH 60/65] fix: padding after the preplaced fields carried
 uninitialized memory into the serialized form

---
 fast_positive/tuples/details/rw.h | 12 ++++++++++--
 src/rw.cxx                        |  3 +--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index 0c51e8c..984ff4f 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -188,6 +188,15 @@ public:
   }
 
 protected:
+  void init_preplaced() {
+    const std::size_t bytes = schema_->preplaced_bytes();
+    std::memcpy(pivot(), schema_->preplaced_init_image(), bytes);
+    /* обнуляем выравнивающее дополнение, чтобы содержимое неинициализированной
+     * памяти не попадало в сериализованную форму */
+    std::memset(erthink::constexpr_pointer_cast<char *>(pivot()) + bytes, 0,
+                units2bytes(schema_->preplaced_units()) - bytes);
+  }
+
   /* TODO: перенести как inline во внутренний включаемый файл */
   inline tuple_rw(int buffer_offset, std::size_t buffer_size,
                   std::size_t items_limit, const fptu::schema *schema)
@@ -202,8 +211,7 @@ protected:
     head_ = tail_ = pivot_ = unsigned(items_limit);
     if (schema_ && schema_->number_of_preplaced()) {
       tail_ += unsigned(schema_->preplaced_units());
-      std::memcpy(pivot(), schema_->preplaced_init_image(),
-                  schema_->preplaced_bytes());
+      init_preplaced();
     }
     debug_check();
   }
diff --git a/src/rw.cxx b/src/rw.cxx
index 4f7a0e9..eb60670 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -623,8 +623,7 @@ void tuple_rw::reset() {
     if (unlikely(schema_->preplaced_units() > end_ - tail_))
       throw_tuple_bad(this);
     tail_ += unsigned(schema_->preplaced_units());
-    std::memcpy(pivot(), schema_->preplaced_init_image(),
-                schema_->preplaced_bytes());
+    init_preplaced();
   }
   debug_check();
 }
-- 
2.43.0


From eb587e05b3f869dd9ee5f154629b0c35a14cfa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:32 +0000
Subject: [PATCH 61/65] fix: a tuple created with a schema could have less room
 than requested

---
 fast_positive/tuples/details/rw.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index 984ff4f..4632995 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -1174,9 +1174,8 @@ public: //----------------------------------------------------------------------
 
     const std::size_t estimated =
         pure_tuple_size() + items * unit_size +
-        utils::ceil(dont_account_preplaced ? data_bytes
-                                           : data_bytes + preplaced_bytes,
-                    unit_size);
+        utils::ceil(data_bytes, unit_size) +
+        (dont_account_preplaced ? 0 : utils::ceil(preplaced_bytes, unit_size));
     assert(estimated <= fundamentals::buffer_enough);
     return estimated;
   }
-- 
2.43.0


From 3014e89b2650670168400a6c555a7bdc82daab4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:10 +0000
Subject: [PATCH 62/65] fix: searching by an offset beyond the largest one a
 field may have found wrong fields

---
 src/schema.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/schema.cxx b/src/schema.cxx
index 24a122d..35a6a6d 100644
--- a/src/schema.cxx
+++ b/src/schema.cxx
@@ -342,6 +342,11 @@ schema::search_preplaced(const ptrdiff_t offset) const cxx11_noexcept {
   size_t span = number_of_preplaced();
   assert(span <= sorted_tokens_.size());
 
+  /* Последнее поле может заканчиваться дальше максимального смещения,
+   * которое представимо в тэге. */
+  if (unlikely(size_t(offset) > details::max_preplaced_offset))
+    return sorted_tokens_.begin() + span;
+
   /* Смещение prelaced-поля в старших битах тэга и токена, поэтому для поиска
    * нормализация НЕ требуется, ибо дополнительные флаги не меняют порядка */
   const details::tag_t tag(
-- 
2.43.0


From 820be98b032ebcf46230ef5318005b47015f6971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:21 +0000
Subject: [PATCH 63/65] fix: iteration of a tuple went wrong when the first
 preplaced field is not at the very beginning

---
 src/ro.cxx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ro.cxx b/src/ro.cxx
index a287b0b..de2715a 100644
--- a/src/ro.cxx
+++ b/src/ro.cxx
@@ -139,7 +139,7 @@ field_iterator_ro &field_iterator_ro::operator--() {
     field_ = static_cast<const char *>(pivot_) + offset;
 
     /* останавливаемся если дошли до первого поля */
-    if (!offset)
+    if (offset == schema_->tokens().front().preplaced_offset())
       break;
 
     /* пропускаем null-евые поля */
@@ -157,9 +157,11 @@ field_iterator_ro::begin(const void *pivot,
   if (schema && schema->number_of_preplaced()) {
     field_iterator_ro iter(static_cast<const details::field_preplaced *>(pivot),
                            pivot, schema);
-    /* пропускаем null-евые preplaced-поля */
+    /* первое preplaced-поле может быть с отступом от начала */
     auto ident = schema->tokens().begin();
-    assert(ident->is_valid() && ident->preplaced_offset() == 0);
+    assert(ident->is_valid() && ident->is_preplaced());
+    iter.field_ = static_cast<const char *>(pivot) + ident->preplaced_offset();
+    /* пропускаем null-евые preplaced-поля */
     const auto detent = ident + schema->number_of_preplaced();
     while (unlikely(iter.preplaced()->is_null(ident->tag()))) {
       if (++ident == detent) {
-- 
2.43.0


From 94aaf948f91a4a43f0a979c92f6b0e56930ec9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:27 +0000
Subject: [PATCH 64/65] fix: a misaligned preplaced field of a variable-size
 type was accepted by the schema and corrupted tuples

---
 src/schema.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/schema.cxx b/src/schema.cxx
index 35a6a6d..6fd14f1 100644
--- a/src/schema.cxx
+++ b/src/schema.cxx
@@ -130,6 +130,12 @@ void schema_impl::add_definition(std::string &&name, const token &ident,
         "fptu: field with corresponding token already exists");
 
   if (ident.is_preplaced()) {
+    /* смещение к данным внутри поля задаётся в юнитах относительно его самого,
+     * поэтому такие поля обязаны быть выровнены на границу юнита */
+    if (unlikely(ident.is_stretchy() &&
+                 ident.preplaced_offset() % fundamentals::unit_size))
+      throw_schema_definition_error("preplaced stretchy field is misaligned");
+
     /* проверяем перекрытие полей, которые могут быть при слиянии
      * схем с renominate == FALSE */
     for (const auto &scan : sorted_tokens_) {
-- 
2.43.0


From 56539d8fba72a2b7aa37931b2d304fdf415550ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:50 +0000
Subject: [PATCH 65/65] fix: comparing a writable tuple without room before its
 index with its serialized form read a wrong address

---
 fast_positive/tuples/details/rw.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index 4632995..0421331 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -1208,7 +1208,7 @@ public: //----------------------------------------------------------------------
   }
 
   __pure_function bool operator==(const tuple_ro *ro) const cxx11_noexcept {
-    return ro->flat == &area_[head_ - 1];
+    return ro->flat == &area_[head_] - 1;
   }
   bool operator!=(const tuple_ro *ro) const cxx11_noexcept {
     return !(*this == ro);
-- 
2.43.0

