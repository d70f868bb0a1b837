From d1bbd886cdcaad3f24bfa029c39679e8cf13fa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 01/99] fix: vector::insert returns the position of the
 inserted element

std::rotate returns the new position of the element that was at the
insertion point, i.e. the position behind the inserted elements.
---
 include/cista/containers/vector.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 6e592fc..3c029a1 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -220,7 +220,8 @@ struct basic_vector {
     new (el_ + used_size_) T{std::forward<Arg&&>(el)};
     ++used_size_;
 
-    return std::rotate(begin() + old_offset, begin() + old_size, end());
+    std::rotate(begin() + old_offset, begin() + old_size, end());
+    return begin() + old_offset;
   }
 
   template <typename El>
@@ -234,7 +235,8 @@ struct basic_vector {
       ++used_size_;
     }
 
-    return std::rotate(begin() + old_offset, begin() + old_size, end());
+    std::rotate(begin() + old_offset, begin() + old_size, end());
+    return begin() + old_offset;
   }
 
   template <class InputIt>
@@ -248,7 +250,8 @@ struct basic_vector {
       ++used_size_;
     }
 
-    return std::rotate(begin() + old_offset, begin() + old_size, end());
+    std::rotate(begin() + old_offset, begin() + old_size, end());
+    return begin() + old_offset;
   }
 
   template <class FwdIt>
-- 
2.43.0


From 3e511e2850eee81edb9250712d242848646e9373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 02/99] fix: vector::erase(first, last) returns the position
 after the removed range

---
 include/cista/containers/vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 3c029a1..724ed68 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -404,7 +404,7 @@ struct basic_vector {
       }
       used_size_ -= static_cast<size_type>(std::distance(new_end, end()));
     }
-    return end();
+    return first;
   }
 
   bool contains(T const* el) const noexcept {
-- 
2.43.0


From 88e2a79f778c996cc4b0458edf5a0196b3d15f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 03/99] fix: vector::resize destroys the removed elements when
 shrinking

---
 include/cista/containers/vector.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 724ed68..646b6ff 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -320,6 +320,9 @@ struct basic_vector {
     for (auto i = used_size_; i < size; ++i) {
       new (el_ + i) T{};
     }
+    for (auto i = size; i < used_size_; ++i) {
+      el_[i].~T();
+    }
     used_size_ = size;
   }
 
@@ -328,6 +331,9 @@ struct basic_vector {
     for (auto i = used_size_; i < size; ++i) {
       new (el_ + i) T{init};
     }
+    for (auto i = size; i < used_size_; ++i) {
+      el_[i].~T();
+    }
     used_size_ = size;
   }
 
-- 
2.43.0


From b5ad9194e2d83afa4099685cf871851f424068d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 04/99] fix: vector::set destroys the previous elements

Assigning to a non-empty vector of non-trivially copyable elements
constructed the new elements over live ones, leaking their resources.
---
 include/cista/containers/vector.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 646b6ff..dce640f 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -175,6 +175,7 @@ struct basic_vector {
         range_size >= 0 && range_size <= std::numeric_limits<size_type>::max(),
         "cista::vector::set: invalid range");
 
+    clear();
     reserve(static_cast<size_type>(range_size));
 
     auto copy_source = begin_it;
-- 
2.43.0


From 7bffea256a9a1c67d83770e26fdbf54b1ab98dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 05/99] fix: appending or inserting an own element of a full
 vector

Growing destroyed the elements before the argument was read.
---
 include/cista/containers/vector.h | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index dce640f..e4b605e 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -217,9 +217,7 @@ struct basic_vector {
     auto const old_offset = std::distance(begin(), it);
     auto const old_size = used_size_;
 
-    reserve(used_size_ + 1);
-    new (el_ + used_size_) T{std::forward<Arg&&>(el)};
-    ++used_size_;
+    emplace_back(std::forward<Arg>(el));
 
     std::rotate(begin() + old_offset, begin() + old_size, end());
     return begin() + old_offset;
@@ -230,9 +228,10 @@ struct basic_vector {
     auto const old_offset = std::distance(begin(), it);
     auto const old_size = used_size_;
 
+    auto const copy = value;  // value may be an own element
     reserve(used_size_ + count);
     for (auto i = size_type{0U}; i < count; ++i) {
-      new (el_ + used_size_) T{value};
+      new (el_ + used_size_) T{copy};
       ++used_size_;
     }
 
@@ -296,21 +295,34 @@ struct basic_vector {
   }
 
   void push_back(T const& el) {
-    reserve(used_size_ + 1U);
+    if (used_size_ == allocated_size_) {
+      push_back(T(el));  // growing invalidates el if it is an own element
+      return;
+    }
     new (el_ + used_size_) T(el);
     ++used_size_;
   }
 
   void push_back(T&& el) {
-    reserve(used_size_ + 1U);
-    new (el_ + used_size_) T(std::move(el));
+    if (used_size_ == allocated_size_) {
+      auto tmp = T(std::move(el));  // el may be an own element
+      reserve(used_size_ + 1U);
+      new (el_ + used_size_) T(std::move(tmp));
+    } else {
+      new (el_ + used_size_) T(std::move(el));
+    }
     ++used_size_;
   }
 
   template <typename... Args>
   T& emplace_back(Args&&... el) {
-    reserve(used_size_ + 1U);
-    new (el_ + used_size_) T{std::forward<Args>(el)...};
+    if (used_size_ == allocated_size_) {
+      auto tmp = T{std::forward<Args>(el)...};  // args may be own elements
+      reserve(used_size_ + 1U);
+      new (el_ + used_size_) T(std::move(tmp));
+    } else {
+      new (el_ + used_size_) T{std::forward<Args>(el)...};
+    }
     T* ptr = el_ + used_size_;
     ++used_size_;
     return *ptr;
-- 
2.43.0


From e296e85cf3dfc188100a124cdec56613f3f58c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 06/99] fix: vector::reserve of more than half of the size_type
 range

The rounded up capacity overflowed to zero, no memory was allocated.
---
 include/cista/containers/vector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index e4b605e..e16852e 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -371,7 +371,8 @@ struct basic_vector {
       return;
     }
 
-    auto next_size = next_power_of_two(new_size);
+    // next_power_of_two overflows to zero for more than half of the size range
+    auto next_size = std::max(next_power_of_two(new_size), new_size);
     auto num_bytes = static_cast<std::size_t>(next_size) * sizeof(T);
     auto mem_buf = static_cast<T*>(std::malloc(num_bytes));  // NOLINT
     if (mem_buf == nullptr) {
-- 
2.43.0


From e849eaf3bf05bf257db34c5e0b37f7d84c50bb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:52 +0000
Subject: [PATCH 07/99] fix: hash_storage::rehash on an empty table leaked its
 allocation

A table with zero capacity is never freed.
---
 include/cista/containers/hash_storage.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/hash_storage.h b/include/cista/containers/hash_storage.h
index 753c675..7663221 100644
--- a/include/cista/containers/hash_storage.h
+++ b/include/cista/containers/hash_storage.h
@@ -646,7 +646,11 @@ struct hash_storage {
     self_allocated_ = false;
   }
 
-  void rehash() { resize(capacity_); }
+  void rehash() {
+    if (capacity_ != 0U) {
+      resize(capacity_);
+    }
+  }
 
   iterator iterator_at(size_type const i) noexcept {
     return {ctrl_ + i, entries_ + i};
-- 
2.43.0


From 927769c01cc93a9ac00248bb52b457e87516bfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:52 +0000
Subject: [PATCH 08/99] fix: hash_storage::operator[] with a key stored in the
 table itself

Growing the table destroyed the key before it was copied. A throwing key or
value constructor left an entry marked as full that was never constructed.
---
 include/cista/containers/hash_storage.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/cista/containers/hash_storage.h b/include/cista/containers/hash_storage.h
index 7663221..87482ec 100644
--- a/include/cista/containers/hash_storage.h
+++ b/include/cista/containers/hash_storage.h
@@ -316,11 +316,16 @@ struct hash_storage {
   // --- operator[]
   template <typename Key>
   mapped_type& bracket_operator_impl(Key&& key) {
-    auto const res = find_or_prepare_insert(std::forward<Key>(key));
-    if (res.second) {
-      new (entries_ + res.first) T{static_cast<key_type>(key), mapped_type{}};
+    auto const it = find_impl(key);
+    if (it != end()) {
+      return GetValue{}(*it);
     }
-    return GetValue{}(entries_[res.first]);
+    // Construct the entry first: growing the table invalidates keys that refer
+    // to its entries and a throwing constructor must not leave a dead entry.
+    auto entry = T{static_cast<key_type>(key), mapped_type{}};
+    auto const pos = prepare_insert(compute_hash(GetKey()(entry)));
+    new (entries_ + pos) T{std::move(entry)};
+    return GetValue{}(entries_[pos]);
   }
 
   template <typename Key>
-- 
2.43.0


From 5a41546e07b5a87da6930dde336e8d934905aaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:08 +0000
Subject: [PATCH 09/99] fix: string self assignment and assignment from a part
 of itself

The old value was released (heap) or zeroed (inline, also string_view self
assignment) before the new value was read from it. A failed allocation lost
the old value, too.
---
 include/cista/containers/string.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/cista/containers/string.h b/include/cista/containers/string.h
index 8334af5..45fa6d3 100644
--- a/include/cista/containers/string.h
+++ b/include/cista/containers/string.h
@@ -96,7 +96,13 @@ struct generic_string {
   static constexpr msize_t short_length_limit = 15U / sizeof(CharT);
 
   void set_owning(CharT const* str, msize_t const len) {
-    reset();
+    // str may point into this string: build the new value before the reset.
+    generic_string tmp;
+    tmp.init_owning(str, len);
+    move_from(std::move(tmp));
+  }
+
+  void init_owning(CharT const* str, msize_t const len) {
     if (str == nullptr || len == 0U) {
       return;
     }
@@ -128,15 +134,15 @@ struct generic_string {
   void set_non_owning(CharT const* str) { set_non_owning(str, mstrlen(str)); }
 
   void set_non_owning(CharT const* str, msize_t const len) {
+    if (str != nullptr && len != 0U && len <= short_length_limit) {
+      return set_owning(str, len);
+    }
+
     reset();
     if (str == nullptr || len == 0U) {
       return;
     }
 
-    if (len <= short_length_limit) {
-      return set_owning(str, len);
-    }
-
     h_.is_short_ = false;
     h_.self_allocated_ = false;
     h_.ptr_ = str;
-- 
2.43.0


From 2f15020e73b89c3dbb700fcac9aaecd998705862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:08 +0000
Subject: [PATCH 10/99] fix: short strings with embedded zero characters were
 truncated

The inline representation has no length and ends at the first zero.
---
 include/cista/containers/string.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/string.h b/include/cista/containers/string.h
index 45fa6d3..4dcc467 100644
--- a/include/cista/containers/string.h
+++ b/include/cista/containers/string.h
@@ -95,6 +95,12 @@ struct generic_string {
 
   static constexpr msize_t short_length_limit = 15U / sizeof(CharT);
 
+  // Inline strings are zero terminated: they cannot contain zeros themselves.
+  static bool fits_inline(CharT const* str, msize_t const len) noexcept {
+    return len <= short_length_limit &&
+           std::char_traits<CharT>::find(str, len, CharT(0)) == nullptr;
+  }
+
   void set_owning(CharT const* str, msize_t const len) {
     // str may point into this string: build the new value before the reset.
     generic_string tmp;
@@ -106,7 +112,7 @@ struct generic_string {
     if (str == nullptr || len == 0U) {
       return;
     }
-    s_.is_short_ = (len <= short_length_limit);
+    s_.is_short_ = fits_inline(str, len);
     if (s_.is_short_) {
       std::memcpy(s_.s_, str, len * sizeof(CharT));
       for (auto i = len; i < short_length_limit; ++i) {
@@ -134,7 +140,7 @@ struct generic_string {
   void set_non_owning(CharT const* str) { set_non_owning(str, mstrlen(str)); }
 
   void set_non_owning(CharT const* str, msize_t const len) {
-    if (str != nullptr && len != 0U && len <= short_length_limit) {
+    if (str != nullptr && len != 0U && fits_inline(str, len)) {
       return set_owning(str, len);
     }
 
-- 
2.43.0


From f4f0d5b42c0427bde329ed4a252025e83104e03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:08 +0000
Subject: [PATCH 11/99] fix: cstring self assignment and leak of the old value
 on move assignment

---
 include/cista/containers/cstring.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/cstring.h b/include/cista/containers/cstring.h
index 1a6d26d..d0de83a 100644
--- a/include/cista/containers/cstring.h
+++ b/include/cista/containers/cstring.h
@@ -84,7 +84,13 @@ struct generic_cstring {
 
   void set_owning(char const* str, msize_t const len) {
     assert(str != nullptr || len == 0U);
-    reset();
+    // str may point into this string: build the new value before the reset.
+    generic_cstring tmp;
+    tmp.init_owning(str, len);
+    move_from(std::move(tmp));
+  }
+
+  void init_owning(char const* str, msize_t const len) {
     if (len == 0U) {
       return;
     }
@@ -117,6 +123,10 @@ struct generic_cstring {
   }
 
   void move_from(generic_cstring&& s) noexcept {
+    if (&s == this) {
+      return;
+    }
+    reset();
     std::memcpy(static_cast<void*>(this), &s, sizeof(*this));
     if constexpr (std::is_pointer_v<Ptr>) {
       std::memset(static_cast<void*>(&s), 0, sizeof(*this));
-- 
2.43.0


From 5898035d27d251da143f4f7eba7d5b9917bb12d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:05 +0000
Subject: [PATCH 12/99] fix: moved-from cstring with raw pointers had size 15
 instead of 0

---
 include/cista/containers/cstring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/containers/cstring.h b/include/cista/containers/cstring.h
index d0de83a..f9a882f 100644
--- a/include/cista/containers/cstring.h
+++ b/include/cista/containers/cstring.h
@@ -129,7 +129,7 @@ struct generic_cstring {
     reset();
     std::memcpy(static_cast<void*>(this), &s, sizeof(*this));
     if constexpr (std::is_pointer_v<Ptr>) {
-      std::memset(static_cast<void*>(&s), 0, sizeof(*this));
+      s.s_ = stack{};
     } else if (!s.is_short()) {
       h_.ptr_ = s.h_.ptr_;
       s.s_ = stack{};
-- 
2.43.0


From 76190646ba8cb61fec930767aaf60f53258251c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:27 +0000
Subject: [PATCH 13/99] fix: empty cstring view referred to the inline buffer
 of the view it was copied from

---
 include/cista/containers/cstring.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cista/containers/cstring.h b/include/cista/containers/cstring.h
index f9a882f..5557c31 100644
--- a/include/cista/containers/cstring.h
+++ b/include/cista/containers/cstring.h
@@ -119,6 +119,9 @@ struct generic_cstring {
   void set_non_owning(char const* str, msize_t const len) {
     assert(str != nullptr || len == 0U);
     reset();
+    if (len == 0U) {
+      return;  // str may be the inline buffer of another string
+    }
     h_ = heap(str, len, non_owning);
   }
 
-- 
2.43.0


From 377f5bd81c0fac659a7c5e0c8468f9c804dda904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:10 +0000
Subject: [PATCH 14/99] fix: post-increment and post-decrement of offset_ptr

---
 include/cista/containers/offset_ptr.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/offset_ptr.h b/include/cista/containers/offset_ptr.h
index a8e699f..51a6110 100644
--- a/include/cista/containers/offset_ptr.h
+++ b/include/cista/containers/offset_ptr.h
@@ -104,8 +104,16 @@ struct offset_ptr {
     return *this;
   }
 
-  offset_ptr operator++(int) const noexcept { return offset_ptr{get() + 1}; }
-  offset_ptr operator--(int) const noexcept { return offset_ptr{get() - 1}; }
+  offset_ptr operator++(int) noexcept {
+    auto const r = *this;
+    ++*this;
+    return r;
+  }
+  offset_ptr operator--(int) noexcept {
+    auto const r = *this;
+    --*this;
+    return r;
+  }
 
   offset_t offset_{NULLPTR_OFFSET};
 };
-- 
2.43.0


From 30f6f59367998ed96d083e399ed74fad19143001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:10 +0000
Subject: [PATCH 15/99] fix: shifting a strong type by a strong type did not
 compile

---
 include/cista/strong.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/cista/strong.h b/include/cista/strong.h
index 93f2e9b..0efa806 100644
--- a/include/cista/strong.h
+++ b/include/cista/strong.h
@@ -104,8 +104,12 @@ struct strong {
   constexpr strong operator<<(T const& i) const {
     return strong{static_cast<value_t>(v_ << i)};
   }
-  constexpr strong operator>>(strong const& o) const { return v_ >> o.v_; }
-  constexpr strong operator<<(strong const& o) const { return v_ << o.v_; }
+  constexpr strong operator>>(strong const& o) const {
+    return strong{static_cast<value_t>(v_ >> o.v_)};
+  }
+  constexpr strong operator<<(strong const& o) const {
+    return strong{static_cast<value_t>(v_ << o.v_)};
+  }
 
   constexpr strong& operator|=(strong const& o) {
     v_ |= o.v_;
-- 
2.43.0


From 530e7bc285170a69cd6aeb0020c9343882eaca23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 16/99] fix: bitvec::next_set_bit found bits beyond the size in
 a partial last block

---
 include/cista/containers/bitvec.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/bitvec.h b/include/cista/containers/bitvec.h
index ac79f1e..cc03bc9 100644
--- a/include/cista/containers/bitvec.h
+++ b/include/cista/containers/bitvec.h
@@ -175,7 +175,10 @@ struct basic_bitvec {
     auto const first_block = blocks_[first_block_idx];
     if (first_block != 0U) {
       auto const first_bit = i % bits_per_block;
-      auto const n = std::min(size(), bits_per_block);
+      auto const n =
+          std::min(static_cast<size_type>(
+                       size() - first_block_idx * bits_per_block),
+                   bits_per_block);
       for (auto bit = first_bit; bit != n; ++bit) {
         if ((first_block & (block_t{1U} << bit)) != 0U) {
           return Key{first_block_idx * bits_per_block + bit};
-- 
2.43.0


From fff5ed4fb06199e57371b56b5ee3d8af03486581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 17/99] fix: bitvec::reset and shifts by the size or more left
 a size without blocks

---
 include/cista/containers/bitvec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/containers/bitvec.h b/include/cista/containers/bitvec.h
index cc03bc9..afd9ca8 100644
--- a/include/cista/containers/bitvec.h
+++ b/include/cista/containers/bitvec.h
@@ -120,7 +120,7 @@ struct basic_bitvec {
     }
   }
 
-  void reset() noexcept { blocks_ = {}; }
+  void reset() noexcept { zero_out(); }
 
   bool operator[](Key const i) const noexcept { return test(i); }
 
-- 
2.43.0


From d00ebd8c177435162e559431e79b37a25c13f370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 18/99] fix: vecvec::at accepted the index one past the last
 bucket

---
 include/cista/containers/vecvec.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/cista/containers/vecvec.h b/include/cista/containers/vecvec.h
index e649847..1333cd4 100644
--- a/include/cista/containers/vecvec.h
+++ b/include/cista/containers/vecvec.h
@@ -334,14 +334,12 @@ struct basic_vecvec {
   }
 
   CISTA_CUDA_COMPAT const_bucket at(Key const i) const {
-    verify(to_idx(i) < bucket_starts_.size(),
-           "basic_vecvec::at: index out of range");
+    verify(to_idx(i) < size(), "basic_vecvec::at: index out of range");
     return {this, to_idx(i)};
   }
 
   CISTA_CUDA_COMPAT bucket at(Key const i) {
-    verify(to_idx(i) < bucket_starts_.size(),
-           "basic_vecvec::at: index out of range");
+    verify(to_idx(i) < size(), "basic_vecvec::at: index out of range");
     return {this, to_idx(i)};
   }
 
-- 
2.43.0


From 05058c1598edcef1f4dc4cdd084f6ac9e60b19cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 19/99] fix: vecvec::empty was false after resize(0)

---
 include/cista/containers/vecvec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/vecvec.h b/include/cista/containers/vecvec.h
index 1333cd4..e7098f8 100644
--- a/include/cista/containers/vecvec.h
+++ b/include/cista/containers/vecvec.h
@@ -350,9 +350,9 @@ struct basic_vecvec {
   CISTA_CUDA_COMPAT const_bucket back() const { return at(Key{size() - 1}); }
 
   CISTA_CUDA_COMPAT index_value_type size() const {
-    return empty() ? 0U : bucket_starts_.size() - 1;
+    return bucket_starts_.empty() ? 0U : bucket_starts_.size() - 1;
   }
-  CISTA_CUDA_COMPAT bool empty() const { return bucket_starts_.empty(); }
+  CISTA_CUDA_COMPAT bool empty() const { return size() == 0U; }
 
   void clear() {
     bucket_starts_.clear();
-- 
2.43.0


From 2078e6175bd85f14dcd2e8a7d8ee034ccd9e44cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 20/99] fix: vecvec::resize kept the data of removed buckets
 for the next bucket added

---
 include/cista/containers/vecvec.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cista/containers/vecvec.h b/include/cista/containers/vecvec.h
index e7098f8..3abc087 100644
--- a/include/cista/containers/vecvec.h
+++ b/include/cista/containers/vecvec.h
@@ -407,6 +407,10 @@ struct basic_vecvec {
     for (auto i = old_size; i < new_size + 1U; ++i) {
       bucket_starts_[i] = data_.size();
     }
+    if (new_size + 1U < old_size) {  // drop the data of the removed buckets
+      data_.resize(static_cast<typename DataVec::size_type>(
+          to_idx(bucket_starts_[new_size])));
+    }
   }
 
   CISTA_CUDA_COMPAT
-- 
2.43.0


From 658c50d357c47000083c15988f32f9600f5662fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 21/99] fix: nvec::size of inner levels and unreported
 out-of-range indices in nvec::at/size

---
 include/cista/containers/nvec.h | 78 ++++++++++++++-------------------
 1 file changed, 32 insertions(+), 46 deletions(-)

diff --git a/include/cista/containers/nvec.h b/include/cista/containers/nvec.h
index 82aa930..e7a8c3f 100644
--- a/include/cista/containers/nvec.h
+++ b/include/cista/containers/nvec.h
@@ -486,57 +486,27 @@ struct basic_nvec {
 
   template <typename... Indices>
   size_type size(Key const first, Indices... rest) const {
-    constexpr auto const I = sizeof...(Indices);
-    verify(to_idx(first) < index_[I].size(), "nvec::at: index out of range");
-    if (sizeof...(Indices) == 0U) {
-      return get_size<N - sizeof...(Indices) - 1>(first);
-    } else {
-      return get_size<N - sizeof...(Indices) - 1>(index_[I][first], rest...);
-    }
+    static_assert(sizeof...(Indices) < N);
+    verify(to_idx(first) < size(), "nvec::at: index out of range");
+    return get_size<N - 1U>(to_idx(first), rest...);
   }
 
   template <typename... Indices>
   bucket_t at(Key const first, Indices... rest) {
-    constexpr auto const I = sizeof...(Indices);
-    static_assert(I == N - 1);
-    verify(to_idx(first) < index_[I].size(), "nvec::at: index out of range");
-    return get_bucket(index_[I][to_idx(first)], rest...);
+    static_assert(sizeof...(Indices) == N - 1);
+    verify(to_idx(first) < size(), "nvec::at: index out of range");
+    return {&data_, &index_[0], get_leaf<N - 1U>(to_idx(first), rest...)};
   }
 
   template <typename... Indices>
   const_bucket_t at(Key const first, Indices... rest) const {
-    constexpr auto const I = sizeof...(Indices);
-    static_assert(I == N - 1);
-    verify(to_idx(first) < index_[I].size(), "nvec::at: index out of range");
-    return get_bucket(index_[I][to_idx(first)], rest...);
+    static_assert(sizeof...(Indices) == N - 1);
+    verify(to_idx(first) < size(), "nvec::at: index out of range");
+    return {&data_, &index_[0], get_leaf<N - 1U>(to_idx(first), rest...)};
   }
 
   auto cista_members() noexcept { return std::tie(index_, data_); }
 
-  template <typename... Rest>
-  bucket_t get_bucket(index_value_type const bucket_start,
-                      index_value_type const i, Rest... rest) {
-    return get_bucket<Rest...>(index_[sizeof...(Rest)][bucket_start + i],
-                               rest...);
-  }
-
-  bucket_t get_bucket(index_value_type const bucket_start,
-                      index_value_type const i) {
-    return {&data_, &index_[0], bucket_start + i};
-  }
-
-  template <typename... Rest>
-  const_bucket_t get_bucket(index_value_type const bucket_start,
-                            index_value_type const i, Rest... rest) const {
-    return get_bucket<Rest...>(index_[sizeof...(Rest)][bucket_start + i],
-                               rest...);
-  }
-
-  const_bucket_t get_bucket(index_value_type const bucket_start,
-                            index_value_type const i) const {
-    return {&data_, &index_[0], bucket_start + i};
-  }
-
   template <std::size_t L, typename Container>
   void add(Container&& c) {
     if constexpr (L == 0) {
@@ -552,14 +522,24 @@ struct basic_nvec {
     }
   }
 
+  // Index in level L-1 of the j-th entry below the i-th entry of level L.
+  template <std::size_t L>
+  index_value_type get_child(index_value_type const i,
+                             index_value_type const j) const {
+    verify(j < get_size<L>(i), "nvec::at: index out of range");
+    return index_[L][i] + j;
+  }
+
+  template <std::size_t L>
+  index_value_type get_leaf(index_value_type const i) const {
+    static_assert(L == 0U);
+    return i;
+  }
+
   template <std::size_t L, typename... Rest>
-  size_type get_size(index_value_type const i, index_value_type const j,
-                     Rest... rest) const {
-    if constexpr (sizeof...(Rest) == 0U) {
-      return index_[L][i + j + 1] - index_[L][i + j];
-    } else {
-      return get_size<L>(index_[L][i + j], rest...);
-    }
+  index_value_type get_leaf(index_value_type const i, index_value_type const j,
+                            Rest... rest) const {
+    return get_leaf<L - 1U>(get_child<L>(i, j), rest...);
   }
 
   template <std::size_t L>
@@ -567,6 +547,12 @@ struct basic_nvec {
     return index_[L][i + 1] - index_[L][i];
   }
 
+  template <std::size_t L, typename... Rest>
+  size_type get_size(index_value_type const i, index_value_type const j,
+                     Rest... rest) const {
+    return get_size<L - 1U>(get_child<L>(i, j), rest...);
+  }
+
   array<IndexVec, N> index_;
   DataVec data_;
 };
-- 
2.43.0


From 7759e9616dacc4acc84417e56c77840c60557ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 22/99] fix: characters of u16/u32 strings were serialized
 unaligned

---
 include/cista/serialization.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 559960d..54baafc 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -224,7 +224,8 @@ void serialize(Ctx& c, generic_string<Ptr> const* origin, offset_t const pos) {
       (origin->h_.ptr_ == nullptr)
           ? NULLPTR_OFFSET
           : c.write(origin->data(),
-                    origin->size() * sizeof(typename Type::CharT));
+                    origin->size() * sizeof(typename Type::CharT),
+                    std::alignment_of_v<typename Type::CharT>);
   if (start != NULLPTR_OFFSET) {
     str_convert_endian(c, start, origin->data(),
                        static_cast<offset_t>(origin->size()));
-- 
2.43.0


From 3fda17140f8fa7d374cf0fde5fdc0062e37acad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:08 +0000
Subject: [PATCH 23/99] fix: optional never destroyed its value

---
 include/cista/containers/optional.h | 31 +++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/include/cista/containers/optional.h b/include/cista/containers/optional.h
index a9d5df5..0cc238f 100644
--- a/include/cista/containers/optional.h
+++ b/include/cista/containers/optional.h
@@ -24,31 +24,42 @@ struct optional {
   optional(optional const& other) { copy(other); }
   optional& operator=(optional const& other) { return copy(other); }
 
+  ~optional() { reset(); }
+
   optional(optional&& other) noexcept { move(std::forward<optional>(other)); }
   optional& operator=(optional&& other) noexcept {
     return move(std::forward<optional>(other));
   }
 
   optional& copy(optional const& other) {
-    if (other.has_value()) {
-      new (&storage_[0]) T{other.value()};
+    if (this != &other) {
+      reset();
+      if (other.has_value()) {
+        new (&storage_[0]) T{other.value()};
+        valid_ = true;
+      }
     }
-
-    valid_ = other.has_value();
-
     return *this;
   }
 
   optional& move(optional&& other) {
-    if (other.has_value()) {
-      new (&storage_[0]) T(std::move(other.value()));
+    if (this != &other) {
+      reset();
+      if (other.has_value()) {
+        new (&storage_[0]) T(std::move(other.value()));
+        valid_ = true;
+      }
     }
-
-    valid_ = other.has_value();
-
     return *this;
   }
 
+  void reset() noexcept {
+    if (valid_) {
+      valid_ = false;
+      reinterpret_cast<T*>(&storage_[0])->~T();
+    }
+  }
+
   T const& value() const {
     if (!valid_) {
       throw_exception(std::bad_optional_access{});
-- 
2.43.0


From cde282d1a92025fe42975d9b3bee292206d69028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:08 +0000
Subject: [PATCH 24/99] fix: copying a non-const optional constructed the value
 from its bool conversion

---
 include/cista/containers/optional.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/optional.h b/include/cista/containers/optional.h
index 0cc238f..62a3619 100644
--- a/include/cista/containers/optional.h
+++ b/include/cista/containers/optional.h
@@ -12,7 +12,10 @@ template <typename T>
 struct optional {
   optional() = default;
 
-  template <typename... Ts>
+  template <typename... Ts,
+            typename = std::enable_if_t<
+                !(sizeof...(Ts) == 1U &&
+                  (std::is_same_v<std::decay_t<Ts>, optional> && ...))>>
   optional(Ts&&... t) noexcept(std::is_nothrow_constructible_v<T, Ts...>) {
     new (&storage_[0]) T{std::forward<Ts>(t)...};
     valid_ = true;
-- 
2.43.0


From e795cc7ef287d843b6f5f37e3456bab0912b77d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 25/99] fix: comparison of optionals ignored the values

---
 include/cista/containers/optional.h | 32 +++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/include/cista/containers/optional.h b/include/cista/containers/optional.h
index 62a3619..5acfd4d 100644
--- a/include/cista/containers/optional.h
+++ b/include/cista/containers/optional.h
@@ -90,6 +90,38 @@ struct optional {
     return *reinterpret_cast<T const*>(&storage_[0]);
   }
 
+  friend bool operator==(optional const& a, optional const& b) {
+    return a.valid_ == b.valid_ && (!a.valid_ || *a == *b);
+  }
+  friend bool operator!=(optional const& a, optional const& b) {
+    return !(a == b);
+  }
+  friend bool operator<(optional const& a, optional const& b) {
+    return b.valid_ && (!a.valid_ || *a < *b);
+  }
+  friend bool operator>(optional const& a, optional const& b) { return b < a; }
+  friend bool operator<=(optional const& a, optional const& b) {
+    return !(b < a);
+  }
+  friend bool operator>=(optional const& a, optional const& b) {
+    return !(a < b);
+  }
+
+  friend bool operator==(optional const& a, T const& b) {
+    return a.valid_ && *a == b;
+  }
+  friend bool operator==(T const& a, optional const& b) { return b == a; }
+  friend bool operator!=(optional const& a, T const& b) { return !(a == b); }
+  friend bool operator!=(T const& a, optional const& b) { return !(b == a); }
+  friend bool operator==(optional const& a, std::nullopt_t) {
+    return !a.valid_;
+  }
+  friend bool operator==(std::nullopt_t, optional const& b) {
+    return !b.valid_;
+  }
+  friend bool operator!=(optional const& a, std::nullopt_t) { return a.valid_; }
+  friend bool operator!=(std::nullopt_t, optional const& b) { return b.valid_; }
+
   bool valid_{false};
   alignas(std::alignment_of_v<T>) unsigned char storage_[sizeof(T)];
 };
-- 
2.43.0


From a61246281b368e67f9fd6d3e57258a9aab10615e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 26/99] fix: cstrings were neither converted nor checked by
 deserialize

---
 include/cista/serialization.h | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 54baafc..404d0e4 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -879,6 +879,41 @@ void recurse(Ctx& c, basic_string_view<Ptr>* el, Fn&& fn) {
   recurse(c, static_cast<generic_string<Ptr>*>(el), fn);
 }
 
+// --- CSTRING ---
+template <typename Ctx, typename Ptr>
+void convert_endian_and_ptr(Ctx const& c, generic_cstring<Ptr>* el) {
+  if (!el->is_short()) {
+    deserialize(c, &el->h_.ptr_);
+    c.convert_endian(el->h_.size_);
+  }
+}
+
+template <typename Ctx, typename Ptr>
+void check_state(Ctx const& c, generic_cstring<Ptr>* el) {
+  using Type = generic_cstring<Ptr>;
+  if (el->is_short()) {
+    c.require(el->s_.remaining_ <=
+                  static_cast<std::int8_t>(Type::short_length_limit),
+              "cstring inline size");
+  } else {
+    c.check_ptr(el->h_.ptr_, static_cast<std::size_t>(el->h_.size_) + 1U);
+    c.check_bool(el->h_.self_allocated_);
+    c.require(!el->h_.self_allocated_, "cstring self-allocated");
+    c.require(el->h_.ptr_ != nullptr, "cstring ptr=0");
+  }
+  c.require(el->data()[el->size()] == '\0', "cstring terminator");
+}
+
+template <typename Ctx, typename Ptr>
+void convert_endian_and_ptr(Ctx const& c, basic_cstring<Ptr>* el) {
+  convert_endian_and_ptr(c, static_cast<generic_cstring<Ptr>*>(el));
+}
+
+template <typename Ctx, typename Ptr>
+void check_state(Ctx const& c, basic_cstring<Ptr>* el) {
+  check_state(c, static_cast<generic_cstring<Ptr>*>(el));
+}
+
 // --- UNIQUE_PTR<T> ---
 template <typename Ctx, typename T, typename Ptr>
 void convert_endian_and_ptr(Ctx const& c, basic_unique_ptr<T, Ptr>* el) {
-- 
2.43.0


From 96fd434bc983230d052fbbcfd2f523874f750bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:12 +0000
Subject: [PATCH 27/99] fix: deserialize accepted bools that are neither true
 nor false

---
 include/cista/serialization.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 404d0e4..7c51fd5 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -709,6 +709,8 @@ void check_state(Ctx const& c, T* el) {
   using Type = decay_t<T>;
   if constexpr (std::is_pointer_v<Type> && !std::is_same_v<Type, void*>) {
     c.check_ptr(*el);
+  } else if constexpr (std::is_same_v<Type, bool>) {
+    c.check_bool(*el);
   } else {
     CISTA_UNUSED_PARAM(c)
     CISTA_UNUSED_PARAM(el)
-- 
2.43.0


From 95ebc1493396eb026deff8b64b9456656531908d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:21 +0000
Subject: [PATCH 28/99] fix: deserialize accepted hash tables on which lookups
 do not end or leave the table

---
 include/cista/serialization.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 7c51fd5..542e496 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -985,20 +985,26 @@ void check_state(Ctx const& c,
       (el->entries_ == nullptr) == (el->capacity_ == 0U && el->size_ == 0U),
       "hash storage: entries=null <=> size=capacity=0");
 
+  c.require((el->capacity_ & (el->capacity_ + 1U)) == 0U,
+            "hash storage: capacity+1 must be a power of two");
+
   c.check_bool(el->self_allocated_);
   c.require(!el->self_allocated_, "hash storage: self-allocated");
 
   c.require(el->ctrl_[el->capacity_] == Type::END,
             "hash storage: end ctrl byte");
   c.require(std::all_of(ptr_cast(el->ctrl_),
-                        ptr_cast(el->ctrl_) + el->capacity_ + 1U + Type::WIDTH,
+                        ptr_cast(el->ctrl_) + el->capacity_,
                         [](typename Type::ctrl_t const ctrl) {
                           return Type::is_empty(ctrl) ||
-                                 Type::is_deleted(ctrl) ||
-                                 Type::is_full(ctrl) ||
-                                 ctrl == Type::ctrl_t::END;
+                                 Type::is_deleted(ctrl) || Type::is_full(ctrl);
                         }),
             "hash storage: ctrl bytes must be empty or deleted or full");
+  for (auto i = typename Type::size_type{0U}; i != Type::WIDTH; ++i) {
+    c.require(el->ctrl_[el->capacity_ + 1U + i] ==
+                  (i < el->capacity_ ? el->ctrl_[i] : Type::EMPTY),
+              "hash storage: cloned ctrl bytes");
+  }
 
   using st_t = typename Type::size_type;
   auto [total_empty, total_full, total_deleted, total_growth_left] =
@@ -1021,6 +1027,10 @@ void check_state(Ctx const& c,
   c.require(el->size_ == total_full, "hash storage: size");
   c.require(total_empty + total_full + total_deleted == el->capacity_,
             "hash storage: empty + full + deleted = capacity");
+  auto const growth = Type::capacity_to_growth(el->capacity_);
+  c.require(total_full + total_deleted <= growth &&
+                el->growth_left_ <= growth - total_full - total_deleted,
+            "hash storage: empty slots left");
   c.require(std::min(Type::capacity_to_growth(el->capacity_) - el->size_,
                      total_growth_left) <= el->growth_left_,
             "hash storage: growth left");
-- 
2.43.0


From e5b34cd6e00a6fb281c7af88fa2be221eddac62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:21 +0000
Subject: [PATCH 29/99] fix: deserialize did not end for data that owns itself

---
 include/cista/serialization.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 542e496..c32363c 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -635,6 +635,15 @@ struct deserialization_context {
     }
   }
 
+  // Everything a serialized object owns is written behind it. Data violating
+  // this could own itself.
+  template <typename Owner, typename T>
+  void check_owned(Owner const* owner, T* owned) const {
+    require(owned == nullptr || reinterpret_cast<intptr_t>(owned) >=
+                                    reinterpret_cast<intptr_t>(owner + 1),
+            "owned data is not behind its owner");
+  }
+
   static void check_bool(bool const& b) {
     auto const val = *reinterpret_cast<std::uint8_t const*>(&b);
     verify(val <= 1U, "valid bool");
@@ -806,6 +815,7 @@ void check_state(Ctx const& c,
   c.require(!el->self_allocated_, "vec self-allocated");
   c.require(el->allocated_size_ == el->used_size_, "vec size mismatch");
   c.require((el->size() == 0U) == (el->el_ == nullptr), "vec size=0 <=> ptr=0");
+  c.check_owned(el, ptr_cast(el->el_));
 }
 
 template <typename Ctx, typename T, template <typename> typename Ptr,
@@ -926,6 +936,7 @@ template <typename Ctx, typename T, typename Ptr>
 void check_state(Ctx const& c, basic_unique_ptr<T, Ptr>* el) {
   c.check_bool(el->self_allocated_);
   c.require(!el->self_allocated_, "unique_ptr self-allocated");
+  c.check_owned(el, ptr_cast(el->el_));
 }
 
 template <typename Ctx, typename T, typename Ptr, typename Fn>
@@ -985,6 +996,8 @@ void check_state(Ctx const& c,
       (el->entries_ == nullptr) == (el->capacity_ == 0U && el->size_ == 0U),
       "hash storage: entries=null <=> size=capacity=0");
 
+  c.check_owned(el, ptr_cast(el->entries_));
+  c.check_owned(el, ptr_cast(el->ctrl_));
   c.require((el->capacity_ & (el->capacity_ + 1U)) == 0U,
             "hash storage: capacity+1 must be a power of two");
 
-- 
2.43.0


From 4f5e5454ab3b2a5d2ce2a28dbf4e473af33ab7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:29 +0000
Subject: [PATCH 30/99] fix: deserialize accepted strings that refer to data in
 front of or within themselves

---
 include/cista/serialization.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index c32363c..28f5b09 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -846,6 +846,7 @@ void check_state(Ctx const& c, generic_string<Ptr>* el) {
     c.require(!el->h_.self_allocated_, "string self-allocated");
     c.require((el->h_.size_ == 0) == (el->h_.ptr_ == nullptr),
               "str size=0 <=> ptr=0");
+    c.check_owned(el, ptr_cast(el->h_.ptr_));
   }
 }
 
@@ -912,6 +913,7 @@ void check_state(Ctx const& c, generic_cstring<Ptr>* el) {
     c.check_bool(el->h_.self_allocated_);
     c.require(!el->h_.self_allocated_, "cstring self-allocated");
     c.require(el->h_.ptr_ != nullptr, "cstring ptr=0");
+    c.check_owned(el, ptr_cast(el->h_.ptr_));
   }
   c.require(el->data()[el->size()] == '\0', "cstring terminator");
 }
-- 
2.43.0


From 3c3c513ab7572e994c036c7c6ebba9ac1f5be13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 31/99] fix: big endian data contained enums and floating point
 numbers in native byte order

---
 include/cista/serialization.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 28f5b09..456e4eb 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -133,6 +133,13 @@ struct serialization_context {
   Target& t_;
 };
 
+// Scalars that are converted: integers, enumerations and floating point numbers
+// (except those that have no well defined byte order, such as long double).
+template <typename T>
+inline constexpr auto const is_endian_dependent_v =
+    std::numeric_limits<T>::is_integer || std::is_enum_v<T> ||
+    (std::is_floating_point_v<T> && sizeof(T) <= sizeof(std::uint64_t));
+
 template <typename Ctx, typename T>
 void serialize(Ctx& c, T const* origin, offset_t const pos) {
   using Type = decay_t<T>;
@@ -152,7 +159,7 @@ void serialize(Ctx& c, T const* origin, offset_t const pos) {
                                 reinterpret_cast<intptr_t>(origin));
       serialize(c, member, pos + member_offset);
     });
-  } else if constexpr (std::numeric_limits<Type>::is_integer) {
+  } else if constexpr (is_endian_dependent_v<Type>) {
     c.write(pos, convert_endian<Ctx::MODE>(*origin));
   } else {
     CISTA_UNUSED_PARAM(origin)
@@ -705,7 +712,7 @@ void convert_endian_and_ptr(Ctx const& c, T* el) {
   using Type = decay_t<T>;
   if constexpr (std::is_pointer_v<Type>) {
     c.deserialize_ptr(el);
-  } else if constexpr (std::numeric_limits<Type>::is_integer) {
+  } else if constexpr (is_endian_dependent_v<Type>) {
     c.convert_endian(*el);
   } else {
     CISTA_UNUSED_PARAM(c)
-- 
2.43.0


From 5ef75328efa976935bb792e18f61210f29f5bdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 32/99] fix: big endian data contained the size of bitvecs in
 native byte order

---
 include/cista/serialization.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 456e4eb..fbf75d7 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -406,6 +406,14 @@ void serialize(Ctx& c, bitset<Size> const* origin, offset_t const pos) {
   serialize(c, &origin->blocks_, pos);
 }
 
+template <typename Ctx, typename Vec, typename Key>
+void serialize(Ctx& c, basic_bitvec<Vec, Key> const* origin,
+               offset_t const pos) {
+  using Type = basic_bitvec<Vec, Key>;
+  serialize(c, &origin->size_, pos + cista_member_offset(Type, size_));
+  serialize(c, &origin->blocks_, pos + cista_member_offset(Type, blocks_));
+}
+
 template <typename Ctx, typename T, std::size_t Size>
 void serialize(Ctx& c, array<T, Size> const* origin, offset_t const pos) {
   auto const size =
@@ -1074,6 +1082,13 @@ void recurse(Ctx&, bitset<Size>* el, Fn&& fn) {
   fn(&el->blocks_);
 }
 
+// --- BITVEC ---
+template <typename Ctx, typename Vec, typename Key, typename Fn>
+void recurse(Ctx&, basic_bitvec<Vec, Key>* el, Fn&& fn) {
+  fn(&el->size_);
+  fn(&el->blocks_);
+}
+
 // --- ARRAY<T> ---
 template <typename Ctx, typename T, std::size_t Size, typename Fn>
 void recurse(Ctx&, array<T, Size>* el, Fn&& fn) {
-- 
2.43.0


From fb19681bc0dc00fc450a83dfe03f67144eb94865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 33/99] fix: big endian deserialization did not convert the
 index of large variants

---
 include/cista/serialization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index fbf75d7..25abf19 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -1098,7 +1098,7 @@ void recurse(Ctx&, array<T, Size>* el, Fn&& fn) {
 }
 
 // --- VARIANT<T...> ---
-template <typename Ctx, typename Fn, typename... T>
+template <typename Ctx, typename... T>
 void convert_endian_and_ptr(Ctx const& c, variant<T...>* el) {
   c.convert_endian(el->idx_);
 }
-- 
2.43.0


From 592b86316d0227b757ae2dbb0cace4e911b2b249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 34/99] fix: variants of 16 and more alternatives could not be
 visited

---
 include/cista/containers/variant.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/variant.h b/include/cista/containers/variant.h
index b035975..93839d4 100755
--- a/include/cista/containers/variant.h
+++ b/include/cista/containers/variant.h
@@ -323,8 +323,9 @@ struct variant {
         break;
     }
 
-    if constexpr (B + 15U < sizeof...(T)) {
-      return apply<F, B + 16U>(std::forward<F>(f), std::forward<Vs>(vs)...);
+    if constexpr (B + 16U < sizeof...(T)) {
+      return apply<F, B + 16U>(std::forward<F>(f), idx,
+                               std::forward<Vs>(vs)...);
     }
 
 #ifndef _MSC_VER
-- 
2.43.0


From 672f3cebac7cac429a10a717f17915a1d4112b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 35/99] fix: variant ignored assignments of lvalues and
 variants of the same alternative

---
 include/cista/containers/variant.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/cista/containers/variant.h b/include/cista/containers/variant.h
index 93839d4..43f7b43 100755
--- a/include/cista/containers/variant.h
+++ b/include/cista/containers/variant.h
@@ -108,15 +108,17 @@ struct variant {
   variant& operator=(Arg&& arg) {
     if (index_of_type<Arg, T...>() == idx_) {
       apply([&](auto&& el) {
-        if constexpr (std::is_same_v<std::decay_t<decltype(el)>, Arg>) {
-          el = std::move(arg);
+        if constexpr (std::is_same_v<std::decay_t<decltype(el)>,
+                                     std::decay_t<Arg>>) {
+          el = std::forward<Arg>(arg);
         }
       });
       return *this;
     }
     destruct();
-    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
+    idx_ = NO_VALUE;
     new (&storage_) std::decay_t<Arg>{std::forward<Arg>(arg)};
+    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
     return *this;
   }
 #if _MSVC_LANG >= 202002L || __cplusplus >= 202002L
-- 
2.43.0


From ebd9fd973401634eede740400fef02425bdc315b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 36/99] fix: unique_ptr self move, move from an owned source
 and reset of foreign objects

---
 include/cista/containers/unique_ptr.h | 31 ++++++++++++++++++---------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/include/cista/containers/unique_ptr.h b/include/cista/containers/unique_ptr.h
index c490a6b..4086c42 100644
--- a/include/cista/containers/unique_ptr.h
+++ b/include/cista/containers/unique_ptr.h
@@ -28,11 +28,16 @@ struct basic_unique_ptr {
   }
 
   basic_unique_ptr& operator=(basic_unique_ptr&& o) noexcept {
-    reset();
-    el_ = o.el_;
-    self_allocated_ = o.self_allocated_;
-    o.el_ = nullptr;
-    o.self_allocated_ = false;
+    if (this != &o) {
+      // Take over first, o may be owned by the object this pointer owns.
+      auto const el = o.get();
+      auto const self_allocated = o.self_allocated_;
+      o.el_ = nullptr;
+      o.self_allocated_ = false;
+      reset();
+      el_ = el;
+      self_allocated_ = self_allocated;
+    }
     return *this;
   }
 
@@ -42,13 +47,19 @@ struct basic_unique_ptr {
     return *this;
   }
 
-  ~basic_unique_ptr() { reset(); }
+  ~basic_unique_ptr() {
+    if (self_allocated_) {
+      reset();
+    }
+  }
 
   void reset() {
-    if (self_allocated_ && el_ != nullptr) {
-      delete el_;
-      el_ = nullptr;
-      self_allocated_ = false;
+    auto const el = get();
+    auto const self_allocated = self_allocated_;
+    el_ = nullptr;
+    self_allocated_ = false;
+    if (self_allocated) {
+      delete el;
     }
   }
 
-- 
2.43.0


From 4a9dfde56980267a93919950ea3389dae1a88082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 37/99] fix: flat_matrix rows could not be iterated, cell count
 overflow was not reported

---
 include/cista/containers/flat_matrix.h | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/include/cista/containers/flat_matrix.h b/include/cista/containers/flat_matrix.h
index 411a062..f578a83 100644
--- a/include/cista/containers/flat_matrix.h
+++ b/include/cista/containers/flat_matrix.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <cinttypes>
+#include <limits>
 
 #include "cista/containers/vector.h"
 
@@ -18,16 +19,16 @@ struct base_flat_matrix {
     using const_iterator = typename Vector::const_iterator;
 
     const_iterator begin() const {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * i_);
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * i_);
     }
     const_iterator end() const {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * (i_ + 1));
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * (i_ + 1));
     }
     iterator begin() {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * i_);
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * i_);
     }
     iterator end() {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * (i_ + 1));
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * (i_ + 1));
     }
     friend const_iterator begin(row const& r) { return r.begin(); }
     friend const_iterator end(row const& r) { return r.end(); }
@@ -51,10 +52,10 @@ struct base_flat_matrix {
     using iterator = typename Vector::const_iterator;
 
     iterator begin() const {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * i_);
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * i_);
     }
     iterator end() const {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * (i_ + 1));
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * (i_ + 1));
     }
     friend iterator begin(const_row const& r) { return r.begin(); }
     friend iterator end(const_row const& r) { return r.end(); }
@@ -94,9 +95,12 @@ struct base_flat_matrix {
   }
 
   void resize(size_type const n_rows, size_t const n_columns) {
+    verify(n_columns == 0U ||
+               n_rows <= std::numeric_limits<size_type>::max() / n_columns,
+           "matrix::resize: too many cells");
+    entries_.resize(static_cast<size_type>(n_rows * n_columns));
     n_rows_ = n_rows;
-    n_columns_ = n_columns;
-    entries_.resize(n_rows * n_columns);
+    n_columns_ = static_cast<size_type>(n_columns);
   }
 
   void reset(value_type const& t) {
@@ -116,6 +120,9 @@ template <typename T>
 inline flat_matrix<T> make_flat_matrix(std::uint32_t const n_rows,
                                        std::uint32_t const n_columns,
                                        T const& init = T{}) {
+  verify(n_columns == 0U ||
+             n_rows <= std::numeric_limits<std::uint32_t>::max() / n_columns,
+         "make_flat_matrix: too many cells");
   auto v = vector<T>{};
   v.resize(n_rows * n_columns, init);
   return {n_rows, n_columns, std::move(v)};
@@ -132,6 +139,9 @@ template <typename T>
 inline flat_matrix<T> make_flat_matrix(std::uint32_t const n_rows,
                                        std::uint32_t const n_columns,
                                        T const& init = T{}) {
+  verify(n_columns == 0U ||
+             n_rows <= std::numeric_limits<std::uint32_t>::max() / n_columns,
+         "make_flat_matrix: too many cells");
   auto v = vector<T>{};
   v.resize(n_rows * n_columns, init);
   return {n_rows, n_columns, std::move(v)};
-- 
2.43.0


From 6e89af448fdb3fcf9ab6e7fde0cc5d839160c238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:36 +0000
Subject: [PATCH 38/99] fix: variants without value could not be copied,
 assigned, compared or swapped

---
 include/cista/containers/variant.h | 52 +++++++++++++++++++++++++++---
 1 file changed, 48 insertions(+), 4 deletions(-)

diff --git a/include/cista/containers/variant.h b/include/cista/containers/variant.h
index 43f7b43..c2267f1 100755
--- a/include/cista/containers/variant.h
+++ b/include/cista/containers/variant.h
@@ -82,12 +82,18 @@ struct variant {
   }
 
   variant(variant const& o) : idx_{o.idx_} {
+    if (!o.valid()) {
+      return;
+    }
     o.apply([this](auto&& el) {
       using Type = std::decay_t<decltype(el)>;
       new (&storage_) Type(std::forward<decltype(el)>(el));
     });
   }
   variant(variant&& o) : idx_{o.idx_} {
+    if (!o.valid()) {
+      return;
+    }
     o.apply([this](auto&& el) {
       using Type = std::decay_t<decltype(el)>;
       new (&storage_) Type(std::move(el));
@@ -95,9 +101,19 @@ struct variant {
   }
 
   variant& operator=(variant const& o) {
+    if (!o.valid()) {
+      destruct();
+      idx_ = NO_VALUE;
+      return *this;
+    }
     return o.apply([&](auto&& el) -> variant& { return *this = el; });
   }
   variant& operator=(variant&& o) {
+    if (!o.valid()) {
+      destruct();
+      idx_ = NO_VALUE;
+      return *this;
+    }
     return o.apply(
         [&](auto&& el) -> variant& { return *this = std::move(el); });
   }
@@ -133,6 +149,9 @@ struct variant {
   constexpr operator bool() const noexcept { return valid(); }
 
   friend bool operator==(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return true;
+    }
     return a.idx_ == b.idx_
                ? apply([](auto&& u, auto&& v) -> bool { return u == v; },
                        a.idx_, a, b)
@@ -140,6 +159,9 @@ struct variant {
   }
 
   friend bool operator!=(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return false;
+    }
     return a.idx_ == b.idx_
                ? apply([](auto&& u, auto&& v) -> bool { return u != v; },
                        a.idx_, a, b)
@@ -147,6 +169,9 @@ struct variant {
   }
 
   friend bool operator<(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return false;
+    }
     return a.idx_ == b.idx_
                ? apply([](auto&& u, auto&& v) -> bool { return u < v; }, a.idx_,
                        a, b)
@@ -154,6 +179,9 @@ struct variant {
   }
 
   friend bool operator>(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return false;
+    }
     return a.idx_ == b.idx_
                ? apply([](auto&& u, auto&& v) -> bool { return u > v; }, a.idx_,
                        a, b)
@@ -161,6 +189,9 @@ struct variant {
   }
 
   friend bool operator<=(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return true;
+    }
     return a.idx_ == b.idx_
                ? apply([](auto&& u, auto&& v) -> bool { return u <= v; },
                        a.idx_, a, b)
@@ -168,6 +199,9 @@ struct variant {
   }
 
   friend bool operator>=(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return true;
+    }
     return a.idx_ == b.idx_
                ? apply([](auto&& u, auto&& v) -> bool { return u >= v; },
                        a.idx_, a, b)
@@ -178,23 +212,30 @@ struct variant {
   Arg& emplace(CtorArgs&&... ctor_args) {
     static_assert(index_of_type<Arg, T...>() != TYPE_NOT_FOUND);
     destruct();
+    idx_ = NO_VALUE;
+    auto& el = *(new (&storage_)
+                     std::decay_t<Arg>{std::forward<CtorArgs>(ctor_args)...});
     idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
-    return *(new (&storage_)
-                 std::decay_t<Arg>{std::forward<CtorArgs>(ctor_args)...});
+    return el;
   }
 
   template <std::size_t I, typename... CtorArgs>
   type_at_index_t<I, T...>& emplace(CtorArgs&&... ctor_args) {
     static_assert(I < sizeof...(T));
     destruct();
-    idx_ = I;
-    return *(new (&storage_) std::decay_t<type_at_index_t<I, T...>>{
+    idx_ = NO_VALUE;
+    auto& el = *(new (&storage_) std::decay_t<type_at_index_t<I, T...>>{
         std::forward<CtorArgs>(ctor_args)...});
+    idx_ = I;
+    return el;
   }
 
   constexpr std::size_t index() const noexcept { return idx_; }
 
   void swap(variant& o) {
+    if (!valid() && !o.valid()) {
+      return;
+    }
     if (idx_ == o.idx_) {
       apply(
           [](auto&& a, auto&& b) {
@@ -348,6 +389,9 @@ struct variant {
   }
 
   hash_t hash() const noexcept {
+    if (!valid()) {
+      return hashing<std::size_t>{}(index(), BASE_HASH);
+    }
     return apply([&](auto&& val) {
       auto const idx = index();
       auto h = hashing<decltype(idx)>{}(idx, BASE_HASH);
-- 
2.43.0


From 53619209610bde08973760b331ccd55da8623332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:40 +0000
Subject: [PATCH 39/99] fix: equal bitsets, bitvecs and hash containers could
 differ under equal_to and hashing

---
 include/cista/containers/bitset.h       | 11 +++++++++
 include/cista/containers/bitvec.h       | 14 +++++++++++
 include/cista/containers/hash_storage.h | 31 +++++++++++++++++++++++++
 include/cista/equal_to.h                | 14 ++++++++++-
 4 files changed, 69 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/bitset.h b/include/cista/containers/bitset.h
index bb0447a..b8d3d18 100644
--- a/include/cista/containers/bitset.h
+++ b/include/cista/containers/bitset.h
@@ -12,6 +12,7 @@
 
 #include "cista/bit_counting.h"
 #include "cista/containers/array.h"
+#include "cista/hash.h"
 
 namespace cista {
 
@@ -130,6 +131,16 @@ struct bitset {
     return a.sanitized_last_block() == b.sanitized_last_block();
   }
 
+  bool cista_equal(bitset const& b) const noexcept { return *this == b; }
+
+  hash_t hash() const noexcept {
+    auto h = BASE_HASH;
+    for (std::size_t i = 0U; i != num_blocks - 1U; ++i) {
+      h = hash_combine(h, blocks_[i]);
+    }
+    return hash_combine(h, sanitized_last_block());
+  }
+
   friend bool operator<(bitset const& a, bitset const& b) noexcept {
     auto const a_last = a.sanitized_last_block();
     auto const b_last = b.sanitized_last_block();
diff --git a/include/cista/containers/bitvec.h b/include/cista/containers/bitvec.h
index afd9ca8..c7865c6 100644
--- a/include/cista/containers/bitvec.h
+++ b/include/cista/containers/bitvec.h
@@ -15,6 +15,7 @@
 #include "cista/atomic.h"
 #include "cista/bit_counting.h"
 #include "cista/containers/vector.h"
+#include "cista/hash.h"
 #include "cista/strong.h"
 
 namespace cista {
@@ -285,6 +286,19 @@ struct basic_bitvec {
     return a.sanitized_last_block() == b.sanitized_last_block();
   }
 
+  bool cista_equal(basic_bitvec const& b) const noexcept { return *this == b; }
+
+  hash_t hash() const noexcept {
+    auto h = hash_combine(BASE_HASH, size_);
+    if (empty()) {
+      return h;
+    }
+    for (auto i = size_type{0U}; i != blocks_.size() - 1; ++i) {
+      h = hash_combine(h, blocks_[i]);
+    }
+    return hash_combine(h, sanitized_last_block());
+  }
+
   friend bool operator<(basic_bitvec const& a, basic_bitvec const& b) noexcept {
     assert(a.size() == b.size());
     if (a.empty() && b.empty()) {
diff --git a/include/cista/containers/hash_storage.h b/include/cista/containers/hash_storage.h
index 87482ec..ee4f528 100644
--- a/include/cista/containers/hash_storage.h
+++ b/include/cista/containers/hash_storage.h
@@ -17,6 +17,12 @@
 
 namespace cista {
 
+template <typename T>
+struct equal_to;
+
+template <typename T>
+struct hashing;
+
 // This class is a generic hash-based container.
 // It can be used e.g. as hash set or hash map.
 //   - hash map: `T` = `std::pair<Key, Value>`, GetKey = `return entry.first;`
@@ -677,6 +683,31 @@ struct hash_storage {
     return true;
   }
 
+  // Neither equality nor hash depend on the order of the entries in the table.
+  bool cista_equal(hash_storage const& b) const {
+    if (size() != b.size()) {
+      return false;
+    }
+    for (auto const& el : *this) {
+      auto const it = b.find(GetKey()(el));
+      if (it == b.end() ||
+          !equal_to<decay_t<decltype(GetValue()(el))>>{}(GetValue()(el),
+                                                         GetValue()(*it))) {
+        return false;
+      }
+    }
+    return true;
+  }
+
+  hash_t hash() const {
+    auto sum = hash_t{0U};
+    for (auto const& el : *this) {
+      auto const h = static_cast<hash_t>(Hash{}(GetKey()(el)));
+      sum += hashing<decay_t<decltype(GetValue()(el))>>{}(GetValue()(el), h);
+    }
+    return hash_combine(BASE_HASH, size_, sum);
+  }
+
   Ptr<T> entries_{nullptr};
   Ptr<ctrl_t> ctrl_{empty_group()};
   size_type size_{0U}, capacity_{0U}, growth_left_{0U};
diff --git a/include/cista/equal_to.h b/include/cista/equal_to.h
index b8210ef..e5c5858 100644
--- a/include/cista/equal_to.h
+++ b/include/cista/equal_to.h
@@ -38,6 +38,16 @@ struct is_eq_comparable<
     A, B, std::void_t<decltype(std::declval<A>() == std::declval<B>())>>
     : std::true_type {};
 
+// Types whose equality is neither the equality of their members nor of their
+// elements in iteration order provide `cista_equal` (counterpart of `hash`).
+template <typename T, typename = void>
+struct has_cista_equal : std::false_type {};
+
+template <typename T>
+struct has_cista_equal<
+    T, std::void_t<decltype(std::declval<T const&>().cista_equal(
+           std::declval<T const&>()))>> : std::true_type {};
+
 template <typename A, typename B>
 constexpr bool is_eq_comparable_v = is_eq_comparable<A, B>::value;
 
@@ -50,7 +60,9 @@ struct equal_to {
   constexpr bool operator()(T const& a, T1 const& b) const {
     using Type = decay_t<T>;
     using Type1 = decay_t<T1>;
-    if constexpr (is_iterable_v<Type> && is_iterable_v<Type1>) {
+    if constexpr (std::is_same_v<Type, Type1> && has_cista_equal<Type>::value) {
+      return a.cista_equal(b);
+    } else if constexpr (is_iterable_v<Type> && is_iterable_v<Type1>) {
       using std::begin;
       using std::end;
       auto const eq = std::equal(
-- 
2.43.0


From b921e6aea4a017df8c826340cd87ea4ef1168808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:24 +0000
Subject: [PATCH 40/99] fix: cast deserialization ignored the headers in front
 of the object

---
 include/cista/serialization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 25abf19..cdcd9c9 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -1150,7 +1150,7 @@ template <typename T, mode const Mode = mode::NONE>
 T* deserialize(std::uint8_t* from, std::uint8_t* to = nullptr) {
   if constexpr (is_mode_enabled(Mode, mode::CAST)) {
     CISTA_UNUSED_PARAM(to)
-    return reinterpret_cast<T*>(from);
+    return reinterpret_cast<T*>(from + data_start(Mode));
   } else {
     check<T, Mode>(from, to);
     auto const el = reinterpret_cast<T*>(from + data_start(Mode));
-- 
2.43.0


From bf45c39246d5b76efdb464ebdc5590f3f30617eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:24 +0000
Subject: [PATCH 41/99] fix: alignment within buffers depended on the address
 of the buffer

---
 include/cista/targets/buf.h | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/include/cista/targets/buf.h b/include/cista/targets/buf.h
index 3a37a89..d58a54c 100644
--- a/include/cista/targets/buf.h
+++ b/include/cista/targets/buf.h
@@ -39,15 +39,10 @@ struct buf {
   offset_t write(void const* ptr, std::size_t const num_bytes,
                  std::size_t alignment = 0U) {
     auto start = static_cast<offset_t>(size());
-    if (alignment > 1U && buf_.size() != 0U) {
-      auto unaligned_ptr = static_cast<void*>(addr(start));
-      auto space = std::numeric_limits<std::size_t>::max();
-      auto const aligned_ptr =
-          std::align(alignment, num_bytes, unaligned_ptr, space);
-      auto const new_offset = static_cast<offset_t>(
-          aligned_ptr ? static_cast<std::uint8_t*>(aligned_ptr) - base() : 0U);
-      auto const adjustment = static_cast<offset_t>(new_offset - start);
-      start += adjustment;
+    if (alignment > 1U) {
+      // Relative to the start of the buffer - not to where it is stored now.
+      start = static_cast<offset_t>((size() + alignment - 1U) / alignment *
+                                    alignment);
     }
 
     auto const space_left =
-- 
2.43.0


From bec14c6ee058ed0cdaad854740ea0723afadef6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:24 +0000
Subject: [PATCH 42/99] fix: root objects with alignment above 8 could not be
 read back with one header

---
 include/cista/serialization.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index cdcd9c9..cc7ff6d 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -494,6 +494,13 @@ constexpr offset_t data_start(mode const m) noexcept {
   return start;
 }
 
+template <typename T>
+constexpr offset_t root_start(mode const m) noexcept {
+  constexpr auto const alignment =
+      static_cast<offset_t>(std::alignment_of_v<decay_t<T>>);
+  return (data_start(m) + alignment - 1) / alignment * alignment;
+}
+
 template <mode const Mode = mode::NONE, typename Target, typename T>
 void serialize(Target& t, T& value) {
   serialization_context<Target, Mode> c{t};
@@ -1150,10 +1157,10 @@ template <typename T, mode const Mode = mode::NONE>
 T* deserialize(std::uint8_t* from, std::uint8_t* to = nullptr) {
   if constexpr (is_mode_enabled(Mode, mode::CAST)) {
     CISTA_UNUSED_PARAM(to)
-    return reinterpret_cast<T*>(from + data_start(Mode));
+    return reinterpret_cast<T*>(from + root_start<T>(Mode));
   } else {
     check<T, Mode>(from, to);
-    auto const el = reinterpret_cast<T*>(from + data_start(Mode));
+    auto const el = reinterpret_cast<T*>(from + root_start<T>(Mode));
 
     deserialization_context<Mode> c{from, to};
     deserialize(c, el);
-- 
2.43.0


From 912683a5bcd79d2abffeb11b3b80fe968e119051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:01 +0000
Subject: [PATCH 43/99] fix: bucket iterator differences were wrong for end
 before begin

---
 include/cista/containers/nvec.h   | 6 ++++--
 include/cista/containers/vecvec.h | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/cista/containers/nvec.h b/include/cista/containers/nvec.h
index e7a8c3f..e825829 100644
--- a/include/cista/containers/nvec.h
+++ b/include/cista/containers/nvec.h
@@ -111,7 +111,8 @@ struct const_bucket final {
                                    const_bucket const& b) {
     assert(a.data_ == b.data_);
     assert(a.index_ == b.index_);
-    return a.i_ - b.i_;
+    return static_cast<difference_type>(a.i_) -
+           static_cast<difference_type>(b.i_);
   }
 
 private:
@@ -247,7 +248,8 @@ struct bucket final {
   friend difference_type operator-(bucket const& a, bucket const& b) {
     assert(a.data_ == b.data_);
     assert(a.index_ == b.index_);
-    return a.i_ - b.i_;
+    return static_cast<difference_type>(a.i_) -
+           static_cast<difference_type>(b.i_);
   }
 
 private:
diff --git a/include/cista/containers/vecvec.h b/include/cista/containers/vecvec.h
index 3abc087..b2ef0af 100644
--- a/include/cista/containers/vecvec.h
+++ b/include/cista/containers/vecvec.h
@@ -170,7 +170,8 @@ struct basic_vecvec {
     CISTA_CUDA_COMPAT friend difference_type operator-(bucket const& a,
                                                        bucket const& b) {
       assert(a.map_ == b.map_);
-      return a.i_ - b.i_;
+      return static_cast<difference_type>(a.i_) -
+             static_cast<difference_type>(b.i_);
     }
 
   private:
@@ -304,7 +305,8 @@ struct basic_vecvec {
     friend CISTA_CUDA_COMPAT difference_type operator-(const_bucket const& a,
                                                        const_bucket const& b) {
       assert(a.map_ == b.map_);
-      return a.i_ - b.i_;
+      return static_cast<difference_type>(a.i_) -
+             static_cast<difference_type>(b.i_);
     }
 
   private:
-- 
2.43.0


From 9af9cb741ce4f44b1b180e13ad4bb961b0a51d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:01 +0000
Subject: [PATCH 44/99] fix: fws_multimap iterator minus n moved forward,
 subscript did not compile

---
 include/cista/containers/fws_multimap.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/fws_multimap.h b/include/cista/containers/fws_multimap.h
index 566e108..e4b88e2 100644
--- a/include/cista/containers/fws_multimap.h
+++ b/include/cista/containers/fws_multimap.h
@@ -91,14 +91,16 @@ struct fws_multimap_iterator {
   }
 
   fws_multimap_iterator operator-(int const n) const {
-    return {map_, index_ + static_cast<index_t>(n)};
+    return {map_, index_ - static_cast<index_t>(n)};
   }
 
   int operator-(fws_multimap_iterator const& o) const {
     return index_ - o.index_;
   }
 
-  value_type& operator[](int const n) const { return {map_, index_ + n}; }
+  value_type operator[](int const n) const {
+    return map_[index_ + static_cast<index_t>(n)];
+  }
 
   bool operator<(fws_multimap_iterator const& o) const {
     return index_ < o.index_;
-- 
2.43.0


From 462fdc49a83646cf0852b538042fe1ec5e8febfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:01 +0000
Subject: [PATCH 45/99] fix: iterating an empty unfinished fws_multimap left
 its bounds

---
 include/cista/containers/fws_multimap.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/fws_multimap.h b/include/cista/containers/fws_multimap.h
index e4b88e2..c70eb5f 100644
--- a/include/cista/containers/fws_multimap.h
+++ b/include/cista/containers/fws_multimap.h
@@ -184,7 +184,9 @@ struct fws_multimap {
   }
 
   iterator begin() const { return {*this, 0}; }
-  iterator end() const { return {*this, index_.size() - 1}; }
+  iterator end() const {
+    return {*this, index_.empty() ? 0 : index_.size() - 1};
+  }
 
   iterator cbegin() const { return begin(); }
   iterator cend() const { return end(); }
-- 
2.43.0


From 5d794d48cd02ac0fa8ad358e862243b7e5858949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:01 +0000
Subject: [PATCH 46/99] fix: bucket iterators of mutable_fws_multimap moved
 forward on decrement

---
 include/cista/containers/mutable_fws_multimap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/containers/mutable_fws_multimap.h b/include/cista/containers/mutable_fws_multimap.h
index 1713ce0..e8545eb 100644
--- a/include/cista/containers/mutable_fws_multimap.h
+++ b/include/cista/containers/mutable_fws_multimap.h
@@ -318,7 +318,7 @@ struct dynamic_fws_multimap_base {
     }
 
     bucket_iterator& operator--() {
-      ++index_;
+      --index_;
       return *this;
     }
 
-- 
2.43.0


From 335ca8d537a75a4cd14d0b838a3dda22f387f573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:20 +0000
Subject: [PATCH 47/99] fix: erasing a bucket of mutable_fws_multimap did not
 change the element count

---
 include/cista/containers/mutable_fws_multimap.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cista/containers/mutable_fws_multimap.h b/include/cista/containers/mutable_fws_multimap.h
index e8545eb..3957770 100644
--- a/include/cista/containers/mutable_fws_multimap.h
+++ b/include/cista/containers/mutable_fws_multimap.h
@@ -431,6 +431,7 @@ struct dynamic_fws_multimap_base {
 
   void erase(access_t const i) {
     if (to_idx(i) < index_.size()) {
+      element_count_ -= index_[to_idx(i)].size_;
       release_bucket(index_[to_idx(i)]);
     }
   }
-- 
2.43.0


From 734ee32c51f01a26c7bf29893fd575c279b9de92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:20 +0000
Subject: [PATCH 48/99] fix: mutable_fws_multimap subscript with the largest
 key dropped the index

---
 include/cista/containers/mutable_fws_multimap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cista/containers/mutable_fws_multimap.h b/include/cista/containers/mutable_fws_multimap.h
index 3957770..783e503 100644
--- a/include/cista/containers/mutable_fws_multimap.h
+++ b/include/cista/containers/mutable_fws_multimap.h
@@ -386,6 +386,8 @@ struct dynamic_fws_multimap_base {
 
   mutable_bucket operator[](access_t index) {
     if (index >= index_.size()) {
+      verify(index != std::numeric_limits<size_type>::max(),
+             "mutable_fws_multimap::operator[]: type bound");
       index_.resize(to_idx(index) + 1U);
     }
     return {*this, to_idx(index)};
-- 
2.43.0


From 5c0dbdb9fd053f6b311ccd35039d7828e0f78db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:21 +0000
Subject: [PATCH 49/99] fix: appending or inserting own elements of
 mutable_fws_multimap read stale memory

---
 include/cista/containers/mutable_fws_multimap.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/cista/containers/mutable_fws_multimap.h b/include/cista/containers/mutable_fws_multimap.h
index 783e503..796b044 100644
--- a/include/cista/containers/mutable_fws_multimap.h
+++ b/include/cista/containers/mutable_fws_multimap.h
@@ -145,15 +145,17 @@ struct dynamic_fws_multimap_base {
 
     template <bool IsConst = Const, typename = std::enable_if_t<!IsConst>>
     iterator insert(iterator it, value_type const& val) {
+      auto const copy = val;  // val can be part of this bucket
       auto insert_it = prepare_insert(it);
-      *insert_it = val;
+      *insert_it = copy;
       return insert_it;
     }
 
     template <bool IsConst = Const, typename = std::enable_if_t<!IsConst>>
     iterator insert(iterator it, value_type&& val) {
+      auto value = std::move(val);  // val can be part of this bucket
       auto insert_it = prepare_insert(it);
-      *insert_it = std::move(val);
+      *insert_it = std::move(value);
       return insert_it;
     }
 
@@ -603,8 +605,9 @@ struct dynamic_fws_multimap_base {
   }
 
   size_type push_back_entry(size_type const map_index, value_type const& val) {
+    auto const copy = val;  // val can be part of data_
     auto const data_index = insert_new_entry(map_index);
-    data_[data_index] = val;
+    data_[data_index] = copy;
     ++element_count_;
     return data_index;
   }
@@ -612,8 +615,9 @@ struct dynamic_fws_multimap_base {
   template <typename... Args>
   size_type emplace_back_entry(size_type const i, Args&&... args) {
     auto const map_index = to_idx(i);
+    auto value = value_type{std::forward<Args>(args)...};
     auto const data_index = insert_new_entry(map_index);
-    data_[data_index] = value_type{std::forward<Args>(args)...};
+    data_[data_index] = std::move(value);
     ++element_count_;
     return data_index;
   }
-- 
2.43.0


From 8d83643e8d1d4e0c017571038e61ecb13702e30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:21 +0000
Subject: [PATCH 50/99] fix: rtree path hints overflowed for trees above 16
 levels

---
 include/cista/containers/rtree.h | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/cista/containers/rtree.h b/include/cista/containers/rtree.h
index de74b0b..a0598e2 100644
--- a/include/cista/containers/rtree.h
+++ b/include/cista/containers/rtree.h
@@ -380,7 +380,7 @@ struct basic_rtree {
 
   std::uint32_t node_choose(node const& search_node, rect const& search_rect,
                             std::uint32_t const depth) {
-    auto const h = m_.path_hint_[depth];
+    auto const h = get_path_hint(depth);
     if (h < search_node.count_) {
       if (search_node.rects_[h].contains(search_rect)) {
         return h;
@@ -390,17 +390,28 @@ struct basic_rtree {
     // Take a quick look for the first node that contain the rect.
     for (auto i = 0U; i != search_node.count_; ++i) {
       if (search_node.rects_[i].contains(search_rect)) {
-        m_.path_hint_[depth] = i;
+        set_path_hint(depth, i);
         return i;
       }
     }
 
     // Fallback to using che "choose least enlargment" algorithm.
     auto const i = search_node.choose_least_enlargement(search_rect);
-    m_.path_hint_[depth] = i;
+    set_path_hint(depth, i);
     return i;
   }
 
+  // There are no hints for the levels of very high trees.
+  std::uint32_t get_path_hint(std::uint32_t const depth) const {
+    return depth < m_.path_hint_.size() ? m_.path_hint_[depth] : 0U;
+  }
+
+  void set_path_hint(std::uint32_t const depth, std::uint32_t const i) {
+    if (depth < m_.path_hint_.size()) {
+      m_.path_hint_[depth] = i;
+    }
+  }
+
   node& get_node(node_idx_t const node_id) { return nodes_[node_id]; }
   node const& get_node(node_idx_t const node_id) const {
     return nodes_[node_id];
@@ -502,7 +513,7 @@ struct basic_rtree {
       return;
     }
 
-    auto h = m_.path_hint_[depth];
+    auto h = get_path_hint(depth);
     auto crect = rect{};
     if (h < delete_node.count_) {
       if (delete_node.rects_[h].contains(input_rect)) {
@@ -537,7 +548,7 @@ struct basic_rtree {
         shrunk = true;
         return;
       }
-      m_.path_hint_[depth] = h;
+      set_path_hint(depth, h);
       if (shrunk) {
         shrunk = !delete_node.rects_[h].equals(crect);
         if (shrunk) {
-- 
2.43.0


From 09b0bb05348e793efa77cad4dc93ef80a06ebcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:49 +0000
Subject: [PATCH 51/99] fix: paged_vecvec const_bucket::at did not compile

---
 include/cista/containers/paged_vecvec.h | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/include/cista/containers/paged_vecvec.h b/include/cista/containers/paged_vecvec.h
index 4c8a98d..863256a 100644
--- a/include/cista/containers/paged_vecvec.h
+++ b/include/cista/containers/paged_vecvec.h
@@ -50,11 +50,6 @@ struct paged_vecvec {
       return *(begin() + i);
     }
 
-    value_type& at(std::size_t const i) {
-      verify(i < size(), "paged_vecvec: const_bucket::at: index out of range");
-      return *(begin() + i);
-    }
-
     value_type const& front() const {
       assert(!empty());
       return (*this)[0];
-- 
2.43.0


From 868509c37225f40465057109f4c4d7271fe465a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:49 +0000
Subject: [PATCH 52/99] fix: appending an own element of paged_vecvec read
 stale memory

---
 include/cista/containers/paged_vecvec.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/paged_vecvec.h b/include/cista/containers/paged_vecvec.h
index 863256a..9885c4f 100644
--- a/include/cista/containers/paged_vecvec.h
+++ b/include/cista/containers/paged_vecvec.h
@@ -151,9 +151,10 @@ struct paged_vecvec {
     }
 
     void push_back(data_value_type const& x) {
+      auto const el = x;  // x can be part of a page
       auto& p = pv_->page(i_);
       p = pv_->paged_.resize_page(p, p.size_ + 1U);
-      (*this)[size() - 1U] = x;
+      (*this)[size() - 1U] = el;
     }
 
     template <typename Arg>
-- 
2.43.0


From 4781c46c0e29428f3e539f8274c7945a2202a16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:49 +0000
Subject: [PATCH 53/99] fix: paged_vecvec insert returned the position after
 the new element

---
 include/cista/containers/paged_vecvec.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/paged_vecvec.h b/include/cista/containers/paged_vecvec.h
index 9885c4f..deafcc7 100644
--- a/include/cista/containers/paged_vecvec.h
+++ b/include/cista/containers/paged_vecvec.h
@@ -162,7 +162,8 @@ struct paged_vecvec {
       auto const old_offset = std::distance(begin(), it);
       auto const old_size = size();
       push_back(data_value_type{el});
-      return std::rotate(begin() + old_offset, begin() + old_size, end());
+      std::rotate(begin() + old_offset, begin() + old_size, end());
+      return begin() + old_offset;
     }
 
     template <typename T = std::decay_t<data_value_type>,
-- 
2.43.0


From 3fedd163e5c87c9739016caac027c56fa2f1f1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:49 +0000
Subject: [PATCH 54/99] fix: begin of an empty paged_vecvec threw

---
 include/cista/containers/paged_vecvec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/paged_vecvec.h b/include/cista/containers/paged_vecvec.h
index deafcc7..3229ed2 100644
--- a/include/cista/containers/paged_vecvec.h
+++ b/include/cista/containers/paged_vecvec.h
@@ -294,9 +294,9 @@ struct paged_vecvec {
   base_t<Key> size() const { return idx_.size(); }
   bool empty() const { return idx_.empty(); }
 
-  bucket begin() { return front(); }
+  bucket begin() { return operator[](Key{0}); }
   bucket end() { return operator[](Key{size()}); }
-  const_bucket begin() const { return front(); }
+  const_bucket begin() const { return operator[](Key{0}); }
   const_bucket end() const { return operator[](Key{size()}); }
 
   friend bucket begin(paged_vecvec& m) { return m.begin(); }
-- 
2.43.0


From 5055eaea8fb866781dc5ca736a8f0672966af09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:49 +0000
Subject: [PATCH 55/99] fix: paged_vecvec iterator differences were wrong for
 end before begin and did not compile for strong keys

---
 include/cista/containers/paged_vecvec.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/paged_vecvec.h b/include/cista/containers/paged_vecvec.h
index 3229ed2..694b8bd 100644
--- a/include/cista/containers/paged_vecvec.h
+++ b/include/cista/containers/paged_vecvec.h
@@ -105,7 +105,8 @@ struct paged_vecvec {
     friend difference_type operator-(const_bucket const& a,
                                      const_bucket const& b) {
       assert(a.pv_ == b.pv_);
-      return a.i_ - b.i_;
+      return static_cast<difference_type>(to_idx(a.i_)) -
+             static_cast<difference_type>(to_idx(b.i_));
     }
 
   private:
@@ -247,7 +248,8 @@ struct paged_vecvec {
     }
     friend difference_type operator-(bucket const& a, bucket const& b) {
       assert(a.pv_ == b.pv_);
-      return a.i_ - b.i_;
+      return static_cast<difference_type>(to_idx(a.i_)) -
+             static_cast<difference_type>(to_idx(b.i_));
     }
 
   private:
-- 
2.43.0


From fab36590e1d0868e98308d58bdb5da0a084d8df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:49 +0000
Subject: [PATCH 56/99] fix: end of a page did not compile

---
 include/cista/containers/paged.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/paged.h b/include/cista/containers/paged.h
index 2866266..17df7dd 100644
--- a/include/cista/containers/paged.h
+++ b/include/cista/containers/paged.h
@@ -107,8 +107,8 @@ struct paged {
   value_type* begin(page_t const& p) { return data(p); }
   value_type const* begin(page_t const& p) const { return data(p); }
 
-  value_type* end(page_t& p) const { return begin(p) + p.size(); }
-  value_type const* end(page_t const& p) const { return begin() + p.size; }
+  value_type* end(page_t const& p) { return begin(p) + p.size(); }
+  value_type const* end(page_t const& p) const { return begin(p) + p.size(); }
 
   void copy(page_t const& to, page_t const& from) {
     std::memcpy(data(to), data(from), from.size() * sizeof(value_type));
-- 
2.43.0


From feedfe2fd89b1e772ad33f80a0426a77577b643a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:08 +0000
Subject: [PATCH 57/99] fix: paged_vecvec buckets above the maximal page size
 were written out of bounds

---
 include/cista/containers/paged.h        | 2 ++
 include/cista/containers/paged_vecvec.h | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/include/cista/containers/paged.h b/include/cista/containers/paged.h
index 17df7dd..a7c906c 100644
--- a/include/cista/containers/paged.h
+++ b/include/cista/containers/paged.h
@@ -46,6 +46,7 @@ struct paged {
                                   constexpr_trailing_zeros(MinPageSize));
   }
 
+  static constexpr auto const max_page_size = MaxPageSize;
   static constexpr auto const free_list_size =
       free_list_index(MaxPageSize) + 1U;
 
@@ -61,6 +62,7 @@ struct paged {
   }
 
   page_t create_page(PageSizeType const size) {
+    verify(size <= MaxPageSize, "paged::create_page: size > max capacity");
     auto const capacity = next_power_of_two(std::max(MinPageSize, size));
     auto const i = free_list_index(capacity);
     verify(i < free_list_.size(), "paged::create_page: size > max capacity");
diff --git a/include/cista/containers/paged_vecvec.h b/include/cista/containers/paged_vecvec.h
index 694b8bd..bc62fa9 100644
--- a/include/cista/containers/paged_vecvec.h
+++ b/include/cista/containers/paged_vecvec.h
@@ -310,6 +310,8 @@ struct paged_vecvec {
             typename = std::enable_if_t<std::is_convertible_v<
                 decltype(*std::declval<Container>().begin()), data_value_type>>>
   void emplace_back(Container&& bucket) {
+    verify(bucket.size() <= Paged::max_page_size,
+           "paged_vecvec: bucket size > max page size");
     auto p = paged_.create_page(
         static_cast<typename Paged::page_size_type>(bucket.size()));
     paged_.copy(p, std::begin(bucket), std::end(bucket));
@@ -334,6 +336,8 @@ struct paged_vecvec {
             typename = std::enable_if_t<std::is_convertible_v<
                 decltype(*std::declval<Container>().begin()), data_value_type>>>
   void insert(Key const& k, Container&& bucket) {
+    verify(bucket.size() <= Paged::max_page_size,
+           "paged_vecvec: bucket size > max page size");
     auto p = paged_.create_page(
         static_cast<typename Paged::page_size_type>(bucket.size()));
     paged_.copy(p, std::begin(bucket), std::end(bucket));
-- 
2.43.0


From 418b62eb03259977d7b1b479472c0aeb19e6703a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:49 +0000
Subject: [PATCH 58/99] fix: mmap released less than was mapped and lost the
 previous mapping on move assignment

---
 include/cista/mmap.h | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/include/cista/mmap.h b/include/cista/mmap.h
index c6b40d2..33773fe 100755
--- a/include/cista/mmap.h
+++ b/include/cista/mmap.h
@@ -37,16 +37,7 @@ struct mmap {
         used_size_{f_.size()},
         addr_{size_ == 0U ? nullptr : map()} {}
 
-  ~mmap() {
-    if (addr_ != nullptr) {
-      sync();
-      size_ = used_size_;
-      unmap();
-      if (size_ != f_.size()) {
-        resize_file();
-      }
-    }
-  }
+  ~mmap() { close(); }
 
   mmap(mmap const&) = delete;
   mmap& operator=(mmap const&) = delete;
@@ -64,15 +55,18 @@ struct mmap {
   }
 
   mmap& operator=(mmap&& o) {
-    f_ = std::move(o.f_);
-    prot_ = o.prot_;
-    size_ = o.size_;
-    used_size_ = o.used_size_;
-    addr_ = o.addr_;
+    if (this != &o) {
+      close();
+      f_ = std::move(o.f_);
+      prot_ = o.prot_;
+      size_ = o.size_;
+      used_size_ = o.used_size_;
+      addr_ = o.addr_;
 #ifdef _WIN32
-    file_mapping_ = o.file_mapping_;
+      file_mapping_ = o.file_mapping_;
 #endif
-    o.addr_ = nullptr;
+      o.addr_ = nullptr;
+    }
     return *this;
   }
 
@@ -126,6 +120,17 @@ struct mmap {
   }
 
 private:
+  void close() {
+    if (addr_ != nullptr) {
+      sync();
+      unmap();
+      size_ = used_size_;
+      if (size_ != f_.size()) {
+        resize_file();
+      }
+    }
+  }
+
   void unmap() {
 #ifdef _WIN32
     if (addr_ != nullptr) {
-- 
2.43.0


From 5f275cf5feb9b1e6e41c2495cba7017f5b012375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:49 +0000
Subject: [PATCH 59/99] fix: mmap lost its content when growing failed

---
 include/cista/mmap.h | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/cista/mmap.h b/include/cista/mmap.h
index 33773fe..63dad28 100755
--- a/include/cista/mmap.h
+++ b/include/cista/mmap.h
@@ -203,19 +203,34 @@ private:
       return;
     }
 
+#ifdef _WIN32
     unmap();
     size_ = new_size;
     resize_file();
     addr_ = map();
+#else
+    // Keep the current mapping until the new one is there.
+    verify(::ftruncate(f_.fd(), static_cast<off_t>(new_size)) == 0,
+           "resize error");
+    auto const new_addr = ::mmap(nullptr, new_size, PROT_READ | PROT_WRITE,
+                                 MAP_SHARED, f_.fd(), OFFSET);
+    if (new_addr == MAP_FAILED) {
+      resize_file();
+      verify(false, "map error");
+    }
+    unmap();
+    size_ = new_size;
+    addr_ = new_addr;
+#endif
   }
 
   file f_;
-  protection prot_;
-  std::size_t size_;
-  std::size_t used_size_;
-  void* addr_;
+  protection prot_{protection::READ};
+  std::size_t size_{0U};
+  std::size_t used_size_{0U};
+  void* addr_{nullptr};
 #ifdef _WIN32
-  HANDLE file_mapping_;
+  HANDLE file_mapping_{nullptr};
 #endif
 };
 
-- 
2.43.0


From ce211740d2a5bf7a51d2689d9158c5b5ec14b340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:55 +0000
Subject: [PATCH 60/99] fix: mmap_vec push_back/emplace_back of own elements
 and failed growth

---
 include/cista/containers/mmap_vec.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/cista/containers/mmap_vec.h b/include/cista/containers/mmap_vec.h
index 8fcbc61..2885ad9 100644
--- a/include/cista/containers/mmap_vec.h
+++ b/include/cista/containers/mmap_vec.h
@@ -27,16 +27,17 @@ struct basic_mmap_vec {
         used_size_{static_cast<size_type>(mmap_.size() / sizeof(T))} {}
 
   void push_back(T const& t) {
+    auto const copy = t;  // t may be an element, resizing moves the elements
+    mmap_.resize(sizeof(T) * (used_size_ + 1U));
     ++used_size_;
-    mmap_.resize(sizeof(T) * used_size_);
-    (*this)[Key{used_size_ - 1U}] = t;
+    (*this)[Key{used_size_ - 1U}] = copy;
   }
 
   template <typename... Args>
   T& emplace_back(Args&&... el) {
-    reserve(used_size_ + 1U);
-    new (data() + used_size_) T{std::forward<Args>(el)...};
-    T* ptr = data() + used_size_;
+    auto const value = T{std::forward<Args>(el)...};  // el may be an element
+    mmap_.resize(sizeof(T) * (used_size_ + 1U));
+    T* ptr = new (data() + used_size_) T{value};
     ++used_size_;
     return *ptr;
   }
-- 
2.43.0


From 613d07365cdc1636d160f65c66b188a631294416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:55 +0000
Subject: [PATCH 61/99] fix: mmap_vec::reserve changed the size of the stored
 data, growing operations did not

---
 include/cista/containers/mmap_vec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/containers/mmap_vec.h b/include/cista/containers/mmap_vec.h
index 2885ad9..454746e 100644
--- a/include/cista/containers/mmap_vec.h
+++ b/include/cista/containers/mmap_vec.h
@@ -73,7 +73,7 @@ struct basic_mmap_vec {
     return begin()[to_idx(index)];
   }
 
-  void reserve(size_type const size) { mmap_.resize(size * sizeof(T)); }
+  void reserve(size_type const size) { mmap_.reserve(size * sizeof(T)); }
 
   void resize(size_type const size) {
     mmap_.resize(size * sizeof(T));
-- 
2.43.0


From 3b00593a2e0f1162aed5ca37471e1d46000a3299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:55 +0000
Subject: [PATCH 62/99] fix: mmap_vec insert returned a wrong position and used
 moved own elements

---
 include/cista/containers/mmap_vec.h | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/cista/containers/mmap_vec.h b/include/cista/containers/mmap_vec.h
index 454746e..cdc4b69 100644
--- a/include/cista/containers/mmap_vec.h
+++ b/include/cista/containers/mmap_vec.h
@@ -94,7 +94,7 @@ struct basic_mmap_vec {
                    static_cast<diff_t>(std::numeric_limits<size_type>::max()),
            "cista::vector::set: invalid range");
 
-    reserve(static_cast<size_type>(range_size));
+    mmap_.resize(static_cast<std::size_t>(range_size) * sizeof(T));
 
     auto copy_source = begin_it;
     auto copy_target = data();
@@ -110,11 +110,10 @@ struct basic_mmap_vec {
     auto const old_offset = std::distance(begin(), it);
     auto const old_size = used_size_;
 
-    reserve(used_size_ + 1);
-    new (data() + used_size_) T{std::forward<Arg&&>(el)};
-    ++used_size_;
+    emplace_back(std::forward<Arg>(el));
 
-    return std::rotate(begin() + old_offset, begin() + old_size, end());
+    std::rotate(begin() + old_offset, begin() + old_size, end());
+    return begin() + old_offset;
   }
 
   template <class InputIt>
@@ -123,12 +122,11 @@ struct basic_mmap_vec {
     auto const old_size = used_size_;
 
     for (; !(first == last); ++first) {
-      reserve(used_size_ + 1);
-      new (data() + used_size_) T{std::forward<decltype(*first)>(*first)};
-      ++used_size_;
+      emplace_back(std::forward<decltype(*first)>(*first));
     }
 
-    return std::rotate(begin() + old_offset, begin() + old_size, end());
+    std::rotate(begin() + old_offset, begin() + old_size, end());
+    return begin() + old_offset;
   }
 
   template <class FwdIt>
@@ -140,7 +138,7 @@ struct basic_mmap_vec {
 
     auto const pos_idx = pos - begin();
     auto const new_count = static_cast<size_type>(std::distance(first, last));
-    reserve(used_size_ + new_count);
+    mmap_.resize((used_size_ + new_count) * sizeof(T));
     pos = begin() + pos_idx;
 
     for (auto src_last = end() - 1, dest_last = end() + new_count - 1;
-- 
2.43.0


From 1cf8bb0985afc674a831c53767ad50e1e0d5bc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:03 +0000
Subject: [PATCH 63/99] fix: file leaked the stream when its size could not be
 determined

---
 include/cista/targets/file.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cista/targets/file.h b/include/cista/targets/file.h
index 1b8d599..bbfa730 100644
--- a/include/cista/targets/file.h
+++ b/include/cista/targets/file.h
@@ -205,10 +205,11 @@ namespace cista {
 struct file {
   file() = default;
 
-  file(char const* path, char const* mode)
-      : f_{std::fopen(path, mode)}, size_{size()} {
+  file(char const* path, char const* mode) : file{} {
+    f_ = std::fopen(path, mode);
     verify_str(f_ != nullptr, std::string{"unable to open file: "} + path +
                                   " [mode=" + mode + "]");
+    size_ = size();
   }
 
   ~file() {
-- 
2.43.0


From 5d527e10773f82922245cda599809bc6b8667013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:03 +0000
Subject: [PATCH 64/99] fix: file move assignment leaked the previous stream
 and broke on self move

---
 include/cista/targets/file.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/cista/targets/file.h b/include/cista/targets/file.h
index bbfa730..1644f02 100644
--- a/include/cista/targets/file.h
+++ b/include/cista/targets/file.h
@@ -228,10 +228,15 @@ struct file {
   }
 
   file& operator=(file&& o) {
-    f_ = o.f_;
-    size_ = o.size_;
-    o.f_ = nullptr;
-    o.size_ = 0U;
+    if (this != &o) {
+      if (f_ != nullptr) {
+        std::fclose(f_);
+      }
+      f_ = o.f_;
+      size_ = o.size_;
+      o.f_ = nullptr;
+      o.size_ = 0U;
+    }
     return *this;
   }
 
-- 
2.43.0


From 4eff35b1a5466a0d901bd1bf14413fcca527e3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:03 +0000
Subject: [PATCH 65/99] fix: file::content did not include what was just
 written

---
 include/cista/targets/file.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cista/targets/file.h b/include/cista/targets/file.h
index 1644f02..834970c 100644
--- a/include/cista/targets/file.h
+++ b/include/cista/targets/file.h
@@ -256,6 +256,7 @@ struct file {
   }
 
   buffer content() {
+    verify(!std::fseek(f_, 0, SEEK_SET), "fseek error");
     auto b = buffer(size());
     verify(std::fread(b.data(), 1U, b.size(), f_) == b.size(), "read error");
     return b;
-- 
2.43.0


From aae6325a4d881fe37f0b889eeb0b3852e9c35479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:03 +0000
Subject: [PATCH 66/99] fix: file::write of zero bytes did not write its
 padding

---
 include/cista/targets/file.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/cista/targets/file.h b/include/cista/targets/file.h
index 834970c..3bdb17e 100644
--- a/include/cista/targets/file.h
+++ b/include/cista/targets/file.h
@@ -301,8 +301,14 @@ struct file {
       seek_offset = static_cast<long>(curr_offset);
       seek_whence = SEEK_SET;
     }
-    verify(!std::fseek(f_, seek_offset, seek_whence), "seek error");
-    verify(std::fwrite(ptr, 1U, size, f_) == size, "write error");
+    if (size == 0U && curr_offset != size_) {
+      // The padding has to be there, even if nothing follows.
+      verify(!std::fseek(f_, seek_offset - 1, seek_whence), "seek error");
+      verify(std::fwrite("", 1U, 1U, f_) == 1U, "write error");
+    } else {
+      verify(!std::fseek(f_, seek_offset, seek_whence), "seek error");
+      verify(std::fwrite(ptr, 1U, size, f_) == size, "write error");
+    }
     size_ = curr_offset + size;
     return static_cast<offset_t>(curr_offset);
   }
-- 
2.43.0


From f9ee6d63ea787dbefadedd868359a3bc8a11781a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:03 +0000
Subject: [PATCH 67/99] fix: failing reads of file checksums terminated
 serialize instead of being reported

---
 include/cista/serialization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index cc7ff6d..d027948 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -123,7 +123,7 @@ struct serialization_context {
                : std::nullopt;
   }
 
-  std::uint64_t checksum(offset_t const from) const noexcept {
+  std::uint64_t checksum(offset_t const from) const {
     return t_.checksum(from);
   }
 
-- 
2.43.0


From 498ea933e3d1b0842d12c272be4fb8efd409bef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:20 +0000
Subject: [PATCH 68/99] fix: fetch_or and fetch_and returned the new instead of
 the previous value

---
 include/cista/atomic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/atomic.h b/include/cista/atomic.h
index 5d1855b..61791b2 100644
--- a/include/cista/atomic.h
+++ b/include/cista/atomic.h
@@ -16,7 +16,7 @@ inline std::uint64_t fetch_or(std::uint64_t& block, std::uint64_t const mask) {
 #elif defined(__cpp_lib_atomic_ref)
   return std::atomic_ref{block}.fetch_or(mask);
 #else
-  return __atomic_or_fetch(&block, mask, __ATOMIC_RELAXED);
+  return __atomic_fetch_or(&block, mask, __ATOMIC_RELAXED);
 #endif
 }
 
-- 
2.43.0


From ae215415a9cef15dec6bdb106509898ca0dc5c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:20 +0000
Subject: [PATCH 69/99] fix: fetch_and returned the new instead of the previous
 value

---
 include/cista/atomic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/atomic.h b/include/cista/atomic.h
index 61791b2..ac4fd55 100644
--- a/include/cista/atomic.h
+++ b/include/cista/atomic.h
@@ -26,7 +26,7 @@ inline std::uint64_t fetch_and(std::uint64_t& block, std::uint64_t const mask) {
 #elif defined(__cpp_lib_atomic_ref)
   return std::atomic_ref{block}.fetch_and(mask);
 #else
-  return __atomic_and_fetch(&block, mask, __ATOMIC_RELAXED);
+  return __atomic_fetch_and(&block, mask, __ATOMIC_RELAXED);
 #endif
 }
 
-- 
2.43.0


From a81857646927df83733e61b7f68eba1607df5fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:20 +0000
Subject: [PATCH 70/99] fix: fetch_max never raised the value

---
 include/cista/atomic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/atomic.h b/include/cista/atomic.h
index ac4fd55..95fcc25 100644
--- a/include/cista/atomic.h
+++ b/include/cista/atomic.h
@@ -47,7 +47,7 @@ inline std::int16_t fetch_max(std::int16_t& block, std::int16_t const val) {
   // UB due to aliasing but `std::atomic_ref` is not there yet.
   auto const a = reinterpret_cast<std::atomic_int16_t*>(&block);
   auto old = a->load();
-  if (old > val) {
+  if (old < val) {
     while (!a->compare_exchange_weak(old, std::max(old, val),
                                      std::memory_order_release,
                                      std::memory_order_relaxed)) {
-- 
2.43.0


From d7cfe2324383fa331163030193832f81f4064538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:51 +0000
Subject: [PATCH 71/99] fix: hash table was left without entries when an
 allocation failed

---
 include/cista/containers/hash_storage.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/cista/containers/hash_storage.h b/include/cista/containers/hash_storage.h
index ee4f528..cb58f08 100644
--- a/include/cista/containers/hash_storage.h
+++ b/include/cista/containers/hash_storage.h
@@ -600,15 +600,17 @@ struct hash_storage {
     ctrl_[capacity_] = END;
   }
 
-  void initialize_entries() {
-    self_allocated_ = true;
+  void initialize_entries(size_type const capacity) {
     auto const size = static_cast<size_type>(
-        capacity_ * sizeof(T) + (capacity_ + 1U + WIDTH) * sizeof(ctrl_t));
-    entries_ = reinterpret_cast<T*>(
+        capacity * sizeof(T) + (capacity + 1U + WIDTH) * sizeof(ctrl_t));
+    auto const entries = reinterpret_cast<T*>(
         CISTA_ALIGNED_ALLOC(ALIGNMENT, static_cast<std::size_t>(size)));
-    if (entries_ == nullptr) {
-      throw_exception(std::bad_alloc{});
+    if (entries == nullptr) {
+      throw_exception(std::bad_alloc{});  // leaves the table as it was
     }
+    self_allocated_ = true;
+    capacity_ = capacity;
+    entries_ = entries;
 #if defined(CISTA_ZERO_OUT)
     std::memset(entries_, 0, size);
 #endif
@@ -625,8 +627,7 @@ struct hash_storage {
     auto const old_capacity = capacity_;
     auto const old_self_allocated = self_allocated_;
 
-    capacity_ = new_capacity;
-    initialize_entries();
+    initialize_entries(new_capacity);
 
     for (size_type i = 0U; i != old_capacity; ++i) {
       if (is_full(old_ctrl[i])) {
-- 
2.43.0


From 812a7bcf7aac9010632cf57b2df1389a4872acb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:51 +0000
Subject: [PATCH 72/99] fix: hash table constructors leaked when an insertion
 threw

---
 include/cista/containers/hash_storage.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/hash_storage.h b/include/cista/containers/hash_storage.h
index cb58f08..2bd78db 100644
--- a/include/cista/containers/hash_storage.h
+++ b/include/cista/containers/hash_storage.h
@@ -264,7 +264,7 @@ struct hash_storage {
 
   constexpr hash_storage() = default;
 
-  hash_storage(std::initializer_list<T> init) {
+  hash_storage(std::initializer_list<T> init) : hash_storage() {
     insert(init.begin(), init.end());
   }
 
@@ -278,7 +278,7 @@ struct hash_storage {
     other.reset();
   }
 
-  hash_storage(hash_storage const& other) {
+  hash_storage(hash_storage const& other) : hash_storage() {
     if (other.size() != 0U) {
       for (const auto& v : other) {
         emplace(v);
-- 
2.43.0


From d14f6994bef6ff5696ba0ba1af913bf90b63b68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:51 +0000
Subject: [PATCH 73/99] fix: vector constructors leaked when constructing an
 element threw

---
 include/cista/containers/vector.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index e16852e..cf76b8c 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -41,25 +41,25 @@ struct basic_vector {
   basic_vector() noexcept = default;
 
   explicit basic_vector(size_type const size,
-                        Allocator const& alloc = Allocator{}) {
-    CISTA_UNUSED_PARAM(alloc)
+                        Allocator const& alloc = Allocator{})
+      : basic_vector(alloc) {
     resize(size);
   }
 
   explicit basic_vector(size_type const size, T init,
-                        Allocator const& alloc = Allocator{}) {
-    CISTA_UNUSED_PARAM(alloc)
+                        Allocator const& alloc = Allocator{})
+      : basic_vector(alloc) {
     resize(size, std::move(init));
   }
 
   basic_vector(std::initializer_list<T> init,
-               Allocator const& alloc = Allocator{}) {
-    CISTA_UNUSED_PARAM(alloc)
+               Allocator const& alloc = Allocator{})
+      : basic_vector(alloc) {
     set(init.begin(), init.end());
   }
 
   template <typename It>
-  basic_vector(It begin_it, It end_it) {
+  basic_vector(It begin_it, It end_it) : basic_vector() {
     set(begin_it, end_it);
   }
 
@@ -72,8 +72,8 @@ struct basic_vector {
     o.reset();
   }
 
-  basic_vector(basic_vector const& o, Allocator const& alloc = Allocator{}) {
-    CISTA_UNUSED_PARAM(alloc)
+  basic_vector(basic_vector const& o, Allocator const& alloc = Allocator{})
+      : basic_vector(alloc) {
     set(o);
   }
 
-- 
2.43.0


From 758eba6665d7d089e4582d22abfba96139db5196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:51 +0000
Subject: [PATCH 74/99] fix: vector range insert left elements unaccounted when
 a constructor threw

---
 include/cista/containers/vector.h | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index cf76b8c..1a58300 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -262,30 +262,18 @@ struct basic_vector {
     }
 
     auto const pos_idx = pos - begin();
+    auto const old_size = used_size_;
     auto const new_count = static_cast<size_type>(std::distance(first, last));
     reserve(used_size_ + new_count);
-    pos = begin() + pos_idx;
-
-    for (auto src_last = end() - 1, dest_last = end() + new_count - 1;
-         !(src_last == pos - 1); --src_last, --dest_last) {
-      if (dest_last >= end()) {
-        new (dest_last) T(std::move(*src_last));
-      } else {
-        *dest_last = std::move(*src_last);
-      }
-    }
 
-    for (auto insert_ptr = pos; !(first == last); ++first, ++insert_ptr) {
-      if (insert_ptr >= end()) {
-        new (insert_ptr) T(std::forward<decltype(*first)>(*first));
-      } else {
-        *insert_ptr = std::forward<decltype(*first)>(*first);
-      }
+    // Append first: constructing an element may throw.
+    for (; !(first == last); ++first) {
+      new (el_ + used_size_) T(std::forward<decltype(*first)>(*first));
+      ++used_size_;
     }
 
-    used_size_ += new_count;
-
-    return pos;
+    std::rotate(begin() + pos_idx, begin() + old_size, end());
+    return begin() + pos_idx;
   }
 
   template <class It>
-- 
2.43.0


From d1967cd8cd9aad157e33a416a3d3b50f6274333c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:58 +0000
Subject: [PATCH 75/99] fix: vector did not account for constructed elements
 when the next constructor threw

---
 include/cista/containers/vector.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 1a58300..10b202d 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -182,9 +182,8 @@ struct basic_vector {
     auto copy_target = el_;
     for (; copy_source != end_it; ++copy_source, ++copy_target) {
       new (copy_target) T{std::forward<decltype(*copy_source)>(*copy_source)};
+      ++used_size_;  // constructing the next element may throw
     }
-
-    used_size_ = static_cast<size_type>(range_size);
   }
 
   void set(basic_vector const& arr) {
@@ -320,6 +319,7 @@ struct basic_vector {
     reserve(size);
     for (auto i = used_size_; i < size; ++i) {
       new (el_ + i) T{};
+      ++used_size_;  // constructing the next element may throw
     }
     for (auto i = size; i < used_size_; ++i) {
       el_[i].~T();
@@ -331,6 +331,7 @@ struct basic_vector {
     reserve(size);
     for (auto i = used_size_; i < size; ++i) {
       new (el_ + i) T{init};
+      ++used_size_;  // constructing the next element may throw
     }
     for (auto i = size; i < used_size_; ++i) {
       el_[i].~T();
-- 
2.43.0


From 99491838274d8a4461cebd098a29a5934ce53d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:58 +0000
Subject: [PATCH 76/99] fix: vecvec::add_bucket left a half-added bucket when
 an allocation failed

---
 include/cista/containers/vecvec.h | 55 ++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 20 deletions(-)

diff --git a/include/cista/containers/vecvec.h b/include/cista/containers/vecvec.h
index b2ef0af..eb44e4e 100644
--- a/include/cista/containers/vecvec.h
+++ b/include/cista/containers/vecvec.h
@@ -365,35 +365,26 @@ struct basic_vecvec {
             typename = std::enable_if_t<std::is_convertible_v<
                 decltype(*std::declval<Container>().begin()), data_value_type>>>
   void emplace_back(Container&& bucket) {
-    if (bucket_starts_.empty()) {
-      bucket_starts_.emplace_back(index_value_type{0U});
-    }
-    data_.insert(std::end(data_),  //
-                 std::make_move_iterator(std::begin(bucket)),
-                 std::make_move_iterator(std::end(bucket)));
-    bucket_starts_.emplace_back(static_cast<index_value_type>(data_.size()));
+    add_bucket([&]() {
+      data_.insert(std::end(data_),  //
+                   std::make_move_iterator(std::begin(bucket)),
+                   std::make_move_iterator(std::end(bucket)));
+    });
   }
 
   bucket add_back_sized(std::size_t const bucket_size) {
-    if (bucket_starts_.empty()) {
-      bucket_starts_.emplace_back(index_value_type{0U});
-    }
-    data_.resize(data_.size() + bucket_size);
-    bucket_starts_.emplace_back(static_cast<index_value_type>(data_.size()));
+    add_bucket([&]() { data_.resize(data_.size() + bucket_size); });
     return at(Key{size() - 1U});
   }
 
   template <typename X>
   std::enable_if_t<std::is_convertible_v<std::decay_t<X>, data_value_type>>
   emplace_back(std::initializer_list<X>&& x) {
-    if (bucket_starts_.empty()) {
-      bucket_starts_.emplace_back(index_value_type{0U});
-    }
-    bucket_starts_.emplace_back(
-        static_cast<index_value_type>(data_.size() + x.size()));
-    data_.insert(std::end(data_),  //
-                 std::make_move_iterator(std::begin(x)),
-                 std::make_move_iterator(std::end(x)));
+    add_bucket([&]() {
+      data_.insert(std::end(data_),  //
+                   std::make_move_iterator(std::begin(x)),
+                   std::make_move_iterator(std::end(x)));
+    });
   }
 
   template <typename T = data_value_type,
@@ -433,6 +424,30 @@ struct basic_vecvec {
   CISTA_CUDA_COMPAT
   friend const_bucket end(basic_vecvec const& m) { return m.end(); }
 
+  // Appends a bucket of everything append adds to the data. If this fails, no
+  // start and no data without a bucket is left behind.
+  template <typename Append>
+  void add_bucket(Append&& append) {
+    if (bucket_starts_.empty()) {
+      bucket_starts_.emplace_back(index_value_type{0U});
+    }
+    auto const n_starts = bucket_starts_.size();
+    auto const n_data = data_.size();
+    try {
+      bucket_starts_.emplace_back(static_cast<index_value_type>(n_data));
+      append();
+    } catch (...) {
+      bucket_starts_.resize(n_starts);
+      if constexpr (std::is_default_constructible_v<data_value_type>) {
+        data_.resize(n_data);
+      } else {
+        data_.erase(std::begin(data_) + n_data, std::end(data_));
+      }
+      throw;
+    }
+    bucket_starts_[n_starts] = static_cast<index_value_type>(data_.size());
+  }
+
   DataVec data_;
   IndexVec bucket_starts_;
 };
-- 
2.43.0


From b155dbb3c49600cb87941cd9ffcb893cc152c5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:58 +0000
Subject: [PATCH 77/99] fix: nvec::emplace_back left a half-added bucket when
 an allocation failed

---
 include/cista/containers/nvec.h | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/include/cista/containers/nvec.h b/include/cista/containers/nvec.h
index e825829..e675df2 100644
--- a/include/cista/containers/nvec.h
+++ b/include/cista/containers/nvec.h
@@ -471,12 +471,30 @@ struct basic_nvec {
 
   template <typename Container>
   void emplace_back(Container&& bucket) {
-    if (index_[0].size() == 0U) {
-      for (auto& i : index_) {
+    for (auto& i : index_) {
+      if (i.size() == 0U) {
         i.push_back(0U);
       }
     }
-    add<N - 1>(bucket);
+    auto n_index = array<std::size_t, N>{};
+    for (auto i = std::size_t{0U}; i != N; ++i) {
+      n_index[i] = index_[i].size();
+    }
+    auto const n_data = data_.size();
+    try {
+      add<N - 1>(bucket);
+    } catch (...) {  // leave no part of the bucket behind
+      for (auto i = std::size_t{0U}; i != N; ++i) {
+        index_[i].resize(
+            static_cast<typename IndexVec::size_type>(n_index[i]));
+      }
+      if constexpr (std::is_default_constructible_v<data_value_type>) {
+        data_.resize(n_data);
+      } else {
+        data_.erase(std::begin(data_) + n_data, std::end(data_));
+      }
+      throw;
+    }
   }
 
   iterator operator[](Key const k) { return begin() + to_idx(k); }
-- 
2.43.0


From 911a8dbe8492ae1c63b75ea6cf45ebcbe1d9bece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:58 +0000
Subject: [PATCH 78/99] fix: wrapped::reset() left a dangling pointer and
 destroyed the object twice

---
 include/cista/memory_holder.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cista/memory_holder.h b/include/cista/memory_holder.h
index 840c375..78ecb3b 100755
--- a/include/cista/memory_holder.h
+++ b/include/cista/memory_holder.h
@@ -20,7 +20,12 @@ struct wrapped {
   explicit wrapped(raw::unique_ptr<T> el) : el_{std::move(el)} {}
 
   void reset() {
-    el_->~T();
+    if (el_.self_allocated_) {
+      el_.reset();
+    } else if (el_ != nullptr) {
+      el_->~T();
+      el_ = nullptr;  // refers to mem_
+    }
     if (std::holds_alternative<buffer>(mem_)) {
       std::get<buffer>(mem_) = buffer{};
     } else if (std::holds_alternative<byte_buf>(mem_)) {
-- 
2.43.0


From 817423c7e221fd44fa90934fa9f4dcae716cc69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:46 +0000
Subject: [PATCH 79/99] fix: deserialize did not check containers whose members
 refer to each other

---
 include/cista/serialization.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index d027948..025a380 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -767,6 +767,17 @@ void recurse(Ctx& c, T* el, Fn&& fn) {
   }
 }
 
+// Containers whose members depend on each other (such as positions in other
+// members) provide bool cista_valid() const.
+template <typename T, typename = void>
+struct has_cista_valid : std::false_type {};
+
+template <typename T>
+struct has_cista_valid<
+    T, std::enable_if_t<std::is_same_v<
+           decltype(std::declval<T const&>().cista_valid()), bool>>>
+    : std::true_type {};
+
 template <typename Ctx, typename T>
 void deserialize(Ctx const& c, T* el) {
   c.check_ptr(el);
@@ -777,6 +788,10 @@ void deserialize(Ctx const& c, T* el) {
     check_state(c, el);
   }
   recurse(c, el, [&](auto* entry) { deserialize(c, entry); });
+  if constexpr (is_mode_disabled(Ctx::MODE, mode::UNCHECKED) &&
+                has_cista_valid<decay_t<T>>::value) {
+    c.require(el->cista_valid(), "invalid positions");
+  }
 }
 
 // --- PAIR<A,B> ---
-- 
2.43.0


From 4c79c7bc8b57728aff355ab3fd228c2b0923a6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:46 +0000
Subject: [PATCH 80/99] fix: deserialize accepted vecvecs with bucket bounds
 outside of their data

---
 include/cista/containers/vecvec.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/cista/containers/vecvec.h b/include/cista/containers/vecvec.h
index eb44e4e..7f83f85 100644
--- a/include/cista/containers/vecvec.h
+++ b/include/cista/containers/vecvec.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <cassert>
 #include <iterator>
 #include <type_traits>
@@ -448,6 +449,12 @@ struct basic_vecvec {
     bucket_starts_[n_starts] = static_cast<index_value_type>(data_.size());
   }
 
+  bool cista_valid() const {
+    return std::is_sorted(bucket_starts_.begin(), bucket_starts_.end()) &&
+           (bucket_starts_.empty() ||
+            to_idx(bucket_starts_.back()) <= data_.size());
+  }
+
   DataVec data_;
   IndexVec bucket_starts_;
 };
-- 
2.43.0


From fd419dbe54856b6a0ebcfca42db8423274056bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:46 +0000
Subject: [PATCH 81/99] fix: deserialize accepted nvecs with positions outside
 of their data

---
 include/cista/containers/nvec.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/cista/containers/nvec.h b/include/cista/containers/nvec.h
index e675df2..c1f3c8e 100644
--- a/include/cista/containers/nvec.h
+++ b/include/cista/containers/nvec.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <cinttypes>
 #include <string_view>
 
@@ -573,6 +574,19 @@ struct basic_nvec {
     return get_size<L - 1U>(get_child<L>(i, j), rest...);
   }
 
+  bool cista_valid() const {
+    for (auto l = std::size_t{0U}; l != N; ++l) {
+      auto const& starts = index_[l];
+      if (!std::is_sorted(starts.begin(), starts.end()) ||
+          (!starts.empty() && (l == 0U ? starts.back() > data_.size()
+                                       : starts.back() >=
+                                             index_[l - 1U].size()))) {
+        return false;
+      }
+    }
+    return true;
+  }
+
   array<IndexVec, N> index_;
   DataVec data_;
 };
-- 
2.43.0


From d3bd70ea9f2a360f5ce14156d0c714e5c5d65f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:46 +0000
Subject: [PATCH 82/99] fix: deserialize accepted fws_multimaps with positions
 outside of their data

---
 include/cista/containers/fws_multimap.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/cista/containers/fws_multimap.h b/include/cista/containers/fws_multimap.h
index c70eb5f..cf5af6b 100644
--- a/include/cista/containers/fws_multimap.h
+++ b/include/cista/containers/fws_multimap.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <cassert>
 #include <iterator>
 #include <type_traits>
@@ -198,6 +199,12 @@ struct fws_multimap {
   std::size_t data_size() const { return data_.size(); }
   bool finished() const { return complete_; }
 
+  bool cista_valid() const {
+    return std::is_sorted(index_.begin(), index_.end()) &&
+           (index_.empty() || to_idx(index_.back()) <= data_.size()) &&
+           to_idx(current_start_) <= data_.size();
+  }
+
   DataVec data_;
   IndexVec index_;
   index_t current_start_{0};
-- 
2.43.0


From 19aea7e3dbd759509901d5804c6cbbeeeb89f7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:46 +0000
Subject: [PATCH 83/99] fix: deserialize accepted mutable multimaps with
 buckets outside of their data

---
 include/cista/containers/mutable_fws_multimap.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/cista/containers/mutable_fws_multimap.h b/include/cista/containers/mutable_fws_multimap.h
index 796b044..cb55c5c 100644
--- a/include/cista/containers/mutable_fws_multimap.h
+++ b/include/cista/containers/mutable_fws_multimap.h
@@ -626,6 +626,18 @@ struct dynamic_fws_multimap_base {
     return size_type{cista::trailing_zeros(to_idx(size))};
   }
 
+  bool cista_valid() const {
+    auto const is_valid = [&](index_type const& idx) {
+      return idx.size_ <= idx.capacity_ && idx.begin_ <= data_.size() &&
+             idx.capacity_ <= data_.size() - idx.begin_;
+    };
+    return std::all_of(index_.begin(), index_.end(), is_valid) &&
+           std::all_of(free_buckets_.begin(), free_buckets_.end(),
+                       [&](index_vec_t const& b) {
+                         return std::all_of(b.begin(), b.end(), is_valid);
+                       });
+  }
+
   index_vec_t index_;
   data_vec_t data_;
   array<index_vec_t, Log2MaxEntriesPerBucket + 1U> free_buckets_;
-- 
2.43.0


From 334971620660324b5cd79f32856b618ef6b95aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:46 +0000
Subject: [PATCH 84/99] fix: deserialize accepted paged_vecvecs with pages
 outside of their data

---
 include/cista/containers/paged_vecvec.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/cista/containers/paged_vecvec.h b/include/cista/containers/paged_vecvec.h
index bc62fa9..7d1d15f 100644
--- a/include/cista/containers/paged_vecvec.h
+++ b/include/cista/containers/paged_vecvec.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <algorithm>
+
 #include "cista/strong.h"
 
 namespace cista {
@@ -356,6 +358,15 @@ struct paged_vecvec {
     idx_.clear();
   }
 
+  bool cista_valid() const {
+    return std::all_of(idx_.begin(), idx_.end(), [&](page_t const& p) {
+      return p.valid() ? p.size_ <= p.capacity_ &&
+                             p.start_ <= paged_.data_.size() &&
+                             p.capacity_ <= paged_.data_.size() - p.start_
+                       : p.size_ == 0U && p.start_ == 0U;
+    });
+  }
+
   Paged paged_;
   Index idx_;
 };
-- 
2.43.0


From 5571d0e04b063cbf97396363a7d1fdf9dd4d4daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:46 +0000
Subject: [PATCH 85/99] fix: deserialize accepted bitvecs with fewer blocks
 than bits

---
 include/cista/containers/bitvec.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/cista/containers/bitvec.h b/include/cista/containers/bitvec.h
index c7865c6..4a720cc 100644
--- a/include/cista/containers/bitvec.h
+++ b/include/cista/containers/bitvec.h
@@ -495,6 +495,11 @@ struct basic_bitvec {
     return out << b.str();
   }
 
+  bool cista_valid() const {
+    return size_ / bits_per_block + (size_ % bits_per_block != 0U ? 1U : 0U) <=
+           blocks_.size();
+  }
+
   size_type size_{0U};
   Vec blocks_;
 };
-- 
2.43.0


From eb1d8fc03de5dabb807f1485467d5b1636447a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:46 +0000
Subject: [PATCH 86/99] fix: deserialize accepted matrices larger than their
 data

---
 include/cista/containers/flat_matrix.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/cista/containers/flat_matrix.h b/include/cista/containers/flat_matrix.h
index f578a83..7442177 100644
--- a/include/cista/containers/flat_matrix.h
+++ b/include/cista/containers/flat_matrix.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <cinttypes>
 #include <limits>
 
@@ -107,6 +108,10 @@ struct base_flat_matrix {
     std::fill(begin(entries_), end(entries_), t);
   }
 
+  bool cista_valid() const {
+    return n_columns_ == 0U || n_rows_ <= entries_.size() / n_columns_;
+  }
+
   size_type n_rows_{0U}, n_columns_{0U};
   Vector entries_;
 };
-- 
2.43.0


From 337ae814a83d588fc6774de4b3597b9bd547f613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:46 +0000
Subject: [PATCH 87/99] fix: deserialize accepted rtrees with child nodes that
 do not exist or repeat

---
 include/cista/containers/rtree.h | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/include/cista/containers/rtree.h b/include/cista/containers/rtree.h
index a0598e2..78ce812 100644
--- a/include/cista/containers/rtree.h
+++ b/include/cista/containers/rtree.h
@@ -1,7 +1,9 @@
 #pragma once
 
+#include <algorithm>
 #include <cinttypes>
 #include <filesystem>
+#include <vector>
 
 #include "cista/cista_member_offset.h"
 #include "cista/containers/array.h"
@@ -629,6 +631,31 @@ struct basic_rtree {
   void write_meta(std::filesystem::path const& p) { write(p, m_); }
   void read_meta(std::filesystem::path const& p) { m_ = *read<meta>(p); }
 
+  bool cista_valid() const {
+    auto seen = std::vector<bool>(nodes_.size());
+    auto todo = std::vector<node_idx_t>{};
+    if (m_.root_ != node_idx_t::invalid()) {
+      todo.emplace_back(m_.root_);
+    }
+    while (!todo.empty()) {
+      auto const i = todo.back();
+      todo.pop_back();
+      if (to_idx(i) >= nodes_.size() || seen[to_idx(i)]) {
+        return false;
+      }
+      seen[to_idx(i)] = true;
+      auto const& n = get_node(i);
+      if (n.count_ > MaxItems) {
+        return false;
+      }
+      if (n.kind_ != kind::kLeaf) {
+        todo.insert(todo.end(), n.children_.begin(),
+                    n.children_.begin() + n.count_);
+      }
+    }
+    return true;
+  }
+
   struct meta {
     rect rect_;
     node_idx_t root_{node_idx_t::invalid()};
-- 
2.43.0


From d77c5d1ff8b06d3a1a2b95b9ce1330ca742df07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:11 +0000
Subject: [PATCH 88/99] fix: aligned_allocator wrapped around for sizes it
 cannot allocate

---
 include/cista/aligned_allocator.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/cista/aligned_allocator.h b/include/cista/aligned_allocator.h
index 84cf347..8565d46 100644
--- a/include/cista/aligned_allocator.h
+++ b/include/cista/aligned_allocator.h
@@ -1,6 +1,8 @@
 #pragma once
 
 #include <cinttypes>
+#include <limits>
+#include <new>
 #include <stdexcept>
 
 #include "cista/aligned_alloc.h"
@@ -32,6 +34,11 @@ struct aligned_allocator {
   const_pointer adress(const_reference r) const noexcept { return &r; }
 
   pointer allocate(size_type const n) const {
+    // The size is rounded up to a multiple of the alignment.
+    if (n > (std::numeric_limits<size_type>::max() - next_power_of_two(N) + 1U) /
+                sizeof(value_type)) {
+      throw_exception(std::bad_alloc{});
+    }
     auto const ptr =
         static_cast<pointer>(CISTA_ALIGNED_ALLOC(N, n * sizeof(value_type)));
     if (ptr == nullptr) {
-- 
2.43.0


From b63b33af1af12e822bfbc63919a7ff55a8a47e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:11 +0000
Subject: [PATCH 89/99] fix: vectors wrapped around at the end of their size
 type

---
 include/cista/containers/vector.h | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 10b202d..d2142cc 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -228,7 +228,7 @@ struct basic_vector {
     auto const old_size = used_size_;
 
     auto const copy = value;  // value may be an own element
-    reserve(used_size_ + count);
+    reserve(size_after_adding(count));
     for (auto i = size_type{0U}; i < count; ++i) {
       new (el_ + used_size_) T{copy};
       ++used_size_;
@@ -244,7 +244,7 @@ struct basic_vector {
     auto const old_size = used_size_;
 
     for (; !(first == last); ++first) {
-      reserve(used_size_ + 1);
+      reserve(size_after_adding(1U));
       new (el_ + used_size_) T{std::forward<decltype(*first)>(*first)};
       ++used_size_;
     }
@@ -262,8 +262,9 @@ struct basic_vector {
 
     auto const pos_idx = pos - begin();
     auto const old_size = used_size_;
-    auto const new_count = static_cast<size_type>(std::distance(first, last));
-    reserve(used_size_ + new_count);
+    auto const new_count = std::distance(first, last);
+    verify(new_count >= 0, "cista::vector::insert: invalid range");
+    reserve(size_after_adding(static_cast<std::size_t>(new_count)));
 
     // Append first: constructing an element may throw.
     for (; !(first == last); ++first) {
@@ -293,7 +294,7 @@ struct basic_vector {
   void push_back(T&& el) {
     if (used_size_ == allocated_size_) {
       auto tmp = T(std::move(el));  // el may be an own element
-      reserve(used_size_ + 1U);
+      reserve(size_after_adding(1U));
       new (el_ + used_size_) T(std::move(tmp));
     } else {
       new (el_ + used_size_) T(std::move(el));
@@ -305,7 +306,7 @@ struct basic_vector {
   T& emplace_back(Args&&... el) {
     if (used_size_ == allocated_size_) {
       auto tmp = T{std::forward<Args>(el)...};  // args may be own elements
-      reserve(used_size_ + 1U);
+      reserve(size_after_adding(1U));
       new (el_ + used_size_) T(std::move(tmp));
     } else {
       new (el_ + used_size_) T{std::forward<Args>(el)...};
@@ -353,6 +354,12 @@ struct basic_vector {
     used_size_ = 0;
   }
 
+  size_type size_after_adding(std::size_t const count) const {
+    verify(count <= std::numeric_limits<size_type>::max() - used_size_,
+           "cista::vector: too many elements for its size type");
+    return static_cast<size_type>(used_size_ + count);
+  }
+
   void reserve(size_type new_size) {
     new_size = std::max(allocated_size_, new_size);
 
@@ -362,6 +369,10 @@ struct basic_vector {
 
     // next_power_of_two overflows to zero for more than half of the size range
     auto next_size = std::max(next_power_of_two(new_size), new_size);
+    if (static_cast<std::size_t>(next_size) >
+        std::numeric_limits<std::size_t>::max() / sizeof(T)) {
+      throw_exception(std::bad_alloc());
+    }
     auto num_bytes = static_cast<std::size_t>(next_size) * sizeof(T);
     auto mem_buf = static_cast<T*>(std::malloc(num_bytes));  // NOLINT
     if (mem_buf == nullptr) {
-- 
2.43.0


From f852e896237e500a632c225d441b181ab98c5c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:11 +0000
Subject: [PATCH 90/99] fix: vecvec stored positions beyond its index type

---
 include/cista/containers/vecvec.h | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/vecvec.h b/include/cista/containers/vecvec.h
index 7f83f85..a5858b3 100644
--- a/include/cista/containers/vecvec.h
+++ b/include/cista/containers/vecvec.h
@@ -3,12 +3,14 @@
 #include <algorithm>
 #include <cassert>
 #include <iterator>
+#include <limits>
 #include <type_traits>
 #include <vector>
 
 #include "cista/const_iterator.h"
 #include "cista/containers/vector.h"
 #include "cista/cuda_check.h"
+#include "cista/strong.h"
 #include "cista/verify.h"
 
 namespace cista {
@@ -71,6 +73,7 @@ struct basic_vecvec {
 
     template <typename Args>
     void push_back(Args&& args) {
+      map_->size_after_adding(1U);
       map_->data_.insert(std::next(std::begin(map_->data_), bucket_end_idx()),
                          std::forward<Args>(args));
       for (auto i = i_ + 1; i != map_->bucket_starts_.size(); ++i) {
@@ -81,6 +84,7 @@ struct basic_vecvec {
     void grow(std::size_t const n, value_type const& value = value_type{}) {
       verify(n >= size(), "bucket::grow: new size < old size");
       auto const growth = n - size();
+      map_->size_after_adding(growth);
 
       map_->data_.insert(
           std::next(std::begin(map_->data_), bucket_end_idx()),
@@ -374,7 +378,7 @@ struct basic_vecvec {
   }
 
   bucket add_back_sized(std::size_t const bucket_size) {
-    add_bucket([&]() { data_.resize(data_.size() + bucket_size); });
+    add_bucket([&]() { data_.resize(size_after_adding(bucket_size)); });
     return at(Key{size() - 1U});
   }
 
@@ -395,6 +399,9 @@ struct basic_vecvec {
   }
 
   void resize(std::size_t const new_size) {
+    verify(new_size < std::numeric_limits<typename IndexVec::size_type>::max() &&
+               new_size <= max_index(),
+           "vecvec::resize: too many buckets for the index type");
     auto const old_size = bucket_starts_.size();
     bucket_starts_.resize(
         static_cast<typename IndexVec::size_type>(new_size + 1U));
@@ -434,9 +441,13 @@ struct basic_vecvec {
     }
     auto const n_starts = bucket_starts_.size();
     auto const n_data = data_.size();
+    verify(n_starts <= max_index(),
+           "vecvec: too many buckets for the index type");
     try {
       bucket_starts_.emplace_back(static_cast<index_value_type>(n_data));
       append();
+      verify(data_.size() <= max_index(),
+             "vecvec: too many elements for the index type");
     } catch (...) {
       bucket_starts_.resize(n_starts);
       if constexpr (std::is_default_constructible_v<data_value_type>) {
@@ -449,6 +460,19 @@ struct basic_vecvec {
     bucket_starts_[n_starts] = static_cast<index_value_type>(data_.size());
   }
 
+  // Bucket starts and the number of buckets are index values.
+  static constexpr std::size_t max_index() {
+    return std::numeric_limits<base_t<index_value_type>>::max();
+  }
+
+  typename DataVec::size_type size_after_adding(std::size_t const n) const {
+    using size_type = typename DataVec::size_type;
+    verify(n <= std::numeric_limits<size_type>::max() - data_.size() &&
+               data_.size() + n <= max_index(),
+           "vecvec: too many elements for the index type");
+    return static_cast<size_type>(data_.size() + n);
+  }
+
   bool cista_valid() const {
     return std::is_sorted(bucket_starts_.begin(), bucket_starts_.end()) &&
            (bucket_starts_.empty() ||
-- 
2.43.0


From 99e878be97d8c2656ea5324f1157d54b549f5da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:11 +0000
Subject: [PATCH 91/99] fix: nvec stored positions beyond its index type

---
 include/cista/containers/nvec.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/nvec.h b/include/cista/containers/nvec.h
index c1f3c8e..a6fbadc 100644
--- a/include/cista/containers/nvec.h
+++ b/include/cista/containers/nvec.h
@@ -2,6 +2,7 @@
 
 #include <algorithm>
 #include <cinttypes>
+#include <limits>
 #include <string_view>
 
 #include "cista/containers/array.h"
@@ -482,6 +483,7 @@ struct basic_nvec {
       n_index[i] = index_[i].size();
     }
     auto const n_data = data_.size();
+    to_index(n_index[N - 1]);  // number of entries after adding
     try {
       add<N - 1>(bucket);
     } catch (...) {  // leave no part of the bucket behind
@@ -528,15 +530,22 @@ struct basic_nvec {
 
   auto cista_members() noexcept { return std::tie(index_, data_); }
 
+  static index_value_type to_index(std::size_t const i) {
+    verify(i <= std::numeric_limits<index_value_type>::max() &&
+               i <= std::numeric_limits<size_type>::max(),
+           "nvec: too many elements for the index type");
+    return static_cast<index_value_type>(i);
+  }
+
   template <std::size_t L, typename Container>
   void add(Container&& c) {
     if constexpr (L == 0) {
-      index_[0].push_back(static_cast<size_type>(data_.size() + c.size()));
+      index_[0].push_back(to_index(data_.size() + c.size()));
       data_.insert(std::end(data_), std::make_move_iterator(std::begin(c)),
                    std::make_move_iterator(std::end(c)));
     } else {
       index_[L].push_back(
-          static_cast<size_type>(index_[L - 1].size() + c.size() - 1U));
+          to_index(index_[L - 1].size() + c.size() - std::size_t{1U}));
       for (auto&& x : c) {
         add<L - 1>(x);
       }
-- 
2.43.0


From 6ee283c080371ba2aa37fc1649ade7b55d173097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:11 +0000
Subject: [PATCH 92/99] fix: fws_multimap stored positions beyond its index
 type

---
 include/cista/containers/fws_multimap.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/fws_multimap.h b/include/cista/containers/fws_multimap.h
index cf5af6b..444d0e3 100644
--- a/include/cista/containers/fws_multimap.h
+++ b/include/cista/containers/fws_multimap.h
@@ -3,10 +3,12 @@
 #include <algorithm>
 #include <cassert>
 #include <iterator>
+#include <limits>
 #include <type_traits>
 
 #include "cista/containers/vector.h"
 #include "cista/strong.h"
+#include "cista/verify.h"
 
 namespace cista {
 
@@ -165,13 +167,16 @@ struct fws_multimap {
 
   void finish_key() {
     assert(!complete_);
+    verify(index_.size() < max_index(),
+           "fws_multimap: too many keys for the index type");
+    auto const next_start = data_index();
     index_.push_back(current_start_);
-    current_start_ = static_cast<index_t>(data_.size());
+    current_start_ = next_start;
   }
 
   void finish_map() {
     assert(!complete_);
-    index_.push_back(static_cast<index_t>(data_.size()));
+    index_.push_back(data_index());
     complete_ = true;
   }
 
@@ -199,6 +204,16 @@ struct fws_multimap {
   std::size_t data_size() const { return data_.size(); }
   bool finished() const { return complete_; }
 
+  static constexpr std::size_t max_index() {
+    return std::numeric_limits<base_t<index_t>>::max();
+  }
+
+  index_t data_index() const {
+    verify(data_.size() <= max_index(),
+           "fws_multimap: too many entries for the index type");
+    return static_cast<index_t>(data_.size());
+  }
+
   bool cista_valid() const {
     return std::is_sorted(index_.begin(), index_.end()) &&
            (index_.empty() || to_idx(index_.back()) <= data_.size()) &&
-- 
2.43.0


From 17d8704bafed2fea8e82a03a6f9f97bba8c6a130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:11 +0000
Subject: [PATCH 93/99] fix: mutable_fws_multimap stored positions beyond its
 size type

---
 include/cista/containers/mutable_fws_multimap.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/mutable_fws_multimap.h b/include/cista/containers/mutable_fws_multimap.h
index cb55c5c..a14f9d5 100644
--- a/include/cista/containers/mutable_fws_multimap.h
+++ b/include/cista/containers/mutable_fws_multimap.h
@@ -524,6 +524,8 @@ struct dynamic_fws_multimap_base {
     assert(requested_capacity > 0U);
     auto const new_capacity =
         size_type{cista::next_power_of_two(to_idx(requested_capacity))};
+    verify(new_capacity >= requested_capacity,
+           "dynamic_fws_multimap: too many entries in a bucket");
     auto const new_order = get_order(new_capacity);
 
     verify(new_order <= Log2MaxEntriesPerBucket,
@@ -545,12 +547,12 @@ struct dynamic_fws_multimap_base {
       if (idx.begin_ + idx.capacity_ == data_.size()) {
         // last bucket -> resize data vector
         auto const additional_capacity = new_capacity - idx.capacity_;
-        data_.resize(data_.size() + additional_capacity);
+        data_.resize(data_size_after_adding(additional_capacity));
         idx.capacity_ = new_capacity;
       } else {
         // allocate new bucket at the end
         auto const new_begin = data_.size();
-        data_.resize(data_.size() + new_capacity);
+        data_.resize(data_size_after_adding(new_capacity));
         move_entries(map_index, idx.begin_, new_begin, idx.size_);
         idx.begin_ = new_begin;
         idx.capacity_ = new_capacity;
@@ -559,6 +561,12 @@ struct dynamic_fws_multimap_base {
     }
   }
 
+  size_type data_size_after_adding(size_type const n) const {
+    verify(data_.size() <= std::numeric_limits<size_type>::max() - n,
+           "dynamic_fws_multimap: too many entries for the size type");
+    return static_cast<size_type>(data_.size() + n);
+  }
+
   std::optional<index_type> get_free_bucket(size_type const requested_order) {
     assert(requested_order <= Log2MaxEntriesPerBucket);
 
-- 
2.43.0


From 46f9df3672156b394c61430dc38a43ee6078ed4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:11 +0000
Subject: [PATCH 94/99] fix: paged created pages beyond its size type

---
 include/cista/containers/paged.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/paged.h b/include/cista/containers/paged.h
index a7c906c..d032d39 100644
--- a/include/cista/containers/paged.h
+++ b/include/cista/containers/paged.h
@@ -71,7 +71,12 @@ struct paged {
       return {size, capacity, start};
     } else {
       auto const start = data_.size();
-      data_.resize(data_.size() + capacity);
+      verify(start <= std::numeric_limits<size_type>::max() - capacity &&
+                 start <= std::numeric_limits<
+                              typename DataVec::size_type>::max() -
+                              capacity,
+             "paged::create_page: too many pages for the size type");
+      data_.resize(static_cast<typename DataVec::size_type>(start + capacity));
       return {size, capacity, start};
     }
   }
-- 
2.43.0


From 5c1d7239f9d2979ca066084eaef0216a9ef109e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:11 +0000
Subject: [PATCH 95/99] fix: paged_vecvec created more buckets than its key
 type counts

---
 include/cista/containers/paged_vecvec.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/paged_vecvec.h b/include/cista/containers/paged_vecvec.h
index 7d1d15f..884e5ca 100644
--- a/include/cista/containers/paged_vecvec.h
+++ b/include/cista/containers/paged_vecvec.h
@@ -1,8 +1,10 @@
 #pragma once
 
 #include <algorithm>
+#include <limits>
 
 #include "cista/strong.h"
+#include "cista/verify.h"
 
 namespace cista {
 
@@ -314,6 +316,7 @@ struct paged_vecvec {
   void emplace_back(Container&& bucket) {
     verify(bucket.size() <= Paged::max_page_size,
            "paged_vecvec: bucket size > max page size");
+    verify_size(idx_.size() + std::size_t{1U});
     auto p = paged_.create_page(
         static_cast<typename Paged::page_size_type>(bucket.size()));
     paged_.copy(p, std::begin(bucket), std::end(bucket));
@@ -326,7 +329,10 @@ struct paged_vecvec {
     emplace_back(x);
   }
 
-  void emplace_back_empty() { idx_.emplace_back(paged_.create_page(0U)); }
+  void emplace_back_empty() {
+    verify_size(idx_.size() + std::size_t{1U});
+    idx_.emplace_back(paged_.create_page(0U));
+  }
 
   template <typename T = data_value_type,
             typename = std::enable_if_t<std::is_convertible_v<T, char const>>>
@@ -340,13 +346,20 @@ struct paged_vecvec {
   void insert(Key const& k, Container&& bucket) {
     verify(bucket.size() <= Paged::max_page_size,
            "paged_vecvec: bucket size > max page size");
+    verify_size(idx_.size() + std::size_t{1U});
     auto p = paged_.create_page(
         static_cast<typename Paged::page_size_type>(bucket.size()));
     paged_.copy(p, std::begin(bucket), std::end(bucket));
     idx_.insert(idx_.begin() + to_idx(k), p);
   }
 
+  static void verify_size(std::size_t const size) {
+    verify(size <= std::numeric_limits<base_t<Key>>::max(),
+           "paged_vecvec: too many buckets for the key type");
+  }
+
   void resize(size_type const size) {
+    verify_size(size);
     for (auto i = size; i < idx_.size(); ++i) {
       paged_.free_page(idx_[i]);
     }
-- 
2.43.0


From f97e22fcaad8e181f88c346efa02e67079bf76ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:11 +0000
Subject: [PATCH 96/99] fix: strings cut off texts longer than their length
 type

---
 include/cista/containers/string.h | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/include/cista/containers/string.h b/include/cista/containers/string.h
index 4dcc467..ffe8c29 100644
--- a/include/cista/containers/string.h
+++ b/include/cista/containers/string.h
@@ -3,6 +3,7 @@
 #include <cinttypes>
 #include <cstring>
 
+#include <limits>
 #include <ostream>
 #include <string>
 #include <string_view>
@@ -10,6 +11,7 @@
 #include "cista/containers/ptr.h"
 #include "cista/exception.h"
 #include "cista/type_traits.h"
+#include "cista/verify.h"
 
 namespace cista {
 
@@ -19,8 +21,14 @@ struct generic_string {
   using msize_t = std::uint32_t;
   using value_type = CharT;
 
-  static msize_t mstrlen(CharT const* s) noexcept {
-    return static_cast<msize_t>(std::char_traits<CharT>::length(s));
+  static msize_t to_msize(std::size_t const size) {
+    verify(size <= std::numeric_limits<msize_t>::max(),
+           "cista::string: too long");
+    return static_cast<msize_t>(size);
+  }
+
+  static msize_t mstrlen(CharT const* s) {
+    return to_msize(std::char_traits<CharT>::length(s));
   }
 
   static constexpr struct owning_t {
@@ -84,11 +92,11 @@ struct generic_string {
   }
 
   void set_owning(std::basic_string<CharT> const& s) {
-    set_owning(s.data(), static_cast<msize_t>(s.size()));
+    set_owning(s.data(), to_msize(s.size()));
   }
 
   void set_owning(std::basic_string_view<CharT> s) {
-    set_owning(s.data(), static_cast<msize_t>(s.size()));
+    set_owning(s.data(), to_msize(s.size()));
   }
 
   void set_owning(CharT const* str) { set_owning(str, mstrlen(str)); }
@@ -130,11 +138,11 @@ struct generic_string {
   }
 
   void set_non_owning(std::basic_string<CharT> const& v) {
-    set_non_owning(v.data(), static_cast<msize_t>(v.size()));
+    set_non_owning(v.data(), to_msize(v.size()));
   }
 
   void set_non_owning(std::basic_string_view<CharT> v) {
-    set_non_owning(v.data(), static_cast<msize_t>(v.size()));
+    set_non_owning(v.data(), to_msize(v.size()));
   }
 
   void set_non_owning(CharT const* str) { set_non_owning(str, mstrlen(str)); }
@@ -382,10 +390,11 @@ struct generic_string {
   }
   constexpr bool starts_with(
       std::basic_string_view<CharT> const& sv) const noexcept {
-    return starts_with(sv.data(), static_cast<msize_t>(sv.size()));
+    return sv.size() <= size() &&
+           starts_with(sv.data(), static_cast<msize_t>(sv.size()));
   }
   constexpr bool starts_with(CharT const* s) const noexcept {
-    return starts_with(s, mstrlen(s));
+    return starts_with(std::basic_string_view<CharT>{s});
   }
   constexpr bool starts_with(CharT const* s, msize_t size_s) const noexcept {
     if (size_s > size()) {
@@ -411,10 +420,11 @@ struct generic_string {
   }
   constexpr bool ends_with(
       std::basic_string_view<CharT> const& sv) const noexcept {
-    return ends_with(sv.data(), static_cast<msize_t>(sv.size()));
+    return sv.size() <= size() &&
+           ends_with(sv.data(), static_cast<msize_t>(sv.size()));
   }
   constexpr bool ends_with(CharT const* s) const noexcept {
-    return ends_with(s, mstrlen(s));
+    return ends_with(std::basic_string_view<CharT>{s});
   }
   constexpr bool ends_with(CharT const* s, msize_t size_s) const noexcept {
     if (size_s > size()) {
-- 
2.43.0


From 80786d9051f36f64e4409264e84dae15ca6d786c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:11 +0000
Subject: [PATCH 97/99] fix: cstrings cut off or overran texts longer than half
 of their length type

---
 include/cista/containers/cstring.h | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/cista/containers/cstring.h b/include/cista/containers/cstring.h
index 5557c31..f14b736 100644
--- a/include/cista/containers/cstring.h
+++ b/include/cista/containers/cstring.h
@@ -4,6 +4,7 @@
 #include <cinttypes>
 #include <cstring>
 
+#include <limits>
 #include <ostream>
 #include <string>
 #include <string_view>
@@ -11,6 +12,7 @@
 #include "cista/containers/ptr.h"
 #include "cista/exception.h"
 #include "cista/type_traits.h"
+#include "cista/verify.h"
 
 namespace cista {
 
@@ -25,10 +27,14 @@ struct generic_cstring {
   using msize_t = std::uint32_t;
   using value_type = char;
 
-  static msize_t mstrlen(char const* s) noexcept {
-    return static_cast<msize_t>(std::strlen(s));
+  static msize_t to_msize(std::size_t const size) {
+    verify(size <= std::numeric_limits<msize_t>::max(),
+           "cista::cstring: too long");
+    return static_cast<msize_t>(size);
   }
 
+  static msize_t mstrlen(char const* s) { return to_msize(std::strlen(s)); }
+
   static constexpr struct owning_t {
   } owning{};
   static constexpr struct non_owning_t {
@@ -68,11 +74,11 @@ struct generic_cstring {
   }
 
   void set_owning(std::string const& s) {
-    set_owning(s.data(), static_cast<msize_t>(s.size()));
+    set_owning(s.data(), to_msize(s.size()));
   }
 
   void set_owning(std::string_view s) {
-    set_owning(s.data(), static_cast<msize_t>(s.size()));
+    set_owning(s.data(), to_msize(s.size()));
   }
 
   void set_owning(char const* str) {
@@ -94,8 +100,9 @@ struct generic_cstring {
     if (len == 0U) {
       return;
     }
-    s_.remaining_ = static_cast<int8_t>(
-        std::max(static_cast<int32_t>(short_length_limit - len), -1));
+    s_.remaining_ = len <= short_length_limit
+                        ? static_cast<int8_t>(short_length_limit - len)
+                        : int8_t{-1};
     if (is_short()) {
       std::memcpy(s_.s_, str, len);
     } else {
@@ -105,11 +112,11 @@ struct generic_cstring {
   }
 
   void set_non_owning(std::string const& v) {
-    set_non_owning(v.data(), static_cast<msize_t>(v.size()));
+    set_non_owning(v.data(), to_msize(v.size()));
   }
 
   void set_non_owning(std::string_view v) {
-    set_non_owning(v.data(), static_cast<msize_t>(v.size()));
+    set_non_owning(v.data(), to_msize(v.size()));
   }
 
   void set_non_owning(char const* str) {
@@ -324,7 +331,7 @@ struct generic_cstring {
 
     heap() = default;
     heap(msize_t len, owning_t) {
-      char* mem = static_cast<char*>(std::malloc(len + 1));
+      char* mem = static_cast<char*>(std::malloc(static_cast<std::size_t>(len) + 1U));
       if (mem == nullptr) {
         throw_exception(std::bad_alloc{});
       }
-- 
2.43.0


From ec09e0247bf0543c47e3394ecb9f8e04c19b27a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:11 +0000
Subject: [PATCH 98/99] fix: mmap lost its content when a size above 2^63 was
 requested

---
 include/cista/mmap.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/cista/mmap.h b/include/cista/mmap.h
index 63dad28..051dfb3 100755
--- a/include/cista/mmap.h
+++ b/include/cista/mmap.h
@@ -15,6 +15,9 @@
 #include <unistd.h>
 #endif
 
+#include <algorithm>
+#include <limits>
+
 #include "cista/next_power_of_2.h"
 #include "cista/targets/file.h"
 
@@ -86,7 +89,7 @@ struct mmap {
     verify(prot_ == protection::WRITE || prot_ == protection::MODIFY,
            "read-only not resizable");
     if (size_ < new_size) {
-      resize_map(next_power_of_two(new_size));
+      resize_map(std::max(next_power_of_two(new_size), new_size));
     }
     used_size_ = new_size;
   }
@@ -95,7 +98,7 @@ struct mmap {
     verify(prot_ == protection::WRITE || prot_ == protection::MODIFY,
            "read-only not resizable");
     if (size_ < new_size) {
-      resize_map(next_power_of_two(new_size));
+      resize_map(std::max(next_power_of_two(new_size), new_size));
     }
   }
 
-- 
2.43.0


From 6d0bf9cd14b865fd1ee7f032259e47678eb35aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:11 +0000
Subject: [PATCH 99/99] fix: mmap_vec wrapped around at the end of its size
 type

---
 include/cista/containers/mmap_vec.h | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/include/cista/containers/mmap_vec.h b/include/cista/containers/mmap_vec.h
index cdc4b69..a800035 100644
--- a/include/cista/containers/mmap_vec.h
+++ b/include/cista/containers/mmap_vec.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <cassert>
+#include <limits>
 
 #include "cista/mmap.h"
 #include "cista/strong.h"
@@ -24,11 +25,14 @@ struct basic_mmap_vec {
 
   explicit basic_mmap_vec(cista::mmap mmap)
       : mmap_{std::move(mmap)},
-        used_size_{static_cast<size_type>(mmap_.size() / sizeof(T))} {}
+        used_size_{static_cast<size_type>(mmap_.size() / sizeof(T))} {
+    verify(mmap_.size() / sizeof(T) <= std::numeric_limits<size_type>::max(),
+           "cista::mmap_vec: too many elements for its size type");
+  }
 
   void push_back(T const& t) {
     auto const copy = t;  // t may be an element, resizing moves the elements
-    mmap_.resize(sizeof(T) * (used_size_ + 1U));
+    mmap_.resize(num_bytes(used_size_, 1U));
     ++used_size_;
     (*this)[Key{used_size_ - 1U}] = copy;
   }
@@ -36,7 +40,7 @@ struct basic_mmap_vec {
   template <typename... Args>
   T& emplace_back(Args&&... el) {
     auto const value = T{std::forward<Args>(el)...};  // el may be an element
-    mmap_.resize(sizeof(T) * (used_size_ + 1U));
+    mmap_.resize(num_bytes(used_size_, 1U));
     T* ptr = new (data() + used_size_) T{value};
     ++used_size_;
     return *ptr;
@@ -73,10 +77,19 @@ struct basic_mmap_vec {
     return begin()[to_idx(index)];
   }
 
-  void reserve(size_type const size) { mmap_.reserve(size * sizeof(T)); }
+  static std::size_t num_bytes(size_type const size, std::size_t const added) {
+    verify(added <= std::numeric_limits<size_type>::max() - size,
+           "cista::mmap_vec: too many elements for its size type");
+    auto const n = static_cast<std::size_t>(size) + added;
+    verify(n <= std::numeric_limits<std::size_t>::max() / sizeof(T),
+           "cista::mmap_vec: too many elements");
+    return n * sizeof(T);
+  }
+
+  void reserve(size_type const size) { mmap_.reserve(num_bytes(size, 0U)); }
 
   void resize(size_type const size) {
-    mmap_.resize(size * sizeof(T));
+    mmap_.resize(num_bytes(size, 0U));
     for (auto i = used_size_; i < size; ++i) {
       new (data() + i) T{};
     }
@@ -137,8 +150,10 @@ struct basic_mmap_vec {
     }
 
     auto const pos_idx = pos - begin();
-    auto const new_count = static_cast<size_type>(std::distance(first, last));
-    mmap_.resize((used_size_ + new_count) * sizeof(T));
+    auto const range_size = std::distance(first, last);
+    verify(range_size >= 0, "cista::mmap_vec::insert: invalid range");
+    mmap_.resize(num_bytes(used_size_, static_cast<std::size_t>(range_size)));
+    auto const new_count = static_cast<size_type>(range_size);
     pos = begin() + pos_idx;
 
     for (auto src_last = end() - 1, dest_last = end() + new_count - 1;
-- 
2.43.0

