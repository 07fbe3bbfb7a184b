From 9d5f4c762aed65f2c992decf8fae3a4ec73e9be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 01/56] fix: read a packet built from a byte span from its own
 copy

basic_buffer(gsl::span) copied the bytes but kept pointing at the caller's
memory, so the packet dangled once the span's memory went away.
---
 include/dart.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/dart.h b/include/dart.h
index b3ce7ac..d3a44a6 100644
--- a/include/dart.h
+++ b/include/dart.h
@@ -8007,9 +8007,12 @@ namespace dart {
         >
       >
       explicit basic_buffer(gsl::span<gsl::byte const> buffer) :
-        raw({detail::raw_type::object, buffer.data()}),
+        raw({detail::raw_type::object, nullptr}),
         buffer_ref(allocate_pointer(buffer))
-      {}
+      {
+        // Read from the copy we own, not from the memory we were given.
+        raw.buffer = buffer_ref.get();
+      }
 
       /**
        *  @brief
-- 
2.43.0


From 2acfacfeb1c39a8b25ca09f551ca16342ada03c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 02/56] fix: find finalized keys of 255 or more bytes

The vtable caches key lengths capped at 255, so an entry at the cap may belong
to a longer key, and a 255 byte key compared by prefix instead of by length.
---
 include/dart/common.tcc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/dart/common.tcc b/include/dart/common.tcc
index e8b306a..25d50f0 100644
--- a/include/dart/common.tcc
+++ b/include/dart/common.tcc
@@ -198,9 +198,11 @@ namespace dart {
       constexpr auto max_len = std::numeric_limits<uint8_t>::max();
 
       // Compare first by string lengths, then by lexical ordering.
-      // If they are longer than us, but we're capped at the max value,
-      // return equality to force key lookup to fall back on the general case.
-      if (our_len < their_len) return (our_len == max_len) ? 0 : -1;
+      // If we're capped at the max value, and they are at least that long, we
+      // don't know which is longer, so return equality to force key lookup to
+      // fall back on the general case.
+      if (our_len == max_len && their_len >= max_len) return 0;
+      else if (our_len < their_len) return -1;
       else if (our_len == their_len) return compare_impl(str.data(), their_len);
       else return 1;
     }
-- 
2.43.0


From 838ea895715644fb74cda871f8c82b2faa97ce25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 03/56] fix: find finalized keys with non-ASCII prefixes

Keys are sorted by unsigned bytes, but the cached prefixes were compared as
signed characters, so the binary search went the wrong way.
---
 include/dart/common.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dart/common.tcc b/include/dart/common.tcc
index 25d50f0..4932ef3 100644
--- a/include/dart/common.tcc
+++ b/include/dart/common.tcc
@@ -13,7 +13,8 @@ namespace dart {
 
     template <size_t bytes>
     int prefix_compare_impl(char const* prefix, char const* str, size_t const len) noexcept {
-      if (len && *prefix != *str) return *prefix - *str;
+      // Keys are sorted by unsigned bytes, so compare them that way.
+      if (len && *prefix != *str) return static_cast<unsigned char>(*prefix) - static_cast<unsigned char>(*str);
       else if (len) return prefix_compare_impl<bytes - 1>(prefix + 1, str + 1, len - 1);
       else return *prefix;
     }
-- 
2.43.0


From 9a4befa9fed8be2b2f01c9b546128af1e500f9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 04/56] fix: find finalized keys that contain NUL bytes

Vtable entries were built from C strings, so the cached length stopped at the
first NUL.
---
 include/dart/object.tcc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/dart/object.tcc b/include/dart/object.tcc
index 8258bc3..4b67c38 100644
--- a/include/dart/object.tcc
+++ b/include/dart/object.tcc
@@ -280,7 +280,8 @@ namespace dart {
 
         // Add an entry to the vtable.
         auto val_type = json_identify<RefCount>(it->value);
-        new(entry++) object_entry(val_type, static_cast<uint32_t>(offset), it->name.GetString());
+        new(entry++) object_entry(val_type, static_cast<uint32_t>(offset),
+            shim::string_view {it->name.GetString(), it->name.GetStringLength()});
 
         // Layout our key.
         offset += json_lower<RefCount>(aligned, it->name);
@@ -319,7 +320,7 @@ namespace dart {
         // Add an entry to the vtable.
         new(entry++)
           object_entry(pair.value.get_raw_type(),
-            static_cast<uint32_t>(offset), pair.key.str());
+            static_cast<uint32_t>(offset), pair.key.strv());
 
         // Layout our key.
         offset += pair.key.layout(aligned);
@@ -358,7 +359,7 @@ namespace dart {
         // Add an entry to the vtable.
         new(entry++)
           object_entry(field.second.get_raw_type(),
-              static_cast<uint32_t>(offset), field.first.str());
+              static_cast<uint32_t>(offset), field.first.strv());
 
         // Layout our key.
         offset += field.first.layout(aligned);
@@ -410,7 +411,7 @@ namespace dart {
         // Add an entry to the vtable.
         auto* key = get_string(raw_key);
         new(entry++) object_entry(raw_val.type,
-            static_cast<uint32_t>(offset), key->get_strv().data());
+            static_cast<uint32_t>(offset), key->get_strv());
 
         // Copy in our key.
         auto key_len = find_sizeof<RefCount>(raw_key);
@@ -459,7 +460,7 @@ namespace dart {
         // Add an entry to the vtable.
         auto* key = get_string(raw_key);
         new(entry++) object_entry(raw_val.type,
-            static_cast<uint32_t>(offset), key->get_strv().data());
+            static_cast<uint32_t>(offset), key->get_strv());
 
         // Copy in our key.
         auto key_len = find_sizeof<RefCount>(raw_key);
-- 
2.43.0


From bedb7e672a78c192d944bca6476f32dcefe4dc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 05/56] fix: return end() when a finalized object is searched
 for a missing key

The index handed to the iterator was uninitialised in that case.
---
 include/dart/object.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/object.tcc b/include/dart/object.tcc
index 4b67c38..27852a9 100644
--- a/include/dart/object.tcc
+++ b/include/dart/object.tcc
@@ -680,14 +680,14 @@ namespace dart {
 
     template <template <class> class RefCount>
     auto object<RefCount>::get_it(shim::string_view const key) const noexcept -> ll_iterator<RefCount> {
-      size_t idx;
+      size_t idx = size();
       get_key(key, [&] (auto target) { idx = target; });
       return ll_iterator<RefCount>(idx, DART_FROM_THIS, load_value);
     }
 
     template <template <class> class RefCount>
     auto object<RefCount>::get_key_it(shim::string_view const key) const noexcept -> ll_iterator<RefCount> {
-      size_t idx;
+      size_t idx = size();
       get_key(key, [&] (auto target) { idx = target; });
       return ll_iterator<RefCount>(idx, DART_FROM_THIS, load_key);
     }
-- 
2.43.0


From 7a665dd815a8f02cb756e3b89e1211ae59e69bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 06/56] fix: do not overrun the allocation when projecting more
 keys than exist

The vtable of the projection was sized by the number of requested keys, while
its memory was sized by the base object.
---
 include/dart/object.tcc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dart/object.tcc b/include/dart/object.tcc
index 27852a9..30d6d8d 100644
--- a/include/dart/object.tcc
+++ b/include/dart/object.tcc
@@ -446,7 +446,9 @@ namespace dart {
     template <class Key>
     object<RefCount>::object(object const* base, gsl::span<Key const*> key_ptrs) noexcept : elems(0) {
       // Need to guess again. To see the reasoning for this, check the object merge constructor.
-      auto guess = key_ptrs.size();
+      // We can be asked for more keys than the base object has, but the memory we're
+      // being constructed in is only as large as the base object.
+      auto guess = std::min(static_cast<size_t>(key_ptrs.size()), base->size());
 
       // Iterate over our elements and write each one into the buffer.
       object_entry* entry = vtable();
-- 
2.43.0


From e8929165f9f36d1ef6cf8e3d134148f61b03c8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:28 +0000
Subject: [PATCH 07/56] fix: reserve space for alignment when merging two
 finalized objects

Interleaving the fields of two tightly packed objects needs padding that neither
had, so inject() on a finalized object could write past its allocation.
---
 include/dart/common.tcc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dart/common.tcc b/include/dart/common.tcc
index 4932ef3..479ce3e 100644
--- a/include/dart/common.tcc
+++ b/include/dart/common.tcc
@@ -253,7 +253,10 @@ namespace dart {
       auto* raw_incoming = get_object<RefCount>(incoming.raw);
       
       // Figure out the maximum amount of space we could need for the merged object.
+      // Interleaving the fields of the two objects can require alignment
+      // in front of every value that neither of them needed on their own.
       auto total_size = raw_base->get_sizeof() + raw_incoming->get_sizeof();
+      total_size += (raw_base->size() + raw_incoming->size()) * alignment_of<RefCount>(raw_type::object);
 
       // Merge it.
       auto ref = aligned_alloc<RefCount>(total_size, raw_type::object, [&] (auto* ptr) {
-- 
2.43.0


From 5d081aebc577b00b8994eb3283d770b177169a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 08/56] fix: do not create a reference cycle when a heap is
 inserted into itself

---
 include/dart/heap/api.tcc | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/include/dart/heap/api.tcc b/include/dart/heap/api.tcc
index a0316f8..b913b53 100644
--- a/include/dart/heap/api.tcc
+++ b/include/dart/heap/api.tcc
@@ -118,13 +118,15 @@ namespace dart {
   template <template <class> class RefCount>
   template <class KeyType, class ValueType, class EnableIf>
   auto basic_heap<RefCount>::insert(KeyType&& key, ValueType&& value) -> iterator {
+    // Cast and forward the key/value into something we can insert.
+    // Take ownership of both before checking whether we're shared, otherwise inserting
+    // a heap into itself would create a reference cycle.
+    basic_heap tmp_key = convert::cast<basic_heap>(std::forward<KeyType>(key));
+    basic_heap tmp_value = convert::cast<basic_heap>(std::forward<ValueType>(value));
+
     // Perform our copy on write if our heap is shared.
     copy_on_write();
 
-    // Cast and forward the key/value into something we can insert.
-    auto&& tmp_key = convert::cast<basic_heap>(std::forward<KeyType>(key));
-    auto&& tmp_value = convert::cast<basic_heap>(std::forward<ValueType>(value));
-
     // Perform the insertion.
     if (tmp_key.is_str()) {
       // Check to make sure we'll be able to encode the given string.
@@ -135,7 +137,7 @@ namespace dart {
       // Attempt the insertion.
       // Sucks that we have to copy the value here, but insert might fail,
       // and the standard doesn't guarantee that tmp_value wouldn't be consumed if so.
-      auto val = std::make_pair(std::forward<decltype(tmp_key)>(tmp_key), tmp_value);
+      auto val = std::make_pair(std::move(tmp_key), tmp_value);
       auto res = get_fields().insert(std::move(val));
 
       // If the key was already present, insert will fail without consuming our value.
@@ -146,7 +148,7 @@ namespace dart {
       auto& elements = get_elements();
       auto pos = static_cast<size_type>(tmp_key.integer());
       if (pos > elements.size()) throw std::out_of_range("dart::heap cannot insert at out of range index");
-      auto new_it = elements.insert(elements.begin() + pos, std::forward<decltype(tmp_value)>(tmp_value));
+      auto new_it = elements.insert(elements.begin() + pos, std::move(tmp_value));
       return detail::dynamic_iterator<RefCount> {new_it, [] (auto& it) -> auto const& { return *it; }};
     } else {
       throw type_error("dart::heap cannot insert keys with non string/integer types");
@@ -170,13 +172,15 @@ namespace dart {
   template <template <class> class RefCount>
   template <class KeyType, class ValueType, class EnableIf>
   auto basic_heap<RefCount>::set(KeyType&& key, ValueType&& value) -> iterator {
+    // Cast and forward the key/value into something we can use.
+    // Take ownership of both before checking whether we're shared, otherwise setting
+    // a heap as its own member would create a reference cycle.
+    basic_heap tmp_key = convert::cast<basic_heap>(std::forward<KeyType>(key));
+    basic_heap tmp_val = convert::cast<basic_heap>(std::forward<ValueType>(value));
+
     // Perform our copy on write if our heap is shared.
     copy_on_write();
 
-    // Cast and forward the key/value into something we can use.
-    auto&& tmp_key = convert::cast<basic_heap>(std::forward<KeyType>(key));
-    auto&& tmp_val = convert::cast<basic_heap>(std::forward<ValueType>(value));
-
     // Update the given value IF present.
     if (tmp_key.is_str()) {
       if (tmp_key.size() > std::numeric_limits<uint16_t>::max()) {
@@ -187,14 +191,14 @@ namespace dart {
       auto& fields = get_fields();
       auto it = fields.find(tmp_key);
       if (it == fields.end()) throw std::out_of_range("dart::heap cannot set a non-existent key");
-      it->second = std::forward<decltype(tmp_val)>(tmp_val);
+      it->second = std::move(tmp_val);
       return detail::dynamic_iterator<RefCount>{it, [] (auto& it) -> auto const& { return it->second; }};
     } else if (tmp_key.is_integer()) {
       auto& elements = get_elements();
       auto pos = static_cast<size_type>(tmp_key.integer());
       if (pos >= elements.size()) throw std::out_of_range("dart::heap cannot set a value at out of range index");
       auto it = elements.begin() + pos;
-      *it = std::forward<decltype(tmp_val)>(tmp_val);
+      *it = std::move(tmp_val);
       return detail::dynamic_iterator<RefCount> {it, [] (auto& it) -> auto const& { return *it; }};
     } else {
       throw type_error("dart::heap cannot set keys with non string/integer types");
-- 
2.43.0


From ab6d53642e13c46da665f93827c2b7224cf0a14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 09/56] fix: copy on write when reserving, resizing or clearing
 a shared heap

---
 include/dart/heap/api.tcc   | 1 +
 include/dart/heap/array.tcc | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/dart/heap/api.tcc b/include/dart/heap/api.tcc
index b913b53..847d199 100644
--- a/include/dart/heap/api.tcc
+++ b/include/dart/heap/api.tcc
@@ -259,6 +259,7 @@ namespace dart {
   template <template <class> class RefCount>
   template <bool enabled, class EnableIf>
   void basic_heap<RefCount>::clear() {
+    copy_on_write();
     if (is_object()) get_fields().clear();
     else if (is_array()) get_elements().clear();
     else throw type_error("dart::heap is not an aggregate and cannot be cleared");
diff --git a/include/dart/heap/array.tcc b/include/dart/heap/array.tcc
index 45e0783..c01b4a6 100644
--- a/include/dart/heap/array.tcc
+++ b/include/dart/heap/array.tcc
@@ -123,13 +123,18 @@ namespace dart {
   template <template <class> class RefCount>
   template <bool enabled, class EnableIf>
   void basic_heap<RefCount>::reserve(size_type count) {
+    copy_on_write();
     get_elements().reserve(count);
   }
 
   template <template <class> class RefCount>
   template <class T, class EnableIf>
   void basic_heap<RefCount>::resize(size_type count, T const& def) {
-    get_elements().resize(count, convert::cast<basic_heap>(def));
+    // Take ownership of the default before checking whether we're shared,
+    // it might be the very array we're about to modify.
+    basic_heap tmp_def = convert::cast<basic_heap>(def);
+    copy_on_write();
+    get_elements().resize(count, tmp_def);
   }
 
   template <template <class> class RefCount>
-- 
2.43.0


From 7c4f3cf2d70189548c6afe5de6deda80d2e9711e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:16 +0000
Subject: [PATCH 10/56] fix: throw when a finalized non-boolean is read as a
 boolean

---
 include/dart/buffer/primitive.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dart/buffer/primitive.tcc b/include/dart/buffer/primitive.tcc
index 858fea8..ce24836 100644
--- a/include/dart/buffer/primitive.tcc
+++ b/include/dart/buffer/primitive.tcc
@@ -33,7 +33,8 @@ namespace dart {
 
   template <template <class> class RefCount>
   bool basic_buffer<RefCount>::boolean() const {
-    return detail::get_primitive<bool>(raw)->get_data();
+    if (is_boolean()) return detail::get_primitive<bool>(raw)->get_data();
+    else throw type_error("dart::buffer has no boolean value");
   }
 
 }
-- 
2.43.0


From 50ee312e2b9c8218ddec671606cf4ff15280fbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:16 +0000
Subject: [PATCH 11/56] fix: compare strings that contain NUL bytes in full

---
 include/dart/common.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/common.h b/include/dart/common.h
index 7527ef3..311c85f 100644
--- a/include/dart/common.h
+++ b/include/dart/common.h
@@ -307,7 +307,7 @@ namespace dart {
     struct dynamic_string_layout {
       bool operator ==(dynamic_string_layout const& other) const noexcept {
         if (len != other.len) return false;
-        else return !strcmp(ptr.get(), other.ptr.get());
+        else return !memcmp(ptr.get(), other.ptr.get(), len);
       }
       bool operator !=(dynamic_string_layout const& other) const noexcept {
         return !(*this == other);
@@ -319,7 +319,7 @@ namespace dart {
     struct inline_string_layout {
       bool operator ==(inline_string_layout const& other) const noexcept {
         if (left != other.left) return false;
-        else return !strcmp(buffer.data(), other.buffer.data());
+        else return !memcmp(buffer.data(), other.buffer.data(), buffer.size() - left);
       }
       bool operator !=(inline_string_layout const& other) const noexcept {
         return !(*this == other);
-- 
2.43.0


From 09b7f57f9e49b5d1dc7e81fefa5f172f1d51d709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:23 +0000
Subject: [PATCH 12/56] fix: keep the order of operands when a native number is
 on the left

---
 include/dart/operators.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dart/operators.tcc b/include/dart/operators.tcc
index 6637580..7ddf477 100644
--- a/include/dart/operators.tcc
+++ b/include/dart/operators.tcc
@@ -86,7 +86,7 @@ namespace dart {
     >                                                                                     \
   >                                                                                       \
   double operator op(T lhs, basic_number<Number> const& rhs) noexcept {                   \
-    return rhs op lhs;                                                                    \
+    return lhs op rhs.numeric();                                                          \
   }
 
   DART_DEFINE_ARITHMETIC_OPERATORS(+);
-- 
2.43.0


From 7864edc42279691bb6763aac3a378a386cd968cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 13/56] fix: do not fall off the end of a value-returning
 lambda in packet at_front and at_back

---
 include/dart/packet/array.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/packet/array.tcc b/include/dart/packet/array.tcc
index c19caa5..405bc83 100644
--- a/include/dart/packet/array.tcc
+++ b/include/dart/packet/array.tcc
@@ -205,7 +205,7 @@ namespace dart {
   template <template <class> class RefCount>
   template <bool enabled, class EnableIf>
   basic_packet<RefCount>&& basic_packet<RefCount>::at_front() && {
-    shim::visit([] (auto& v) -> basic_packet { v = std::move(v).at_front(); }, impl);
+    shim::visit([] (auto& v) { v = std::move(v).at_front(); }, impl);
     return std::move(*this);
   }
 
@@ -217,7 +217,7 @@ namespace dart {
   template <template <class> class RefCount>
   template <bool enabled, class EnableIf>
   basic_packet<RefCount>&& basic_packet<RefCount>::at_back() && {
-    shim::visit([] (auto& v) -> basic_packet { v = std::move(v).at_back(); }, impl);
+    shim::visit([] (auto& v) { v = std::move(v).at_back(); }, impl);
     return std::move(*this);
   }
 
-- 
2.43.0


From 1235f47a1a4899a2a35a54d20a3b3313c5ff6e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 14/56] fix: support front_or and back_or on finalized packets

---
 include/dart/packet/array.tcc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dart/packet/array.tcc b/include/dart/packet/array.tcc
index 405bc83..2a6d50c 100644
--- a/include/dart/packet/array.tcc
+++ b/include/dart/packet/array.tcc
@@ -236,7 +236,8 @@ namespace dart {
   template <template <class> class RefCount>
   template <class T, class EnableIf>
   basic_packet<RefCount> basic_packet<RefCount>::front_or(T&& opt) const {
-    return get_heap().front_or(std::forward<T>(opt));
+    if (is_array() && !empty()) return front();
+    else return convert::cast<basic_packet>(std::forward<T>(opt));
   }
 
   template <template <class> class RefCount>
@@ -254,7 +255,8 @@ namespace dart {
   template <template <class> class RefCount>
   template <class T, class EnableIf>
   basic_packet<RefCount> basic_packet<RefCount>::back_or(T&& opt) const {
-    return get_heap().back_or(std::forward<T>(opt));
+    if (is_array() && !empty()) return back();
+    else return convert::cast<basic_packet>(std::forward<T>(opt));
   }
 
   template <template <class> class RefCount>
-- 
2.43.0


From 521bf94437668bc8da347852cf12f17df60b6c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 15/56] fix: do not wrap JSON integers above INT64_MAX to
 negative values

---
 include/dart/connector/json.tcc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dart/connector/json.tcc b/include/dart/connector/json.tcc
index acc8322..fe3641d 100644
--- a/include/dart/connector/json.tcc
+++ b/include/dart/connector/json.tcc
@@ -381,7 +381,9 @@ namespace dart {
 
     template <template <class> class RefCount>
     bool heap_parser<RefCount>::Uint64(uint64_t num) {
-      return Int64(num);
+      // Integers are signed, represent anything larger as a decimal, as finalized packets do.
+      if (num > static_cast<uint64_t>(std::numeric_limits<int64_t>::max())) return Double(static_cast<double>(num));
+      else return Int64(static_cast<int64_t>(num));
     }
 
     template <template <class> class RefCount>
-- 
2.43.0


From bc90259429426036356457516c9e13cf3a05bc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 16/56] fix: zero the padding of finalized packets parsed from
 JSON

---
 include/dart/connector/json.tcc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dart/connector/json.tcc b/include/dart/connector/json.tcc
index fe3641d..b08148d 100644
--- a/include/dart/connector/json.tcc
+++ b/include/dart/connector/json.tcc
@@ -183,7 +183,9 @@ namespace dart {
 
     // Allocate space to store our finalized representation.
     // FIXME: Make this allocation size more intelligent.
-    auto block = detail::aligned_alloc<RefCount>(json.size() * 8, detail::raw_type::object, [&] (auto* buf) {
+    auto bytes = json.size() * 8;
+    auto block = detail::aligned_alloc<RefCount>(bytes, detail::raw_type::object, [&] (auto* buf) {
+      std::fill_n(buf, bytes, gsl::byte {});
       detail::json_lower<RefCount>(buf, doc);
     });
 
-- 
2.43.0


From 9bd0a97873c5bfc49b427447dfb7ea66a3ad4e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 17/56] fix: keep only the last of duplicate keys when parsing
 JSON into a finalized packet

---
 include/dart/object.tcc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/dart/object.tcc b/include/dart/object.tcc
index 30d6d8d..09d896b 100644
--- a/include/dart/object.tcc
+++ b/include/dart/object.tcc
@@ -257,7 +257,7 @@ namespace dart {
       for (auto it = fields.MemberBegin(); it != fields.MemberEnd(); ++it) {
         sorted.push_back(it);
       }
-      std::sort(sorted.begin(), sorted.end(), [] (auto& lhs, auto& rhs) {
+      std::stable_sort(sorted.begin(), sorted.end(), [] (auto& lhs, auto& rhs) {
         auto lhs_len = lhs->name.GetStringLength();
         auto rhs_len = rhs->name.GetStringLength();
         if (lhs_len == rhs_len) {
@@ -269,6 +269,15 @@ namespace dart {
         }
       });
 
+      // JSON allows for duplicate keys, but we don't.
+      // The sort was stable, so drop everything but the last of each run of equal keys,
+      // which is also what the dynamic representation does.
+      auto last = std::unique(sorted.rbegin(), sorted.rend(), [] (auto& lhs, auto& rhs) {
+        return lhs->name == rhs->name;
+      });
+      sorted.erase(sorted.begin(), last.base());
+      elems = static_cast<uint32_t>(sorted.size());
+
       // Iterate over our elements and write each one into the buffer.
       object_entry* entry = vtable();
       size_t offset = reinterpret_cast<gsl::byte*>(&vtable()[elems]) - DART_FROM_THIS_MUT;
-- 
2.43.0


From 7d3f95e308dd8787be9001132d234ce15a76fc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 18/56] fix: reject JSON keys that a finalized packet cannot
 encode

---
 include/dart/array.tcc  | 2 +-
 include/dart/common.h   | 4 ++--
 include/dart/object.tcc | 5 ++++-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/dart/array.tcc b/include/dart/array.tcc
index dd67133..9e0d592 100644
--- a/include/dart/array.tcc
+++ b/include/dart/array.tcc
@@ -208,7 +208,7 @@ namespace dart {
 
 #if DART_HAS_RAPIDJSON
     template <template <class> class RefCount>
-    array<RefCount>::array(rapidjson::Value const& vals) noexcept :
+    array<RefCount>::array(rapidjson::Value const& vals) :
       elems(static_cast<uint32_t>(vals.Size()))
     {
       // Iterate over our elements and write each one into the buffer.
diff --git a/include/dart/common.h b/include/dart/common.h
index 311c85f..75a53ec 100644
--- a/include/dart/common.h
+++ b/include/dart/common.h
@@ -629,7 +629,7 @@ namespace dart {
         explicit object(sajson::value fields) noexcept;
 #endif
 #if DART_HAS_RAPIDJSON
-        explicit object(rapidjson::Value const& fields) noexcept;
+        explicit object(rapidjson::Value const& fields);
 #endif
 
         // Direct constructors
@@ -722,7 +722,7 @@ namespace dart {
         explicit array(sajson::value elems) noexcept;
 #endif
 #if DART_HAS_RAPIDJSON
-        explicit array(rapidjson::Value const& elems) noexcept;
+        explicit array(rapidjson::Value const& elems);
 #endif
         array(packet_elements<RefCount> const* elems) noexcept;
         array(array const&) = delete;
diff --git a/include/dart/object.tcc b/include/dart/object.tcc
index 09d896b..2344d69 100644
--- a/include/dart/object.tcc
+++ b/include/dart/object.tcc
@@ -244,7 +244,7 @@ namespace dart {
 
 #if DART_HAS_RAPIDJSON
     template <template <class> class RefCount>
-    object<RefCount>::object(rapidjson::Value const& fields) noexcept :
+    object<RefCount>::object(rapidjson::Value const& fields) :
       elems(static_cast<uint32_t>(fields.MemberCount()))
     {
       using sorter = std::vector<rapidjson::Value::ConstMemberIterator>;
@@ -255,6 +255,9 @@ namespace dart {
       sorter sorted;
       sorted.reserve(elems);
       for (auto it = fields.MemberBegin(); it != fields.MemberEnd(); ++it) {
+        if (it->name.GetStringLength() > std::numeric_limits<uint16_t>::max()) {
+          throw std::invalid_argument("dart::buffer keys cannot be longer than UINT16_MAX");
+        }
         sorted.push_back(it);
       }
       std::stable_sort(sorted.begin(), sorted.end(), [] (auto& lhs, auto& rhs) {
-- 
2.43.0


From da5672747cadd44e188ab401cd811b90a9aad508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 19/56] fix: refuse to serialize values that JSON cannot
 represent instead of writing malformed JSON

---
 include/dart/connector/json.tcc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/dart/connector/json.tcc b/include/dart/connector/json.tcc
index b08148d..3fa9e07 100644
--- a/include/dart/connector/json.tcc
+++ b/include/dart/connector/json.tcc
@@ -421,6 +421,12 @@ namespace dart {
 
     template <class Writer, class Packet>
     void json_serialize(Writer& writer, Packet const& packet) {
+      // The writer refuses values it has no way of representing (NaN by default, for instance),
+      // and has already written out part of the surrounding document when it does.
+      auto ensure = [] (bool written) {
+        if (!written) throw std::invalid_argument("dart::packet contains a value that cannot be represented as JSON");
+      };
+
       switch (packet.get_type()) {
         case detail::type::object:
           {
@@ -428,7 +434,7 @@ namespace dart {
             typename Packet::iterator k, v;
             std::tie(k, v) = packet.kvbegin();
             while (v != packet.end()) {
-              writer.Key(k->str(), static_cast<rapidjson::SizeType>(k->size()));
+              ensure(writer.Key(k->str(), static_cast<rapidjson::SizeType>(k->size())));
               json_serialize(writer, *v);
               ++k, ++v;
             }
@@ -441,13 +447,13 @@ namespace dart {
           writer.EndArray();
           break;
         case detail::type::string:
-          writer.String(packet.str(), static_cast<rapidjson::SizeType>(packet.size()));
+          ensure(writer.String(packet.str(), static_cast<rapidjson::SizeType>(packet.size())));
           break;
         case detail::type::integer:
           writer.Int64(packet.integer());
           break;
         case detail::type::decimal:
-          writer.Double(packet.decimal());
+          ensure(writer.Double(packet.decimal()));
           break;
         case detail::type::boolean:
           writer.Bool(packet.boolean());
-- 
2.43.0


From e04487d35193b73b7f871d6176064406a8d4821b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 20/56] fix: reject YAML mapping keys that are not scalars

---
 include/dart/connector/yaml.tcc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/dart/connector/yaml.tcc b/include/dart/connector/yaml.tcc
index c04d940..f6455e8 100644
--- a/include/dart/connector/yaml.tcc
+++ b/include/dart/connector/yaml.tcc
@@ -85,6 +85,10 @@ namespace dart {
               yaml_event_delete(&event);
               continue;
             case YAML_MAPPING_START_EVENT:
+              if (state == detail::parse_state::mapping_key) {
+                throw std::runtime_error("dart::packet does not support non-scalar YAML mapping keys");
+              }
+
               // Beginning a new object, push onto our stacks if we were holding anything.
               if (curr_key) key_stack.push_back(std::move(curr_key));
               if (curr_obj) obj_stack.push_back(std::move(curr_obj));
@@ -93,6 +97,10 @@ namespace dart {
               curr_obj = basic_heap<RefCount>::make_object();
               break;
             case YAML_SEQUENCE_START_EVENT:
+              if (state == detail::parse_state::mapping_key) {
+                throw std::runtime_error("dart::packet does not support non-scalar YAML mapping keys");
+              }
+
               // Beginning a new array, push onto our stacks if we were holding anything.
               if (curr_key) key_stack.push_back(std::move(curr_key));
               if (curr_obj) obj_stack.push_back(std::move(curr_obj));
-- 
2.43.0


From 2f9740033db21d3b1e1461df4ecedf414410236d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 21/56] fix: keep quoted YAML scalars as strings

---
 include/dart/connector/yaml.tcc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/dart/connector/yaml.tcc b/include/dart/connector/yaml.tcc
index f6455e8..87bcf63 100644
--- a/include/dart/connector/yaml.tcc
+++ b/include/dart/connector/yaml.tcc
@@ -195,6 +195,11 @@ namespace dart {
       size_t len = event.data.scalar.length;
       char const* str = reinterpret_cast<char const*>(event.data.scalar.value);
 
+      // Anything that was quoted was explicitly requested to be a string.
+      if (event.data.scalar.style != YAML_PLAIN_SCALAR_STYLE) {
+        return basic_heap<RefCount>::make_string({str, len});
+      }
+
       // Try to figure out what this is.
       int64_t int_val = 0;
       double dcm_val = 0.0;
-- 
2.43.0


From b0144a2daeaa68a1b153b0fef48e170c155b59f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 22/56] fix: do not construct an exception from a null YAML
 error message

---
 include/dart/connector/yaml.tcc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dart/connector/yaml.tcc b/include/dart/connector/yaml.tcc
index 87bcf63..0b88614 100644
--- a/include/dart/connector/yaml.tcc
+++ b/include/dart/connector/yaml.tcc
@@ -72,7 +72,9 @@ namespace dart {
       try {
         do {
           // Get our next event.
-          if (!yaml_parser_parse(&parser, &event)) throw std::runtime_error(parser.problem);
+          if (!yaml_parser_parse(&parser, &event)) {
+            throw std::runtime_error(parser.problem ? parser.problem : "dart::packet failed to parse yaml");
+          }
           event_type = event.type;
 
           // Run our state machine.
-- 
2.43.0


From c1249f77c00a92c827dddc7bdaaa4eadab2a03d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:15 +0000
Subject: [PATCH 23/56] fix: let at() compile when the identifier is a packet

---
 include/dart/buffer/api.tcc | 4 ++--
 include/dart/heap/api.tcc   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dart/buffer/api.tcc b/include/dart/buffer/api.tcc
index 134be9f..54e2e1a 100644
--- a/include/dart/buffer/api.tcc
+++ b/include/dart/buffer/api.tcc
@@ -217,7 +217,7 @@ namespace dart {
   template <template <class> class RefCount>
   template <class KeyType, class EnableIf>
   basic_buffer<RefCount> basic_buffer<RefCount>::at(KeyType const& identifier) const& {
-    switch (identifier.at_type()) {
+    switch (identifier.get_type()) {
       case type::string:
         return at(identifier.strv());
       case type::integer:
@@ -230,7 +230,7 @@ namespace dart {
   template <template <class> class RefCount>
   template <class KeyType, class EnableIf>
   basic_buffer<RefCount>&& basic_buffer<RefCount>::at(KeyType const& identifier) && {
-    switch (identifier.at_type()) {
+    switch (identifier.get_type()) {
       case type::string:
         return std::move(*this).at(identifier.strv());
       case type::integer:
diff --git a/include/dart/heap/api.tcc b/include/dart/heap/api.tcc
index 847d199..b5d956e 100644
--- a/include/dart/heap/api.tcc
+++ b/include/dart/heap/api.tcc
@@ -390,7 +390,7 @@ namespace dart {
   template <template <class> class RefCount>
   template <class KeyType, class EnableIf>
   basic_heap<RefCount> basic_heap<RefCount>::at(KeyType const& identifier) const {
-    switch (identifier.at_type()) {
+    switch (identifier.get_type()) {
       case type::string:
         return at(identifier.strv());
       case type::integer:
-- 
2.43.0


From 0d37018c5a5e0534bdbacf1f526fc0e8cb742733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:15 +0000
Subject: [PATCH 24/56] fix: return the default from get_or when an array is
 indexed with a string

---
 include/dart/heap/api.tcc   | 3 ++-
 include/dart/packet/api.tcc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dart/heap/api.tcc b/include/dart/heap/api.tcc
index b5d956e..f982330 100644
--- a/include/dart/heap/api.tcc
+++ b/include/dart/heap/api.tcc
@@ -380,7 +380,8 @@ namespace dart {
     // Array access with throw if the identifier isn't within or range, or isn't an integer.
     if (is_object() && has_key(identifier)) {
       return get(identifier);
-    } else if (is_array() && size() > static_cast<size_t>(identifier.integer())) {
+    } else if (is_array() && identifier.get_type() == type::integer
+        && size() > static_cast<size_t>(identifier.integer())) {
       return get(identifier);
     } else {
       return convert::cast<basic_heap>(std::forward<T>(opt));
diff --git a/include/dart/packet/api.tcc b/include/dart/packet/api.tcc
index d3b7285..9c35844 100644
--- a/include/dart/packet/api.tcc
+++ b/include/dart/packet/api.tcc
@@ -259,7 +259,8 @@ namespace dart {
   basic_packet<RefCount> basic_packet<RefCount>::get_or(KeyType const& identifier, T&& opt) const {
     if (is_object() && has_key(identifier)) {
       return get(identifier);
-    } else if (is_array() && size() > static_cast<size_t>(identifier.integer())) {
+    } else if (is_array() && identifier.get_type() == type::integer
+        && size() > static_cast<size_t>(identifier.integer())) {
       return get(identifier);
     } else {
       return convert::cast<basic_packet>(std::forward<T>(opt));
-- 
2.43.0


From 74149991860b199f0a4884d99cefa11943124d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:15 +0000
Subject: [PATCH 25/56] fix: do not treat a missing key as null when comparing
 packets of different kinds

---
 include/dart/conversion_traits.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dart/conversion_traits.h b/include/dart/conversion_traits.h
index 8a4c55a..75637e7 100644
--- a/include/dart/conversion_traits.h
+++ b/include/dart/conversion_traits.h
@@ -299,7 +299,9 @@ namespace dart {
               typename std::decay_t<Rhs>::iterator k, v;
               std::tie(k, v) = rhs.kvbegin();
               while (v != rhs.end()) {
-                if (*v != lhs[*k]) return false;
+                // A missing key looks like an explicit null.
+                auto found = lhs[*k];
+                if (*v != found || (found.is_null() && !lhs.has_key(*k))) return false;
                 ++k, ++v;
               }
               return true;
-- 
2.43.0


From 61bc33fa675cc66ba0bdf865e67ec32436a55e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:31 +0000
Subject: [PATCH 26/56] fix: make string_view searches agree with the standard

---
 include/dart/support/string_view.h   | 20 ++++++------
 include/dart/support/string_view.tcc | 49 ++++++++++++----------------
 2 files changed, 31 insertions(+), 38 deletions(-)

diff --git a/include/dart/support/string_view.h b/include/dart/support/string_view.h
index fd453a6..8a781d3 100644
--- a/include/dart/support/string_view.h
+++ b/include/dart/support/string_view.h
@@ -106,9 +106,9 @@ namespace dart {
       constexpr int compare(size_type offset_one, size_type count_one,
           basic_string_view other, size_type offset_two, size_type count_two) const;
       constexpr int compare(const_pointer other) const noexcept;
-      constexpr int compare(size_type offset, size_type count, const_pointer other) const noexcept;
+      constexpr int compare(size_type offset, size_type count, const_pointer other) const;
       constexpr int compare(size_type offset,
-          size_type count_one, const_pointer other, size_type count_two) const noexcept;
+          size_type count_one, const_pointer other, size_type count_two) const;
 
       // Prefix/suffix checks.
       constexpr bool starts_with(basic_string_view other) const noexcept;
@@ -124,29 +124,29 @@ namespace dart {
       constexpr auto find(const_pointer target, size_type offset, size_type count) const noexcept -> size_type;
       constexpr auto find(const_pointer target, size_type offset = 0) const noexcept -> size_type;
       constexpr auto rfind(basic_string_view target, size_type offset = npos) const noexcept -> size_type;
-      constexpr auto rfind(value_type target, size_type offset = 0) const noexcept -> size_type;
+      constexpr auto rfind(value_type target, size_type offset = npos) const noexcept -> size_type;
       constexpr auto rfind(const_pointer target, size_type offset, size_type count) const noexcept -> size_type;
-      constexpr auto rfind(const_pointer target, size_type offset = 0) const noexcept -> size_type;
+      constexpr auto rfind(const_pointer target, size_type offset = npos) const noexcept -> size_type;
 
       // Membership Checks.
       constexpr auto find_first_of(basic_string_view target, size_type offset = 0) const noexcept -> size_type;
       constexpr auto find_first_of(value_type target, size_type offset = 0) const noexcept -> size_type;
       constexpr auto find_first_of(const_pointer target, size_type offset, size_type count) const noexcept -> size_type;
       constexpr auto find_first_of(const_pointer target, size_type offset = 0) const noexcept -> size_type;
-      constexpr auto find_last_of(basic_string_view target, size_type offset = 0) const noexcept -> size_type;
-      constexpr auto find_last_of(value_type target, size_type offset = 0) const noexcept -> size_type;
+      constexpr auto find_last_of(basic_string_view target, size_type offset = npos) const noexcept -> size_type;
+      constexpr auto find_last_of(value_type target, size_type offset = npos) const noexcept -> size_type;
       constexpr auto find_last_of(const_pointer target, size_type offset, size_type count) const noexcept -> size_type;
-      constexpr auto find_last_of(const_pointer target, size_type offset = 0) const noexcept -> size_type;
+      constexpr auto find_last_of(const_pointer target, size_type offset = npos) const noexcept -> size_type;
 
       // Negated Membership Checks.
       constexpr auto find_first_not_of(basic_string_view target, size_type offset = 0) const noexcept -> size_type;
       constexpr auto find_first_not_of(value_type target, size_type offset = 0) const noexcept -> size_type;
       constexpr auto find_first_not_of(const_pointer target, size_type offset, size_type count) const noexcept -> size_type;
       constexpr auto find_first_not_of(const_pointer target, size_type offset = 0) const noexcept -> size_type;
-      constexpr auto find_last_not_of(basic_string_view target, size_type offset = 0) const noexcept -> size_type;
-      constexpr auto find_last_not_of(value_type target, size_type offset = 0) const noexcept -> size_type;
+      constexpr auto find_last_not_of(basic_string_view target, size_type offset = npos) const noexcept -> size_type;
+      constexpr auto find_last_not_of(value_type target, size_type offset = npos) const noexcept -> size_type;
       constexpr auto find_last_not_of(const_pointer target, size_type offset, size_type count) const noexcept -> size_type;
-      constexpr auto find_last_not_of(const_pointer target, size_type offset = 0) const noexcept -> size_type;
+      constexpr auto find_last_not_of(const_pointer target, size_type offset = npos) const noexcept -> size_type;
 
       /*----- Iteration -----*/
 
diff --git a/include/dart/support/string_view.tcc b/include/dart/support/string_view.tcc
index f3283e5..0dee917 100644
--- a/include/dart/support/string_view.tcc
+++ b/include/dart/support/string_view.tcc
@@ -174,13 +174,13 @@ namespace dart {
 
   template <class CharT, class Traits>
   constexpr int basic_string_view<CharT, Traits>::compare(size_type offset,
-      size_type count, const_pointer other) const noexcept {
+      size_type count, const_pointer other) const {
     return substr(offset, count).compare(basic_string_view {other});
   }
 
   template <class CharT, class Traits>
   constexpr int basic_string_view<CharT, Traits>::compare(size_type offset,
-      size_type count_one, const_pointer other, size_type count_two) const noexcept {
+      size_type count_one, const_pointer other, size_type count_two) const {
     return substr(offset, count_one).compare(basic_string_view {other, count_two});
   }
 
@@ -219,7 +219,7 @@ namespace dart {
     -> size_type
   {
     // Short circuit if we can't possibly contain the target.
-    if (target.size() + offset > size()) return npos;
+    if (offset > size() || target.size() > size() - offset) return npos;
 
     // Search until we find it or walk off the end.
     while (offset + target.size() <= size()) {
@@ -254,15 +254,15 @@ namespace dart {
   constexpr auto basic_string_view<CharT, Traits>::rfind(basic_string_view target, size_type offset) const noexcept
     -> size_type
   {
-    // Clamp our offset.
-    ssize_t safe_offset = std::min(offset, size());
+    // Short circuit if we can't possibly contain the target.
+    if (target.size() > size()) return npos;
 
-    // Search until we find it or walk off the front.
-    while (safe_offset - static_cast<ssize_t>(target.size()) >= 0) {
-      if (compare(offset, target.size(), target) == 0) return offset;
-      --offset;
+    // Clamp our offset, then search until we find it or walk off the front.
+    offset = std::min(offset, size() - target.size());
+    while (compare(offset, target.size(), target) != 0) {
+      if (offset-- == 0) return npos;
     }
-    return npos;
+    return offset;
   }
 
   template <class CharT, class Traits>
@@ -329,15 +329,11 @@ namespace dart {
   basic_string_view<CharT, Traits>::find_last_of(basic_string_view target, size_type offset) const noexcept
     -> size_type
   {
-    // Short-circuit if we know this can't work.
-    auto len = size();
-    if (offset >= len) return npos;
-
-    // Try to find one of the requested characters.
-    auto found = std::find_if(rbegin() + offset, rend(), [=] (auto c) {
-      return target.find(c) != npos;
-    });
-    return found != rend() ? rend() - found - 1 : npos;
+    // Walk backwards from the requested offset, or the end if it's past it.
+    for (auto idx = (offset < size()) ? offset + 1 : size(); idx > 0; --idx) {
+      if (target.find(chars[idx - 1]) != npos) return idx - 1;
+    }
+    return npos;
   }
 
   template <class CharT, class Traits>
@@ -373,7 +369,7 @@ namespace dart {
     auto found = std::find_if(begin() + offset, end(), [=] (auto c) {
       return target.find(c) == npos;
     });
-    return found != end() ? begin() - found : npos;
+    return found != end() ? found - begin() : npos;
   }
 
   template <class CharT, class Traits>
@@ -405,14 +401,11 @@ namespace dart {
   basic_string_view<CharT, Traits>::find_last_not_of(basic_string_view target, size_type offset) const noexcept
     -> size_type
   {
-    // Short-circuit if we know this can't work.
-    if (offset >= size()) return npos;
-
-    // Try to find one of the requested characters.
-    auto found = std::find_if(rbegin() + offset, rend(), [=] (auto c) {
-      return target.find(c) == npos;
-    });
-    return found != rend() ? rbegin() - found : npos;
+    // Walk backwards from the requested offset, or the end if it's past it.
+    for (auto idx = (offset < size()) ? offset + 1 : size(); idx > 0; --idx) {
+      if (target.find(chars[idx - 1]) == npos) return idx - 1;
+    }
+    return npos;
   }
 
   template <class CharT, class Traits>
-- 
2.43.0


From 421bcbd50fc1e4c545b9c0189eb4eaa349b07fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:10 +0000
Subject: [PATCH 27/56] fix: let a reference counted pointer be assigned from
 one that its own value owns

---
 include/dart/support/ptrs.tcc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/dart/support/ptrs.tcc b/include/dart/support/ptrs.tcc
index 9ad51bf..46b3dc0 100644
--- a/include/dart/support/ptrs.tcc
+++ b/include/dart/support/ptrs.tcc
@@ -94,8 +94,10 @@ namespace dart {
 
       // Defer to destructor and move constructor to keep from copying stateful, easy to screw up, code
       // all over the place.
+      // Take hold of the incoming value first, our own value might be what's keeping other alive.
+      counted_ptr_base tmp(std::move(other));
       this->~counted_ptr_base();
-      new(this) counted_ptr_base(std::move(other));
+      new(this) counted_ptr_base(std::move(tmp));
       return *this;
     }
 
@@ -115,8 +117,10 @@ namespace dart {
 
       // Defer to destructor and move constructor to keep from copying stateful, easy to screw up, code
       // all over the place.
+      // Take hold of the incoming value first, our own value might be what's keeping other alive.
+      counted_ptr_base tmp(std::move(other));
       this->~counted_ptr_base();
-      new(this) counted_ptr_base(std::move(other));
+      new(this) counted_ptr_base(std::move(tmp));
       return *this;
     }
 
@@ -296,8 +300,10 @@ namespace dart {
     // XXX: If you have a throwing move constructor, you get what you deserve.
     // I'm not allocating to avoid this, and I'm definitely not adding a "valueless by exception" state.
     // Good people don't throw from move constructors.
+    // Take hold of the incoming value first, our own value might be what's keeping other alive.
+    shareable_ptr tmp(std::move(other));
     this->~shareable_ptr();
-    new(this) shareable_ptr(std::move(other));
+    new(this) shareable_ptr(std::move(tmp));
     return *this;
   }
 
@@ -322,8 +328,10 @@ namespace dart {
     // I'm not allocating to avoid this, and I'm definitely not adding a "valueless by exception" state.
     // Good people don't throw from move constructors.
     if (this == &other) return *this;
+    // Take hold of the incoming value first, our own value might be what's keeping other alive.
+    shareable_ptr tmp(std::move(other));
     this->~shareable_ptr();
-    new(this) shareable_ptr(std::move(other));
+    new(this) shareable_ptr(std::move(tmp));
     return *this;
   }
 
-- 
2.43.0


From 244eff760ab75ed05fc1aec0331c2be4f7fef62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:10 +0000
Subject: [PATCH 28/56] fix: let value() compile on an rvalue optional

---
 include/dart/support/optional.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/support/optional.tcc b/include/dart/support/optional.tcc
index fc1f311..8caa848 100644
--- a/include/dart/support/optional.tcc
+++ b/include/dart/support/optional.tcc
@@ -233,13 +233,13 @@ namespace dart {
 
   template <class T>
   auto optional<T>::value() && -> value_type&& {
-    if (*this) return *access();
+    if (*this) return std::move(*access());
     else throw bad_optional_access {};
   }
 
   template <class T>
   auto optional<T>::value() const&& -> value_type const&& {
-    if (*this) return *access();
+    if (*this) return std::move(*access());
     else throw bad_optional_access {};
   }
 
-- 
2.43.0


From f457031f8dc0030cedd340cf450b07b37b2751df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 29/56] fix: validate that the children of a finalized packet
 do not overlap, and accept a leading null

Comparing only the start of each child with the start of the previous one rejected genuine arrays in
which a null is followed by an element at the same address, and accepted overlapping children that
take exponential time to validate.
---
 include/dart/array.tcc  |  9 ++++++---
 include/dart/object.tcc | 12 +++++++-----
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/dart/array.tcc b/include/dart/array.tcc
index 9e0d592..ad4d6bb 100644
--- a/include/dart/array.tcc
+++ b/include/dart/array.tcc
@@ -311,26 +311,29 @@ namespace dart {
 
       // We now know the entire vtable is within bounds,
       // so iterate over it and check all contained children.
-      void const* prev = this;
+      // Children must be laid out one after another behind the vtable. If they were allowed to overlap, the
+      // same bytes could be reachable along exponentially many paths.
+      // Null values occupy no space, so consecutive children may share an address.
+      auto const* prev_end = vtable_end;
       for (auto raw_val : *this) {
         // Load the base address of the value and verify that it's within bounds.
         auto val_offset = raw_val.buffer - DART_FROM_THIS;
         if (val_offset > total_size) {
           if (silent) return false;
           else throw validation_error("Serialized array value offset is out of bounds");
-        } else if (raw_val.buffer <= prev) {
+        } else if (raw_val.buffer < prev_end) {
           if (silent) return false;
           else throw validation_error("Serialized array value contained a negative or cyclic offset");
         } else if (align_pointer<RefCount>(raw_val.buffer, raw_val.type) != raw_val.buffer) {
           if (silent) return false;
           else throw validation_error("Serialized array value offset does not meet alignment requirements");
         }
-        prev = raw_val.buffer;
 
         // We now know that at least up to the base of the value is within bounds, so recurse on the value.
         // If the buffer validation routine returns false, it means we're not throwing errors.
         auto valid_val = valid_buffer<silent, RefCount>(raw_val, total_size - val_offset);
         if (!valid_val) return false;
+        prev_end = raw_val.buffer + find_sizeof<RefCount>(raw_val);
       }
       return true;
     }
diff --git a/include/dart/object.tcc b/include/dart/object.tcc
index 2344d69..27ec035 100644
--- a/include/dart/object.tcc
+++ b/include/dart/object.tcc
@@ -555,7 +555,9 @@ namespace dart {
 
       // We now know the entire vtable is within bounds,
       // so iterate over it and check all contained children.
-      void const* prev = this;
+      // Children must be laid out one after another behind the vtable. If they were allowed to overlap, the
+      // same bytes could be reachable along exponentially many paths.
+      auto const* prev_end = vtable_end;
       auto key_it = key_begin(), val_it = begin();
       while (val_it != end()) {
         // We know the whole vtable is within bounds, but it could still specify offsets that aren't,
@@ -567,14 +569,13 @@ namespace dart {
           // Key offset is out of bounds
           if (silent) return false;
           else throw validation_error("Serialized object key offset is out of bounds");
-        } else if (raw_key.buffer <= prev) {
+        } else if (raw_key.buffer < prev_end) {
           if (silent) return false;
           else throw validation_error("Serialized object key contained a negative or cyclic offset");
         } else if (align_pointer<RefCount>(raw_key.buffer, raw_key.type) != raw_key.buffer) {
           if (silent) return false;
           else throw validation_error("Serialized object key offset does not meet alignment requirements");
         }
-        prev = raw_key.buffer;
 
         // We now know that at least up to the base of the key is within bounds, so recurse on the key.
         // If the buffer validation routine returns false, it means we're not throwing errors.
@@ -582,6 +583,7 @@ namespace dart {
         // loads offset information from the key, and we haven't check if it's safe yet.
         auto valid_key = valid_buffer<silent, RefCount>(raw_key, total_size - key_offset);
         if (!valid_key) return false;
+        prev_end = raw_key.buffer + find_sizeof<RefCount>(raw_key);
 
         // Now we can dereference the value iterator since we know the key appears reasonable.
         // Load the base address of the value and verify that it's within bounds.
@@ -590,18 +592,18 @@ namespace dart {
         if (val_offset > total_size) {
           if (silent) return false;
           else throw validation_error("Serialized object value offset is out of bounds");
-        } else if (raw_val.buffer <= prev) {
+        } else if (raw_val.buffer < prev_end) {
           if (silent) return false;
           else throw validation_error("Serialized object value contained a negative or cyclic offset");
         } else if (align_pointer<RefCount>(raw_val.buffer, raw_val.type) != raw_val.buffer) {
           if (silent) return false;
           else throw validation_error("Serialized object value offset does not meet alignment requirements");
         }
-        prev = raw_val.buffer;
 
         // We now know that at least up to the base of the value is within bounds, so recurse on the value.
         auto valid_val = valid_buffer<silent, RefCount>(raw_val, total_size - val_offset);
         if (!valid_val) return false;
+        prev_end = raw_val.buffer + find_sizeof<RefCount>(raw_val);
 
         // Check the next pair.
         ++key_it, ++val_it;
-- 
2.43.0


From 66a4be56338e0c7f6e6831f7d7596bfb96056c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 30/56] fix: reject serialized booleans that are neither true
 nor false when validating

---
 include/dart/primitive.tcc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/dart/primitive.tcc b/include/dart/primitive.tcc
index 06eca5e..d9c76e5 100644
--- a/include/dart/primitive.tcc
+++ b/include/dart/primitive.tcc
@@ -127,6 +127,13 @@ namespace dart {
         if (silent) return false;
         else throw validation_error("Serialized primitive value is truncated");
       }
+
+      // Every bit pattern is a valid integer or decimal, but a boolean has only two representations,
+      // and reading anything else would be undefined behavior.
+      if (std::is_same<T, bool>::value && gsl::to_integer<uint8_t>(*DART_FROM_THIS) > 1) {
+        if (silent) return false;
+        else throw validation_error("Serialized boolean value is neither true nor false");
+      }
       return true;
     }
 
-- 
2.43.0


From b71cbac9a7c8a01da780aa18ebed65250edd778e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:59 +0000
Subject: [PATCH 31/56] fix: synchronize with the previous owners before
 mutating a heap in place

---
 include/dart/heap/detail.tcc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/dart/heap/detail.tcc b/include/dart/heap/detail.tcc
index 9474205..d04bd60 100644
--- a/include/dart/heap/detail.tcc
+++ b/include/dart/heap/detail.tcc
@@ -57,6 +57,12 @@ namespace dart {
     if (refcount() > overcount) {
       if (is_object()) data = fields_type(new packet_fields(get_fields()));
       else if (is_array()) data = elements_type(new packet_elements(get_elements()));
+    } else {
+      // XXX: Counters like std::shared_ptr report their use count with a relaxed load,
+      // so seeing that the other owners are gone isn't enough to know that another thread is
+      // done reading what they pointed at. Letting go of a reference of our own synchronizes with them.
+      if (is_object()) fields_type {shim::get<fields_type>(data)};
+      else if (is_array()) elements_type {shim::get<elements_type>(data)};
     }
   }
 
-- 
2.43.0


From 5901286cda52f10d6813cdd5cea8385af9c12406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:22 +0000
Subject: [PATCH 32/56] fix: reject JSON text that continues after an embedded
 null

---
 include/dart/connector/json.tcc | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/dart/connector/json.tcc b/include/dart/connector/json.tcc
index 3fa9e07..b92825e 100644
--- a/include/dart/connector/json.tcc
+++ b/include/dart/connector/json.tcc
@@ -50,6 +50,8 @@ namespace dart {
 
 namespace dart {
   namespace detail {
+    template <unsigned flags>
+    bool json_has_trailing(shim::string_view json, size_t off);
     template <class Writer, class Packet>
     void json_serialize(Writer& writer, Packet const& packet);
   }
@@ -144,11 +146,13 @@ namespace dart {
 
     // Parse!
     rapidjson::MemoryStream ss(json.data(), json.size());
-    if (reader.Parse<flags>(ss, context)) {
+    bool parsed = reader.Parse<flags>(ss, context);
+    bool trailing = parsed && detail::json_has_trailing<flags>(json, ss.Tell());
+    if (parsed && !trailing) {
       return context.curr_obj;
     } else {
-      auto err = reader.GetParseErrorCode();
-      auto off = reader.GetErrorOffset();
+      auto err = trailing ? rapidjson::kParseErrorDocumentRootNotSingular : reader.GetParseErrorCode();
+      auto off = trailing ? ss.Tell() : reader.GetErrorOffset();
       std::string errmsg = "dart::heap could not parse the given string due to: \"";
       errmsg += rapidjson::GetParseError_En(err);
       errmsg += "\" near  \"";
@@ -168,9 +172,12 @@ namespace dart {
 
     // Fire up RapidJSON.
     rapidjson::Document doc;
-    if (doc.ParseInsitu<flags>(buf.get()).HasParseError()) {
-      auto err = doc.GetParseError();
-      auto off = doc.GetErrorOffset();
+    rapidjson::InsituStringStream ss(buf.get());
+    bool parsed = !doc.ParseStream<flags | rapidjson::kParseInsituFlag>(ss).HasParseError();
+    bool trailing = parsed && detail::json_has_trailing<flags>(json, ss.Tell());
+    if (!parsed || trailing) {
+      auto err = trailing ? rapidjson::kParseErrorDocumentRootNotSingular : doc.GetParseError();
+      auto off = trailing ? ss.Tell() : doc.GetErrorOffset();
       std::string errmsg = "dart::buffer could not parse the given string due to: \"";
       errmsg += rapidjson::GetParseError_En(err);
       errmsg += "\" near \"";
@@ -419,6 +426,13 @@ namespace dart {
       return true;
     }
 
+    template <unsigned flags>
+    bool json_has_trailing(shim::string_view json, size_t off) {
+      // RapidJSON takes an embedded null to be the end of its input, so it never sees what follows one.
+      if (flags & rapidjson::kParseStopWhenDoneFlag) return false;
+      return off < json.size() && json.find_first_not_of('\0', off) != shim::string_view::npos;
+    }
+
     template <class Writer, class Packet>
     void json_serialize(Writer& writer, Packet const& packet) {
       // The writer refuses values it has no way of representing (NaN by default, for instance),
-- 
2.43.0


From 92910d79a71f8c2c198b4c01f61f8db013129ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:39 +0000
Subject: [PATCH 33/56] fix: honour the write flags in the typed wrappers'
 to_json

---
 include/dart/connector/json.tcc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/dart/connector/json.tcc b/include/dart/connector/json.tcc
index b92825e..5de747c 100644
--- a/include/dart/connector/json.tcc
+++ b/include/dart/connector/json.tcc
@@ -230,37 +230,37 @@ namespace dart {
   template <class Object>
   template <unsigned flags>
   std::string basic_object<Object>::to_json() const {
-    return val.to_json();
+    return val.template to_json<flags>();
   }
 
   template <class Array>
   template <unsigned flags>
   std::string basic_array<Array>::to_json() const {
-    return val.to_json();
+    return val.template to_json<flags>();
   }
 
   template <class String>
   template <unsigned flags>
   std::string basic_string<String>::to_json() const {
-    return val.to_json();
+    return val.template to_json<flags>();
   }
 
   template <class Number>
   template <unsigned flags>
   std::string basic_number<Number>::to_json() const {
-    return val.to_json();
+    return val.template to_json<flags>();
   }
 
   template <class Boolean>
   template <unsigned flags>
   std::string basic_flag<Boolean>::to_json() const {
-    return val.to_json();
+    return val.template to_json<flags>();
   }
 
   template <class Null>
   template <unsigned flags>
   std::string basic_null<Null>::to_json() const {
-    return value_type::make_null().to_json();
+    return value_type::make_null().template to_json<flags>();
   }
 
   template <template <class> class RefCount>
-- 
2.43.0


From 92d911300c9de5fb7a3b8587acd46a592b37c428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:18 +0000
Subject: [PATCH 34/56] fix: compare dynamic packets with different reference
 counters by value

---
 include/dart/abi.h               | 12 ++++++------
 include/dart/conversion_traits.h | 17 ++++++++++++-----
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/include/dart/abi.h b/include/dart/abi.h
index 2cac295..ed11f5d 100644
--- a/include/dart/abi.h
+++ b/include/dart/abi.h
@@ -3003,8 +3003,8 @@ extern "C" {
    *  Function recursively calculates equality for the given instances.
    *
    *  @details
-   *  Disparate types always compare unequal, disparate reference counters always
-   *  compare unequal, same types are recursively compared.
+   *  Disparate types always compare unequal, same types are recursively compared,
+   *  whatever the reference counter.
    *
    *  @param[in] lhs
    *  The "left hand side" of the expression.
@@ -3801,8 +3801,8 @@ extern "C" {
    *  Function recursively calculates equality for the given instances.
    *
    *  @details
-   *  Disparate types always compare unequal, disparate reference counters always
-   *  compare unequal, same types are recursively compared.
+   *  Disparate types always compare unequal, same types are recursively compared,
+   *  whatever the reference counter.
    *
    *  @param[in] lhs
    *  The "left hand side" of the expression.
@@ -7171,8 +7171,8 @@ extern "C" {
    *  Function recursively calculates equality for the given instances.
    *
    *  @details
-   *  Disparate types always compare unequal, disparate reference counters always
-   *  compare unequal, same types are recursively compared.
+   *  Disparate types always compare unequal, same types are recursively compared,
+   *  whatever the reference counter.
    *
    *  @remarks
    *  Function is generic and will exhibit sensible semantics for any input Dart type.
diff --git a/include/dart/conversion_traits.h b/include/dart/conversion_traits.h
index 75637e7..920bdcb 100644
--- a/include/dart/conversion_traits.h
+++ b/include/dart/conversion_traits.h
@@ -209,6 +209,10 @@ namespace dart {
         return TargetPacket {std::forward<Packet>(pkt)};
       }
 
+      // Fallback comparison through the public API.
+      template <class Lhs, class Rhs>
+      bool generic_compare(Lhs const& lhs, Rhs const& rhs) noexcept;
+
       // Struct is basically a switch table of different Dart comparison operations
       // where both lhs and rhs are known to be specializations of the same Dart
       // template, even if instantiated with different reference counters.
@@ -228,16 +232,19 @@ namespace dart {
           else if (lhs.get_type() != rhs.get_type()) return false;
 
           // Defer to our underlying representation.
-          return shim::visit([] (auto& lhs, auto& rhs) {
-            using Lhs = std::decay_t<decltype(lhs)>;
-            using Rhs = std::decay_t<decltype(rhs)>;
+          return shim::visit([&] (auto& ldata, auto& rdata) {
+            using Lhs = std::decay_t<decltype(ldata)>;
+            using Rhs = std::decay_t<decltype(rdata)>;
 
             // Have to compare through pointers here, and we make the decision purely off of the
             // ability to dereference the incoming type to try to allow compatibility with custom
             // external smart-pointers that otherwise conform to the std::shared_ptr interface.
             auto comparator = dart::detail::typeless_comparator {};
-            auto& lval = dart::detail::maybe_dereference(lhs, meta::is_dereferenceable<Lhs> {});
-            auto& rval = dart::detail::maybe_dereference(rhs, meta::is_dereferenceable<Rhs> {});
+            auto& lval = dart::detail::maybe_dereference(ldata, meta::is_dereferenceable<Lhs> {});
+            auto& rval = dart::detail::maybe_dereference(rdata, meta::is_dereferenceable<Rhs> {});
+
+            // Storage isn't directly comparable across reference counters.
+            if (!meta::are_comparable<decltype(lval), decltype(rval)>::value) return generic_compare(lhs, rhs);
             return comparator(lval, rval);
           }, lhs.data, rhs.data);
         }
-- 
2.43.0


From 43f290fb83583e80c080da0cef6b3652205a17f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:12 +0000
Subject: [PATCH 35/56] fix: define the buffer accessors that take a default

---
 include/dart/buffer/primitive.tcc | 20 ++++++++++++++++++++
 include/dart/buffer/string.tcc    | 10 ++++++++++
 2 files changed, 30 insertions(+)

diff --git a/include/dart/buffer/primitive.tcc b/include/dart/buffer/primitive.tcc
index ce24836..e2d0c3e 100644
--- a/include/dart/buffer/primitive.tcc
+++ b/include/dart/buffer/primitive.tcc
@@ -14,11 +14,21 @@ namespace dart {
     return detail::integer_deref([] (auto& val) { return val.get_data(); }, raw);
   }
 
+  template <template <class> class RefCount>
+  int64_t basic_buffer<RefCount>::integer_or(int64_t opt) const noexcept {
+    return detail::safe_optional_access(*this, opt, &basic_buffer::is_integer, &basic_buffer::integer);
+  }
+
   template <template <class> class RefCount>
   double basic_buffer<RefCount>::decimal() const {
     return detail::decimal_deref([] (auto& val) { return val.get_data(); }, raw);
   }
 
+  template <template <class> class RefCount>
+  double basic_buffer<RefCount>::decimal_or(double opt) const noexcept {
+    return detail::safe_optional_access(*this, opt, &basic_buffer::is_decimal, &basic_buffer::decimal);
+  }
+
   template <template <class> class RefCount>
   double basic_buffer<RefCount>::numeric() const {
     switch (get_type()) {
@@ -31,12 +41,22 @@ namespace dart {
     }
   }
 
+  template <template <class> class RefCount>
+  double basic_buffer<RefCount>::numeric_or(double opt) const noexcept {
+    return detail::safe_optional_access(*this, opt, &basic_buffer::is_numeric, &basic_buffer::numeric);
+  }
+
   template <template <class> class RefCount>
   bool basic_buffer<RefCount>::boolean() const {
     if (is_boolean()) return detail::get_primitive<bool>(raw)->get_data();
     else throw type_error("dart::buffer has no boolean value");
   }
 
+  template <template <class> class RefCount>
+  bool basic_buffer<RefCount>::boolean_or(bool opt) const noexcept {
+    return detail::safe_optional_access(*this, opt, &basic_buffer::is_boolean, &basic_buffer::boolean);
+  }
+
 }
 
 #endif
diff --git a/include/dart/buffer/string.tcc b/include/dart/buffer/string.tcc
index 72ecf7d..2761c69 100644
--- a/include/dart/buffer/string.tcc
+++ b/include/dart/buffer/string.tcc
@@ -14,11 +14,21 @@ namespace dart {
     return strv().data();
   }
 
+  template <template <class> class RefCount>
+  char const* basic_buffer<RefCount>::str_or(char const* opt) const noexcept {
+    return detail::safe_optional_access(*this, opt, &basic_buffer::is_str, &basic_buffer::str);
+  }
+
   template <template <class> class RefCount>
   shim::string_view basic_buffer<RefCount>::strv() const {
     return detail::string_deref([] (auto& val) { return val.get_strv(); }, raw);
   }
 
+  template <template <class> class RefCount>
+  shim::string_view basic_buffer<RefCount>::strv_or(shim::string_view opt) const noexcept {
+    return detail::safe_optional_access(*this, opt, &basic_buffer::is_str, &basic_buffer::strv);
+  }
+
 }
 
 #endif
-- 
2.43.0


From a9f3db6629b4c8f3e23f24f2fdb6eef25353cb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:12 +0000
Subject: [PATCH 36/56] fix: define crbegin and crend

---
 include/dart.h              |  4 ++--
 include/dart/api.tcc        | 20 ++++++++++++++++++++
 include/dart/buffer/api.tcc | 10 ++++++++++
 include/dart/heap/api.tcc   | 10 ++++++++++
 include/dart/packet/api.tcc | 10 ++++++++++
 5 files changed, 52 insertions(+), 2 deletions(-)

diff --git a/include/dart.h b/include/dart.h
index d3a44a6..4b716e6 100644
--- a/include/dart.h
+++ b/include/dart.h
@@ -2987,7 +2987,7 @@ namespace dart {
        *  Function exists for API uniformity with the STL, but is precisely equal to
        *  dart::packet::rbegin.
        */
-      auto crbegin() const -> iterator;
+      auto crbegin() const -> reverse_iterator;
 
       /**
        *  @brief
@@ -3013,7 +3013,7 @@ namespace dart {
        *  Function exists for API uniformity with the STL, but is precisely equal to
        *  dart::packet::rbegin.
        */
-      auto crend() const -> iterator;
+      auto crend() const -> reverse_iterator;
 
       /*----- Member Ownership Helpers -----*/
 
diff --git a/include/dart/api.tcc b/include/dart/api.tcc
index 0d7c9b7..8c0c81d 100644
--- a/include/dart/api.tcc
+++ b/include/dart/api.tcc
@@ -1048,6 +1048,16 @@ namespace dart {
     return val.rbegin();
   }
 
+  template <class Object>
+  auto basic_object<Object>::crbegin() const -> reverse_iterator {
+    return val.crbegin();
+  }
+
+  template <class Array>
+  auto basic_array<Array>::crbegin() const -> reverse_iterator {
+    return val.crbegin();
+  }
+
   template <class Object>
   auto basic_object<Object>::rend() const -> reverse_iterator {
     return val.rend();
@@ -1058,6 +1068,16 @@ namespace dart {
     return val.rend();
   }
 
+  template <class Object>
+  auto basic_object<Object>::crend() const -> reverse_iterator {
+    return val.crend();
+  }
+
+  template <class Array>
+  auto basic_array<Array>::crend() const -> reverse_iterator {
+    return val.crend();
+  }
+
   template <class Object>
   auto basic_object<Object>::key_begin() const -> iterator {
     return val.key_begin();
diff --git a/include/dart/buffer/api.tcc b/include/dart/buffer/api.tcc
index 54e2e1a..105a735 100644
--- a/include/dart/buffer/api.tcc
+++ b/include/dart/buffer/api.tcc
@@ -394,11 +394,21 @@ namespace dart {
     return reverse_iterator {end()};
   }
 
+  template <template <class> class RefCount>
+  auto basic_buffer<RefCount>::crbegin() const -> reverse_iterator {
+    return rbegin();
+  }
+
   template <template <class> class RefCount>
   auto basic_buffer<RefCount>::rend() const -> reverse_iterator {
     return reverse_iterator {begin()};
   }
 
+  template <template <class> class RefCount>
+  auto basic_buffer<RefCount>::crend() const -> reverse_iterator {
+    return rend();
+  }
+
   template <template <class> class RefCount>
   auto basic_buffer<RefCount>::key_begin() const -> iterator {
     return iterator(*this, detail::get_object<RefCount>(raw)->key_begin());
diff --git a/include/dart/heap/api.tcc b/include/dart/heap/api.tcc
index f982330..311cced 100644
--- a/include/dart/heap/api.tcc
+++ b/include/dart/heap/api.tcc
@@ -559,11 +559,21 @@ namespace dart {
     return reverse_iterator {end()};
   }
 
+  template <template <class> class RefCount>
+  auto basic_heap<RefCount>::crbegin() const -> reverse_iterator {
+    return rbegin();
+  }
+
   template <template <class> class RefCount>
   auto basic_heap<RefCount>::rend() const -> reverse_iterator {
     return reverse_iterator {begin()};
   }
 
+  template <template <class> class RefCount>
+  auto basic_heap<RefCount>::crend() const -> reverse_iterator {
+    return rend();
+  }
+
   template <template <class> class RefCount>
   auto basic_heap<RefCount>::key_begin() const -> iterator {
     if (is_object()) {
diff --git a/include/dart/packet/api.tcc b/include/dart/packet/api.tcc
index 9c35844..33c0bde 100644
--- a/include/dart/packet/api.tcc
+++ b/include/dart/packet/api.tcc
@@ -411,11 +411,21 @@ namespace dart {
     return reverse_iterator {end()};
   }
 
+  template <template <class> class RefCount>
+  auto basic_packet<RefCount>::crbegin() const -> reverse_iterator {
+    return rbegin();
+  }
+
   template <template <class> class RefCount>
   auto basic_packet<RefCount>::rend() const -> reverse_iterator {
     return reverse_iterator {begin()};
   }
 
+  template <template <class> class RefCount>
+  auto basic_packet<RefCount>::crend() const -> reverse_iterator {
+    return rend();
+  }
+
   template <template <class> class RefCount>
   auto basic_packet<RefCount>::key_begin() const -> iterator {
     return shim::visit([] (auto& v) -> iterator { return v.key_begin(); }, impl);
-- 
2.43.0


From 05f236061444de9203c3c66b2b05926ac4edda3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:15 +0000
Subject: [PATCH 37/56] fix: define array assignment from unordered multisets

---
 include/dart/api.tcc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/dart/api.tcc b/include/dart/api.tcc
index 8c0c81d..514ed5d 100644
--- a/include/dart/api.tcc
+++ b/include/dart/api.tcc
@@ -186,6 +186,20 @@ namespace dart {
     return *this;
   }
 
+  template <class Array>
+  template <class Key, class Hash, class KeyEq, class Alloc, class EnableIf>
+  basic_array<Array>& basic_array<Array>::operator =(std::unordered_multiset<Key, Hash, KeyEq, Alloc> const& set) & {
+    val = convert::cast<value_type>(set);
+    return *this;
+  }
+
+  template <class Array>
+  template <class Key, class Hash, class KeyEq, class Alloc, class EnableIf>
+  basic_array<Array>& basic_array<Array>::operator =(std::unordered_multiset<Key, Hash, KeyEq, Alloc>&& set) & {
+    val = convert::cast<value_type>(std::move(set));
+    return *this;
+  }
+
   template <class String>
   template <class Str, class EnableIf>
   basic_string<String>& basic_string<String>::operator =(shim::string_view str) & {
-- 
2.43.0


From 2c043b8d25e73c499392c10c781c94ebb1596d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:56 +0000
Subject: [PATCH 38/56] fix: count null as a primitive, as documented

---
 include/dart/buffer/api.tcc | 2 +-
 include/dart/heap/api.tcc   | 2 +-
 include/dart/packet/api.tcc | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dart/buffer/api.tcc b/include/dart/buffer/api.tcc
index 105a735..8052376 100644
--- a/include/dart/buffer/api.tcc
+++ b/include/dart/buffer/api.tcc
@@ -347,7 +347,7 @@ namespace dart {
 
   template <template <class> class RefCount>
   bool basic_buffer<RefCount>::is_primitive() const noexcept {
-    return !is_object() && !is_array() && !is_null();
+    return !is_object() && !is_array();
   }
 
   template <template <class> class RefCount>
diff --git a/include/dart/heap/api.tcc b/include/dart/heap/api.tcc
index 311cced..f2493b9 100644
--- a/include/dart/heap/api.tcc
+++ b/include/dart/heap/api.tcc
@@ -476,7 +476,7 @@ namespace dart {
 
   template <template <class> class RefCount>
   bool basic_heap<RefCount>::is_primitive() const noexcept {
-    return !is_object() && !is_array() && !is_null();
+    return !is_object() && !is_array();
   }
 
   template <template <class> class RefCount>
diff --git a/include/dart/packet/api.tcc b/include/dart/packet/api.tcc
index 33c0bde..644e7f5 100644
--- a/include/dart/packet/api.tcc
+++ b/include/dart/packet/api.tcc
@@ -368,7 +368,7 @@ namespace dart {
 
   template <template <class> class RefCount>
   bool basic_packet<RefCount>::is_primitive() const noexcept {
-    return !is_object() && !is_array() && !is_null();
+    return !is_object() && !is_array();
   }
 
   template <template <class> class RefCount>
-- 
2.43.0


From 803c47839775c70e439b2bcd40ef99c4389261f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 39/56] fix: project typed objects

---
 include/dart/object.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/object.tcc b/include/dart/object.tcc
index 27ec035..ce71273 100644
--- a/include/dart/object.tcc
+++ b/include/dart/object.tcc
@@ -129,13 +129,13 @@ namespace dart {
 
   template <class Object>
   basic_object<Object> basic_object<Object>::project(std::initializer_list<shim::string_view> keys) const {
-    return val.project(keys);
+    return basic_object {val.project(keys)};
   }
 
   template <class Object>
   template <class StringSpan, class EnableIf>
   basic_object<Object> basic_object<Object>::project(StringSpan const& keys) const {
-    return val.project(keys);
+    return basic_object {val.project(keys)};
   }
 
   template <class Object>
-- 
2.43.0


From 0bb130ddd4ce90a469297298aff7a561496cbb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 40/56] fix: stop at the end of a forward_list when comparing

---
 include/dart/conversions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dart/conversions.h b/include/dart/conversions.h
index ba22069..2ce82cb 100644
--- a/include/dart/conversions.h
+++ b/include/dart/conversions.h
@@ -590,7 +590,7 @@ namespace dart {
         auto it = lst.cbegin();
         typename Packet::view v = pkt;
         for (auto val : v) {
-          if (val != *it) return false;
+          if (it == lst.cend() || val != *it) return false;
           ++it;
         }
         return it == lst.cend();
-- 
2.43.0


From 6db7fe1fc762ebd7dfd7c0bcdccdad90ad80eb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 41/56] fix: a key missing from an object does not equal a null
 in a map

---
 include/dart/conversions.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/dart/conversions.h b/include/dart/conversions.h
index 2ce82cb..a9ec29a 100644
--- a/include/dart/conversions.h
+++ b/include/dart/conversions.h
@@ -70,8 +70,9 @@ namespace dart {
         // and the same if not, so iterate over the map.
         typename Packet::view v = pkt;
         for (auto& pair : map) {
-          auto val = cb(v, pair.first);
-          if (val != pair.second) return false;
+          // A missing key and a null value are different things.
+          auto it = cb(v, pair.first);
+          if (it == v.end() || *it != pair.second) return false;
         }
         return true;
       }
@@ -79,7 +80,7 @@ namespace dart {
       // General case of comparing a Dart type against a std map.
       template <class Packet, class Map>
       bool generic_map_compare(Packet const& pkt, Map const& map, std::true_type) {
-        return generic_map_compare_impl(pkt, map, [] (auto& v, auto& k) { return v[k]; });
+        return generic_map_compare_impl(pkt, map, [] (auto& v, auto& k) { return v.find(k); });
       }
 
       template <class Packet, class Map>
@@ -90,7 +91,7 @@ namespace dart {
         // but which is NOT convertible into std::string_view
         // which means our only recourse is to create a temporary
         // packet for each key with which to perform the lookup.
-        return generic_map_compare_impl(pkt, map, [] (auto& v, auto& k) { return v[convert::cast(k)]; });
+        return generic_map_compare_impl(pkt, map, [] (auto& v, auto& k) { return v.find(convert::cast(k).strv()); });
       }
 
       template <class Packet, class Map, class Extract, class Next>
-- 
2.43.0


From c1d5a4f857553a4df9266358a6b1f7973aec71e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 42/56] fix: compare the number of keys of objects and
 multimaps

---
 include/dart/conversions.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/dart/conversions.h b/include/dart/conversions.h
index a9ec29a..067182e 100644
--- a/include/dart/conversions.h
+++ b/include/dart/conversions.h
@@ -98,6 +98,7 @@ namespace dart {
       bool generic_multimap_compare_impl(Packet const& pkt, Map const& map, Extract&& extract, Next&& next) {
         auto end = map.end();
         auto it = map.begin();
+        size_t keys = 0;
         typename Packet::view v = pkt;
         while (it != end) {
           // Find the end iterator for this key
@@ -116,8 +117,11 @@ namespace dart {
 
           // Skip past all records with this key.
           it = edge;
+          ++keys;
         }
-        return true;
+
+        // The packet may have keys the map doesn't.
+        return keys == v.size();
       }
 
       template <class Packet, class Key, class Value, class Comp, class Alloc>
-- 
2.43.0


From ad7d98e21c9fe675551852da0dab32be809ac981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 43/56] fix: reject date strings that cannot be represented

---
 include/dart/conversions.h | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/dart/conversions.h b/include/dart/conversions.h
index 067182e..f345e53 100644
--- a/include/dart/conversions.h
+++ b/include/dart/conversions.h
@@ -1533,6 +1533,12 @@ namespace dart {
           throw type_error("Unable to parse date string during serialization");
         }
 
+        // Nothing below can cope with fields outside of their ranges
+        if (y < 0 || y > 9999 || M < 1 || M > 12 || d < 1 || d > 31
+            || h < 0 || h > 23 || m < 0 || m > 59 || !(s >= 0 && s < 61)) {
+          throw type_error("Encountered date string with out of range fields during serialization");
+        }
+
         // And I'm still parsing my dates
         std::tm time;
         time.tm_year = y - 1900;              // Year since 1900
@@ -1544,7 +1550,16 @@ namespace dart {
 
         // With sscanf
         // Unbelievable
-        auto tp = std::chrono::system_clock::from_time_t(shim::timegm(&time));
+        auto secs = shim::timegm(&time);
+
+        // The system clock can't represent every date
+        using std::chrono::seconds;
+        using clock_duration = std::chrono::system_clock::duration;
+        if (secs < std::chrono::duration_cast<seconds>(clock_duration::min()).count()
+            || secs > std::chrono::duration_cast<seconds>(clock_duration::max()).count()) {
+          throw type_error("Encountered unrepresentable date during serialization");
+        }
+        auto tp = std::chrono::system_clock::from_time_t(secs);
         return std::chrono::time_point_cast<Duration>(tp);
       }
 
-- 
2.43.0


From 7da6a35a2c91310fb2d2e978d70250f85473286c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 44/56] fix: an empty std::optional equals null

---
 include/dart/operators.tcc | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/include/dart/operators.tcc b/include/dart/operators.tcc
index 7ddf477..c2ffc23 100644
--- a/include/dart/operators.tcc
+++ b/include/dart/operators.tcc
@@ -41,6 +41,35 @@ namespace dart {
     return !(lhs == rhs);
   }
 
+#ifdef DART_HAS_CPP17
+  // std::optional declares comparisons against anything at all, which are more specialized than
+  // those above, and for which an empty optional differs from everything, including null.
+#define DART_OPTIONAL_COMPARISON(Packet, Lhs, Rhs)                                                \
+  template <class T, template <class> class RefCount, class =                                     \
+    std::enable_if_t<                                                                             \
+      detail::dart_comparison_constraints<Packet<RefCount>, std::optional<T>>::value              \
+    >                                                                                             \
+  >                                                                                               \
+  bool operator ==(Lhs const& lhs, Rhs const& rhs) {                                              \
+    return convert::compare(lhs, rhs);                                                            \
+  }                                                                                               \
+  template <class T, template <class> class RefCount, class =                                     \
+    std::enable_if_t<                                                                             \
+      detail::dart_comparison_constraints<Packet<RefCount>, std::optional<T>>::value              \
+    >                                                                                             \
+  >                                                                                               \
+  bool operator !=(Lhs const& lhs, Rhs const& rhs) {                                              \
+    return !convert::compare(lhs, rhs);                                                           \
+  }
+  DART_OPTIONAL_COMPARISON(basic_heap, basic_heap<RefCount>, std::optional<T>)
+  DART_OPTIONAL_COMPARISON(basic_heap, std::optional<T>, basic_heap<RefCount>)
+  DART_OPTIONAL_COMPARISON(basic_buffer, basic_buffer<RefCount>, std::optional<T>)
+  DART_OPTIONAL_COMPARISON(basic_buffer, std::optional<T>, basic_buffer<RefCount>)
+  DART_OPTIONAL_COMPARISON(basic_packet, basic_packet<RefCount>, std::optional<T>)
+  DART_OPTIONAL_COMPARISON(basic_packet, std::optional<T>, basic_packet<RefCount>)
+#undef DART_OPTIONAL_COMPARISON
+#endif
+
   template <class String, class Str, class =
     std::enable_if_t<
       std::is_convertible<
-- 
2.43.0


From b44cda06d3feb569cc29b540dbd05a90e435ed8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:06 +0000
Subject: [PATCH 45/56] fix: dart_for_each over empty, refused and exhausted
 packets no longer touches uninitialised handles

---
 include/dart/abi.h |  3 ++-
 src/generic.cc     | 18 +++++++++++++++---
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/dart/abi.h b/include/dart/abi.h
index ed11f5d..32905f1 100644
--- a/include/dart/abi.h
+++ b/include/dart/abi.h
@@ -54,7 +54,8 @@
 #define DART_FOR_EACH_IMPL(aggr, value, it_func, it_name, err_name)                         \
   dart_iterator_t it_name;                                                                  \
   dart_err_t err_name = it_func(&it_name, aggr);                                            \
-  err_name = (err_name) ? err_name : dart_iterator_get_err(value, &it_name);                \
+  err_name = (err_name) ? (dart_init_err(value), err_name)                                  \
+                        : dart_iterator_get_err(value, &it_name);                           \
   for (; !dart_iterator_done_destroy(&it_name, value) && err_name == DART_NO_ERROR;         \
           err_name = (dart_iterator_next(&it_name),                                         \
                       dart_destroy(value),                                                  \
diff --git a/src/generic.cc b/src/generic.cc
index 5d0b574..1ffb2c8 100644
--- a/src/generic.cc
+++ b/src/generic.cc
@@ -570,7 +570,7 @@ namespace {
   dart_err_t dart_iterator_init_from_err_impl(dart_iterator_t* dst, void const* src) {
     // Initialize.
     dart_rtti_propagate(dst, src);
-    return generic_access(
+    auto err = generic_access(
       [dst] (auto& src) {
         using iterator = typename std::decay_t<decltype(src)>::iterator;
         return iterator_construct([&src] (iterator* begin, iterator* end) {
@@ -580,12 +580,16 @@ namespace {
       },
       src
     );
+
+    // Always leave behind a valid, if exhausted, iterator, dart_for_each depends on it.
+    if (err) dart_iterator_init_err(dst);
+    return err;
   }
 
   dart_err_t dart_iterator_init_key_from_err_impl(dart_iterator_t* dst, void const* src) {
     // Initialize.
     dart_rtti_propagate(dst, src);
-    return generic_access(
+    auto err = generic_access(
       [dst] (auto& src) {
         using iterator = typename std::decay_t<decltype(src)>::iterator;
         return iterator_construct([&src] (iterator* begin, iterator* end) {
@@ -595,6 +599,10 @@ namespace {
       },
       src
     );
+
+    // Always leave behind a valid, if exhausted, iterator, dart_for_each depends on it.
+    if (err) dart_iterator_init_err(dst);
+    return err;
   }
 
   dart_err_t dart_iterator_copy_err_impl(dart_iterator_t* dst, dart_iterator_t const* src) {
@@ -639,7 +647,7 @@ namespace {
     // Initialize.
     dst->rtti.p_id = DART_PACKET;
     dart_rc_propagate(dst, src);
-    return iterator_access(
+    auto err = iterator_access(
       [dst] (auto& src_curr, auto& src_end) {
         // XXX: Yikes.
         // For the sake of simplicity (this API is already huge), the ABI iterator API always
@@ -655,6 +663,10 @@ namespace {
       },
       src
     );
+
+    // Always leave behind something that can be destroyed, dart_for_each depends on it.
+    if (err) dart_init_rc_err(dst, src->rtti.rc_id);
+    return err;
   }
 
   dart_err_t dart_iterator_next_impl(dart_iterator_t* dst) {
-- 
2.43.0


From 654744769d168acf601754650aa1682c17a08e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:12 +0000
Subject: [PATCH 46/56] fix: the taking inserts and sets of the C interface
 reset their source whatever it holds

---
 src/generic.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/generic.cc b/src/generic.cc
index 1ffb2c8..72fb50b 100644
--- a/src/generic.cc
+++ b/src/generic.cc
@@ -72,6 +72,7 @@ namespace {
         [key, len, val] (auto& dst) {
           return generic_access([&dst, key, len] (auto& val) {
             safe_insert(dst, string_view {key, len}, std::move(val));
+            val = std::decay_t<decltype(val)> {};
           }, val);
         }
       ),
@@ -133,6 +134,7 @@ namespace {
         [key, len, val] (auto& dst) {
           return generic_access([&dst, key, len] (auto& val) {
             safe_set(dst, string_view {key, len}, std::move(val));
+            val = std::decay_t<decltype(val)> {};
           }, val);
         }
       ),
@@ -201,7 +203,10 @@ namespace {
     return generic_access(
       mutable_visitor(
         [idx, val] (auto& dst) {
-          return generic_access([&dst, idx] (auto& val) { safe_insert(dst, idx, std::move(val)); }, val);
+          return generic_access([&dst, idx] (auto& val) {
+            safe_insert(dst, idx, std::move(val));
+            val = std::decay_t<decltype(val)> {};
+          }, val);
         }
       ),
       dst
@@ -258,7 +263,10 @@ namespace {
     return generic_access(
       mutable_visitor(
         [idx, val] (auto& dst) {
-          return generic_access([&dst, idx] (auto& val) { safe_set(dst, idx, std::move(val)); }, val);
+          return generic_access([&dst, idx] (auto& val) {
+            safe_set(dst, idx, std::move(val));
+            val = std::decay_t<decltype(val)> {};
+          }, val);
         }
       ),
       dst
-- 
2.43.0


From 581ec80a9aeb6bcbe62324974ea3abf7aec16d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:05 +0000
Subject: [PATCH 47/56] fix: variadic constructors of the C interface release
 what they built when the format is bad

---
 src/generic.cc | 20 ++++++++++++--------
 src/heap.cc    | 20 ++++++++++++--------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/generic.cc b/src/generic.cc
index 72fb50b..0a2e9f8 100644
--- a/src/generic.cc
+++ b/src/generic.cc
@@ -796,12 +796,14 @@ extern "C" {
     return packet_typed_constructor_access(
       compose(
         [format, args] (dart::packet& dst) mutable {
-          dst = dart::packet::make_object();
-          parse_pairs(dst, format, args);
+          auto tmp = dart::packet::make_object();
+          parse_pairs(tmp, format, args);
+          dst = std::move(tmp);
         },
         [format, args] (dart::unsafe_packet& dst) mutable {
-          dst = dart::unsafe_packet::make_object();
-          parse_pairs(dst, format, args);
+          auto tmp = dart::unsafe_packet::make_object();
+          parse_pairs(tmp, format, args);
+          dst = std::move(tmp);
         }
       ),
       dst,
@@ -879,12 +881,14 @@ extern "C" {
     return packet_typed_constructor_access(
       compose(
         [format, args] (dart::packet& dst) mutable {
-          dst = dart::packet::make_array();
-          parse_vals(dst, format, args);
+          auto tmp = dart::packet::make_array();
+          parse_vals(tmp, format, args);
+          dst = std::move(tmp);
         },
         [format, args] (dart::unsafe_packet& dst) mutable {
-          dst = dart::unsafe_packet::make_array();
-          parse_vals(dst, format, args);
+          auto tmp = dart::unsafe_packet::make_array();
+          parse_vals(tmp, format, args);
+          dst = std::move(tmp);
         }
       ),
       dst,
diff --git a/src/heap.cc b/src/heap.cc
index e49e273..7902805 100644
--- a/src/heap.cc
+++ b/src/heap.cc
@@ -656,12 +656,14 @@ extern "C" {
     return heap_typed_constructor_access(
       compose(
         [format, args] (dart::heap& dst) mutable {
-          dst = dart::heap::make_object();
-          parse_pairs(dst, format, args);
+          auto tmp = dart::heap::make_object();
+          parse_pairs(tmp, format, args);
+          dst = std::move(tmp);
         },
         [format, args] (dart::unsafe_heap& dst) mutable {
-          dst = dart::unsafe_heap::make_object();
-          parse_pairs(dst, format, args);
+          auto tmp = dart::unsafe_heap::make_object();
+          parse_pairs(tmp, format, args);
+          dst = std::move(tmp);
         }
       ),
       dst,
@@ -739,12 +741,14 @@ extern "C" {
     return heap_typed_constructor_access(
       compose(
         [format, args] (dart::heap& dst) mutable {
-          dst = dart::heap::make_array();
-          parse_vals(dst, format, args);
+          auto tmp = dart::heap::make_array();
+          parse_vals(tmp, format, args);
+          dst = std::move(tmp);
         },
         [format, args] (dart::unsafe_heap& dst) mutable {
-          dst = dart::unsafe_heap::make_array();
-          parse_vals(dst, format, args);
+          auto tmp = dart::unsafe_heap::make_array();
+          parse_vals(tmp, format, args);
+          dst = std::move(tmp);
         }
       ),
       dst,
-- 
2.43.0


From 18a0db55e33ede061c07926ae1f9a29419c517c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:16 +0000
Subject: [PATCH 48/56] fix: compound assignment of ordered numbers with
 another type narrowed the operand first

---
 include/dart/support/ordered.tcc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dart/support/ordered.tcc b/include/dart/support/ordered.tcc
index da6c253..9431747 100644
--- a/include/dart/support/ordered.tcc
+++ b/include/dart/support/ordered.tcc
@@ -87,28 +87,28 @@ namespace dart {
     template <class T, class O>
     template <class Operand, class EnableIf>
     auto ordered<T, O>::operator +=(Operand op) noexcept -> ordered& {
-      increment(op);
+      mutate([&] (auto v) { return v + op; });
       return *this;
     }
 
     template <class T, class O>
     template <class Operand, class EnableIf>
     auto ordered<T, O>::operator -=(Operand op) noexcept -> ordered& {
-      increment(-op);
+      mutate([&] (auto v) { return v - op; });
       return *this;
     }
 
     template <class T, class O>
     template <class Operand, class EnableIf>
     auto ordered<T, O>::operator *=(Operand op) noexcept -> ordered& {
-      scale(op);
+      mutate([&] (auto v) { return v * op; });
       return *this;
     }
 
     template <class T, class O>
     template <class Operand, class EnableIf>
     auto ordered<T, O>::operator /=(Operand op) noexcept -> ordered& {
-      shrink(op);
+      mutate([&] (auto v) { return v / op; });
       return *this;
     }
 
-- 
2.43.0


From 94d8f07153979251eb7bdaed13924c5516bef57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:16 +0000
Subject: [PATCH 49/56] fix: printing a string_view ignored the stream's width
 and fill

---
 include/dart/support/string_view.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/support/string_view.h b/include/dart/support/string_view.h
index 8a781d3..01d09d9 100644
--- a/include/dart/support/string_view.h
+++ b/include/dart/support/string_view.h
@@ -204,8 +204,8 @@ namespace dart {
   template <class CharT, class Traits>
   std::basic_ostream<CharT, Traits>&
   operator <<(std::basic_ostream<CharT, Traits>& os, basic_string_view<CharT, Traits> str) {
-    // Not standard compliant, and will fail with embedded nulls, but it'll work.
-    return (os << str.data());
+    // The view isn't necessarily terminated, and can contain nulls, so its size has to be respected.
+    return (os << std::basic_string<CharT, Traits>(str.data(), str.size()));
   }
 
   using string_view = basic_string_view<char>;
-- 
2.43.0


From 0b37b4d34b79198f44bc88e6a4e592bff7a65b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:16 +0000
Subject: [PATCH 50/56] fix: a counted pointer made from a null unique_ptr
 counted the null, and compared as not null

---
 include/dart/support/ptrs.tcc | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/include/dart/support/ptrs.tcc b/include/dart/support/ptrs.tcc
index 46b3dc0..95cfa72 100644
--- a/include/dart/support/ptrs.tcc
+++ b/include/dart/support/ptrs.tcc
@@ -45,14 +45,15 @@ namespace dart {
     template <class T, class Counter>
     template <class U, class Deleter, class EnableIf>
     counted_ptr_base<T, Counter>::counted_ptr_base(std::unique_ptr<U, Deleter>&& ptr) :
-      value(
-        new managed_ptr_eraser<
-          Counter,
-          ptr_type<typename std::unique_ptr<U, Deleter>::element_type>,
-          Deleter
-        >(ptr.get(), 1, std::move(ptr.get_deleter()))
-      )
+      value(nullptr)
     {
+      // An empty pointer owns nothing, so there's nothing to count.
+      if (!ptr) return;
+      value = new managed_ptr_eraser<
+        Counter,
+        ptr_type<typename std::unique_ptr<U, Deleter>::element_type>,
+        Deleter
+      >(ptr.get(), 1, std::move(ptr.get_deleter()));
       ptr.release();
     }
 
@@ -147,7 +148,7 @@ namespace dart {
 
     template <class T, class Counter>
     bool counted_ptr_base<T, Counter>::operator ==(counted_ptr_base const& other) const noexcept {
-      return value == other.value;
+      return get() == other.get();
     }
 
     template <class T, class Counter>
@@ -157,27 +158,27 @@ namespace dart {
 
     template <class T, class Counter>
     bool counted_ptr_base<T, Counter>::operator <(counted_ptr_base const& other) const noexcept {
-      return value < other.value;
+      return get() < other.get();
     }
 
     template <class T, class Counter>
     bool counted_ptr_base<T, Counter>::operator <=(counted_ptr_base const& other) const noexcept {
-      return value <= other.value;
+      return get() <= other.get();
     }
 
     template <class T, class Counter>
     bool counted_ptr_base<T, Counter>::operator >(counted_ptr_base const& other) const noexcept {
-      return value > other.value;
+      return get() > other.get();
     }
 
     template <class T, class Counter>
     bool counted_ptr_base<T, Counter>::operator >=(counted_ptr_base const& other) const noexcept {
-      return value >= other.value;
+      return get() >= other.get();
     }
 
     template <class T, class Counter>
     counted_ptr_base<T, Counter>::operator bool() const noexcept {
-      return value != nullptr;
+      return get() != nullptr;
     }
 
     template <class T, class Counter>
-- 
2.43.0


From b8917a1e54a61768b5365253f14d1951a4a8143c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:16 +0000
Subject: [PATCH 51/56] fix: a shareable_ptr made from a null unique_ptr owned
 the null

---
 include/dart/support/ptrs.tcc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/dart/support/ptrs.tcc b/include/dart/support/ptrs.tcc
index 95cfa72..f8d3fee 100644
--- a/include/dart/support/ptrs.tcc
+++ b/include/dart/support/ptrs.tcc
@@ -250,8 +250,13 @@ namespace dart {
   shareable_ptr<T>::shareable_ptr(std::unique_ptr<U, D>&& ptr)
     noexcept(refcount_traits<T>::template can_nothrow_take<U*, D>::value)
   {
-    refcount_traits<T>::take(&impl, ptr.get(), std::move(ptr.get_deleter()));
-    ptr.release();
+    if (ptr) {
+      refcount_traits<T>::take(&impl, ptr.get(), std::move(ptr.get_deleter()));
+      ptr.release();
+    } else {
+      // An empty pointer owns nothing, so there's nothing to count.
+      refcount_traits<T>::take(&impl, nullptr, std::default_delete<element_type> {});
+    }
   }
 
   template <class T>
-- 
2.43.0


From d17cd550f386e9897e74f3b07c92a8c878c70681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:16 +0000
Subject: [PATCH 52/56] fix: assigning a native value to a finalized packet
 threw (and terminated through the noexcept operators of numbers)

---
 include/dart/packet/api.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dart/packet/api.tcc b/include/dart/packet/api.tcc
index 644e7f5..9822027 100644
--- a/include/dart/packet/api.tcc
+++ b/include/dart/packet/api.tcc
@@ -12,7 +12,7 @@ namespace dart {
   template <template <class> class RefCount>
   template <class T, class EnableIf>
   basic_packet<RefCount>& basic_packet<RefCount>::operator =(T&& other) & {
-    get_heap() = std::forward<T>(other);
+    *this = convert::cast<basic_packet>(std::forward<T>(other));
     return *this;
   }
 
-- 
2.43.0


From ed101bb1aaa45e40035a86bb8bda7874029449fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:16 +0000
Subject: [PATCH 53/56] fix: a failed allocation while taking ownership freed
 the value twice, leaked it or reset uninitialised memory

---
 include/dart/buffer/detail.tcc |  6 +++---
 include/dart/refcount_traits.h |  9 ++-------
 include/dart/support/ptrs.h    |  9 ++++-----
 include/dart/support/ptrs.tcc  | 25 ++++++++++++++++++++-----
 4 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/include/dart/buffer/detail.tcc b/include/dart/buffer/detail.tcc
index 372a50e..669e458 100644
--- a/include/dart/buffer/detail.tcc
+++ b/include/dart/buffer/detail.tcc
@@ -46,9 +46,9 @@ namespace dart {
     // This whole business is necessary to allow std::unique_ptr<gsl::byte const[]>
     // to convert to std::shared_ptr<gsl::byte const>, which the STL doesn't define
     // a conversion for, but is convenient for this library.
-    buffer_ref_type tmp(ptr.get(), std::move(ptr.get_deleter()));
-    ptr.release();
-    return tmp;
+    // The counter is responsible for the pointer from here on, even if it can't be constructed.
+    auto del = std::move(ptr.get_deleter());
+    return buffer_ref_type(ptr.release(), std::move(del));
   }
 
   template <template <class> class RefCount>
diff --git a/include/dart/refcount_traits.h b/include/dart/refcount_traits.h
index b3027ed..5849c12 100644
--- a/include/dart/refcount_traits.h
+++ b/include/dart/refcount_traits.h
@@ -32,13 +32,8 @@ namespace dart {
         >
       >
       static void perform(T* that, Args&&... the_args) {
-        auto* owner = new typename T::element_type(std::forward<Args>(the_args)...);
-        try {
-          new(that) T(owner);
-        } catch (...) {
-          delete owner;
-          throw;
-        }
+        // The counter is responsible for the pointer, even if it can't be constructed.
+        new(that) T(new typename T::element_type(std::forward<Args>(the_args)...));
       }
 
     };
diff --git a/include/dart/support/ptrs.h b/include/dart/support/ptrs.h
index 423d174..eba42d9 100644
--- a/include/dart/support/ptrs.h
+++ b/include/dart/support/ptrs.h
@@ -73,12 +73,10 @@ namespace dart {
         counted_ptr_base() noexcept : value(nullptr) {}
         counted_ptr_base(std::nullptr_t) noexcept : value(nullptr) {}
         explicit counted_ptr_base(ptr_type<T> ptr) :
-          value(new managed_ptr_eraser<counter_type, ptr_type<T>, managed_ptr_deleter<ptr_type<T>>>(ptr, 1))
+          counted_ptr_base(ptr, managed_ptr_deleter<ptr_type<T>> {})
         {}
         template <class Deleter>
-        counted_ptr_base(ptr_type<T> ptr, Deleter&& deleter) :
-          value(new managed_ptr_eraser<counter_type, ptr_type<T>, Deleter>(ptr, 1, std::move(deleter)))
-        {}
+        counted_ptr_base(ptr_type<T> ptr, Deleter&& deleter);
         template <class U, class EnableIf =
           std::enable_if_t<
             std::is_convertible<ptr_type<U>, ptr_type<T>>::value
@@ -365,7 +363,8 @@ namespace dart {
 
       /*----- Private Lifecycle Functions -----*/
 
-      shareable_ptr(partial_construction_tag) {}
+      template <class... Args>
+      shareable_ptr(partial_construction_tag, Args&&... the_args);
 
       /*----- Private Members -----*/
 
diff --git a/include/dart/support/ptrs.tcc b/include/dart/support/ptrs.tcc
index f8d3fee..1faee41 100644
--- a/include/dart/support/ptrs.tcc
+++ b/include/dart/support/ptrs.tcc
@@ -26,6 +26,16 @@ namespace dart {
       deleter(reinterpret_cast<std::decay_t<PtrType>>(this->ptr));
     }
 
+    template <class T, class Counter>
+    template <class Deleter>
+    counted_ptr_base<T, Counter>::counted_ptr_base(ptr_type<T> ptr, Deleter&& deleter) try :
+      value(new managed_ptr_eraser<counter_type, ptr_type<T>, Deleter>(ptr, 1, std::move(deleter)))
+    {
+    } catch (...) {
+      // The pointer is ours as soon as we're called, just as it would be for std::shared_ptr.
+      deleter(ptr);
+    }
+
     template <class T, class Counter>
     template <class U, class EnableIf>
     counted_ptr_base<T, Counter>::counted_ptr_base(counted_ptr_base<U, Counter> const& other) noexcept :
@@ -251,8 +261,9 @@ namespace dart {
     noexcept(refcount_traits<T>::template can_nothrow_take<U*, D>::value)
   {
     if (ptr) {
-      refcount_traits<T>::take(&impl, ptr.get(), std::move(ptr.get_deleter()));
-      ptr.release();
+      // The counter is responsible for the pointer from here on, even if it can't be constructed.
+      auto&& del = ptr.get_deleter();
+      refcount_traits<T>::take(&impl, ptr.release(), std::move(del));
     } else {
       // An empty pointer owns nothing, so there's nothing to count.
       refcount_traits<T>::take(&impl, nullptr, std::default_delete<element_type> {});
@@ -264,6 +275,12 @@ namespace dart {
     refcount_traits<T>::take(&impl, nullptr, std::default_delete<element_type> {});
   }
 
+  template <class T>
+  template <class... Args>
+  shareable_ptr<T>::shareable_ptr(partial_construction_tag, Args&&... the_args) {
+    refcount_traits<T>::construct(&impl, std::forward<Args>(the_args)...);
+  }
+
   template <class T>
   shareable_ptr<T>::shareable_ptr(shareable_ptr const& other) noexcept(refcount_traits<T>::is_nothrow_copyable::value) {
     refcount_traits<T>::copy(&impl, other.impl);
@@ -448,9 +465,7 @@ namespace dart {
 
   template <class T, class... Args>
   shareable_ptr<T> make_shareable(Args&&... the_args) {
-    shareable_ptr<T> ptr(typename shareable_ptr<T>::partial_construction_tag {});
-    refcount_traits<T>::construct(&ptr.impl, std::forward<Args>(the_args)...);
-    return ptr;
+    return shareable_ptr<T>(typename shareable_ptr<T>::partial_construction_tag {}, std::forward<Args>(the_args)...);
   }
 
   template <template <class> class RefCount>
-- 
2.43.0


From 3f7f82d034aa70df049d648c4148661ad0cea515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:16 +0000
Subject: [PATCH 54/56] fix: running out of memory while recording an error
 terminated the process

---
 src/helpers.h | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/helpers.h b/src/helpers.h
index 7c7c2ab..c15b192 100644
--- a/src/helpers.h
+++ b/src/helpers.h
@@ -581,6 +581,16 @@ namespace {
     return iterator_construct([&] (auto* begin, auto* end) { std::forward<Func>(cb)(*begin, *end); }, it);
   }
 
+  // Recording the error can itself run out of memory, which must not escape into C.
+  inline void set_errmsg(char const* msg) noexcept {
+    try {
+      dart::detail::errmsg = msg;
+    } catch (...) {
+      // Short enough that it doesn't need to allocate.
+      dart::detail::errmsg = "Out of memory";
+    }
+  }
+
   // Function is a top level error handler for all code in the ABI
   // Catches all exceptions, turns them into corresponding error codes
   // and updates the global error string.
@@ -588,22 +598,22 @@ namespace {
   dart_err_t err_handler(Func&& cb) noexcept try {
     return std::forward<Func>(cb)();
   } catch (dart::type_error const& err) {
-    dart::detail::errmsg = err.what();
+    set_errmsg(err.what());
     return DART_TYPE_ERROR;
   } catch (dart::state_error const& err) {
-    dart::detail::errmsg = err.what();
+    set_errmsg(err.what());
     return DART_STATE_ERROR;
   } catch (dart::parse_error const& err) {
-    dart::detail::errmsg = err.what();
+    set_errmsg(err.what());
     return DART_PARSE_ERROR;
   } catch (std::logic_error const& err) {
-    dart::detail::errmsg = err.what();
+    set_errmsg(err.what());
     return DART_LOGIC_ERROR;
   } catch (std::runtime_error const& err) {
-    dart::detail::errmsg = err.what();
+    set_errmsg(err.what());
     return DART_RUNTIME_ERROR;
   } catch (...) {
-    dart::detail::errmsg = "Dart caught an unexpected error type. This is a bug, please make a report";
+    set_errmsg("Dart caught an unexpected error type. This is a bug, please make a report");
     return DART_UNKNOWN_ERROR;
   }
 
-- 
2.43.0


From 4ae31b917ae909a9ecb0aa558f4df0ac6992d001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:16 +0000
Subject: [PATCH 55/56] fix: dart_to_json copied into a null pointer when
 malloc failed

---
 src/buffer.cc  | 1 +
 src/generic.cc | 1 +
 src/heap.cc    | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/buffer.cc b/src/buffer.cc
index ff56675..f163cfb 100644
--- a/src/buffer.cc
+++ b/src/buffer.cc
@@ -123,6 +123,7 @@ namespace {
       auto inlen = instr.size();
       if (len) *len = inlen;
       outstr = reinterpret_cast<char*>(malloc(inlen + 1));
+      if (!outstr) throw std::bad_alloc();
       memcpy(outstr, instr.data(), inlen + 1);
     };
     auto ret = buffer_access(
diff --git a/src/generic.cc b/src/generic.cc
index 0a2e9f8..101c518 100644
--- a/src/generic.cc
+++ b/src/generic.cc
@@ -445,6 +445,7 @@ namespace {
         auto inlen = instr.size();
         if (len) *len = inlen;
         outstr = reinterpret_cast<char*>(malloc(inlen + 1));
+        if (!outstr) throw std::bad_alloc();
         memcpy(outstr, instr.data(), inlen + 1);
       },
       src
diff --git a/src/heap.cc b/src/heap.cc
index 7902805..bf031ce 100644
--- a/src/heap.cc
+++ b/src/heap.cc
@@ -516,6 +516,7 @@ namespace {
       auto inlen = instr.size();
       if (len) *len = inlen;
       outstr = reinterpret_cast<char*>(malloc(inlen + 1));
+      if (!outstr) throw std::bad_alloc();
       memcpy(outstr, instr.data(), inlen + 1);
     };
     auto ret = heap_access(
-- 
2.43.0


From 61e1b289d1cb999eb8c2eb982d837c291de90794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:15 +0000
Subject: [PATCH 56/56] fix: a string view with traits of its own compared its
 first and last character without them

---
 include/dart/support/string_view.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/support/string_view.tcc b/include/dart/support/string_view.tcc
index 0dee917..cacb962 100644
--- a/include/dart/support/string_view.tcc
+++ b/include/dart/support/string_view.tcc
@@ -191,7 +191,7 @@ namespace dart {
 
   template <class CharT, class Traits>
   constexpr bool basic_string_view<CharT, Traits>::starts_with(value_type other) const noexcept {
-    return !empty() && front() == other;
+    return !empty() && Traits::eq(front(), other);
   }
 
   template <class CharT, class Traits>
@@ -206,7 +206,7 @@ namespace dart {
 
   template <class CharT, class Traits>
   constexpr bool basic_string_view<CharT, Traits>::ends_with(value_type other) const noexcept {
-    return !empty() && back() == other;
+    return !empty() && Traits::eq(back(), other);
   }
 
   template <class CharT, class Traits>
-- 
2.43.0

