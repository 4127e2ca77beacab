From 4102c38faba64d91658910415a9bc5438f6a1a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:05 +0000
Subject: [PATCH 01/27] fix: bit_vector find_first/find_next returned a wrong
 index for a hit in the last slot of an unaligned view

---
 include/gtl/bit_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index e435943..b46a1dd 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -681,6 +681,8 @@ public:
     size_t find_first() const {
         size_t idx = _first;
         _bv.storage().template visit<vt::view>(_first, _last, [&](uint64_t v, int shift) {
+            if (shift < 0)
+                shift = 0; // last slot: idx is already at the start of that slot
             if (v) {
                 idx += countr_zero(v) - shift; // we could use std::countr_zero in c++20
                 return true;                   // stop iterating
-- 
2.43.0


From ef67901f56fb67bac0cde32d8e207245851d4b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:05 +0000
Subject: [PATCH 02/27] fix: bit_vector resize(n, true) left the new bits of
 the old last slot at 0

---
 include/gtl/bit_vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index b46a1dd..9d06150 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -80,8 +80,11 @@ public:
 
     // -------------------------------------------------------------------------------
     void resize(size_t num_bits, bool val = false) {
+        size_t old_bits  = _sz;
         _sz              = num_bits;
         size_t num_slots = slot_cnt(num_bits);
+        if (val && num_bits > old_bits && mod(old_bits))
+            _s.back() |= himask(old_bits); // new bits which fall in the old last slot
         _s.resize(num_slots, val ? ones : 0);
         if (mod(num_bits))
             _s[num_slots - 1] &= ~himask(num_bits); // make sure to zero the remainder bits in last slot
@@ -367,7 +370,7 @@ private:
     }
 
     std::vector<uint64_t, A> _s;
-    size_t                   _sz;
+    size_t                   _sz = 0;
 };
 
 // ---------------------------------------------------------------------------
-- 
2.43.0


From 0f8981493282b116d42d84f6cea6c3195f005815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:05 +0000
Subject: [PATCH 03/27] fix: bit_view assignment from an integer shifted by a
 negative count across a slot boundary

---
 include/gtl/bit_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index 9d06150..e812485 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -534,7 +534,7 @@ public:
         // only works for view width <= 64 bits
         assert(size() <= stride);
         _bv.storage().template visit<vt::none>(
-            _first, _last, [val](uint64_t, int shl) { return shl >= 0 ? val << shl : val >> shl; });
+            _first, _last, [val](uint64_t, int shl) { return shl >= 0 ? val << shl : val >> ((int)stride + shl); });
         return *this;
     }
 
-- 
2.43.0


From 3078beb9022a2522c5fe7239e8eaec714271edb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:05 +0000
Subject: [PATCH 04/27] fix: bit_view copy assignment within one bit_vector
 overwrote its source or garbled overlapping ranges

---
 include/gtl/bit_vector.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index e812485..c083b57 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -552,13 +552,13 @@ public:
 
     _view& operator=(const _view& o) {
         assert(size() == o.size());
-        if ((&_bv != &o._bv) || (_first < o._first) || (_first <= o._last)) {
+        if ((&_bv != &o._bv) || (_first < o._first) || (_first >= o._last)) {
             typename S::bit_sequence seq(o._bv.storage(), o._first, o._last, _first);
             _bv.storage().template visit<vt::none>(_first, _last, [&](uint64_t, int) { return seq(); });
         } else if (_first > o._first) {
-            // both views are on same bitmap, and we are copying backward with an overlap
-            typename S::bit_sequence seq(_bv.storage(), _first, _last, o._first);
-            o._bv.storage().template visit<vt::none>(o._first, o._last, [&](uint64_t, int) { return seq(); });
+            // both views are on same bitmap, and we are copying to higher indices with an overlap
+            vec_type tmp(size());
+            *this = (tmp.view() = o);
         }
         return *this;
     }
-- 
2.43.0


From 64888566a66df52589db1114ae45b33700861080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:05 +0000
Subject: [PATCH 05/27] fix: bit_view contains() read past the end of a smaller
 operand

---
 include/gtl/bit_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index c083b57..b58c78f 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -631,7 +631,7 @@ public:
             return false;
         bool                     res = true;
         typename S::bit_sequence seq(o._bv.storage(), o._first, o._last, _first);
-        _bv.storage().template visit<vt::view>(_first, _last, [&](uint64_t v, int) {
+        _bv.storage().template visit<vt::view>(_first, _first + o.size(), [&](uint64_t v, int) {
             if ((v | seq()) != v) {
                 res = false;
             }
-- 
2.43.0


From 48fae9527591232b0072178c48f9b9b7f682abf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:32 +0000
Subject: [PATCH 06/27] fix: rehash(0) could shrink a hash table to a
 completely full one, making the next lookup of an absent key loop forever

---
 include/gtl/phmap.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 649dab0..901e320 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -2342,10 +2342,9 @@ public:
             destroy_slots();
             return;
         }
-        // bitor is a faster way of doing `max` here. We will round up to the next
-        // power-of-2-minus-1, so bitor is good enough.
+        // the new capacity must leave at least one empty slot, so that probing terminates.
         // ----------------------------------------------------------------------------
-        auto m = NormalizeCapacity((std::max)(n, size()));
+        auto m = NormalizeCapacity((std::max)(n, GrowthToLowerboundCapacity(size())));
         // n == 0 unconditionally rehashes as per the standard.
         if (n == 0 || m > capacity_) {
             resize(m);
-- 
2.43.0


From 1580568664f357f79516ea838491cc38fa0e36ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:32 +0000
Subject: [PATCH 07/27] fix: clear() of a parallel hash container with an
 auxiliary container (lru_cache) did not compile

---
 include/gtl/phmap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 901e320..b23eed3 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3577,7 +3577,7 @@ public:
             UniqueLock m(inner);
             inner.set_.clear();
             if constexpr (!std::is_same_v<gtl::priv::empty, aux_type>)
-                inner->aux_.clear();
+                inner.aux_.clear();
         }
     }
 
@@ -3588,7 +3588,7 @@ public:
         UniqueLock m(inner);
         inner.set_.clear();
         if constexpr (!std::is_same_v<gtl::priv::empty, aux_type>)
-            inner->aux_.clear();
+            inner.aux_.clear();
     }
 
     // This overload kicks in when the argument is an rvalue of insertable and
-- 
2.43.0


From 889a7df7bd3aeb99e3ffd04ec047ed2f0fee5051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:32 +0000
Subject: [PATCH 08/27] fix: parallel erase/erase_if reported an erasure when
 another thread had erased the key

---
 include/gtl/phmap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index b23eed3..7232898 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3923,7 +3923,7 @@ public:
             // we did an unlock/lock, need to call `find()` again
             it = set.find(key, hashval);
             if (it == set.end())
-                return 1;
+                return 0;
         }
         if (std::forward<F>(f)(const_cast<value_type&>(*it))) {
             set._erase(it);
-- 
2.43.0


From f3403e0183b41ca631b0bc8b2df5aca372ef0317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:32 +0000
Subject: [PATCH 09/27] fix: WriteLock/ReadLock(m, try_to_lock) did not record
 that the mutex was locked, and never unlocked it

---
 include/gtl/phmap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 7232898..8d922cf 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -219,7 +219,7 @@ public:
         WriteLock(mutex_type& m, try_to_lock_t)
             : m_(&m)
             , locked_(false) {
-            m_->try_lock();
+            locked_ = m_->try_lock();
         }
 
         WriteLock(WriteLock&& o) noexcept
@@ -303,7 +303,7 @@ public:
         ReadLock(mutex_type& m, try_to_lock_t)
             : m_(&m)
             , locked_(false) {
-            m_->try_lock_shared();
+            locked_ = m_->try_lock_shared();
         }
 
         ReadLock(ReadLock&& o) noexcept
-- 
2.43.0


From 4e47f976dd654383b0402c7d223a35d07a1e2a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:33 +0000
Subject: [PATCH 10/27] fix: parallel insert(hint, node_type&&) did not compile

---
 include/gtl/phmap.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 8d922cf..2ed1d8a 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3674,7 +3674,11 @@ public:
         return { make_iterator(&inner, res.position), res.inserted, res.inserted ? node_type() : std::move(res.node) };
     }
 
-    iterator insert(const_iterator, node_type&& node) { return insert(std::move(node)).first; }
+    iterator insert(const_iterator, node_type&& node) {
+        auto res = insert(std::move(node));
+        node     = std::move(res.node);
+        return res.position;
+    }
 
     struct ReturnKey_ {
         template<class Key, class... Args>
-- 
2.43.0


From f56d7700006f3a15988d730195cfd910efc7cdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:50 +0000
Subject: [PATCH 11/27] fix: parallel emplace()/emplace_with_hash() did not
 compile when the key cannot be deduced from the arguments

---
 include/gtl/phmap.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 2ed1d8a..117c411 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3730,8 +3730,8 @@ public:
         Inner&                                                  inner = sets_[subidx(hashval)];
         auto&                                                   set   = inner.set_;
         UniqueLock                                              m(inner);
-        typename EmbeddedSet::template InsertSlotWithHash<true> f{ inner, std::move(*slot), hashval };
-        return make_rv(PolicyTraits::apply(f, elem));
+        typename EmbeddedSet::template InsertSlotWithHash<true> f{ set, std::move(*slot), hashval };
+        return make_rv(&inner, PolicyTraits::apply(std::move(f), elem));
     }
 
     template<class... Args>
@@ -3794,17 +3794,17 @@ public:
     template<class... Args, typename std::enable_if_t<!IsDecomposable<Args...>::value, int> = 0>
     std::pair<iterator, bool> emplace(Args&&... args) {
         typename gtl::aligned_storage_t<sizeof(slot_type), alignof(slot_type)> raw;
-        slot_type* slot    = reinterpret_cast<slot_type*>(&raw);
-        size_t     hashval = this->hash(PolicyTraits::key(slot));
+        slot_type* slot = reinterpret_cast<slot_type*>(&raw);
 
         PolicyTraits::construct(&alloc_ref(), slot, std::forward<Args>(args)...);
-        const auto& elem  = PolicyTraits::element(slot);
-        Inner&      inner = sets_[subidx(hashval)];
-        auto&       set   = inner.set_;
+        const auto& elem    = PolicyTraits::element(slot);
+        size_t      hashval = PolicyTraits::apply(HashElement{ hash_ref() }, elem);
+        Inner&      inner   = sets_[subidx(hashval)];
+        auto&       set     = inner.set_;
         UniqueLock  m(inner);
 
-        typename EmbeddedSet::template InsertSlotWithHash<true> f{ inner, std::move(*slot), hashval };
-        return make_rv(PolicyTraits::apply(f, elem));
+        typename EmbeddedSet::template InsertSlotWithHash<true> f{ set, std::move(*slot), hashval };
+        return make_rv(&inner, PolicyTraits::apply(std::move(f), elem));
     }
 
     template<class... Args>
-- 
2.43.0


From 4aa136cf09937fc2b2247000ab4a83bd2ac40718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:39 +0000
Subject: [PATCH 12/27] fix: middle<integral> overflowed (and stopped early)
 when r - l exceeds the range of a signed type

---
 include/gtl/adv_utils.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/gtl/adv_utils.hpp b/include/gtl/adv_utils.hpp
index c414bbe..a635dc4 100644
--- a/include/gtl/adv_utils.hpp
+++ b/include/gtl/adv_utils.hpp
@@ -77,8 +77,9 @@ struct middle {};
 template<std::integral T>
 struct middle<T> {
     std::optional<T> operator()(T l, T r) {
-        if (r - l > 1)
-            return std::midpoint(l, r);
+        T m = std::midpoint(l, r);
+        if (m != l && m != r)
+            return m;
         return {};
     }
 };
-- 
2.43.0


From 5d69c6b92256c75dbd1c414b8946985b9dfe177b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:39 +0000
Subject: [PATCH 13/27] fix: middle<double> returned values outside of (l, r)
 when a bound is negative

---
 include/gtl/adv_utils.hpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/include/gtl/adv_utils.hpp b/include/gtl/adv_utils.hpp
index a635dc4..80b59bd 100644
--- a/include/gtl/adv_utils.hpp
+++ b/include/gtl/adv_utils.hpp
@@ -11,6 +11,8 @@
 //      https://www.apache.org/licenses/LICENSE-2.0
 // ---------------------------------------------------------------------------
 
+#include <bit>
+#include <cassert>
 #include <concepts>
 #include <cstdint>
 #include <numeric>
@@ -84,18 +86,20 @@ struct middle<T> {
     }
 };
 
-// Compare doubles using the binary representation
-// -----------------------------------------------
+// Compare doubles using the binary representation, mapped so that it is
+// ordered like the values (negative doubles have decreasing representations)
+// --------------------------------------------------------------------------
 template<is_double T>
 struct middle<T> {
     std::optional<T> operator()(T l, T r) {
-        uint64_t* il = reinterpret_cast<uint64_t*>(&l);
-        uint64_t* ir = reinterpret_cast<uint64_t*>(&r);
-        auto      m  = middle<uint64_t>()(*il, *ir);
-        if (m) {
-            uint64_t med = *m;
-            return *(T*)&med;
-        }
+        constexpr uint64_t sign = uint64_t(1) << 63;
+        auto ordered = [](T x) {
+            uint64_t u = std::bit_cast<uint64_t>(x);
+            return (u & sign) ? ~u : (u | sign);
+        };
+        auto m = middle<uint64_t>()(ordered(l), ordered(r));
+        if (m)
+            return std::bit_cast<T>((*m & sign) ? (*m ^ sign) : ~*m);
         return {};
     }
 };
-- 
2.43.0


From 5af87b91c78407483ef18ef903501d61b1861e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:39 +0000
Subject: [PATCH 14/27] fix: slice() dropped the last element when the stride
 does not divide the length

---
 include/gtl/vec_utils.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/gtl/vec_utils.hpp b/include/gtl/vec_utils.hpp
index 968e36b..de5a90b 100644
--- a/include/gtl/vec_utils.hpp
+++ b/include/gtl/vec_utils.hpp
@@ -51,10 +51,10 @@ auto slice(V&& v, int first = 0, int last = -1, int stride = 1) {
         (first >= 0 ? std::begin(std::forward<V>(v)) + first : std::end(std::forward<V>(v)) + (first + 1));
     auto last_iter = (last >= 0 ? std::begin(std::forward<V>(v)) + last : std::end(std::forward<V>(v)) + (last + 1));
     if (last_iter > first_iter) {
-        std::size_t cnt = (last_iter - first_iter) / stride;
+        std::size_t cnt = (last_iter - first_iter + stride - 1) / stride;
         res.reserve(cnt);
-        for (; cnt-- != 0; first_iter += stride)
-            res.push_back(*first_iter);
+        for (std::size_t i = 0; i < cnt; ++i)
+            res.push_back(first_iter[i * stride]);
     }
     return res;
 }
-- 
2.43.0


From a3369a550f43837fabb0e942935096e1427f32b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:15 +0000
Subject: [PATCH 15/27] fix: phmap_dump/phmap_load reported success after a
 failed write or read, and a failed load left an inconsistent container

---
 include/gtl/phmap_dump.hpp | 81 +++++++++++++++++++++++++-------------
 1 file changed, 54 insertions(+), 27 deletions(-)

diff --git a/include/gtl/phmap_dump.hpp b/include/gtl/phmap_dump.hpp
index e6193d8..4525570 100644
--- a/include/gtl/phmap_dump.hpp
+++ b/include/gtl/phmap_dump.hpp
@@ -49,6 +49,30 @@ namespace priv {
 static constexpr size_t s_version_base = std::numeric_limits<size_t>::max() - 32;
 static constexpr size_t s_version      = s_version_base + 1;
 
+// ------------------------------------------------------------------------
+// Returns whether the archive could write/read the bytes. Archives whose member
+// function does not return a bool (cereal) report errors by throwing.
+// ------------------------------------------------------------------------
+template<typename OutputArchive>
+bool dump_bytes(OutputArchive& ar, const void* p, size_t sz) {
+    if constexpr (std::is_convertible_v<decltype(ar.saveBinary(p, sz)), bool>) {
+        return ar.saveBinary(p, sz);
+    } else {
+        ar.saveBinary(p, sz);
+        return true;
+    }
+}
+
+template<typename InputArchive>
+bool load_bytes(InputArchive& ar, void* p, size_t sz) {
+    if constexpr (std::is_convertible_v<decltype(ar.loadBinary(p, sz)), bool>) {
+        return ar.loadBinary(p, sz);
+    } else {
+        ar.loadBinary(p, sz);
+        return true;
+    }
+}
+
 // ------------------------------------------------------------------------
 // dump/load for raw_hash_set
 // ------------------------------------------------------------------------
@@ -58,15 +82,14 @@ bool raw_hash_set<Policy, Hash, Eq, Alloc>::phmap_dump(OutputArchive& ar) const
     static_assert(type_traits_internal::IsTriviallyCopyable<value_type>::value,
                   "value_type should be trivially copyable");
 
-    ar.saveBinary(&s_version, sizeof(size_t));
-    ar.saveBinary(&size_, sizeof(size_t));
-    ar.saveBinary(&capacity_, sizeof(size_t));
+    if (!dump_bytes(ar, &s_version, sizeof(size_t)) || !dump_bytes(ar, &size_, sizeof(size_t)) ||
+        !dump_bytes(ar, &capacity_, sizeof(size_t)))
+        return false;
     if (size_ == 0)
         return true;
-    ar.saveBinary(&growth_left(), sizeof(size_t));
-    ar.saveBinary(ctrl_, sizeof(ctrl_t) * (capacity_ + Group::kWidth + 1));
-    ar.saveBinary(slots_, sizeof(slot_type) * capacity_);
-    return true;
+    return dump_bytes(ar, &growth_left(), sizeof(size_t)) &&
+           dump_bytes(ar, ctrl_, sizeof(ctrl_t) * (capacity_ + Group::kWidth + 1)) &&
+           dump_bytes(ar, slots_, sizeof(slot_type) * capacity_);
 }
 
 template<class Policy, class Hash, class Eq, class Alloc>
@@ -75,31 +98,37 @@ bool raw_hash_set<Policy, Hash, Eq, Alloc>::phmap_load(InputArchive& ar) {
     static_assert(type_traits_internal::IsTriviallyCopyable<value_type>::value,
                   "value_type should be trivially copyable");
     raw_hash_set<Policy, Hash, Eq, Alloc>().swap(*this); // clear any existing content
-    size_t version = 0;
-    ar.loadBinary(&version, sizeof(size_t));
+    size_t version = 0, sz = 0, capacity = 0;
+    if (!load_bytes(ar, &version, sizeof(size_t)))
+        return false;
     if (version <= s_version_base) {
         // we didn't store the version, version actually contains the size
         // we didn't store growth_left either
-        size_   = version;
+        sz      = version;
         version = 0;
     } else {
-        ar.loadBinary(&size_, sizeof(size_t));
+        if (!load_bytes(ar, &sz, sizeof(size_t)))
+            return false;
         version -= s_version_base;
     }
-    ar.loadBinary(&capacity_, sizeof(size_t));
+    if (!load_bytes(ar, &capacity, sizeof(size_t)))
+        return false;
 
+    size_     = sz;
+    capacity_ = capacity;
     if (capacity_) {
         // allocate memory for ctrl_ and slots_
         initialize_slots(capacity_);
     }
     if (size_ == 0)
         return true;
-    if (version > 0) {
-        // growth_left should be restored after calling initialize_slots() which resets it.
-        ar.loadBinary(&growth_left(), sizeof(size_t));
+    // growth_left should be restored after calling initialize_slots() which resets it.
+    if ((version > 0 && !load_bytes(ar, &growth_left(), sizeof(size_t))) ||
+        !load_bytes(ar, ctrl_, sizeof(ctrl_t) * (capacity_ + Group::kWidth + 1)) ||
+        !load_bytes(ar, slots_, sizeof(slot_type) * capacity_)) {
+        destroy_slots(); // incomplete, leave the container empty
+        return false;
     }
-    ar.loadBinary(ctrl_, sizeof(ctrl_t) * (capacity_ + Group::kWidth + 1));
-    ar.loadBinary(slots_, sizeof(slot_type) * capacity_);
     if (version == 0) {
         drop_deletes_without_resize(); // because we didn't load `&growth_left()`
     }
@@ -124,7 +153,8 @@ bool parallel_hash_set<N, RefSet, Mtx_, AuxCont, Policy, Hash, Eq, Alloc>::phmap
                   "value_type should be trivially copyable");
 
     size_t submap_count = subcnt();
-    ar.saveBinary(&submap_count, sizeof(size_t));
+    if (!dump_bytes(ar, &submap_count, sizeof(size_t)))
+        return false;
     for (size_t i = 0; i < sets_.size(); ++i) {
         auto&                         inner = sets_[i];
         typename Lockable::UniqueLock m(const_cast<Inner&>(inner));
@@ -151,7 +181,8 @@ bool parallel_hash_set<N, RefSet, Mtx_, AuxCont, Policy, Hash, Eq, Alloc>::phmap
                   "value_type should be trivially copyable");
 
     size_t submap_count = 0;
-    ar.loadBinary(&submap_count, sizeof(size_t));
+    if (!load_bytes(ar, &submap_count, sizeof(size_t)))
+        return false;
     if (submap_count != subcnt()) {
         std::cerr << "submap count(" << submap_count << ") != N(" << N << ")" << std::endl;
         return false;
@@ -190,14 +221,12 @@ public:
     BinaryOutputArchive& operator=(const BinaryOutputArchive&) = delete;
 
     bool saveBinary(const void* p, size_t sz) {
-        ofs_.write(reinterpret_cast<const char*>(p), static_cast<std::streamsize>(sz));
-        return true;
+        return !!ofs_.write(reinterpret_cast<const char*>(p), static_cast<std::streamsize>(sz));
     }
 
     template<typename V>
     typename std::enable_if<type_traits_internal::IsTriviallyCopyable<V>::value, bool>::type saveBinary(const V& v) {
-        ofs_.write(reinterpret_cast<const char*>(&v), sizeof(V));
-        return true;
+        return !!ofs_.write(reinterpret_cast<const char*>(&v), sizeof(V));
     }
 
     template<typename Map>
@@ -218,14 +247,12 @@ public:
     BinaryInputArchive& operator=(const BinaryInputArchive&) = delete;
 
     bool loadBinary(void* p, size_t sz) {
-        ifs_.read(reinterpret_cast<char*>(p), static_cast<std::streamsize>(sz));
-        return true;
+        return !!ifs_.read(reinterpret_cast<char*>(p), static_cast<std::streamsize>(sz));
     }
 
     template<typename V>
     typename std::enable_if<type_traits_internal::IsTriviallyCopyable<V>::value, bool>::type loadBinary(V* v) {
-        ifs_.read(reinterpret_cast<char*>(v), sizeof(V));
-        return true;
+        return !!ifs_.read(reinterpret_cast<char*>(v), sizeof(V));
     }
 
     template<typename Map>
-- 
2.43.0


From d096061fefe7aa8c0bb5978494ef229466b0ef73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:27 +0000
Subject: [PATCH 16/27] fix: set()/reset() of an empty bit_vector accessed
 element 0 of an empty std::vector

---
 include/gtl/bit_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index b58c78f..f0a9438 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -318,6 +318,8 @@ public:
     template<vt flags, class F>
     void visit_all([[maybe_unused]] F f) {
         size_t num_slots = slot_cnt(_sz);
+        if (!num_slots)
+            return;
         if constexpr (flags & vt::false_) {
             // set all bits to 0
             // std::fill(&_s[0], &_s[0] + num_slots, 0);
@@ -331,8 +333,6 @@ public:
                 _s[num_slots - 1] &= ~m; // mask last bits to 0
             }
         } else {
-            if (!num_slots)
-                return;
             size_t slot;
             for (slot = 0; slot < num_slots - 1; ++slot) {
                 const uint64_t s  = _s[slot];
-- 
2.43.0


From 5a44261b24ca5355fcb585b1759453203707eddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:37 +0000
Subject: [PATCH 17/27] fix: assigning an intrusive_ptr<U> lvalue to an
 intrusive_ptr<T> did not compile

---
 include/gtl/intrusive.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/gtl/intrusive.hpp b/include/gtl/intrusive.hpp
index 1d777a1..a45c25b 100644
--- a/include/gtl/intrusive.hpp
+++ b/include/gtl/intrusive.hpp
@@ -101,8 +101,7 @@ public:
 
     template<class U>
     intrusive_ptr& operator=(intrusive_ptr<U> const& rhs) {
-        if (this != &rhs)
-            this_type(rhs).swap(*this);
+        this_type(rhs).swap(*this);
         return *this;
     }
 
-- 
2.43.0


From b72b14c7cf02d4491929e5377d5d5b5ade2255d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:38 +0000
Subject: [PATCH 18/27] fix: lru_cache get() reordered the list while holding
 only a shared lock

---
 include/gtl/lru_cache.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/lru_cache.hpp b/include/gtl/lru_cache.hpp
index bf9e4a1..0dda945 100644
--- a/include/gtl/lru_cache.hpp
+++ b/include/gtl/lru_cache.hpp
@@ -61,7 +61,7 @@ public:
     }
 
     std::optional<result_type> get(const K& k) {
-        if (result_type res; _cache.if_contains(k, [&](const auto& v, list_type& l) {
+        if (result_type res; _cache.modify_if(k, [&](const auto& v, list_type& l) { // modifies the list
                 res = v.second->second;
                 l.splice(l.begin(), l, v.second);
             }))
-- 
2.43.0


From 751ef17876eb44315635cbe681b023bf0d7085bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:39 +0000
Subject: [PATCH 19/27] fix: comparing or swapping a parallel hash container
 with itself locked each mutex twice

---
 include/gtl/phmap.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 117c411..4fd4f1c 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3245,6 +3245,10 @@ protected:
             : set_(p.bucket_cnt, p.hashfn, p.eq, p.alloc) {}
 
         bool operator==(const Inner& o) const {
+            if (this == &o) { // don't lock the same mutex twice
+                SharedLock l(const_cast<Inner&>(o));
+                return set_ == o.set_;
+            }
             typename Lockable::SharedLocks l(const_cast<Inner&>(*this), const_cast<Inner&>(o));
             return set_ == o.set_;
         }
@@ -4133,6 +4137,8 @@ public:
         using std::swap;
         using Lockable2 = LockableImpl<Mtx2_>;
 
+        if (static_cast<const void*>(this) == static_cast<const void*>(&that))
+            return; // don't lock the same mutexes twice
         for (size_t i = 0; i < num_tables; ++i) {
             UniqueLock                     l(sets_[i]);
             typename Lockable2::UniqueLock l2(that.get_inner(i));
-- 
2.43.0


From b2ef416a85a5f60c8326c78b7dbe9adeb11cd67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:32 +0000
Subject: [PATCH 20/27] fix: vector::emplace() with an argument referring into
 the vector used a moved-from or destroyed element

---
 include/gtl/vector.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/gtl/vector.hpp b/include/gtl/vector.hpp
index 7c9c9de..be1a075 100644
--- a/include/gtl/vector.hpp
+++ b/include/gtl/vector.hpp
@@ -1462,6 +1462,11 @@ private: // we have the private section first because it defines some macros
 public:
     template<class... Args>
     iterator emplace(const_iterator cpos, Args&&... args) {
+        if (cpos != cend() && impl_.e_ != impl_.z_) {
+            // the arguments may refer to elements of this vector, so create the new element
+            // before moving the existing ones.
+            return insert(cpos, T(std::forward<Args>(args)...));
+        }
         return do_real_insert(
             cpos,
             1,
-- 
2.43.0


From 8d5d26b4aa30eecf659e045f97273210b0c857ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:32 +0000
Subject: [PATCH 21/27] fix: default elements of a vector of unions or member
 pointers were zero bytes instead of value-initialized

---
 include/gtl/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/vector.hpp b/include/gtl/vector.hpp
index be1a075..dc8f7f1 100644
--- a/include/gtl/vector.hpp
+++ b/include/gtl/vector.hpp
@@ -426,7 +426,7 @@ private:
 
     // optimized
     static void S_uninitialized_fill_n(T* dest, size_type n) {
-        if constexpr (!std::is_class_v<T>) {
+        if constexpr (std::is_scalar_v<T> && !std::is_member_pointer_v<T>) {
             if (LIKELY(n != 0)) {
                 std::memset((void*)dest, 0, sizeof(T) * n);
             }
-- 
2.43.0


From 6398d63db5177a48a6fbf381e7b0de239b96ee6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:15 +0000
Subject: [PATCH 22/27] fix: vector reserve/insert/construct with a count whose
 byte size overflows wrote outside of the allocation

---
 include/gtl/vector.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/gtl/vector.hpp b/include/gtl/vector.hpp
index dc8f7f1..e7e42d4 100644
--- a/include/gtl/vector.hpp
+++ b/include/gtl/vector.hpp
@@ -169,6 +169,16 @@ private:
             std::swap(z_, other.z_);
         }
 
+        // number of elements to allocate for at least n, or throws if that many cannot be addressed
+        static size_type good_capacity(size_type n) {
+            if (UNLIKELY(n > max_count)) {
+                throw std::length_error("vector: size is too large.");
+            }
+            return gtl::goodMallocSize(n * sizeof(T)) / sizeof(T);
+        }
+
+        static constexpr size_type max_count = (~size_type(0) / 2) / sizeof(T);
+
         // data ops
         inline void destroy() noexcept {
             if (b_) {
@@ -189,7 +199,7 @@ private:
             if (UNLIKELY(n == 0)) {
                 b_ = e_ = z_ = nullptr;
             } else {
-                size_type sz = gtl::goodMallocSize(n * sizeof(T)) / sizeof(T);
+                size_type sz = good_capacity(n);
                 b_           = D_allocate(sz);
                 e_           = b_;
                 z_           = b_ + sz;
@@ -925,7 +935,7 @@ public:
             return;
         }
 
-        auto newCap = gtl::goodMallocSize(n * sizeof(T)) / sizeof(T);
+        auto newCap = Impl::good_capacity(n);
         auto newB   = M_allocate(newCap);
         {
             scoped_guard rollback([&] { M_deallocate(newB, newCap); });
@@ -1244,8 +1254,7 @@ private: // we have the private section first because it defines some macros
 
     size_type computeInsertCapacity(size_type n) {
         size_type nc = std::max(computePushBackCapacity(), size() + n);
-        size_type ac = gtl::goodMallocSize(nc * sizeof(T)) / sizeof(T);
-        return ac;
+        return Impl::good_capacity(nc);
     }
 
     //---------------------------------------------------------------------------
@@ -1395,6 +1404,9 @@ private: // we have the private section first because it defines some macros
         if (n == 0) {
             return const_cast<iterator>(cpos);
         }
+        if (UNLIKELY(n > Impl::max_count - size())) {
+            throw std::length_error("vector: size is too large.");
+        }
         bool at_end = cpos == cend();
         bool fresh  = insert_use_fresh(at_end, n);
         if (!at_end) {
-- 
2.43.0


From ea40797efb80f756de9d4af3a2a349a956155048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:03 +0000
Subject: [PATCH 23/27] fix: middle<double> treats -0.0 and +0.0 as the same
 point

---
 include/gtl/adv_utils.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/gtl/adv_utils.hpp b/include/gtl/adv_utils.hpp
index 80b59bd..8755bf6 100644
--- a/include/gtl/adv_utils.hpp
+++ b/include/gtl/adv_utils.hpp
@@ -87,7 +87,8 @@ struct middle<T> {
 };
 
 // Compare doubles using the binary representation, mapped so that it is
-// ordered like the values (negative doubles have decreasing representations)
+// ordered like the values (negative doubles have decreasing representations,
+// and -0.0 and +0.0 are the same point)
 // --------------------------------------------------------------------------
 template<is_double T>
 struct middle<T> {
@@ -95,11 +96,11 @@ struct middle<T> {
         constexpr uint64_t sign = uint64_t(1) << 63;
         auto ordered = [](T x) {
             uint64_t u = std::bit_cast<uint64_t>(x);
-            return (u & sign) ? ~u : (u | sign);
+            return (u & sign) ? sign - (u ^ sign) : sign + u;
         };
         auto m = middle<uint64_t>()(ordered(l), ordered(r));
         if (m)
-            return std::bit_cast<T>((*m & sign) ? (*m ^ sign) : ~*m);
+            return std::bit_cast<T>(*m >= sign ? *m - sign : (sign - *m) | sign);
         return {};
     }
 };
-- 
2.43.0


From a2bf669fc9a6819d8a4314f9c931bc921604c44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:54 +0000
Subject: [PATCH 24/27] fix: reserve(n) of a hash container did not count
 erased slots, so the table still grew before holding n entries

---
 include/gtl/phmap.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 4fd4f1c..9d8b5cf 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -2351,7 +2351,15 @@ public:
         }
     }
 
-    void reserve(size_t n) { rehash(GrowthToLowerboundCapacity(n)); }
+    void reserve(size_t n) {
+        const size_t m = GrowthToLowerboundCapacity(n);
+        if (m <= capacity_ && n > size() + growth_left()) {
+            // The capacity is sufficient, but erased slots use up part of it: reclaim them.
+            rehash_and_grow_if_necessary();
+        } else {
+            rehash(m);
+        }
+    }
 
     // Extension API: support for heterogeneous keys.
     //
-- 
2.43.0


From 1d263b08d1e43f1e51667a0e4f397c5f6562b31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:07 +0000
Subject: [PATCH 25/27] hook: mark four table loops for deductive verification
 (no effect unless GTL_VERIF is defined)

---
 include/gtl/gtl_config.hpp | 11 +++++++++++
 include/gtl/phmap.hpp      |  4 ++++
 2 files changed, 15 insertions(+)

diff --git a/include/gtl/gtl_config.hpp b/include/gtl/gtl_config.hpp
index 8556a84..6848612 100644
--- a/include/gtl/gtl_config.hpp
+++ b/include/gtl/gtl_config.hpp
@@ -284,4 +284,15 @@
     #define gtl_hardware_destructive_interference_size 64
 #endif
 
+// ----------------------------------------------------------------------
+// Marks the start of a loop body for deductive verification. With GTL_VERIF
+// defined, the including file declares the predicates
+// `extern "C" bool gtl_verif_loop_<name>(...)` (loop invariants).
+// ----------------------------------------------------------------------
+#ifdef GTL_VERIF
+    #define GTL_VERIF_LOOP(name, ...) gtl_verif_loop_##name(__VA_ARGS__);
+#else
+    #define GTL_VERIF_LOOP(name, ...)
+#endif
+
 #endif // gtl_config_hpp_guard_
diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 9d8b5cf..111460d 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -1916,6 +1916,7 @@ public:
                           std::is_same<typename Policy::is_flat, std::false_type>::value) {
                 // node map or not trivially destructible... we  need to iterate and destroy values one by one
                 for (size_t i = 0; i != capacity_; ++i) {
+                    GTL_VERIF_LOOP(hash_clear, i)
                     if (IsFull(ctrl_[i])) {
                         PolicyTraits::destroy(&alloc_ref(), slots_ + i);
                     }
@@ -2658,6 +2659,7 @@ private:
                       std::is_same<typename Policy::is_flat, std::false_type>::value) {
             // node map or not trivially destructible... we  need to iterate and destroy values one by one
             for (size_t i = 0; i != capacity_; ++i) {
+                GTL_VERIF_LOOP(hash_destroy, i)
                 if (IsFull(ctrl_[i])) {
                     PolicyTraits::destroy(&alloc_ref(), slots_ + i);
                 }
@@ -2683,6 +2685,7 @@ private:
         capacity_ = new_capacity;
 
         for (size_t i = 0; i != old_capacity; ++i) {
+            GTL_VERIF_LOOP(hash_resize, i)
             if (IsFull(old_ctrl[i])) {
                 size_t hashval = PolicyTraits::apply(HashElement{ hash_ref() }, PolicyTraits::element(old_slots + i));
                 auto   target  = find_first_non_full(hashval);
@@ -2723,6 +2726,7 @@ private:
         typename gtl::aligned_storage_t<sizeof(slot_type), alignof(slot_type)> raw;
         slot_type* slot = reinterpret_cast<slot_type*>(&raw);
         for (size_t i = 0; i != capacity_; ++i) {
+            GTL_VERIF_LOOP(hash_drop_deletes, i)
             if (!IsDeleted(ctrl_[i]))
                 continue;
             size_t hashval = PolicyTraits::apply(HashElement{ hash_ref() }, PolicyTraits::element(slots_ + i));
-- 
2.43.0


From 4485173615a0924b46a84f03a1c9e7df7cbdd9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:14 +0000
Subject: [PATCH 26/27] hook: mark vector range loops for deductive
 verification (no effect unless GTL_VERIF is defined)

---
 include/gtl/vector.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/gtl/vector.hpp b/include/gtl/vector.hpp
index e7e42d4..6ada5ba 100644
--- a/include/gtl/vector.hpp
+++ b/include/gtl/vector.hpp
@@ -41,6 +41,13 @@
 
 #include <gtl/utils.hpp>
 
+// loop markers for deductive verification, see gtl_config.hpp
+#ifdef GTL_VERIF
+    #define GTL_VERIF_LOOP(name, ...) gtl_verif_loop_##name(__VA_ARGS__);
+#else
+    #define GTL_VERIF_LOOP(name, ...)
+#endif
+
 //=========================== likely ========================================
 #undef LIKELY
 #undef UNLIKELY
@@ -386,8 +393,10 @@ private:
     // optimized
     static void S_destroy_range(T* first, T* last) noexcept {
         if constexpr (!std::is_trivially_destructible_v<T>) {
-            for (; first != last; ++first)
+            for (; first != last; ++first) {
+                GTL_VERIF_LOOP(vec_destroy, first, last)
                 first->~T();
+            }
         }
     }
 
@@ -446,10 +455,12 @@ private:
             scoped_guard rollback([&] {
                 --b;
                 for (; b >= dest; --b) {
+                    GTL_VERIF_LOOP(vec_undo, b, dest)
                     b->~T();
                 }
             });
             for (; b != e; ++b) {
+                GTL_VERIF_LOOP(vec_fill0, b, e)
                 S_construct(b);
             }
             rollback.dismiss();
@@ -461,6 +472,7 @@ private:
         auto         e = dest + n;
         scoped_guard rollback([&] { S_destroy_range(dest, b); });
         for (; b != e; ++b) {
+            GTL_VERIF_LOOP(vec_fill, b, e)
             S_construct(b, value);
         }
         rollback.dismiss();
@@ -521,6 +533,7 @@ private:
         auto         b = dest;
         scoped_guard rollback([&] { S_destroy_range(dest, b); });
         for (; first != last; ++first, ++b) {
+            GTL_VERIF_LOOP(vec_copy, b, first, last)
             S_construct(b, *first);
         }
         rollback.dismiss();
@@ -556,6 +569,7 @@ private:
     static It S_copy_n(T* dest, It first, size_type n) {
         auto e = dest + n;
         for (; dest != e; ++dest, ++first) {
+            GTL_VERIF_LOOP(vec_copyn, dest, first, e)
             *dest = *first;
         }
         return first;
-- 
2.43.0


From e614c7aa65f2d02d2031de2b0d1a81ba94896dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:26 +0000
Subject: [PATCH 27/27] hook: mark the control-byte conversion loop for
 deductive verification (no effect unless GTL_VERIF is defined)

---
 include/gtl/phmap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 111460d..ac25444 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -1036,6 +1036,7 @@ inline void ConvertDeletedToEmptyAndFullToDeleted(ctrl_t* ctrl, size_t capacity)
     assert(ctrl[capacity] == kSentinel);
     assert(IsValidCapacity(capacity));
     for (ctrl_t* pos = ctrl; pos != ctrl + capacity + 1; pos += Group::kWidth) {
+        GTL_VERIF_LOOP(hash_convert, pos)
         Group{ pos }.ConvertSpecialToEmptyAndFullToDeleted(pos);
     }
     // Copy the cloned ctrl bytes.
-- 
2.43.0

