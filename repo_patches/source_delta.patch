From 55c50ed9654453306f9c68345715c7f438535789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 01/19] fix: copied caches no longer share internal references
 with their source

The order iterators and the last-accessed object of a copy pointed into the
cache it was copied from, so using the copy corrupted the source or read freed
memory.
---
 include/lru/internal/base-cache.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index fe49a72..5c905a3 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -1526,11 +1526,17 @@ class BaseCache {
   /// map.
   ///
   /// After a copy, the reference (wrappers) in the order queue point
-  /// to the keys of the other cache's map. Thus we need to re-assign them.
+  /// to the keys of the other cache's map, and the order iterators in the map
+  /// point into the queue of the other cache. Thus we need to re-assign them.
   void _reassign_references() noexcept {
-    for (auto& key_reference : _order) {
-      key_reference = std::ref(_map.find(key_reference)->first);
+    for (auto order = _order.begin(); order != _order.end(); ++order) {
+      auto iterator = _map.find(*order);
+      *order = std::ref(iterator->first);
+      iterator->second.order = order;
     }
+
+    // The copied object still points into the map of the other cache.
+    _last_accessed.invalidate();
   }
 
   /// Inserts a new key into the queue.
-- 
2.43.0


From fdb75b55cc02a9c3f88d95c2238808afc91607e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 02/19] fix: initialise the capacity of a moved-from cache

The move constructor swapped an indeterminate capacity into its source.
---
 include/lru/internal/base-cache.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 5c905a3..04934de 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -498,7 +498,7 @@ class BaseCache {
   }
 
   /// Move constructor.
-  BaseCache(BaseCache&& other) {
+  BaseCache(BaseCache&& other) : _capacity(other._capacity) {
     // Following the copy-swap idiom.
     swap(other);
   }
-- 
2.43.0


From 0057962c421f59697f1c444151061cd0d1d16ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 03/19] fix: front() and back() may throw EmptyCache

They were noexcept, so calling them on an empty cache ended the program.
---
 include/lru/cache.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lru/cache.hpp b/include/lru/cache.hpp
index 7150bfc..3b9ffcb 100644
--- a/include/lru/cache.hpp
+++ b/include/lru/cache.hpp
@@ -177,7 +177,7 @@ class Cache
   }
 
   /// \returns The most-recently inserted element.
-  const Key& front() const noexcept {
+  const Key& front() const {
     if (is_empty()) {
       throw LRU::Error::EmptyCache("front");
     } else {
@@ -187,7 +187,7 @@ class Cache
   }
 
   /// \returns The least-recently inserted element.
-  const Key& back() const noexcept {
+  const Key& back() const {
     if (is_empty()) {
       throw LRU::Error::EmptyCache("back");
     } else {
-- 
2.43.0


From ae593f25a6adb4a34f6c9877a95d991d8ee92a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 04/19] fix: make Statistics::reset_all compile

---
 include/lru/statistics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lru/statistics.hpp b/include/lru/statistics.hpp
index 0c97016..29b9ce4 100644
--- a/include/lru/statistics.hpp
+++ b/include/lru/statistics.hpp
@@ -208,7 +208,7 @@ class Statistics {
   /// Clears the statistics of all keys, but keeps on monitoring it them.
   void reset_all() {
     for (auto& pair : _key_map) {
-      _key_map.second.reset();
+      pair.second.reset();
     }
   }
 
-- 
2.43.0


From 30ce3d873b74df5b2e3095a5e6bab78c7af7eed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 05/19] fix: assigning a non-const lvalue range no longer moves
 out of it

---
 include/lru/internal/base-cache.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 04934de..a0b0fd9 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -553,7 +553,7 @@ class BaseCache {
   template <typename Range, typename = Internal::enable_if_range<Range>>
   BaseCache& operator=(Range&& range) {
     _clear_and_increase_capacity(range);
-    insert(std::move(range));
+    insert(std::forward<Range>(range));
     return *this;
   }
 
-- 
2.43.0


From 9a2bc5f25460241c1854735d58635065358420bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 06/19] fix: copying a non-const cache no longer selects the
 range overloads

`Cache b(a)` and `b = a` with a non-const `a` treated `a` as a range, losing its
order and capacity, and `a = a` emptied it.
---
 include/lru/cache.hpp               |  3 ++-
 include/lru/internal/base-cache.hpp |  6 ++++--
 include/lru/internal/utility.hpp    | 14 ++++++++++++++
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/include/lru/cache.hpp b/include/lru/cache.hpp
index 3b9ffcb..80407e2 100644
--- a/include/lru/cache.hpp
+++ b/include/lru/cache.hpp
@@ -124,7 +124,8 @@ class Cache
   /// \param range A range to construct the cache with.
   /// \param hash The hash function to use for the internal map.
   /// \param key_equal The key equality function to use for the internal map.
-  template <typename Range, typename = Internal::enable_if_range<Range>>
+  template <typename Range,
+            typename = Internal::enable_if_other_range<super, Range>>
   explicit Cache(Range&& range,
                  const HashFunction& hash = HashFunction(),
                  const KeyEqual& equal = KeyEqual())
diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index a0b0fd9..1b4378a 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -537,7 +537,8 @@ class BaseCache {
   ///
   /// \param range A range of pairs to assign to the cache.
   /// \returns The cache instance.
-  template <typename Range, typename = Internal::enable_if_range<Range>>
+  template <typename Range,
+            typename = Internal::enable_if_other_range<BaseCache, Range>>
   BaseCache& operator=(const Range& range) {
     _clear_and_increase_capacity(range);
     insert(range);
@@ -550,7 +551,8 @@ class BaseCache {
   ///
   /// \param range A range of pairs to assign to the cache.
   /// \returns The cache instance.
-  template <typename Range, typename = Internal::enable_if_range<Range>>
+  template <typename Range,
+            typename = Internal::enable_if_other_range<BaseCache, Range>>
   BaseCache& operator=(Range&& range) {
     _clear_and_increase_capacity(range);
     insert(std::forward<Range>(range));
diff --git a/include/lru/internal/utility.hpp b/include/lru/internal/utility.hpp
index 2be5a8d..bb06d24 100644
--- a/include/lru/internal/utility.hpp
+++ b/include/lru/internal/utility.hpp
@@ -25,6 +25,7 @@
 #include <cstddef>
 #include <iterator>
 #include <tuple>
+#include <type_traits>
 #include <utility>
 
 namespace LRU {
@@ -81,6 +82,19 @@ template <typename T>
 using enable_if_range = std::pair<decltype(std::declval<T>().begin()),
                                   decltype(std::declval<T>().end())>;
 
+/// A type trait that disables a template overload if a type is not a range, or
+/// if it is (derived from) the given class.
+///
+/// Constructors and assignment operators taking any range need this so as not
+/// to be preferred over the copy operations of their own class.
+///
+/// \tparam Class The class whose objects are not to be treated as a range.
+/// \tparam T the type to check.
+template <typename Class, typename T>
+using enable_if_other_range = std::enable_if_t<
+    !std::is_base_of<Class, std::decay_t<T>>::value,
+    enable_if_range<T>>;
+
 /// A type trait that disables a template overload if a type is not an iterator
 /// over a pair.
 ///
-- 
2.43.0


From a16aafe6f8b5321396e3654fbaedee176bfcb4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 07/19] fix: all_expired and clear_expired look at every entry

Both took the order of last accesses for the order of ages, so after a lookup
they could miss expired entries or report live ones as expired.
---
 include/lru/timed-cache.hpp | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/include/lru/timed-cache.hpp b/include/lru/timed-cache.hpp
index 0038932..6d7b8c8 100644
--- a/include/lru/timed-cache.hpp
+++ b/include/lru/timed-cache.hpp
@@ -232,12 +232,12 @@ class TimedCache
 
   /// \returns True if all keys in the cache have expired, else false.
   bool all_expired() const {
-    // By the laws of predicate logic, any statement about any empty set is true
-    if (is_empty()) return true;
-
-    /// If the most-recently inserted key has expired, all others must have too.
-    auto latest = _map.find(_order.back());
-    return _has_expired(latest->second);
+    // The entries are ordered by their last access and not by their age, so we
+    // have to look at all of them. By the laws of predicate logic, any statement
+    // about any empty set is true.
+    return std::all_of(_map.begin(), _map.end(), [this](const auto& pair) {
+      return this->_has_expired(pair.second);
+    });
   }
 
   /// Erases all expired elements from the cache.
@@ -245,27 +245,19 @@ class TimedCache
   /// \complexity O(N)
   /// \returns The number of elements erased.
   size_t clear_expired() {
-    // We have to do a linear search here because linked lists do not
-    // support O(log N) binary searches given their node-based nature.
-    // Either way, in the worst case the entire cache has expired and
-    // we would have to do O(N) erasures.
-
-    if (is_empty()) return 0;
-
-    auto iterator = _order.begin();
+    // The entries are ordered by their last access and not by their age, so
+    // expired entries may be anywhere and we have to look at all of them.
     size_t number_of_erasures = 0;
 
+    auto iterator = _order.begin();
     while (iterator != _order.end()) {
       auto map_iterator = _map.find(*iterator);
+      ++iterator;
 
-      // If the current element hasn't expired, also all elements inserted
-      // after will not have, so we can stop.
-      if (!_has_expired(map_iterator->second)) break;
-
-      _erase(map_iterator);
-
-      iterator = _order.begin();
-      number_of_erasures += 1;
+      if (_has_expired(map_iterator->second)) {
+        _erase(map_iterator);
+        number_of_erasures += 1;
+      }
     }
 
     return number_of_erasures;
-- 
2.43.0


From 7a7eafa82611f6b6b1fcd64bbc427b3d9c0c2604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 08/19] fix: inserting an expired key again stores it afresh

Only its value was updated, so the key stayed expired for as long as it was in
the cache, and a timed_wrap()ped function never cached such a result again.
---
 include/lru/internal/base-cache.hpp        | 17 +++++++++++++++--
 include/lru/internal/timed-information.hpp |  2 +-
 include/lru/timed-cache.hpp                |  9 +++++++++
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 1b4378a..d30e982 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -920,7 +920,7 @@ class BaseCache {
     } else {
       _move_to_front(iterator, value);
       _last_accessed = iterator;
-      return {false, {*this, iterator}};
+      return {_renew(iterator->second), {*this, iterator}};
     }
   }
 
@@ -1061,7 +1061,7 @@ class BaseCache {
       auto value = Internal::construct_from_tuple<Value>(value_arguments);
       _move_to_front(iterator, value);
       _last_accessed = iterator;
-      return {false, {*this, iterator}};
+      return {_renew(iterator->second), {*this, iterator}};
     }
   }
 
@@ -1414,6 +1414,19 @@ class BaseCache {
     iterator->second.value = new_value;
   }
 
+  /// Called for the information of a key that was already present in the cache
+  /// and has just been inserted again.
+  ///
+  /// The main use of this method is that it may be overriden by a derived class
+  /// for which such a key may nevertheless count as not present, for example
+  /// because it has expired.
+  ///
+  /// \param information The information of the key.
+  /// \returns True if the key counts as newly inserted.
+  virtual bool _renew(Information& information) const noexcept {
+    return false;
+  }
+
   /// Erases the element most recently inserted into the cache.
   virtual void _erase_lru() {
     _erase(_map.find(_order.front()));
diff --git a/include/lru/internal/timed-information.hpp b/include/lru/internal/timed-information.hpp
index 72865a6..4fa879f 100644
--- a/include/lru/internal/timed-information.hpp
+++ b/include/lru/internal/timed-information.hpp
@@ -107,7 +107,7 @@ struct TimedInformation : public Information<Key, Value> {
   }
 
   /// The time at which the key of the information was insterted into a cache.
-  const Timestamp insertion_time;
+  Timestamp insertion_time;
 };
 
 }  // namespace Internal
diff --git a/include/lru/timed-cache.hpp b/include/lru/timed-cache.hpp
index 6d7b8c8..5d8ec93 100644
--- a/include/lru/timed-cache.hpp
+++ b/include/lru/timed-cache.hpp
@@ -338,6 +338,15 @@ class TimedCache
     return !_has_expired(_last_accessed.information());
   }
 
+  /// Gives an expired entry, whose key was inserted again, a new life.
+  ///
+  /// \returns True if the information had expired.
+  bool _renew(Information& information) const noexcept override {
+    if (!_has_expired(information)) return false;
+    information.insertion_time = Clock::now();
+    return true;
+  }
+
   /// \copydoc _value_for_last_accessed() const
   Value& _value_for_last_accessed() override {
     auto& information = _last_accessed.information();
-- 
2.43.0


From efffeefee664e9ff348527f1a6269c7a06db53a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 09/19] fix: register a miss when the last accessed key has
 expired

---
 include/lru/internal/base-cache.hpp | 1 +
 include/lru/timed-cache.hpp         | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index d30e982..f76a816 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -792,6 +792,7 @@ class BaseCache {
         // If this is the last accessed key, it's at the front anyway
         return true;
       } else {
+        _register_miss(key);
         return false;
       }
     }
diff --git a/include/lru/timed-cache.hpp b/include/lru/timed-cache.hpp
index 5d8ec93..6185ff6 100644
--- a/include/lru/timed-cache.hpp
+++ b/include/lru/timed-cache.hpp
@@ -351,6 +351,7 @@ class TimedCache
   Value& _value_for_last_accessed() override {
     auto& information = _last_accessed.information();
     if (_has_expired(information)) {
+      _register_miss(_last_accessed.key());
       throw LRU::Error::KeyExpired();
     } else {
       return information.value;
@@ -363,6 +364,7 @@ class TimedCache
   const Value& _value_for_last_accessed() const override {
     const auto& information = _last_accessed.information();
     if (_has_expired(information)) {
+      _register_miss(_last_accessed.key());
       throw LRU::Error::KeyExpired();
     } else {
       return information.value;
-- 
2.43.0


From ab38d8ac6a581e4b9bef336879d3c3edf913011d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 10/19] fix: erase(OrderedConstIterator) also erases an expired
 entry

It threw KeyExpired, unlike erase(UnorderedConstIterator) and erase(key).
---
 include/lru/internal/base-cache.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index f76a816..32e2317 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -1137,7 +1137,7 @@ class BaseCache {
     if (iterator == ordered_cend()) {
       throw LRU::Error::InvalidIterator();
     } else {
-      _erase(_map.find(iterator.key()));
+      _erase(_map.find(*iterator._iterator));
     }
   }
 
-- 
2.43.0


From cd1af3d11ccb286033705f2c3ea837e28b6b9733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 11/19] fix: check an unordered iterator before dereferencing
 it

---
 include/lru/internal/base-unordered-iterator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lru/internal/base-unordered-iterator.hpp b/include/lru/internal/base-unordered-iterator.hpp
index f294b13..017194e 100644
--- a/include/lru/internal/base-unordered-iterator.hpp
+++ b/include/lru/internal/base-unordered-iterator.hpp
@@ -179,11 +179,12 @@ class BaseUnorderedIterator
   /// \throws LRU::Error::KeyExpired if the key pointed to by the iterator has
   /// expired.
   Entry& entry() override {
+    _cache->throw_if_invalid(*this);
+
     if (!_entry.has_value()) {
       _entry.emplace(_iterator->first, _iterator->second.value);
     }
 
-    _cache->throw_if_invalid(*this);
     return *_entry;
   }
 
-- 
2.43.0


From 60825c3e9aa295cb0ab25c9a7131073d9577ec8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 12/19] fix: make the library compile with std::optional

Entries hold references, so an std::optional of them can neither be assigned nor
swapped. Also, <optional> may exist without providing std::optional when
compiling for a standard before C++17.
---
 include/lru/internal/base-iterator.hpp         | 6 +++++-
 include/lru/internal/base-ordered-iterator.hpp | 5 ++++-
 include/lru/internal/optional.hpp              | 2 +-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/lru/internal/base-iterator.hpp b/include/lru/internal/base-iterator.hpp
index b695a72..0dc5905 100644
--- a/include/lru/internal/base-iterator.hpp
+++ b/include/lru/internal/base-iterator.hpp
@@ -163,8 +163,12 @@ class BaseIterator : public std::iterator<IteratorTag, LRU::Entry<Key, Value>> {
     using std::swap;
 
     swap(_iterator, other._iterator);
-    swap(_entry, other._entry);
     swap(_cache, other._cache);
+
+    // Entries hold references and thus cannot be swapped. They will be retrieved
+    // again in the next call to entry().
+    _entry.reset();
+    other._entry.reset();
   }
 
   /// Swaps two base iterator.
diff --git a/include/lru/internal/base-ordered-iterator.hpp b/include/lru/internal/base-ordered-iterator.hpp
index a0ed951..ce11d53 100644
--- a/include/lru/internal/base-ordered-iterator.hpp
+++ b/include/lru/internal/base-ordered-iterator.hpp
@@ -125,7 +125,10 @@ class BaseOrderedIterator
     // Atomicity
     _throw_if_at_invalid(unordered_iterator);
     _cache = std::move(unordered_iterator._cache);
-    _entry = std::move(unordered_iterator._entry);
+    if (unordered_iterator._entry.has_value()) {
+      // Entries hold references and thus cannot be assigned.
+      _entry.emplace(*unordered_iterator._entry);
+    }
     _iterator = std::move(unordered_iterator._iterator->second.order);
   }
 
diff --git a/include/lru/internal/optional.hpp b/include/lru/internal/optional.hpp
index 8336d3b..dfcd502 100644
--- a/include/lru/internal/optional.hpp
+++ b/include/lru/internal/optional.hpp
@@ -22,7 +22,7 @@
 #ifndef LRU_INTERNAL_OPTIONAL_HPP
 #define LRU_INTERNAL_OPTIONAL_HPP
 
-#ifndef __has_include
+#if !defined(__has_include) || __cplusplus < 201703L
 #define USE_LRU_OPTIONAL
 #elif __has_include(<optional>)
 
-- 
2.43.0


From 0a10cba6f38bc2cc8ece935b0a266430ab5419d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 13/19] fix: undo an insertion for which no queue node can be
 allocated

The key stayed in the map without a place in the order, so erasing or looking it
up was undefined.
---
 include/lru/internal/base-cache.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 32e2317..d387c3b 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -913,8 +913,7 @@ class BaseCache {
     if (iterator == _map.end()) {
       auto result = _map.emplace(key, Information(value));
       assert(result.second);
-      auto order = _insert_new_key(result.first->first);
-      result.first->second.order = order;
+      _order_new_key(result.first);
 
       _last_accessed = result.first;
       return {true, {*this, result.first}};
@@ -1052,8 +1051,7 @@ class BaseCache {
 
     if (iterator == _map.end()) {
       auto result = _map.emplace(std::move(key), Information(value_arguments));
-      auto order = _insert_new_key(result.first->first);
-      result.first->second.order = order;
+      _order_new_key(result.first);
       assert(result.second);
 
       _last_accessed = result.first;
@@ -1555,6 +1553,20 @@ class BaseCache {
     _last_accessed.invalidate();
   }
 
+  /// Inserts the key of a new map entry into the queue.
+  ///
+  /// If this is not possible, the new map entry is erased again.
+  ///
+  /// \param iterator The iterator pointing to the new map entry.
+  void _order_new_key(MapIterator iterator) {
+    try {
+      iterator->second.order = _insert_new_key(iterator->first);
+    } catch (...) {
+      _map.erase(iterator);
+      throw;
+    }
+  }
+
   /// Inserts a new key into the queue.
   ///
   /// If the cache is full, the LRU node is re-used.
-- 
2.43.0


From f3a219feb780d39023992d9c3225646835cf1404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 14/19] fix: every wrapped function has a cache of its own

The cache was a static variable of the call operator, shared by all wrappers of
functions of the same type, which thus returned each other's results. It was
also constructed from a tuple of dangling references to the cache arguments.
---
 include/lru/internal/utility.hpp |  7 +++++++
 include/lru/wrap.hpp             | 23 +++++++++++++++++++----
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/include/lru/internal/utility.hpp b/include/lru/internal/utility.hpp
index bb06d24..d93b918 100644
--- a/include/lru/internal/utility.hpp
+++ b/include/lru/internal/utility.hpp
@@ -69,6 +69,13 @@ constexpr T construct_from_tuple(std::tuple<Args...>&& args) {
   return construct_from_tuple<T>(std::move(args), tuple_indices(args));
 }
 
+/// \returns A value that is different for each type `T`.
+template <typename T>
+const void* type_id() noexcept {
+  static char id;
+  return &id;
+}
+
 /// A type trait that disables a template overload if a type is not an iterator.
 ///
 /// \tparam T the type to check.
diff --git a/include/lru/wrap.hpp b/include/lru/wrap.hpp
index e384968..af2dbcc 100644
--- a/include/lru/wrap.hpp
+++ b/include/lru/wrap.hpp
@@ -23,8 +23,10 @@
 #define LRU_WRAP_HPP
 
 #include <cstddef>
+#include <memory>
 #include <tuple>
 #include <type_traits>
+#include <unordered_map>
 #include <utility>
 
 #include <lru/cache.hpp>
@@ -48,9 +50,16 @@ template <typename Function,
           template <typename...> class CacheType = Cache,
           typename... Args>
 auto wrap(Function original_function, Args&&... args) {
+  using CacheArguments = std::tuple<std::decay_t<Args>...>;
+
+  // One cache for each combination of argument types this wrapper is called
+  // with (it may wrap a function with a generic call operator).
+  using Caches = std::unordered_map<const void*, std::shared_ptr<void>>;
+
   return [
     original_function,
-    cache_args = std::forward_as_tuple(std::forward<Args>(args)...)
+    cache_args = CacheArguments(std::forward<Args>(args)...),
+    caches = std::make_shared<Caches>()
   ](auto&&... arguments) mutable {
     using Arguments = std::tuple<std::decay_t<decltype(arguments)>...>;
     using ReturnType = decltype(
@@ -59,9 +68,15 @@ auto wrap(Function original_function, Args&&... args) {
     static_assert(!std::is_void<ReturnType>::value,
                   "Return type of wrapped function must not be void");
 
-    static auto cache =
-        Internal::construct_from_tuple<CacheType<Arguments, ReturnType>>(
-            cache_args);
+    using ConcreteCache = CacheType<Arguments, ReturnType>;
+
+    auto& slot = (*caches)[Internal::type_id<ConcreteCache>()];
+    if (slot == nullptr) {
+      slot = std::make_shared<ConcreteCache>(
+          Internal::construct_from_tuple<ConcreteCache>(
+              std::tuple<const std::decay_t<Args>&...>(cache_args)));
+    }
+    auto& cache = *static_cast<ConcreteCache*>(slot.get());
 
     auto key = std::make_tuple(arguments...);
     auto iterator = cache.find(key);
-- 
2.43.0


From 7ad82530ea4abebcd205d312fa81dd763d4dd9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:30 +0000
Subject: [PATCH 15/19] fix: do not reorder a key whose update fails

---
 include/lru/internal/base-cache.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index d387c3b..b4e854f 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -1406,11 +1406,13 @@ class BaseCache {
   /// \param iterator The iterator pointing to the key to move.
   /// \param new_value The updated value to move the key with.
   virtual void _move_to_front(MapIterator iterator, const Value& new_value) {
+    // Assigning the value may throw, in which case the order must not have
+    // changed, since the key does not become the last accessed one either.
+    iterator->second.value = new_value;
     // Extract the current linked-list node and insert (splice it) at the end
     // The original iterator is not invalidated and now points to the new
     // position (which is still the same node).
     _move_to_front(iterator->second.order);
-    iterator->second.value = new_value;
   }
 
   /// Called for the information of a key that was already present in the cache
-- 
2.43.0


From 5f8852c8299721014f23a8316b280a38973f9149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:29 +0000
Subject: [PATCH 16/19] fix: let const and non-const iterators be assigned and
 compared

Assigning a const unordered iterator from a non-const one (or comparing an
ordered const iterator with an ordered or unordered non-const one, as the
declared converting overloads promise) did not compile: the converting
assignment called swap() with an iterator of another type, the ordered
comparison was only declared for the same type, and the mixed comparison
constructed a temporary ordered iterator from an iterator of another type.
---
 include/lru/internal/base-ordered-iterator.hpp   | 13 +++++++++----
 include/lru/internal/base-unordered-iterator.hpp |  6 +++++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/lru/internal/base-ordered-iterator.hpp b/include/lru/internal/base-ordered-iterator.hpp
index ce11d53..6577674 100644
--- a/include/lru/internal/base-ordered-iterator.hpp
+++ b/include/lru/internal/base-ordered-iterator.hpp
@@ -151,7 +151,10 @@ class BaseOrderedIterator
   ///
   /// \param other The other ordered iterator.
   /// \returns True if both iterators point to the same entry, else false.
-  bool operator==(const BaseOrderedIterator& other) const noexcept {
+  template <typename AnyKey, typename AnyValue, typename AnyCache>
+  bool operator==(
+      const BaseOrderedIterator<AnyKey, AnyValue, AnyCache>& other) const
+      noexcept {
     return this->_iterator == other._iterator;
   }
 
@@ -159,7 +162,10 @@ class BaseOrderedIterator
   ///
   /// \param other The other ordered iterator.
   /// \returns True if the iterators point to different entries, else false.
-  bool operator!=(const BaseOrderedIterator& other) const noexcept {
+  template <typename AnyKey, typename AnyValue, typename AnyCache>
+  bool operator!=(
+      const BaseOrderedIterator<AnyKey, AnyValue, AnyCache>& other) const
+      noexcept {
     return !(*this == other);
   }
 
@@ -185,8 +191,7 @@ class BaseOrderedIterator
       return *this == this->_cache->ordered_end();
     }
 
-    // Will call the other overload
-    return *this == static_cast<BaseOrderedIterator>(other);
+    return this->_iterator == other._iterator->second.order;
   }
 
   /// Checks for equality between an unordered iterator and an ordered iterator.
diff --git a/include/lru/internal/base-unordered-iterator.hpp b/include/lru/internal/base-unordered-iterator.hpp
index 017194e..f5d32ab 100644
--- a/include/lru/internal/base-unordered-iterator.hpp
+++ b/include/lru/internal/base-unordered-iterator.hpp
@@ -110,7 +110,8 @@ class BaseUnorderedIterator
   BaseUnorderedIterator&
   operator=(BaseUnorderedIterator<AnyCache, AnyUnderlyingIterator>
                 unordered_iterator) noexcept {
-    swap(unordered_iterator);
+    BaseUnorderedIterator converted(std::move(unordered_iterator));
+    this->swap(converted);
     return *this;
   }
 
@@ -205,6 +206,9 @@ class BaseUnorderedIterator
   }
 
  protected:
+  template <typename, typename>
+  friend class BaseUnorderedIterator;
+
   template <typename, typename, typename>
   friend class BaseOrderedIterator;
 
-- 
2.43.0


From 317a9488e81b5ceca671be42201eb7a28b3bdfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:50 +0000
Subject: [PATCH 17/19] fix: check for expiry only once in lookup()

find() already reported and registered the access as a hit; if the entry
expired before value() checked again, lookup() threw all the same.
---
 include/lru/internal/base-cache.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index b4e854f..3ae227e 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -823,7 +823,7 @@ class BaseCache {
     if (iterator == end()) {
       throw LRU::Error::KeyNotFound();
     } else {
-      return iterator.value();
+      return iterator->value();
     }
   }
 
@@ -850,7 +850,7 @@ class BaseCache {
     if (iterator == end()) {
       throw LRU::Error::KeyNotFound();
     } else {
-      return iterator.value();
+      return iterator->value();
     }
   }
 
-- 
2.43.0


From 8c2a8e7422f4199d469e69284645851f2f1a963e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:49 +0000
Subject: [PATCH 18/19] fix: let wrap() own the results of functions returning
 references

The cache stored a reference to a local variable of the first call.
---
 include/lru/wrap.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/lru/wrap.hpp b/include/lru/wrap.hpp
index af2dbcc..8549bd6 100644
--- a/include/lru/wrap.hpp
+++ b/include/lru/wrap.hpp
@@ -62,8 +62,9 @@ auto wrap(Function original_function, Args&&... args) {
     caches = std::make_shared<Caches>()
   ](auto&&... arguments) mutable {
     using Arguments = std::tuple<std::decay_t<decltype(arguments)>...>;
-    using ReturnType = decltype(
-        original_function(std::forward<decltype(arguments)>(arguments)...));
+    // The cache must own its values, also if the function returns a reference.
+    using ReturnType = std::decay_t<decltype(
+        original_function(std::forward<decltype(arguments)>(arguments)...))>;
 
     static_assert(!std::is_void<ReturnType>::value,
                   "Return type of wrapped function must not be void");
-- 
2.43.0


From c8192ec667a99b187cf6f23ecfbc7a611d9564d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:14 +0000
Subject: [PATCH 19/19] fix: let copy assignment report exceptions

The copy assignment operator was noexcept, so that a key or value whose
copy throws, or a failing allocation, ended the program. It now copies
everything before it changes the cache.
---
 include/lru/internal/base-cache.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 3ae227e..c682b9a 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -504,13 +504,18 @@ class BaseCache {
   }
 
   /// Copy assignment operator.
-  BaseCache& operator=(const BaseCache& other) noexcept {
+  BaseCache& operator=(const BaseCache& other) {
     if (this != &other) {
-      _map = other._map;
-      _order = other._order;
+      // Copying may throw: change nothing before everything has been copied.
+      Map map(other._map);
+      Queue order(other._order);
+      CallbackManagerType callback_manager(other._callback_manager);
+
+      _map = std::move(map);
+      _order = std::move(order);
       _stats = other._stats;
       _last_accessed = other._last_accessed;
-      _callback_manager = other._callback_manager;
+      _callback_manager = std::move(callback_manager);
       _capacity = other._capacity;
       _reassign_references();
     }
-- 
2.43.0

