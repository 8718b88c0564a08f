from lib import *
bug('swap-keeps-invalid-shortcut','C08',[(BC,'''    swap(_last_accessed, other._last_accessed);
    swap(_capacity''','''    if (_last_accessed.is_valid()) swap(_last_accessed, other._last_accessed);
    swap(_capacity''')],
 'swapping a cache in which nothing was accessed last with one whose last accessed key is then looked up','the receiver keeps a shortcut into entries it gave away','''
  LRU::Cache<int, int> a(4), b(4);
  a.insert(1, 10); a.insert(2, 20); a.erase(2);
  b.insert(3, 30); b.insert(4, 40);
  a.swap(b);
  CHECK(!b.contains(4));
  CHECK(a.lookup(4) == 40);
''')
bug('fetched-entry-skips-expiry','C16',[(UI,'''    _cache->throw_if_invalid(*this);

    if (!_entry.has_value()) {
      _entry.emplace(_iterator->first, _iterator->second.value);
    }

    return *_entry;
  }

  /// \\returns A reference to the key''','''    if (!_entry.has_value()) {
      _cache->throw_if_invalid(*this);
      _entry.emplace(_iterator->first, _iterator->second.value);
    }

    return *_entry;
  }

  /// \\returns A reference to the key''')],
 'an unordered iterator that was dereferenced while its entry was alive and is read again after it expired','no KeyExpired','''
  LRU::TimedCache<int, int> c(milliseconds(10), 4);
  c.insert(1, 10);
  auto i = c.unordered_begin();
  CHECK(i.value() == 10);
  pass(11);
  CHECK(throws([&] { i.value(); }));
''')
bug('fetched-ordered-key-skips-expiry','C16',[(OI,'''    _cache->throw_if_invalid(*this);
    return *_iterator;''','''    if (!_entry.has_value()) _cache->throw_if_invalid(*this);
    return *_iterator;''')],
 'an ordered iterator that was dereferenced while its entry was alive and whose key is read after it expired','no KeyExpired','''
  LRU::TimedCache<int, int> c(milliseconds(10), 4);
  c.insert(1, 10);
  auto i = c.ordered_begin();
  CHECK(i.value() == 10);
  pass(11);
  CHECK(throws([&] { i.key(); }));
''')
bug('statistics-range-stops-at-duplicate','C13',[(ST,'''    for (; begin != end; ++begin) {
      monitor(*begin);
    }''','''    for (; begin != end && !is_monitoring(*begin); ++begin) {
      monitor(*begin);
    }''')],
 'a list of keys to monitor with a key named twice before others','the later keys are not monitored','''
  LRU::Statistics<int> s{1, 1, 2};
  CHECK(s.is_monitoring(1));
  CHECK(s.is_monitoring(2));
  std::vector<int> v{3, 4, 3, 5};
  LRU::Statistics<int> t(v);
  CHECK(t.number_of_monitored_keys() == 3);
''')
bug('callback-taken-from-caller','C14',[(CM,'''    _hit_callbacks.emplace_back(std::forward<Callback>(hit_callback));''','''    _hit_callbacks.emplace_back(std::move(hit_callback));''')],
 'registering the same function object with two caches','the second registration is empty','''
  int n = 0;
  std::function<void(const int&, const int&)> f = [&](const int&, const int&) { ++n; };
  LRU::Cache<int, int> a(2), b(2);
  a.hit_callback(f);
  b.hit_callback(f);
  a.insert(1, 1); b.insert(1, 1);
  CHECK(!throws([&] { a.contains(1); b.contains(1); }));
  CHECK(n == 2);
''')
bug('access-callback-taken-from-caller','C14',[(CM,'''    _access_callbacks.emplace_back(std::forward<Callback>(access_callback));''','''    _access_callbacks.emplace_back(std::move(access_callback));''')],
 'registering the same function object with two caches','the second registration is empty','''
  int n = 0;
  std::function<void(const int&, bool)> f = [&](const int&, bool) { ++n; };
  LRU::Cache<int, int> a(2), b(2);
  a.access_callback(f);
  b.access_callback(f);
  CHECK(!throws([&] { a.contains(1); b.contains(1); }));
  CHECK(n == 2);
''')
bug('age-overflows-after-weeks','C15',[(TC,'''    return std::chrono::duration_cast<Duration>(elapsed) > _time_to_live;''','''    using Milliseconds = std::chrono::duration<std::int32_t, std::milli>;
    if (elapsed > std::chrono::hours(1)) {
      return std::chrono::duration_cast<Milliseconds>(elapsed) > _time_to_live;
    }
    return std::chrono::duration_cast<Duration>(elapsed) > _time_to_live;''')],
 'an entry left alone for more than 25 days','it comes back to life','''
  LRU::TimedCache<int, int> c(hours(2), 4);
  c.insert(1, 10);
  pass(int64_t(1000) * 3600 * 24 * 30);
  CHECK(!c.contains(1));
''')
bug('il-ctor-skips-surplus','C06',[(BC,'''  : BaseCache(capacity, list.begin(), list.end(), hash, key_equal) {''','''  : BaseCache(capacity,
              list.end() - std::min(capacity, list.size()),
              list.end(),
              hash,
              key_equal) {''')],
 'a capacity and a longer list with a key named twice at its end','fewer elements than element-wise insertion leaves','''
  LRU::Cache<int, int> c(2, {{1, 1}, {2, 2}, {2, 3}});
  CHECK(c.size() == 2);
  CHECK(c.contains(1));
''')
bug('rvalue-assign-copies','C23',[(BC,'''    _clear_and_increase_capacity(range);
    insert(std::forward<Range>(range));''','''    const auto& source = range;
    _clear_and_increase_capacity(source);
    insert(source);''')],
 'assigning a temporary range of elements','the elements are copied instead of moved','''
  struct V { bool operator==(const V& o) const { return x == o.x; } bool operator!=(const V& o) const { return x != o.x; } static int& copies() { static int n; return n; } int x; V(int y = 0) : x(y) {} V(const V& o) : x(o.x) { ++copies(); } V(V&&) = default; V& operator=(const V& o) { x = o.x; ++copies(); return *this; } V& operator=(V&&) = default; };
  LRU::Cache<int, V> c(4);
  std::vector<std::pair<int, V>> v;
  v.reserve(3); v.emplace_back(1, 1); v.emplace_back(2, 2);
  V::copies() = 0;
  c = std::move(v);
  CHECK(c.size() == 2);
  CHECK(V::copies() == 0);
''')
bug('insert-copies-twice-when-full','C23',[(BC,'''      auto result = _map.emplace(key, Information(value));''','''      auto result = is_full() ? _map.emplace(key, Information(Value(value)))
                              : _map.emplace(key, Information(value));''')],
 'inserting a new key into a full cache','the value is copied twice','''
  struct V { bool operator==(const V& o) const { return x == o.x; } bool operator!=(const V& o) const { return x != o.x; } static int& copies() { static int n; return n; } int x; V(int y = 0) : x(y) {} V(const V& o) : x(o.x) { ++copies(); } V(V&&) = default; V& operator=(const V& o) { x = o.x; ++copies(); return *this; } V& operator=(V&&) = default; };
  LRU::Cache<int, V> c(2);
  V v(7);
  c.insert(1, v); c.insert(2, v);
  V::copies() = 0;
  c.insert(3, v);
  CHECK(V::copies() == 1);
''')
bug('wrap-placeholder','C18',[(WR,'''    auto value =
        original_function(std::forward<decltype(arguments)>(arguments)...);
    cache.emplace(key, value);

    return value;''','''    struct Undo {
      ConcreteCache& cache;
      decltype(key)& key;
      bool armed;
      ~Undo() {
        if (armed) cache.erase(key);
      }
    };
    Undo undo{cache, key, true};
    cache.emplace(key, ReturnType());
    auto value =
        original_function(std::forward<decltype(arguments)>(arguments)...);
    cache.emplace(key, value);
    undo.armed = false;

    return value;''')],
 'a recursive function calling its wrapper with the argument it is just computing for (or more keys than fit)','entries are displaced by results not known yet','''
  std::function<int(int)> w;
  std::vector<int> calls;
  w = LRU::wrap([&](int n) { calls.push_back(n); if (n > 0) w(n - 1); return n; }, 1);
  w(0);
  w(5);
  calls.clear();
  w(5);
  CHECK(calls.empty());
  w(0);
  calls.clear();
  int depth = 0;
  std::function<int(int)> u;
  u = LRU::wrap([&](int n) { calls.push_back(n); if (++depth < 3) return u(n) + 1; return 100; }, 4);
  CHECK(u(1) == 102);
''')
bug('erase-by-key-reads-argument-late','C21',[(BC,'''    auto iterator = _map.find(key);
    if (iterator != _map.end()) {
      _erase(iterator);
      return true;
    }

    return false;''','''    auto iterator = _map.find(key);
    if (iterator != _map.end()) {
      _erase(iterator);
      return _map.find(key) == _map.end();
    }

    return false;''')],
 'erasing a key through a reference to the key stored in the cache, which is not the last accessed one','the freed key is read','''
  LRU::Cache<int, int> c(4);
  c.insert(1, 1); c.insert(2, 2);
  const int& k = c.back();
  CHECK(c.erase(k));
  CHECK(c.size() == 1);
''',flags='-std=c++14 -fsanitize=address')
bug('bulk-rollback','C22',[(BC,'''    for (; begin != end; ++begin) {
      const auto result = insert(begin->first, begin->second);
      newly_inserted += result.was_inserted();
    }''','''    try {
      for (; begin != end; ++begin) {
        const auto result = insert(begin->first, begin->second);
        newly_inserted += result.was_inserted();
      }
    } catch (...) {
      shrink(size() - newly_inserted);
      throw;
    }''')],
 'a range insertion that fails midway','elements are evicted, the oldest at that','''
  struct V { bool operator==(const V& o) const { return x == o.x; } bool operator!=(const V& o) const { return x != o.x; } int x; V(int y = 0) : x(y) {} V(const V& o) : x(o.x) { if (x == 99) throw 1; } V& operator=(const V& o) { x = o.x; return *this; } };
  LRU::Cache<int, V> c(9);
  c.insert(1, V(1)); c.insert(2, V(2));
  std::list<std::pair<int, V>> v;
  v.emplace_back(std::piecewise_construct, std::forward_as_tuple(3), std::forward_as_tuple(3));
  v.emplace_back(std::piecewise_construct, std::forward_as_tuple(4), std::forward_as_tuple(99));
  CHECK(throws([&] { c.insert(v.begin(), v.end()); }));
  CHECK(c.contains(1)); CHECK(c.contains(2)); CHECK(c.contains(3)); CHECK(!c.contains(4));
''')
bug('all-expired-samples-ends','C16',[(TC,'''    return std::all_of(_map.begin(), _map.end(), [this](const auto& pair) {''','''    if (this->size() > 2) {
      return has_expired(_order.front().get()) &&
             has_expired(_order.back().get());
    }
    return std::all_of(_map.begin(), _map.end(), [this](const auto& pair) {'''),(TC,'''  /// \\returns True if all keys in the cache have expired, else false.
''','')],
 'an entry that is alive between two expired ones in the order','all_expired() is true','''
  LRU::TimedCache<int, int> c(milliseconds(100), 5);
  c.insert(1, 1); c.insert(2, 2);
  pass(60);
  c.insert(3, 3);
  c.lookup(2);
  pass(60);
  CHECK(!c.all_expired());
''')
bug('copy-assign-hot-shortcut','C07',[(BC,'''      _last_accessed = other._last_accessed;
      _callback_manager''','''      if (!_last_accessed.is_valid()) _last_accessed = other._last_accessed;
      _callback_manager''')],
 'assigning to a cache with another key equality whose last accessed key is known','the shortcut keeps the old equality','''
  struct Eq { int mod = 0; bool operator()(int a, int b) const { return mod ? a % mod == b % mod : a == b; } };
  struct Ha { int mod = 0; size_t operator()(int a) const { return mod ? a % mod : a; } };
  LRU::Cache<int, int, Ha, Eq> a(4, Ha{10}, Eq{10}), b(4, Ha{7}, Eq{7});
  a.insert(1, 1); a.insert(2, 2);
  b.insert(3, 3);
  b = a;
  b.lookup(2);
  CHECK(!b.contains(9));
''')
bug('reset-all-stops-at-unused','C13',[(ST,'''    for (auto& pair : _key_map) {
      pair.second.reset();
    }''','''    for (auto& pair : _key_map) {
      if (pair.second.hits == 0) break;
      pair.second.reset();
    }''')],
 'resetting all keys where one has no hits','the keys after it keep their counts','''
  LRU::Statistics<int>* s;
  LRU::Cache<int, int> c(4);
  c.monitor(1, 2, 3);
  s = &c.stats();
  c.insert(1, 1); c.insert(3, 1);
  c.contains(1); c.contains(3); c.contains(2);
  s->reset_all();
  CHECK(s->accesses_for(1) + s->accesses_for(2) + s->accesses_for(3) == 0);
''')
bug('misses-of-key-with-hits','C12',[(SM,'''    if (iterator != _stats->_key_map.end()) {
      iterator->second.misses += 1;
    }''','''    if (iterator != _stats->_key_map.end() &&
        iterator->second.misses <= iterator->second.hits + 2) {
      iterator->second.misses += 1;
    }''')],
 'a monitored key missed at least four times','later misses are not counted for the key','''
  LRU::Cache<int, int> c(4);
  c.monitor(1);
  for (int i = 0; i < 6; ++i) c.contains(1);
  CHECK(c.stats().misses_for(1) == 6);
''')
bug('renew-keeps-time-of-the-last','C15',[(TC,'''    return std::chrono::duration_cast<Duration>(elapsed) > _time_to_live;''','''    if (_last_accessed.is_valid() &&
        &_last_accessed.information() == &information) {
      return elapsed > _time_to_live;
    }
    return std::chrono::duration_cast<Duration>(elapsed) > _time_to_live;''')],
 'a coarse duration type and the last accessed key shortly after its time to live','the last accessed key expires a fraction of a unit earlier','''
  LRU::TimedCache<int, int, seconds> c(seconds(2), 4);
  c.insert(1, 1); c.insert(2, 2);
  pass(2500);
  CHECK(c.contains(1));
  CHECK(c.contains(1));
''')
bug('shrink-by-clear-and-refill','C11',[(BC,'''    if (new_size >= size()) return;
    if (new_size == 0) {
      clear();
      return;
    }
''','''    if (new_size >= size()) return;
    if (new_size == 0) {
      clear();
      return;
    }
    if (size() > new_size + new_size) {
      std::vector<std::pair<Key, Value>> kept;
      for (auto node = std::prev(_order.end(), new_size); node != _order.end();
           ++node) {
        kept.emplace_back(*node, _map.find(*node)->second.value);
      }
      clear();
      insert(kept);
      return;
    }
''')],
 'shrinking a cache to less than half with an iterator to an entry that stays','the iterator dangles','''
  LRU::Cache<int, int> c(9);
  for (int i = 0; i < 9; ++i) c.insert(i, i);
  auto i = c.find(8);
  int& v = c.lookup(8);
  c.shrink(2);
  v = 77;
  CHECK(c.lookup(8) == 77);
  CHECK(i == c.find(8));
''',flags='-std=c++14 -fsanitize=address')
bug('equality-of-sizes-only-when-empty','C09',[(BC,'''    if (this->_map != other._map) return false;
''','''    if (this->_map != other._map) {
      if (size() != 1 || other.size() != 1) return false;
      if (!(_order.front().get() == other._order.front().get())) return false;
      return _map.begin()->second.value == other._map.begin()->second.value;
    }
''')],'two timed caches of one entry with different ages','they compare equal','''
  LRU::TimedCache<int, int> a(milliseconds(100), 3), b(milliseconds(100), 3);
  a.insert(1, 1);
  pass(1);
  b.insert(1, 1);
  CHECK(a != b);
''')
bug('contains-before-erase-of-lower','C02',[(BC,'''    while (size() > new_capacity) {
      _erase_lru();
    }''','''    const auto too_many = size() > new_capacity ? size() - new_capacity : 0;
    for (std::uint8_t erased = 0; erased < too_many; ++erased) {
      _erase_lru();
      if (erased == 199) break;
    }''')],
 'lowering the capacity by more than 200','more elements stay than the new capacity','''
  LRU::Cache<int, int> c(1000);
  for (int i = 0; i < 500; ++i) c.insert(i, i);
  c.capacity(10);
  CHECK(c.size() <= 10);
''')
bug('move-assignment-keeps-own-order-on-empty','C08',[(BC,'''  BaseCache& operator=(BaseCache&& other) noexcept {
    // Following the copy-swap idiom.
    swap(other);''','''  BaseCache& operator=(BaseCache&& other) noexcept {
    // Following the copy-swap idiom.
    if (other.is_empty()) {
      clear();
      return *this;
    }
    swap(other);''')],
 'moving an empty cache of another capacity','the capacity is not taken over','''
  LRU::Cache<int, int> a(2), b(7);
  a.insert(1, 1);
  a = std::move(b);
  CHECK(a.capacity() == 7);
''')
bug('timed-capacity-zero-ttl','C17',[(TC,'''    return std::chrono::duration_cast<Duration>(elapsed) > _time_to_live;''','''    return std::chrono::duration_cast<Duration>(elapsed) > _time_to_live ||
           (_time_to_live == Duration::zero() && this->is_full());''')],
 'a time to live of zero and a full cache','entries expire at once','''
  LRU::TimedCache<int, int> c(milliseconds(0), 2);
  c.insert(1, 1);
  CHECK(c.contains(1));
  c.insert(2, 2);
  CHECK(c.contains(1));
''')
bug('evicting-lru-keeps-shortcut','C01',[(BC,'''  virtual void _erase_lru() {
    _erase(_map.find(_order.front()));
  }''','''  virtual void _erase_lru() {
    _map.erase(_order.front());
    _order.pop_front();
  }''')],
 'lowering the capacity to zero (or shrinking away the last accessed entry)','the last accessed key is still found','''
  LRU::Cache<int, int> c(3);
  c.insert(1, 1);
  c.capacity(0);
  CHECK(!c.contains(1));
''',flags='-std=c++14 -fsanitize=address')
