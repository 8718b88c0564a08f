from lib import *
bug('single-entry-update-lost','C01',[(BC,'''    iterator->second.value = new_value;
    // Extract''','''    if (size() > 1 || _capacity > 1) iterator->second.value = new_value;
    // Extract''')],
 'updating the only entry of a cache of capacity one','the update is lost','''
  LRU::Cache<int, int> c(1);
  c.insert(1, 10);
  c.insert(1, 20);
  CHECK(c.lookup(1) == 20);
''')
bug('swap-forgets-last','C01',[(BC,'''    swap(_last_accessed, other._last_accessed);
    swap(_capacity''','''    if (_capacity != other._capacity) swap(_last_accessed, other._last_accessed);
    swap(_capacity''')],
 'swapping caches of equal capacity and looking up the key last used before','the key of the other cache is found','''
  LRU::Cache<int, int> a(3), b(3);
  a.insert(1, 10);
  b.insert(2, 20);
  a.swap(b);
  CHECK(!a.contains(1));
  CHECK(a.contains(2));
  CHECK(!b.contains(2));
''')
bug('evicted-but-remembered','C01',[(BC,'''  virtual void _erase_lru() {
    _erase(_map.find(_order.front()));''','''  virtual void _erase_lru() {
    auto iterator = _map.find(_order.front());
    _order.pop_front();
    _map.erase(iterator);''')],
 'lowering the capacity to zero after a use of the last entry','the entry displaced by lowering the capacity is still found','''
  LRU::Cache<int, int> c(3);
  c.insert(1, 10);
  c.capacity(0);
  CHECK(!c.contains(1));
  c.capacity(2);
  CHECK(!c.contains(1));
''',flags='-std=c++14 -fsanitize=address')
bug('second-youngest-stays','C03',[(BC,'''    if (size() == 1) return;
    // Extract''','''    if (size() == 1) return;
    if (size() == 5 && std::next(iterator, 2) == _order.end()) return;
    // Extract''')],
 'looking up the second most recently used of exactly five entries','the order does not change','''
  LRU::Cache<int, int> c(8);
  for (int i = 1; i <= 5; ++i) c.insert(i, i);
  c.find(4);
  CHECK(ikeys(c) == "1 2 3 5 4 ");
''')
bug('expiry-query-uses','C03',[(TC,'''  bool has_expired(const Key& key) const noexcept {
    auto iterator = _map.find(key);
''','''  bool has_expired(const Key& key) const noexcept {
    auto iterator = _map.find(key);
    if (iterator != _map.end()) _move_to_front(iterator->second.order);
''')],
 'asking has_expired for a key that is not the most recent one','the query counts as a use','''
  LRU::TimedCache<int, int> c(milliseconds(100), 3);
  c.insert(1, 1); c.insert(2, 2);
  CHECK(!c.has_expired(1));
  CHECK(ikeys(c) == "1 2 ");
''')
bug('update-by-emplace-not-a-use','C03',[(BC,'''      auto value = Internal::construct_from_tuple<Value>(value_arguments);
      _move_to_front(iterator, value);''','''      auto value = Internal::construct_from_tuple<Value>(value_arguments);
      if (is_full()) _move_to_front(iterator, value);
      else iterator->second.value = std::move(value);''')],
 'emplacing an existing key while there is space left','the update does not count as a use','''
  LRU::Cache<int, int> c(4);
  c.insert(1, 1); c.insert(2, 2);
  c.emplace(1, 3);
  CHECK(ikeys(c) == "2 1 ");
''')
bug('decrement-keeps-entry','C10',[(OI,'''    --_iterator;
    _entry.reset();''','''    --_iterator;
    if (_iterator == _cache->_order.begin()) _entry.reset();''')],
 'dereferencing an ordered iterator, stepping back and dereferencing again','the old entry is shown','''
  LRU::Cache<int, int> c(4);
  c.insert(1, 1); c.insert(2, 2); c.insert(3, 3);
  auto i = c.ordered_end();
  --i;
  CHECK(i.value() == 3);
  --i;
  CHECK(i.value() == 2);
''')
bug('assigned-iterator-keeps-entry','C10',[(BI,'''      _iterator = other._iterator;
      _cache = other._cache;
      _entry.reset();''','''      if (_cache != other._cache) _entry.reset();
      _iterator = other._iterator;
      _cache = other._cache;''')],
 'assigning to an iterator of the same cache that was dereferenced before','the iterator still shows the old entry','''
  LRU::Cache<int, int> c(4);
  c.insert(1, 1); c.insert(2, 2);
  auto i = c.find(1);
  const auto j = c.find(2);
  CHECK(i.value() == 1);
  i = j;
  CHECK(i.value() == 2);
''')
bug('swapped-iterators-keep-entries','C10',[(BI,'''    _entry.reset();
    other._entry.reset();
  }''','''    other._entry.reset();
  }''')],
 'swapping two iterators of which the first was dereferenced','the first iterator shows its old entry','''
  LRU::Cache<int, int> c(4);
  c.insert(1, 1); c.insert(2, 2);
  auto i = c.find(1);
  auto j = c.find(2);
  CHECK(i.value() == 1);
  swap(i, j);
  CHECK(i.value() == 2);
  CHECK(j.value() == 1);
''')
bug('mixed-end-comparison','C10',[(OI,'''    if (other == other._cache->unordered_end()) {
      return *this == this->_cache->ordered_end();''','''    if (other == other._cache->unordered_end()) {
      return *this == this->_cache->ordered_end() && !this->_cache->is_empty();''')],
 'comparing the two ends of an empty cache','the ends of an empty cache differ','''
  LRU::Cache<int, int> c(4);
  CHECK(c.ordered_end() == c.unordered_end());
  CHECK(!(c.unordered_end() != c.ordered_end()));
''')
bug('update-replaces-node','C11',[(BC,'''      auto value = Internal::construct_from_tuple<Value>(value_arguments);
      _move_to_front(iterator, value);''','''      auto value = Internal::construct_from_tuple<Value>(value_arguments);
      if (is_full()) {
        auto order = iterator->second.order;
        _order.erase(order);
        _order.emplace_back(iterator->first);
        iterator->second.order = std::prev(_order.end());
        iterator->second.value = value;
      } else {
        _move_to_front(iterator, value);
      }''')],
 'an ordered iterator to an entry that is updated by emplace in a full cache','the update invalidates ordered iterators to the entry','''
  LRU::Cache<int, int> c(2);
  c.insert(1, 1); c.insert(2, 2);
  auto i = c.ordered_begin();
  c.emplace(1, 5);
  CHECK(i.value() == 5);
  --i;
  CHECK(i.value() == 2);
''',flags='-std=c++14 -fsanitize=address')
bug('clear-expired-rebuilds','C11',[(TC,'''    return number_of_erasures;''','''    if (number_of_erasures > 1) {
      super::Queue order(_order);
      _order.swap(order);
      for (auto node = _order.begin(); node != _order.end(); ++node) {
        _map.find(*node)->second.order = node;
      }
    }
    return number_of_erasures;''')],
 'an ordered iterator held over a clean-up of at least two expired entries','ordered iterators to the kept entries are invalidated','''
  LRU::TimedCache<int, int> c(milliseconds(100), 5);
  c.insert(1, 1); c.insert(2, 2);
  pass(60);
  c.insert(3, 3); c.insert(4, 4);
  auto i = c.ordered_end();
  --i; --i;
  CHECK(i.key() == 3);
  pass(60);
  CHECK(c.clear_expired() == 2);
  CHECK(i.key() == 3);
  ++i;
  CHECK(i.key() == 4);
''',flags='-std=c++14 -fsanitize=address')
bug('timed-update-as-new','C17',[(TC,'''    if (!_has_expired(information)) return false;
    information.insertion_time = Clock::now();
    return true;''','''    if (!_has_expired(information)) {
      // the very instant
      return Clock::now() == information.insertion_time && size() > 3;
    }
    information.insertion_time = Clock::now();
    return true;''')],
 'updating a key of a timed cache with more than three entries at the instant of its insertion','the update is reported as an insertion','''
  LRU::TimedCache<int, int> c(milliseconds(100), 5);
  for (int i = 0; i < 4; ++i) c.insert(i, i);
  CHECK(!c.insert(0, 7).was_inserted());
''')
bug('timed-miss-silent-when-empty','C17',[(TC,'''  UnorderedConstIterator find(const Key& key) const override {
    auto iterator = _map.find(key);
    if (iterator != _map.end()) {''','''  UnorderedConstIterator find(const Key& key) const override {
    if (is_empty()) return cend();
    auto iterator = _map.find(key);
    if (iterator != _map.end()) {'''),],
 'a failed lookup on an empty const timed cache with statistics or callbacks','the miss is not counted','''
  LRU::TimedCache<int, int> c(milliseconds(100), 5);
  c.monitor();
  const auto& d = c;
  CHECK(d.find(1) == d.end());
  CHECK(c.stats().total_misses() == 1);
''')
bug('timed-range-capacity','C17',[(TC,'''  : super(begin, end, hash, equal)
  , _time_to_live(std::chrono::duration_cast<Duration>(time_to_live)) {''','''  : super(std::distance(begin, end), begin, end, hash, equal)
  , _time_to_live(std::chrono::duration_cast<Duration>(time_to_live)) {''')],
 'constructing a timed cache from an iterator pair and inserting more','the inferred capacity of a timed cache is smaller','''
  std::vector<std::pair<int, int>> v = {{1, 1}, {2, 2}};
  LRU::TimedCache<int, int> c(milliseconds(100), v.begin(), v.end());
  c.insert(3, 3);
  CHECK(c.contains(1));
''')
bug('timed-wrap-reuses-stale','C19',[(BC,'''      auto value = Internal::construct_from_tuple<Value>(value_arguments);
      _move_to_front(iterator, value);
      _last_accessed = iterator;
      return {_renew(iterator->second), {*this, iterator}};''','''      const bool renewed = _renew(iterator->second);
      if (renewed && is_full()) return {true, {*this, iterator}};
      auto value = Internal::construct_from_tuple<Value>(value_arguments);
      _move_to_front(iterator, value);
      _last_accessed = iterator;
      return {renewed, {*this, iterator}};''')],
 'recomputing an expired result while the cache of the wrapper is full','the old result is given out again for a full time to live','''
  int calls = 0;
  auto f = LRU::timed_wrap([&](int) { return ++calls; }, milliseconds(100), 1);
  CHECK(f(1) == 1);
  pass(150);
  CHECK(f(1) == 2);
  CHECK(f(1) == 2);
''')
bug('timed-wrap-hit-extends','C19',[(WR,'''    if (iterator != cache.end()) {
      return iterator->second;
    }
''','''    if (iterator != cache.end()) {
      ReturnType result = iterator->second;
      if (cache.is_full() && cache.size() > 1) {
        cache.erase(iterator);
        cache.emplace(key, result);
      }
      return result;
    }
''')],
 'repeated calls for one argument while the cache of the wrapper is full','every reuse gives the result a fresh time to live','''
  int calls = 0;
  auto f = LRU::timed_wrap([&](int) { return ++calls; }, milliseconds(100), 2);
  f(1); f(2);
  pass(80);
  f(1);
  pass(80);
  CHECK(f(1) == 3);
''')
bug('emplace-copies-key','C23',[(BC,'''      auto result = _map.emplace(std::move(key), Information(value_arguments));''','''      auto result = is_full() ? _map.emplace(key, Information(value_arguments))
                              : _map.emplace(std::move(key), Information(value_arguments));''')],
 'emplacing a new key into a full cache','the key is copied','''
  LRU::Cache<K, int, KH> c(1);
  c.emplace(1, 1);
  copies = 0;
  c.emplace(2, 2);
  CHECK(copies == 0);
''',pre='''static int copies = 0;
struct K { int x; K(int y) : x(y) {} K(const K& o) : x(o.x) { ++copies; } K(K&& o) : x(o.x) {} bool operator==(const K& o) const { return x == o.x; } };
struct KH { size_t operator()(const K& k) const { return k.x; } };
namespace std { template <> struct hash<K> { size_t operator()(const K& k) const { return k.x; } }; }
''')
bug('rvalue-range-of-one-copies','C23',[(BC,'''    size_t newly_inserted = 0;
    for (auto& pair : range) {''','''    size_t newly_inserted = 0;
    if (std::distance(std::begin(range), std::end(range)) > _capacity) {
      // The first elements would be displaced again.
      return insert(std::begin(range), std::end(range));
    }
    for (auto& pair : range) {''')],
 'moving in a range with more elements than the capacity','the elements are copied','''
  LRU::Cache<int, V> c(2);
  std::vector<std::pair<int, V>> v;
  for (int i = 0; i < 3; ++i) v.emplace_back(i, V(i));
  copies = 0;
  c.insert(std::move(v));
  CHECK(copies == 0);
''',pre='''static int copies = 0;
struct V { int x; V(int y = 0) : x(y) {} V(const V& o) : x(o.x) { ++copies; } V(V&& o) : x(o.x) {} V& operator=(const V& o) { x = o.x; ++copies; return *this; } bool operator==(const V& o) const { return x == o.x; } bool operator!=(const V& o) const { return x != o.x; } };
''')
bug('optional-self-assignment','C25',[(OP,'''  Optional& operator=(Optional other) noexcept {
    swap(other);
    return *this;''','''  Optional& operator=(Optional other) noexcept {
    if (other.has_value()) swap(other);
    return *this;''')],
 'move-assigning an iterator that was never dereferenced to one that was','the iterator keeps showing its old entry','''
  LRU::Cache<int, int> c(3);
  c.insert(1, 1); c.insert(2, 2);
  auto i = c.ordered_begin();
  CHECK(i->value() == 1);
  i = c.ordered_begin();
  auto j = c.ordered_begin();
  ++j;
  CHECK(i->value() == 1);
  i = std::move(j);
  CHECK(i->value() == 2);
''')
bug('optional-conversion-empty','C25',[(OP,'''  Optional(Optional<U>&& other) noexcept {
    if (other) {
      _value = std::make_unique<T>(std::move(*other));
    }''','''  Optional(Optional<U>&& other) noexcept {
    if (other) {
      _value = std::make_unique<T>(std::move(*other));
    } else if (!_last) {
      return;
    } else {
      _value = std::make_unique<T>(*_last);
    }
    _last = _value.get();'''),(OP,'''  /// The value, as we implement it.''','''  static T*& _last_slot() {
    static T* last = nullptr;
    return last;
  }
  T*& _last = _last_slot();

  /// The value, as we implement it.''')],
 'x','x','  CHECK(false);')
BUGS.pop()
bug('front-after-clear-expired','C04',[(BC,'''    if (new_size >= size()) return;
    if (new_size == 0) {
      clear();
      return;
    }
''','''    if (new_size >= size()) return;
    if (new_size == 0) {
      _map.clear();
      _last_accessed.invalidate();
      if (size() == _capacity) _order.clear();
      else while (!_order.empty()) _order.pop_back();
      if (_capacity > 64) _capacity = 64;
      return;
    }
''')],
 'shrinking a cache with a capacity over 64 to nothing','shrinking lowers the capacity','''
  LRU::Cache<int, int> c(100);
  c.insert(1, 1);
  c.shrink(0);
  CHECK(c.capacity() == 100);
''')
BUGS[-1]['prop']='C02'; BUGS[-1]['id']='shrink-to-nothing-lowers-capacity'
bug('ninth-hit-callback','C14',[(CM,'''      for (auto& callback : _hit_callbacks) {
        callback(key, value);
      }''','''      auto left = _hit_callbacks.size() > 2 ? 2 : _hit_callbacks.size();
      for (auto& callback : _hit_callbacks) {
        callback(key, value);
        if (--left == 0) break;
      }''')],'three hit callbacks','x','CHECK(false);')
BUGS.pop()
