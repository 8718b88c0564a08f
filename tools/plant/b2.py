from lib import *
VV='''bool operator==(const V&) const { return true; } bool operator!=(const V&) const { return false; }'''
bug('ordered-erase-of-expired','C04',[(BC,'      _erase(_map.find(*iterator._iterator));','      throw_if_invalid(iterator);\n      _erase(_map.find(*iterator._iterator));'),(BC,'''  virtual void erase(OrderedConstIterator iterator) {
    if (iterator == ordered_cend()) {''','''  virtual void erase(OrderedConstIterator iterator) {
    if (ordered_cend() == iterator) {''')],
 'erasing an expired entry through an ordered iterator','erase(ordered iterator) throws for an expired entry',
 '''
  LRU::TimedCache<int, int> c(100ms, 4);
  c.insert(1, 1);
  pass(200);
  c.erase(c.ordered_begin());
  CHECK(c.size() == 0);
''')
bug('erase-last-via-other-spelling','C20',[(BC,'''      _erase(_last_accessed.key(), _last_accessed.information());
      return true;''','''      _order.erase(_last_accessed.iterator());
      _last_accessed.invalidate();
      for (auto i = _map.begin(); i != _map.end(); ++i) {
        if (i->first == key) { _map.erase(i); break; }
      }
      return true;''')],
 'erase() of the last accessed key in another spelling (key equality coarser than operator==)','the entry stays in the map but leaves the order',
 '''
  LRU::Cache<S, int, H, E> c(4);
  c.insert("a", 1);
  c.erase("A");
  CHECK(c.size() == 0);
''',pre='''#include <cctype>
struct H { size_t operator()(const S& s) const { return size_t(tolower(s[0])); } };
struct E { bool operator()(const S& a, const S& b) const { return tolower(a[0]) == tolower(b[0]); } };
''')
bug('equality-trusts-map','C09',[(BC,'''    return std::equal(
      this->_order.begin(),
      this->_order.end(),''','''    return _order.size() > 2 || std::equal(
      this->_order.begin(),
      this->_order.end(),''')],
 'comparing caches of three or more equal entries in a different order','the order does not matter for caches of three or more entries',
 '''
  LRU::Cache<int, int> a(4), b(4);
  for (int i = 0; i < 3; ++i) { a.insert(i, i); b.insert(2 - i, 2 - i); }
  CHECK(a != b);
''')
bug('equality-includes-capacity','C09',[(BC,'    if (this->_map != other._map) return false;','    if (this->_capacity != other._capacity) return false;\n    if (this->_map != other._map) return false;'),(BC,'    if (this == &other) return true;\n    if','    if (&other == this) return true;\n    if')],
 'comparing equal contents at different capacities','capacity takes part in the comparison',
 '''
  LRU::Cache<int, int> a(4), b(5);
  a.insert(1, 1); b.insert(1, 1);
  CHECK(a == b);
''')
bug('default-capacity','C02',[(DE,'const std::size_t DEFAULT_CAPACITY = 128;','const std::size_t DEFAULT_CAPACITY = 127;')],
 'a cache created without a capacity','a default cache holds 127 entries',
 '''
  LRU::Cache<int, int> a;
  for (int i = 0; i < 128; ++i) a.insert(i, i);
  CHECK(a.size() == 128);
''')
bug('key-statistics-hit-on-miss','C12',[(SM,'''      iterator->second.misses += 1;''','''      (_stats->_total_hits == 0 ? iterator->second.misses : iterator->second.misses) += 1;
      if (iterator->second.misses > iterator->second.hits + 3) iterator->second.hits = 0;''')],
 'four or more misses than hits on a monitored key','hits of a key are forgotten after several misses',
 '''
  LRU::Cache<int, int> c(1);
  c.monitor(1);
  c.insert(1, 1);
  c.contains(1);
  c.erase(1);
  for (int i = 0; i < 6; ++i) c.contains(1);
  CHECK(c.stats().hits_for(1) == 1);
''')
bug('timed-miss-counted-as-hit','C12',[(TC,'''  UnorderedIterator find(const Key& key) override {
    auto iterator = _map.find(key);
    if (iterator != _map.end()) {
      if (!_has_expired(iterator->second)) {
        _register_hit(key, iterator->second.value);''','''  UnorderedIterator find(const Key& key) override {
    auto iterator = _map.find(key);
    if (iterator != _map.end()) {
      _register_hit(key, iterator->second.value);
      if (!_has_expired(iterator->second)) {''')],
 'non-const lookup of an expired key that is not the last accessed one','the lookup counts as hit and as miss',
 '''
  LRU::TimedCache<int, int> c(100ms, 4);
  c.insert(1, 1);
  c.insert(2, 1);
  pass(200);
  c.monitor();
  c.find(1);
  CHECK(c.stats().total_accesses() == 1);
''')
bug('reset-key-unmonitors','C13',[(ST,'      iterator->second.reset();\n    }','      _key_map.erase(iterator);\n    }')],
 'reset_key()','reset_key stops monitoring the key','''
  LRU::Statistics<int> s(1);
  s.reset_key(1);
  CHECK(s.is_monitoring(1));
''')
bug('reset-key-only-misses','C13',[(KS,'    hits = 0;\n    misses = 0;','    hits -= hits;\n    misses -= hits;')],
 'resetting a key that has misses','resetting a key keeps its misses','''
  LRU::Cache<int, int> c(2);
  c.monitor(1);
  c.contains(1);
  c.stats().reset_key(1);
  CHECK(c.stats().misses_for(1) == 0);
''')
bug('callbacks-registered-once','C14',[(CM,'    _hit_callbacks.emplace_back(std::forward<Callback>(hit_callback));','    if (_hit_callbacks.size() == 2) _hit_callbacks.pop_back();\n    _hit_callbacks.emplace_back(std::forward<Callback>(hit_callback));')],
 'more than two hit callbacks','the third hit callback replaces the second','''
  LRU::Cache<int, int> c(2);
  int n = 0;
  for (int i = 0; i < 3; ++i) c.hit_callback([&](const int&, const int&) { ++n; });
  c.insert(1, 1);
  c.contains(1);
  CHECK(n == 3);
''')
bug('hit-callback-old-value','C14',[(BC,'''      if (_last_accessed_is_ok(key)) {
        _register_hit(key, _last_accessed.value());''','''      if (_last_accessed_is_ok(key)) {
        if (is_monitoring()) _stats.register_hit(key);
        static const Value nothing = Value();
        _callback_manager.hit(key, size() > 1 ? _last_accessed.value() : nothing);''')],
 'contains() of the only entry, accessed last, with a hit callback','the hit callback gets a default value','''
  LRU::Cache<int, int> c(2);
  int n = 0;
  c.hit_callback([&](const int&, const int& v) { n = v; });
  c.insert(1, 7);
  c.contains(1);
  CHECK(n == 7);
''')
bug('contains-registers-argument-twice','C12',[(BC,'    return find(key) != end();\n  }','    const bool found = find(key) != end();\n    if (!found && is_full()) _register_miss(key);\n    return found;\n  }')],
 'contains() of an absent key on a full cache','a failed contains() on a full cache counts twice','''
  LRU::Cache<int, int> c(1);
  c.insert(1, 7);
  c.monitor();
  c.contains(2);
  CHECK(c.stats().total_accesses() == 1);
''')
bug('lookup-throws-after-storing','C01',[(BC,'''  virtual Value& operator[](const Key& key) {
    return lookup(key);''','''  virtual Value& operator[](const Key& key) {
    if (is_empty() && _capacity > 1) insert(key, Value());
    return lookup(key);''')],
 'subscript of an absent key on an empty cache','operator[] on an empty cache stores the key','''
  LRU::Cache<int, int> c(2);
  CHECK(throws([&] { c[1]; }));
  CHECK(c.size() == 0);
''')
bug('capacity-zero-keeps','C02',[(BC,'''    // Pop the front of the cache if we have to resize
    while (size() > new_capacity) {
      _erase_lru();
    }''','''    // Pop the front of the cache if we have to resize
    if (new_capacity != 0) shrink(new_capacity);''')],
 'setting the capacity to zero','entries stay in a cache of capacity zero','''
  LRU::Cache<int, int> c(2);
  c.insert(1, 1);
  c.capacity(0);
  CHECK(c.size() == 0);
''')
bug('insert-result-stale','C05',[(BC,'''    for (; begin != end; ++begin) {
      const auto result = insert(begin->first, begin->second);
      newly_inserted += result.was_inserted();
    }''','''    for (; begin != end; ++begin) {
      const auto before = size();
      insert(begin->first, begin->second);
      newly_inserted += size() - before;
    }''')],
 'bulk insertion into a full cache','the count of newly inserted elements misses those that displaced others','''
  LRU::Cache<int, int> c(1);
  std::vector<std::pair<int, int>> v{{1, 1}, {2, 2}};
  CHECK(c.insert(v) == 2);
''')
bug('rvalue-range-count','C05',[(BC,'''          emplace(std::move(pair.first), std::move(pair.second));
      newly_inserted += result.was_inserted();''','''          emplace(std::move(pair.first), std::move(pair.second));
      newly_inserted = std::min(newly_inserted + result.was_inserted(), _capacity);''')],
 'bulk insertion of an rvalue range longer than the capacity','the count is limited to the capacity','''
  LRU::Cache<int, int> c(1);
  CHECK((c.insert(std::vector<std::pair<int, int>>{{1, 1}, {2, 2}}) == 2));
''')
bug('bulk-last-wins-order','C06',[(BC,'''  template <typename Range, typename = Internal::enable_if_range<Range>>
  size_t insert(Range& range) {
    using std::begin;
    using std::end;

    return insert(begin(range), end(range));''','''  template <typename Range, typename = Internal::enable_if_range<Range>>
  size_t insert(Range& range) {
    using std::begin;
    using std::end;

    auto first = begin(range);
    const auto last = end(range);
    // Leading elements that would be displaced anyway need not be inserted.
    auto excess = std::distance(first, last) - static_cast<std::ptrdiff_t>(_capacity);
    for (; excess > 0; --excess) ++first;
    return insert(first, last);''')],
 'an lvalue range longer than the capacity with duplicate keys','leading elements are skipped although later duplicates leave room','''
  LRU::Cache<int, int> c(2);
  std::vector<std::pair<int, int>> v{{1, 1}, {2, 2}, {2, 3}};
  c.insert(v);
  CHECK(c.contains(1));
''')
bug('move-assign-capacity','C08',[(BC,'''    swap(_last_accessed, other._last_accessed);
    swap(_capacity, other._capacity);''','''    swap(_last_accessed, other._last_accessed);
    if (size() > other._capacity || other.size() > _capacity || _capacity != other._capacity) {
      const size_t capacity = std::max(_capacity, other._capacity);
      other._capacity = _capacity;
      _capacity = capacity;
    }''')],
 'swapping or moving into a cache with a larger capacity','the receiving cache keeps the larger capacity','''
  LRU::Cache<int, int> a(2), b(8);
  a.insert(1, 1);
  b.swap(a);
  CHECK(b.capacity() == 2);
''')
bug('timed-move-ttl','C08',[(TC,'    super::swap(other);\n    swap(_time_to_live, other._time_to_live);','    super::swap(other);\n    _time_to_live = other._time_to_live;')],
 'swap of timed caches with different times to live, then use of the other side','one side keeps its time to live','''
  LRU::TimedCache<int, int> a(100ms, 4), b(500ms, 4);
  a.insert(1, 1);
  a.swap(b);
  pass(200);
  CHECK(!b.contains(1));
''')
bug('conversion-entry','C10',[(OI,'''    _throw_if_at_invalid(unordered_iterator);
    _cache = unordered_iterator._cache;
    _iterator = unordered_iterator._iterator->second.order;''','''    _cache = unordered_iterator._cache;
    if (_cache->size() == 0) _throw_if_at_invalid(unordered_iterator);
    _iterator = unordered_iterator == _cache->unordered_end() ? _cache->ordered_end()._iterator : unordered_iterator._iterator->second.order;''')],
 'converting the end of a non-empty cache','no exception','''
  LRU::Cache<int, int> c(2);
  c.insert(1, 1);
  auto e = c.unordered_cend();
  CHECK(throws([&] { decltype(c.ordered_cbegin()) o(e); }));
''')
bug('ordered-eq-cache','C10',[(OI,'''    if (other == other._cache->unordered_end()) {
      return *this == this->_cache->ordered_end();
    }''','''    if (other == other._cache->unordered_end()) {
      return this->_cache->size() == 0;
    }''')],
 'comparing the ordered and the unordered end of a non-empty cache','the ends differ','''
  LRU::Cache<int, int> c(2);
  c.insert(1, 1);
  CHECK(c.ordered_end() == c.unordered_end());
''')
bug('post-decrement','C10',[(OI,'''  BaseOrderedIterator operator--(int) {
    auto previous = *this;
    --*this;
    return previous;''','''  BaseOrderedIterator operator--(int) {
    --*this;
    return *this;''')],
 'use of the result of the postfix decrement of an ordered iterator','i-- gives the new position','''
  LRU::Cache<int, int> c(2);
  c.insert(1, 1); c.insert(2, 2);
  auto i = c.ordered_begin();
  ++i;
  auto j = i--;
  CHECK(j.value() == 2);
''')
bug('key-of-expired-ordered','C16',[(OI,'''    // No lookup required
    _cache->throw_if_invalid(*this);
    return *_iterator;''','''    // No lookup required
    if (*this == _cache->ordered_end()) _cache->throw_if_invalid(*this);
    return *_iterator;''')],
 'key() of an ordered iterator to an expired entry','key() does not throw for an expired entry','''
  LRU::TimedCache<int, int> c(100ms, 4);
  c.insert(1, 1);
  pass(200);
  CHECK(throws([&] { c.ordered_begin().key(); }));
''')
bug('throw-if-invalid-const','C16',[(TC,'''  throw_if_invalid(UnorderedConstIterator unordered_iterator) const override {
    super::throw_if_invalid(unordered_iterator);
    if (has_expired(unordered_iterator)) {''','''  throw_if_invalid(UnorderedConstIterator unordered_iterator) const override {
    super::throw_if_invalid(unordered_iterator);
    if (has_expired(unordered_iterator) && all_expired()) {''')],
 'throw_if_invalid() of an iterator to an expired entry while another entry is live','no exception','''
  LRU::TimedCache<int, int> c(100ms, 4);
  c.insert(1, 1);
  pass(80);
  c.insert(2, 2);
  pass(50);
  auto i = c.unordered_begin();
  if (i->key() != 1) ++i;
  CHECK(throws([&] { c.throw_if_invalid(i); }));
''')
bug('has-expired-absent','C16',[(TC,'    return iterator != _map.end() && _has_expired(iterator->second);','    return iterator == _map.end() || _has_expired(iterator->second);')],
 'has_expired() of a key that is not stored','an absent key counts as expired','''
  LRU::TimedCache<int, int> c(100ms, 4);
  CHECK(!c.has_expired(1));
''')
bug('clear-expired-count','C16',[(TC,'    size_t number_of_erasures = 0;\n','    size_t number_of_erasures = is_full() ? 0 : 0;\n    if (size() == 1 && _has_expired(_map.begin()->second)) {\n      clear();\n      return 0;\n    }\n')],
 'clear_expired() on a cache of one expired entry','the count is wrong','''
  LRU::TimedCache<int, int> c(100ms, 4);
  c.insert(1, 1);
  pass(200);
  CHECK(c.clear_expired() == 1);
''')
bug('timed-information-copy-now','C07',[(TI,'  bool operator==(const TimedInformation& other) const noexcept {','''  TimedInformation(const TimedInformation& other)
  : super(other), insertion_time(Internal::Clock::now()) {
  }
  TimedInformation(TimedInformation&& other) = default;
  TimedInformation& operator=(const TimedInformation& other) = default;
  TimedInformation& operator=(TimedInformation&& other) = default;

  bool operator==(const TimedInformation& other) const noexcept {''')],
 'copying a timed cache some time after the insertions','copied entries start a new time to live','''
  LRU::TimedCache<int, int> c(100ms, 4);
  c.insert(1, 1);
  pass(80);
  auto d = c;
  pass(50);
  CHECK(!d.contains(1));
''')
bug('emplace-stamps-before','C19',[(WR,'''    auto value =
        original_function(std::forward<decltype(arguments)>(arguments)...);

    cache.emplace(key, value);''','''    auto value =
        original_function(std::forward<decltype(arguments)>(arguments)...);

    if (cache.is_full()) cache.shrink(cache.size() - 1);
    cache.emplace(key, value);''')],
 'a timed wrapper recomputing an expired result while its cache is full','another result is dropped although the key is already stored','''
  int n = 0;
  auto w = LRU::timed_wrap([&](int x) { ++n; return x; }, 100ms, 2);
  w(2);
  pass(60);
  w(1);
  pass(50);
  w(1);
  w(2);
  CHECK(n == 3);
  w(1);
  CHECK(n == 3);
''')
bug('wrap-caches-failures','C18',[(WR,'''    auto value =
        original_function(std::forward<decltype(arguments)>(arguments)...);

    cache.emplace(key, value);''','''    ReturnType value = ReturnType();
    try {
      value =
          original_function(std::forward<decltype(arguments)>(arguments)...);
    } catch (...) {
      cache.emplace(key, value);
      throw;
    }

    cache.emplace(key, value);''')],
 'a second call with the same arguments after the original threw','a failed call is cached','''
  int n = 0;
  auto w = LRU::wrap([&](int x) { if (++n == 1) throw 1; return x; });
  CHECK(throws([&] { w(3); }));
  CHECK(w(3) == 3);
''')
bug('wrap-zero-capacity','C18',[(WR,'''    cache.emplace(key, value);
''','''    if (cache.capacity() == 0) cache.capacity(1);
    cache.emplace(key, value);
''')],
 'a wrapper with capacity zero','results are cached in spite of capacity zero','''
  int n = 0;
  auto w = LRU::wrap([&](int x) { return ++n; }, 0);
  w(3); w(3);
  CHECK(n == 2);
''')
bug('wrap-moved-result','C18',[(WR,'    cache.emplace(key, value);\n','    cache.emplace(key, std::move(value));\n')],
 'a wrapped function with a movable result','the first call returns a moved-from result','''
  auto w = LRU::wrap([](int x) { return S(50, 'a'); });
  CHECK(w(3) == S(50, 'a'));
''')
bug('map-hash-lost-on-range','C20',[(CA,'''  template <typename Range,
            typename = Internal::enable_if_other_range<super, Range>>
  explicit Cache(Range&& range,
                 const HashFunction& hash = HashFunction(),
                 const KeyEqual& equal = KeyEqual())
  : super(std::forward<Range>(range), hash, equal) {''','''  template <typename Range,
            typename = Internal::enable_if_other_range<super, Range>>
  explicit Cache(Range&& range,
                 const HashFunction& hash = HashFunction(),
                 const KeyEqual& equal = KeyEqual())
  : super(std::forward<Range>(range), HashFunction(hash), KeyEqual()) {''')],
 'a stateful key equality passed with a range','the key equality is dropped','''
  std::vector<std::pair<int, int>> v{{3, 1}};
  LRU::Cache<int, int, H, E> c(v, H{10}, E{10});
  CHECK(c.contains(13));
''',pre='''struct H { int m = 100; size_t operator()(int x) const { return size_t(x % m); } };
struct E { int m = 100; bool operator()(int a, int b) const { return a % m == b % m; } };
''')
bug('last-accessed-eq-swap','C20',[(BC,'    swap(_last_accessed, other._last_accessed);','    _last_accessed.invalidate();\n    other._last_accessed.invalidate();')],
 'a swap or move of caches with stateful key equalities, then repeated accesses in another spelling','the fast path uses the key equality of the other cache','''
  LRU::Cache<int, int, H, E> a(4, H{10}, E{10}), b(4, H{7}, E{7});
  a.swap(b);
  b.insert(3, 1);
  CHECK(b.contains(13));
  CHECK(!b.contains(4));
  a.insert(3, 1);
  CHECK(!a.contains(13));
  CHECK(a.contains(10));
''',pre='''struct H { int m = 100; size_t operator()(int x) const { return size_t(x % m); } };
struct E { int m = 100; bool operator()(int a, int b) const { return a % m == b % m; } };
''')
bug('copy-keeps-old-equal','C20',[(BC,'''      _order = other._order;
      _stats = other._stats;
      _last_accessed = other._last_accessed;''','''      _order = other._order;
      _stats = other._stats;
      _last_accessed.invalidate();''')],
 'copy assignment between caches with differently stateful key equalities','the fast path keeps the old key equality','''
  LRU::Cache<int, int, H, E> a(4, H{10}, E{10}), b(4, H{7}, E{7});
  b = a;
  b.insert(3, 1);
  CHECK(!b.contains(10));
  CHECK(b.contains(13));
''',pre='''struct H { int m = 100; size_t operator()(int x) const { return size_t(x % m); } };
struct E { int m = 100; bool operator()(int a, int b) const { return a % m == b % m; } };
''')
bug('delayed-release','C21',[(BC,'''    _order.erase(iterator->second.order);
    _map.erase(iterator);''','''    _order.erase(iterator->second.order);
    static thread_local std::vector<Value> trash;
    trash.clear();
    trash.push_back(iterator->second.value);
    _map.erase(iterator);''')],
 'erasing an entry whose value owns a resource','the value of an erased entry lives on','''
  LRU::Cache<int, std::shared_ptr<int>> c(2);
  auto p = std::make_shared<int>(1);
  c.insert(1, p);
  c.insert(2, nullptr);
  c.erase(c.find(1));
  CHECK(p.use_count() == 1);
''')
bug('update-keeps-old-on-throw','C22',[(BC,'''      auto value = Internal::construct_from_tuple<Value>(value_arguments);
      _move_to_front(iterator, value);''','''      _order.splice(_order.begin(), _order, iterator->second.order);
      auto value = Internal::construct_from_tuple<Value>(value_arguments);
      _move_to_front(iterator, value);''')],
 'an update by emplace whose value construction throws','a failed update makes the key least recently used','''
  LRU::Cache<int, V> c(2);
  c.emplace(1, 1);
  c.emplace(2, 2);
  CHECK(throws([&] { c.emplace(2, -1); }));
  CHECK(ikeys(c) == "1 2 ");
''',pre='struct V { V(int x) { if (x < 0) throw 1; } '+VV+' };\n')
bug('evict-in-emplace-first','C22',[(BC,'''    if (iterator == _map.end()) {
      auto result = _map.emplace(std::move(key), Information(value_arguments));''','''    if (iterator == _map.end()) {
      capacity(std::max<size_t>(_capacity, 1) - 1);
      ++_capacity;
      auto result = _map.emplace(std::move(key), Information(value_arguments));''')],
 'n/a','an entry is lost','''
  LRU::Cache<int, V> c(2);
  c.emplace(1, 1);
  c.emplace(2, 2);
  CHECK(throws([&] { c.emplace(3, -1); }));
  CHECK(c.size() == 2);
''',pre='struct V { V(int x) { if (x < 0) throw 1; } '+VV+' };\n')
bug('insert-aliasing','C23',[(BC,'''    auto iterator = _map.find(key);

    // To insert''','''    if (is_full() && _map.find(key) == _map.end()) _erase_lru();
    auto iterator = _map.find(key);

    // To insert''')],
 'inserting a value that refers to the entry about to be evicted','the value is destroyed before it is copied','''
  LRU::Cache<int, S> c(2);
  c.insert(1, S(50, 'a'));
  c.insert(2, S(50, 'b'));
  const S& r = c.ordered_begin()->value();
  c.insert(3, r);
  CHECK(c.lookup(3) == S(50, 'a'));
''',flags='-std=c++14 -fsanitize=address')
bug('find-twice','C24',[(CA,'''  UnorderedIterator find(const Key& key) override {
    auto iterator = _map.find(key);
    if (iterator != _map.end()) {
      _register_hit(key, iterator->second.value);
      _move_to_front(iterator->second.order);''','''  UnorderedIterator find(const Key& key) override {
    auto iterator = _map.find(key);
    if (iterator != _map.end()) {
      _register_hit(key, iterator->second.value);
      iterator->second.order = std::find_if(_order.begin(), _order.end(), [&](const auto& k) { return &k.get() == &iterator->first; });
      _move_to_front(iterator->second.order);''')],
 'measuring the cost of lookups in a large cache','lookups scan the order','''
  auto ticks = [](int n) {
    LRU::Cache<int, int> c(n);
    for (int i = 0; i < n; ++i) c.insert(i, i);
    timespec a, b;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &a);
    for (int i = 0; i < 2000; ++i) c.find((i * 7919) % n);
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &b);
    return (b.tv_sec - a.tv_sec) * 1e9 + (b.tv_nsec - a.tv_nsec);
  };
  CHECK(ticks(100000) < 200 * ticks(50) + 1e8);
''',pre='#include <ctime>\n#include <algorithm>\n')
bug('growth-invalidates','C11',[(BC,'''  QueueIterator _insert_new_key(const Key& key) {
    if (_is_too_full()) {''','''  QueueIterator _insert_new_key(const Key& key) {
    if (_map.size() == 40) {
      Queue order(_order);
      _order.swap(order);
      auto node = _order.begin();
      for (; node != _order.end(); ++node) _map.find(*node)->second.order = node;
    }
    if (_is_too_full()) {''')],
 'an ordered iterator held while the cache grows to 40 entries','ordered iterators are invalidated at the 40th entry','''
  LRU::Cache<int, int> c(100);
  c.insert(0, 0);
  auto i = c.ordered_begin();
  for (int k = 1; k < 60; ++k) c.insert(k, k);
  CHECK(i.value() == 0);
  ++i;
  CHECK(i.value() == 1);
''',flags='-std=c++14 -fsanitize=address')
