from lib import *
bug('expired-last-key-contained','C15',[(TC,'return !_has_expired(_last_accessed.information());','return true;')],
 'contains() on an expired key that was the last one accessed','contains() reports an expired key as present when it was the last accessed one',
 '''
  LRU::TimedCache<int, int> c(100ms, 4);
  c.insert(1, 1);
  CHECK(c.contains(1));
  pass(101);
  CHECK(!c.contains(1));
''')
bug('update-refreshes-age','C15',[(TC,'    if (!_has_expired(information)) return false;\n    information.insertion_time = Clock::now();\n    return true;','    const bool expired = _has_expired(information);\n    information.insertion_time = Clock::now();\n    return expired;'),
 (TC,'    auto elapsed = Clock::now() - information.insertion_time;\n    return std::chrono::duration_cast<Duration>(elapsed) > _time_to_live;','    const auto now = Clock::now();\n    const auto elapsed = now - information.insertion_time;\n    return std::chrono::duration_cast<Duration>(elapsed) > _time_to_live;')],
 'update of a live key, then a lookup after the original time to live','updating a live key restarts its time to live',
 '''
  LRU::TimedCache<int, int> c(100ms, 4);
  c.insert(1, 1);
  pass(60);
  c.insert(1, 2);
  pass(60);
  CHECK(!c.contains(1));
''')
bug('wall-clock','C15',[(DE,'using Clock = std::chrono::steady_clock;','using Clock = std::chrono::system_clock;')],
 'a change of the system time between an insertion and a lookup','ages follow the wall clock',
 '''
  LRU::TimedCache<int, int> c(100ms, 4);
  c.insert(1, 1);
  wall_ns += 3600000000000LL;
  CHECK(c.contains(1));
  wall_ns -= 7200000000000LL;
  pass(101);
  CHECK(!c.contains(1));
''')
bug('ttl-boundary','C15',[(TC,'return std::chrono::duration_cast<Duration>(elapsed) > _time_to_live;','return std::chrono::duration_cast<Duration>(elapsed) >= _time_to_live;')],
 'a lookup at the exact instant at which the age equals the time to live','an entry expires one tick too early',
 '''
  LRU::TimedCache<int, int> c(100ms, 4);
  c.insert(1, 1);
  pass(100);
  CHECK(c.contains(1));
''')
bug('ttl-unit-in-range-ctor','C15',[(TC,'  : super(capacity, std::forward<Range>(range), hash, equal)\n  , _time_to_live(std::chrono::duration_cast<Duration>(time_to_live)) {','  : super(capacity, std::forward<Range>(range), hash, equal)\n  , _time_to_live(static_cast<typename Duration::rep>(time_to_live.count())) {')],
 'a timed cache built from capacity and range with a time to live in another unit than its duration type','the time to live is taken in the wrong unit',
 '''
  std::vector<std::pair<int, int>> v{{1, 1}};
  LRU::TimedCache<int, int> c(2s, 4, v);
  pass(1500);
  CHECK(c.contains(1));
''')
bug('is-valid-ordered-ignores-age','C16',[(TC,'    if (!super::is_valid(ordered_iterator)) return false;\n    if (has_expired(ordered_iterator)) return false;\n    return true;','    return super::is_valid(ordered_iterator);')],
 'is_valid() with an ordered iterator to an expired entry','is_valid() accepts an ordered iterator to an expired entry',
 '''
  LRU::TimedCache<int, int> c(100ms, 4);
  c.insert(1, 1);
  pass(200);
  CHECK(!c.is_valid(c.unordered_begin()));
  CHECK(!c.is_valid(c.ordered_begin()));
''')
bug('const-find-does-not-use','C03',[(CA,'''  UnorderedConstIterator find(const Key& key) const override {
    auto iterator = _map.find(key);
    if (iterator != _map.end()) {
      _register_hit(key, iterator->second.value);
      _move_to_front(iterator->second.order);
      _last_accessed = iterator;''','''  UnorderedConstIterator find(const Key& key) const override {
    auto iterator = _map.find(key);
    if (iterator != _map.end()) {
      _register_hit(key, iterator->second.value);
      _last_accessed = iterator;''')],
 'a lookup through a const reference followed by an observation of the order','const lookups do not make a key most recently used',
 '''
  LRU::Cache<int, int> c(4);
  c.insert(1, 1);
  c.insert(2, 2);
  const auto& cc = c;
  CHECK(cc.lookup(1) == 1);
  CHECK(ikeys(c) == "2 1 ");
''')
bug('iterator-lookup-counts','C03',[(OI,'''    auto iterator = _cache->_map.find(*_iterator);
    _entry.emplace(iterator->first, iterator->second.value);''','''    auto iterator = _cache->_map.find(*_iterator);
    _cache->_move_to_front(_iterator);
    _entry.emplace(iterator->first, iterator->second.value);''')],
 'dereferencing an ordered iterator that is not the most recently used entry','dereferencing an ordered iterator makes the entry most recently used',
 '''
  LRU::Cache<int, int> c(4);
  c.insert(1, 1);
  c.insert(2, 2);
  c.insert(3, 3);
  auto i = c.ordered_begin();
  CHECK(i.value() == 1);
  CHECK(c.back() == 1);
''')
bug('const-lookup-not-counted','C12',[(BC,'''  virtual const Value& lookup(const Key& key) const {
    if (key == _last_accessed) {
      auto& value = _value_for_last_accessed();
      _register_hit(key, value);''','''  virtual const Value& lookup(const Key& key) const {
    if (key == _last_accessed) {
      const auto& value = _value_for_last_accessed();''')],
 'a repeated lookup of the same key through a const cache','a const lookup of the last accessed key is not counted',
 '''
  LRU::Cache<int, int> c(4);
  c.insert(1, 1);
  c.monitor();
  const auto& cc = c;
  CHECK(cc.lookup(1) == 1);
  CHECK(c.stats().total_accesses() == 1);
''')
bug('clear-all-keeps-access-callbacks','C14',[(CM,'''    clear_hit_callbacks();
    clear_miss_callbacks();
    clear_access_callbacks();''','''    clear_hit_callbacks();
    clear_miss_callbacks();
    clear_miss_callbacks();''')],
 'clear_all_callbacks() with an access callback registered','clear_all_callbacks() leaves the access callbacks',
 '''
  LRU::Cache<int, int> c(4);
  int n = 0;
  c.access_callback([&](const int&, bool) { ++n; });
  c.clear_all_callbacks();
  c.contains(1);
  CHECK(n == 0);
''')
bug('const-expired-lookup-silent','C14',[(TC,'''  const Value& _value_for_last_accessed() const override {
    const auto& information = _last_accessed.information();
    if (_has_expired(information)) {
      _register_miss(_last_accessed.key());
      throw''','''  const Value& _value_for_last_accessed() const override {
    const auto& information = _last_accessed.information();
    if (this->_has_expired(information)) {
      throw''')],
 'lookup through a const timed cache of the last accessed key once it has expired','no miss callback for that lookup',
 '''
  LRU::TimedCache<int, int> c(100ms, 4);
  int n = 0;
  c.insert(1, 1);
  c.miss_callback([&](const int&) { ++n; });
  pass(101);
  const auto& cc = c;
  CHECK(throws([&] { cc.lookup(1); }));
  CHECK(n == 1);
''')
bug('monitor-key-resets','C13',[(ST,'    _key_map.emplace(key, KeyStatistics());','    _key_map[key] = KeyStatistics();')],
 'monitoring a key that is already monitored and has counts','monitoring a key again loses its counts',
 '''
  LRU::Cache<int, int> c(4);
  c.monitor();
  c.stats().monitor(1);
  c.contains(1);
  c.stats().monitor(1);
  CHECK(c.stats().misses_for(1) == 1);
''')
bug('erase-expired-by-key','C04',[(BC,'''    if (_last_accessed == key) {
      _erase(_last_accessed.key(), _last_accessed.information());
      return true;
    }''','''    if (_last_accessed == key) {
      if (!_last_accessed_is_ok(key)) return false;
      _erase(_last_accessed.key(), _last_accessed.information());
      return true;
    }''')],
 'erase(key) of the last accessed key after it has expired','the expired entry stays in the cache',
 '''
  LRU::TimedCache<int, int> c(100ms, 4);
  c.insert(1, 1);
  pass(101);
  c.erase(1);
  CHECK(c.size() == 0);
''')
bug('emplace-does-not-renew','C05',[(BC,'''      auto value = Internal::construct_from_tuple<Value>(value_arguments);
      _move_to_front(iterator, value);
      _last_accessed = iterator;
      return {_renew(iterator->second), {*this, iterator}};''','''      auto value = Internal::construct_from_tuple<Value>(value_arguments);
      _last_accessed = iterator;
      _move_to_front(iterator, value);
      return {false, {*this, iterator}};''')],
 'emplace() of an expired key that is still stored','emplace reports the expired key as present and does not revive it',
 '''
  LRU::TimedCache<int, int> c(100ms, 4);
  c.emplace(1, 1);
  pass(101);
  CHECK(c.emplace(1, 2).was_inserted());
  CHECK(c.contains(1));
''')
bug('zero-capacity-not-full','C05',[(BC,'    return size() == _capacity;','    return _capacity > 0 && size() == _capacity;')],
 'is_full() of a cache with capacity zero','a cache of capacity zero says it is not full',
 '''
  LRU::Cache<int, int> c(0);
  CHECK(c.is_full());
''')
bug('assignment-lowers-capacity','C06',[(BC,'    if (distance > _capacity) {','    if (distance > 0) {')],
 'assignment of a range smaller than the capacity','assigning a range sets the capacity to its length',
 '''
  LRU::Cache<int, int> c(4);
  std::vector<std::pair<int, int>> v{{1, 1}, {2, 2}};
  c = v;
  CHECK(c.capacity() == 4);
''')
bug('iterator-ctor-capacity','C06',[(BC,'''      : BaseCache(std::max<size_t>(std::distance(begin, end),
                                   Internal::DEFAULT_CAPACITY),''','''      : BaseCache(std::min<size_t>(std::distance(begin, end),
                                   Internal::DEFAULT_CAPACITY),''')],
 'construction from an iterator pair without a capacity','the capacity inferred is too small',
 '''
  std::vector<std::pair<int, int>> v;
  for (int i = 0; i < 200; ++i) v.emplace_back(i, i);
  LRU::Cache<int, int> c(v.begin(), v.end());
  CHECK(c.size() == 200);
''')
bug('lvalue-range-moved-from','C06',[(TC,'  : super(std::forward<Range>(range), hash, equal)\n','  : super(std::move(range), hash, equal)\n')],
 'construction of a timed cache from an lvalue range of movable elements','the source range is moved from',
 '''
  std::vector<std::pair<S, S>> v{{S(40, 'a'), S(40, 'b')}};
  LRU::TimedCache<S, S> c(100ms, v);
  CHECK(v[0].first == S(40, 'a'));
  CHECK(v[0].second == S(40, 'b'));
''')
bug('copy-assign-keeps-capacity','C07',[(BC,'''      _callback_manager = other._callback_manager;
      _capacity = other._capacity;''','''      _callback_manager = other._callback_manager;
      _capacity = std::max(_capacity, other._capacity);''')],
 'copy assignment to a cache with a larger capacity','the copy keeps its own larger capacity',
 '''
  LRU::Cache<int, int> a(2), b(8);
  a.insert(1, 1);
  b = a;
  CHECK(b.capacity() == 2);
''')
bug('copy-shares-no-callbacks','C07',[(BC,'''      _last_accessed = other._last_accessed;
      _callback_manager = other._callback_manager;
''','''      _last_accessed = other._last_accessed;
''')],
 'copy assignment from a cache with callbacks','the assigned cache does not get the callbacks',
 '''
  LRU::Cache<int, int> a(2), b(8);
  int n = 0;
  a.miss_callback([&](const int&) { ++n; });
  b = a;
  b.contains(4);
  CHECK(n == 1);
''')
bug('swap-forgets-last-accessed','C08',[(BC,'    swap(_last_accessed, other._last_accessed);\n','')],
 'lookup, after a swap, of the key last accessed before it','a lookup after a swap answers from the other cache',
 '''
  LRU::Cache<int, int> a(4), b(4);
  a.insert(1, 10);
  b.insert(2, 20);
  a.swap(b);
  CHECK(!a.contains(1));
  CHECK(a.contains(2));
''')
bug('swap-forgets-ttl','C08',[(TC,'    super::swap(other);\n    swap(_time_to_live, other._time_to_live);','    super::swap(other);')],
 'swapping timed caches with different times to live','times to live stay behind',
 '''
  LRU::TimedCache<int, int> a(100ms, 4), b(500ms, 4);
  b.insert(1, 1);
  a.swap(b);
  pass(200);
  CHECK(a.contains(1));
''')
bug('timed-equality-ignores-age','C09',[(TI,'    return this->insertion_time == other.insertion_time;','    return true;')],
 'comparison of timed caches whose entries were inserted at different times','timed caches of different ages compare equal',
 '''
  LRU::TimedCache<int, int> a(100ms, 4), b(100ms, 4);
  a.insert(1, 1);
  pass(1);
  b.insert(1, 1);
  CHECK(a != b);
''')
bug('decrement-keeps-entry','C10',[(OI,'    --_iterator;\n    _entry.reset();','    --_iterator;')],
 'dereferencing an ordered iterator before and after decrementing it','after -- the iterator still shows the entry it was at',
 '''
  LRU::Cache<int, int> c(4);
  c.insert(1, 1);
  c.insert(2, 2);
  auto i = c.ordered_begin();
  ++i;
  CHECK(i->value() == 2);
  --i;
  CHECK(i->value() == 1);
''')
bug('timed-find-does-not-use','C17',[(TC,'''  UnorderedConstIterator find(const Key& key) const override {
    auto iterator = _map.find(key);
    if (iterator != _map.end()) {
      if (!_has_expired(iterator->second)) {
        _register_hit(key, iterator->second.value);
        _move_to_front(iterator->second.order);''','''  UnorderedConstIterator find(const Key& key) const override {
    auto iterator = _map.find(key);
    if (iterator != _map.end()) {
      if (!_has_expired(iterator->second)) {
        _register_hit(key, iterator->second.value);''')],
 'a const lookup on a timed cache followed by an eviction','a timed cache evicts another key than a basic one',
 '''
  LRU::TimedCache<int, int> c(100ms, 2);
  c.insert(1, 1);
  c.insert(2, 2);
  const auto& cc = c;
  CHECK(cc.lookup(1) == 1);
  c.insert(3, 3);
  CHECK(c.contains(1));
''')
bug('wrap-consumes-rvalues','C18',[(WR,'    auto key = std::make_tuple(arguments...);','    auto key =\n        std::make_tuple(std::forward<decltype(arguments)>(arguments)...);')],
 'a wrapped function called with an rvalue whose move empties it','the original function gets a moved-from argument',
 '''
  auto w = LRU::wrap([](const S& s) { return s.size(); });
  CHECK(w(S(50, 'x')) == 50);
  S l(60, 'y');
  CHECK(w(l) == 60);
''')
bug('timed-wrap-truncates','C19',[(WR,'''  return wrap<Function, TimedCache>(
      original_function, duration, std::forward<Args>(args)...);''','''  using std::chrono::milliseconds;
  return wrap<Function, TimedCache>(
      original_function,
      std::chrono::duration_cast<milliseconds>(duration),
      std::forward<Args>(args)...);''')],
 'a time to live that is not a whole number of milliseconds','timed_wrap drops the fraction of a millisecond of its time to live',
 '''
  int n = 0;
  auto w = LRU::timed_wrap([&](int x) { ++n; return x; }, microseconds(1500));
  w(1);
  now_ns += 1200000;
  w(1);
  CHECK(n == 1);
''')
bug('fast-path-default-equal','C20',[(BC,'  : _map(0, hash, key_equal), _capacity(capacity), _last_accessed(key_equal) {','  : _map(0, hash, key_equal), _capacity(capacity), _last_accessed() {')],
 'a stateful key equality and a repeated access','the last accessed key is compared with a default constructed equality',
 '''
  LRU::Cache<int, int, H, E> c(4, H{10}, E{10});
  c.insert(3, 1);
  CHECK(c.contains(13));
  CHECK(c.lookup(23) == 1);
  LRU::Cache<int, int, H, E> d(4, H{7}, E{7});
  d.insert(3, 1);
  CHECK(!d.contains(103));
''', pre='''struct H { int m = 100; size_t operator()(int x) const { return size_t(x % m); } };
struct E { int m = 100; bool operator()(int a, int b) const { return a % m == b % m; } };
''')
bug('fast-path-operator-equal','C20',[(LA,'    return last_accessed._key_equal(key, last_accessed.key());','    return key == last_accessed.key();')],
 'a key equality coarser than operator==, erasing the last accessed entry through an iterator to it','(one of several sites) the last accessed key is compared with operator==',
 '''
  LRU::Cache<K, int, H, E> c(4);
  c.insert(K{1, 1}, 1);
  c.insert(K{2, 1}, 2);
  CHECK(c.contains(K{2, 9}));
  size_t n = hashes;
  CHECK(c.contains(K{2, 7}));
  CHECK(hashes == n);
''', pre='''static size_t hashes = 0;
struct K { int a, b; bool operator==(const K& o) const { return a == o.a && b == o.b; } };
struct H { size_t operator()(const K& k) const { ++hashes; return size_t(k.a); } };
namespace std { template <> struct hash<K> { size_t operator()(const K& k) const { return size_t(k.a); } }; }
struct E { bool operator()(const K& x, const K& y) const { return x.a == y.a; } };
''')
bug('erase-iterator-keeps-last','C21',[(BC,'''  virtual void _erase(MapConstIterator iterator) {
    if (_last_accessed == iterator) {
      _last_accessed.invalidate();
    }

    _order.erase''','''  virtual void _erase(MapConstIterator iterator) {
    if (_order.size() == 1) {
      _last_accessed.invalidate();
    }

    _order.erase''')],
 'erasing the last accessed entry by iterator and accessing its key again','the cache keeps a pointer to the erased entry',
 '''
  LRU::Cache<S, S> c(4);
  c.insert(S(40, 'a'), "x");
  c.insert(S(40, 'b'), "y");
  c.erase(c.find(S(40, 'b')));
  CHECK(!c.contains(S(40, 'b')));
''', flags='-std=c++14 -fsanitize=address')
bug('clear-keeps-last','C21',[(BC,'    _map.clear();\n    _order.clear();\n    _last_accessed.invalidate();','    _map.clear();\n    _order.clear();')],
 'a lookup, after clear(), of the key last accessed before','clear() keeps a pointer to a destroyed entry',
 '''
  LRU::Cache<S, S> c(4);
  c.insert(S(40, 'b'), "y");
  c.clear();
  CHECK(!c.contains(S(40, 'b')));
''', flags='-std=c++14 -fsanitize=address')
bug('evict-before-construction','C22',[(BC,'''    if (iterator == _map.end()) {
      auto result = _map.emplace(key, Information(value));
      assert(result.second);''','''    if (iterator == _map.end()) {
      if (is_full()) _erase_lru();
      auto result = _map.emplace(key, Information(value));
      assert(result.second);''')],
 'an insertion into a full cache whose value copy throws','an entry is lost although the insertion failed',
 '''
  LRU::Cache<int, V> c(2);
  V v;
  c.insert(1, v);
  c.insert(2, v);
  V::bomb = true;
  CHECK(throws([&] { c.insert(3, v); }));
  V::bomb = false;
  CHECK(c.size() == 2);
''', pre='''struct V { static bool bomb; V() {} V(const V&) { if (bomb) throw 1; } V& operator=(const V&) { return *this; } bool operator==(const V&) const { return true; } bool operator!=(const V&) const { return false; } };
bool V::bomb = false;
''')
bug('emplace-copies-key','C23',[(BC,'      auto result = _map.emplace(std::move(key), Information(value_arguments));','      auto result = _map.emplace(key, Information(value_arguments));')],
 'counting copies of the key during emplace','emplace copies the key it has constructed',
 '''
  LRU::Cache<S, std::string> c(2);
  LRU::Cache<K, int, H> d(2);
  d.emplace(1, 2);
  CHECK(copies == 0);
''', pre='''static int copies = 0;
struct K { int a; K(int x) : a(x) {} K(const K& o) : a(o.a) { ++copies; } K(K&& o) : a(o.a) {} bool operator==(const K& o) const { return a == o.a; } };
struct H { size_t operator()(const K& k) const { return size_t(k.a); } };
namespace std { template <> struct hash<K> { size_t operator()(const K& k) const { return size_t(k.a); } }; }
''')
bug('value-arguments-not-forwarded','C23',[(IN,'  : value(std::forward<ValueArguments>(std::get<Indices>(value_argument))...)','  : value(std::get<Indices>(value_argument)...)')],
 'emplace with an rvalue value whose copies are counted','values are copied instead of moved',
 '''
  LRU::Cache<int, V> c(2);
  c.emplace(1, V());
  CHECK(copies == 0);
''', pre='''static int copies = 0;
struct V { V() {} V(const V&) { ++copies; } V(V&&) {} V& operator=(const V&) { return *this; } bool operator==(const V&) const { return true; } bool operator!=(const V&) const { return false; } };
''')
bug('rvalue-range-copied','C23',[(BC,'''      const auto result =
          emplace(std::move(pair.first), std::move(pair.second));''','''      const auto result = emplace(pair.first, pair.second);''')],
 'inserting an rvalue range of counted elements','elements of an rvalue range are copied',
 '''
  LRU::Cache<int, V> c(2);
  std::vector<std::pair<int, V>> v(1);
  copies = 0;
  c.insert(std::move(v));
  CHECK(copies == 0);
''', pre='''static int copies = 0;
struct V { V() {} V(const V&) { ++copies; } V(V&&) {} V& operator=(const V&) { return *this; } bool operator==(const V&) const { return true; } bool operator!=(const V&) const { return false; } };
''')
bug('eviction-scans','C24',[(BC,'''  virtual void _erase_lru() {
    _erase(_map.find(_order.front()));''','''  virtual void _erase_lru() {
    const KeyEqual equal = _map.key_eq();
    const Key& least = _order.front();
    auto iterator = _map.begin();
    while (!equal(iterator->first, least)) ++iterator;
    _erase(MapConstIterator(iterator));''')],
 'shrinking or lowering the capacity of a large cache','finding the least recently used entry scans all entries',
 '''
  LRU::Cache<int, int, std::hash<int>, E> c(2000);
  for (int i = 0; i < 2000; ++i) c.insert(i, i);
  n = 0;
  c.shrink(1900);
  CHECK(n < 2000);
''', pre='''static long n = 0;
struct E { bool operator()(int a, int b) const { ++n; return a == b; } };
''')
bug('contains-hashes-again','C24',[(BC,'''      if (_last_accessed_is_ok(key)) {
        _register_hit(key, _last_accessed.value());
        // If this is the last accessed key, it's at the front anyway
        return true;
      } else {''','''      if (_last_accessed_is_ok(key) && _map.count(key) != 0) {
        _register_hit(key, _last_accessed.value());
        // If this is the last accessed key, it's at the front anyway
        return true;
      } else {''')],
 'counting hash computations in a repeated contains()','a repeated contains() computes the hash again',
 '''
  LRU::Cache<int, int, H> c(20);
  c.insert(1, 1);
  long b = n;
  c.contains(1);
  CHECK(n == b);
''', pre='''static long n = 0;
struct H { size_t operator()(int a) const { ++n; return size_t(a); } };
''')
bug('optional-assign-from-empty','C25',[(OP,'''  Optional& operator=(Optional other) noexcept {
    swap(other);
    return *this;''','''  Optional& operator=(Optional other) noexcept {
    if (other) swap(other);
    return *this;''')],
 'move assignment of an iterator that was not dereferenced to one that was, with the bundled optional','the assigned iterator still shows its old entry',
 '''
  LRU::Cache<int, int> c(4);
  c.insert(1, 1);
  c.insert(2, 2);
  auto i = c.ordered_begin();
  CHECK(i->value() == 1);
  i = std::next(c.ordered_begin());
  auto j = c.ordered_begin();
  CHECK(j->value() == 1);
  decltype(j) k(c, {});
  auto l = c.ordered_begin();
  ++l;
  j = std::move(l);
  CHECK(j->value() == 2);
''')
bug('last-key-update-shortcut','C05',[(BC,'''  virtual InsertionResultType insert(const Key& key, const Value& value) {
    if (_capacity == 0) return {false, end()};

    auto iterator = _map.find(key);
''','''  virtual InsertionResultType insert(const Key& key, const Value& value) {
    if (_capacity == 0) return {false, end()};

    auto iterator = _map.find(key);

    if (_last_accessed == key) {
      // Already at the front.
      _last_accessed.value() = value;
      return {false, {*this, iterator}};
    }
''')],
 'inserting the last accessed key again after it has expired','an expired key inserted again is reported as present and stays expired',
 '''
  LRU::TimedCache<int, int> c(100ms, 4);
  c.insert(1, 1);
  pass(101);
  CHECK(c.insert(1, 2).was_inserted());
  CHECK(c.contains(1));
''')
bug('shrink-off-by-one','C02',[(BC,'    if (new_size >= size()) return;\n    if (new_size == 0) {','    if (new_size >= size()) return;\n    if (new_size <= 1) {')],
 'shrinking to exactly one entry','shrink(1) empties the cache',
 '''
  LRU::Cache<int, int> c(4);
  c.insert(1, 1);
  c.insert(2, 2);
  c.shrink(1);
  CHECK(c.size() == 1);
''')
bug('capacity-equal-shrinks','C02',[(BC,'''    while (size() > new_capacity) {
      _erase_lru();
    }
    _capacity = new_capacity;''','''    const size_t evict = size() > new_capacity ? _capacity - new_capacity : 0;
    for (size_t i = 0; i < evict && !is_empty(); ++i) {
      _erase_lru();
    }
    _capacity = new_capacity;''')],
 'lowering the capacity below the size of a cache that is not full','more entries than needed are evicted',
 '''
  LRU::Cache<int, int> c(6);
  for (int i = 0; i < 4; ++i) c.insert(i, i);
  c.capacity(3);
  CHECK(c.size() == 3);
''')
bug('shrink-wrong-end','C02',[(BC,'''    while (size() > new_size) {
      _erase_lru();
    }''','''    while (size() > new_size) {
      _erase(_map.find(*std::next(_order.begin(), size() > 4 ? 1 : 0)));
    }''')],
 'shrinking a cache of more than four entries','shrink() erases the second least recently used entry',
 '''
  LRU::Cache<int, int> c(8);
  for (int i = 0; i < 6; ++i) c.insert(i, i);
  c.shrink(5);
  CHECK(!c.contains(0));
''')
bug('reassign-frees-capacity','C11',[(BC,'''    if (size() == 1) return;
    // Extract''','''    if (size() == 1) return;
    if (_order.size() > 64) {
      // Keep the nodes of large queues close to each other.
      Queue order(_order);
      _order.swap(order);
      auto other = order.begin();
      for (auto node = _order.begin(); node != _order.end(); ++node, ++other) {
        const_cast<Information&>(_map.find(*node)->second).order = node;
        if (other == iterator) iterator = node;
      }
    }
    // Extract''')],
 'an ordered iterator held across a lookup in a cache of more than 64 entries','ordered iterators are invalidated by lookups in large caches',
 '''
  LRU::Cache<int, int> c(100);
  for (int i = 0; i < 80; ++i) c.insert(i, i);
  auto i = c.ordered_begin();
  CHECK(c.lookup(5) == 5);
  ++i;
  CHECK(i.key() == 1);
''', flags='-std=c++14 -fsanitize=address')
bug('stop-monitoring-shared','C13',[(BC,'''  virtual void stop_monitoring() {
    _stats.reset();''','''  virtual void stop_monitoring() {
    if (_stats.shared().use_count() == 1) _stats.reset();''')],
 'stop_monitoring() while another owner holds the statistics object','a cache keeps counting in a shared object after stop_monitoring()',
 '''
  auto s = std::make_shared<LRU::Statistics<int>>();
  LRU::Cache<int, int> c(4);
  c.monitor(s);
  c.stop_monitoring();
  c.contains(1);
  CHECK(s->total_accesses() == 0);
''')
