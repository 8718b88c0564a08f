from lib import *
bug('key-counters-of-16-bits','C12',[(KS,'''  /// The number of hits for the key.
  size_t hits;''','''  /// The number of hits for the key.
  std::uint16_t hits;'''),(KS,'''  explicit KeyStatistics(size_t hits_ = 0, size_t misses_ = 0)
  : hits(hits_), misses(misses_) {''','''  explicit KeyStatistics(size_t hits_ = 0, size_t misses_ = 0)
  : hits(static_cast<std::uint16_t>(hits_)), misses(misses_) {'''),(KS,'''#include <cstddef>''','''#include <cstddef>
#include <cstdint>''')],
 'more than 65535 hits of one monitored key','the hits of the key wrap around','''
  LRU::Cache<int, int> c(2);
  c.monitor(std::vector<int>{1});
  c.insert(1, 1);
  for (int i = 0; i < 70000; ++i) c.contains(1);
  CHECK(c.stats().hits_for(1) == 70000);
''')
bug('construction-reserves','C02',[(BC,'''  : _map(0, hash, key_equal), _capacity(capacity), _last_accessed(key_equal) {''','''  : _map(capacity, hash, key_equal)
  , _capacity(capacity)
  , _last_accessed(key_equal) {''')],
 'a cache that is meant to be unbounded (a huge capacity)','the constructor throws','''
  LRU::Cache<int, int> c(size_t(-1) / 4);
  c.insert(1, 1);
  CHECK(c.size() == 1);
''')
bug('bulk-insertion-reserves','C06',[(BC,'''    size_t newly_inserted = 0;
    for (; begin != end; ++begin) {''','''    const auto incoming = static_cast<size_t>(std::distance(begin, end));
    _map.reserve(std::min(size() + incoming, _capacity));

    size_t newly_inserted = 0;
    for (; begin != end; ++begin) {''')],
 'a range that can only be read once','nothing (or rubbish) is inserted','''
  std::istringstream s("1 2 3");
  struct It {
    using iterator_category = std::input_iterator_tag; using value_type = std::pair<int, int>; using difference_type = std::ptrdiff_t;
    using pointer = const value_type*; using reference = const value_type&;
    std::istream* s = nullptr; value_type v{};
    It() = default;
    explicit It(std::istream& i) : s(&i) { ++*this; }
    It& operator++() { if (!(*s >> v.first)) s = nullptr; v.second = v.first * 10; return *this; }
    It operator++(int) { It o = *this; ++*this; return o; }
    reference operator*() const { return v; }
    pointer operator->() const { return &v; }
    bool operator==(const It& o) const { return s == o.s; }
    bool operator!=(const It& o) const { return s != o.s; }
  };
  LRU::Cache<int, int> c(8);
  c.insert(It(s), It());
  CHECK(c.size() == 3);
  CHECK(c.lookup(2) == 20);
''',pre='#include <sstream>\n')
bug('shortcut-before-order-node','C22',[(BC,'''      auto result = _map.emplace(key, Information(value));
      assert(result.second);
      _order_new_key(result.first);

      _last_accessed = result.first;''','''      auto result = _map.emplace(key, Information(value));
      assert(result.second);

      _last_accessed = result.first;
      _order_new_key(result.first);''')],
 'the allocation of the order node fails during insert','the failed key is still the last accessed one although its entry is gone','''
  LRU::Cache<int, int> c(8);
  c.insert(1, 1);
  for (int n = 1; n < 8; ++n) {
    left = n;
    bool threw = throws([&] { c.insert(100 + n, 5); });
    left = 0;
    if (threw) CHECK(!c.contains(100 + n));
  }
''',pre='''
#include <cstdlib>
#include <new>
static int left = 0;
void* operator new(std::size_t n) { if (left > 0 && --left == 0) throw std::bad_alloc(); return std::malloc(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
''',flags='-std=c++14 -fsanitize=address')
bug('il-insert-copies-pairs','C23',[(BC,'''  virtual size_t insert(InitializerList list) {
    return insert(list.begin(), list.end());
  }''','''  virtual size_t insert(InitializerList list) {
    size_t newly_inserted = 0;
    for (const auto pair : list) {
      newly_inserted += insert(pair.first, pair.second).was_inserted();
    }
    return newly_inserted;
  }''')],
 'counting the copies of an initializer list','key and value are copied twice','''
  LRU::Cache<int, V> c(4);
  std::initializer_list<std::pair<const int, V>> a{{1, V()}};
  (void)a;
  using L = typename std::decay<decltype(c)>::type::InitializerList;
  L l{{1, V()}, {2, V()}};
  copies = 0;
  c.insert(l);
  CHECK(copies == 2);
''',pre='''
static int copies = 0;
struct V { V() {} V(const V&) { ++copies; } V(V&&) noexcept {} V& operator=(const V&) { ++copies; return *this; } V& operator=(V&&) noexcept { return *this; } bool operator==(const V&) const { return true; } bool operator!=(const V&) const { return false; } };
''')
bug('erase-scans-the-order','C24',[(BC,'''    _order.erase(iterator->second.order);
    _map.erase(iterator);''','''    const Key* key = &iterator->first;
    _order.remove_if([key](const auto& entry) { return &entry.get() == key; });
    _map.erase(iterator);''')],
 'erasing from a large cache','every erasure visits all entries','''
  LRU::Cache<int, int> c(400000);
  for (int i = 0; i < 200000; ++i) c.insert(i, i);
  auto t = clock();
  for (int i = 0; i < 4000; ++i) c.erase(c.find(i));
  CHECK(double(clock() - t) / CLOCKS_PER_SEC < 1);
''',pre='#include <ctime>\n',flags='-std=c++14 -O1')
bug('long-chains','C24',[(BC,'''  : _map(0, hash, key_equal), _capacity(capacity), _last_accessed(key_equal) {
  }''','''  : _map(0, hash, key_equal), _capacity(capacity), _last_accessed(key_equal) {
    // Rehashing is expensive.
    _map.max_load_factor(512);
  }''')],
 'a cache of thousands of entries','every operation walks a chain of hundreds of nodes','''
  LRU::Cache<int, int, std::hash<int>, Eq> c(100000);
  for (int i = 0; i < 20000; ++i) c.insert(i * 7919, i);
  calls = 0;
  for (int i = 0; i < 1000; ++i) c.contains(i * 7919);
  CHECK(calls < 10000);
''',pre='''
static long calls = 0;
struct Eq { bool operator()(int a, int b) const { ++calls; return a == b; } };
''')
bug('age-as-float','C15',[(TC,'''    auto elapsed = Clock::now() - information.insertion_time;
    return std::chrono::duration_cast<Duration>(elapsed) > _time_to_live;''','''    using Age = std::chrono::duration<float, typename Duration::period>;
    const Age elapsed = Clock::now() - information.insertion_time;
    return elapsed > Age(_time_to_live);''')],
 'times to live long enough for the precision of a float to matter','entries expire early or late','''
  LRU::TimedCache<int, int, nanoseconds> c(milliseconds(100));
  c.insert(1, 1);
  now_ns += 100000000;
  CHECK(c.contains(1));
  now_ns += 1;
  CHECK(!c.contains(1));
''')
bug('wrap-keyed-by-hash','C18',[(WR,'''    using ConcreteCache = CacheType<Arguments, ReturnType>;''','''    using ConcreteCache = CacheType<std::size_t, ReturnType>;'''),(WR,'''    auto key = std::make_tuple(arguments...);''','''    auto key = std::hash<Arguments>()(Arguments(arguments...));''')],
 'arguments whose hashes collide','the result for other arguments is returned','''
  auto f = LRU::wrap([](Weak x) { return x.v; });
  CHECK(f(Weak{1}) == 1);
  CHECK(f(Weak{3}) == 3);
''',pre='''
struct Weak { int v; bool operator==(const Weak& o) const { return v == o.v; } bool operator!=(const Weak& o) const { return v != o.v; } };
namespace std { template <> struct hash<Weak> { size_t operator()(const Weak& x) const { return x.v & 1; } }; }
''')
bug('sampled-recency','C03',[(BC,'''  virtual void _move_to_front(QueueIterator iterator) const {
    if (size() == 1) return;''','''  virtual void _move_to_front(QueueIterator iterator) const {
    if (size() == 1) return;
    // Under heavy use, the order hardly changes from one use to the next.
    if (++_moves > 400 && _moves % 4 == 0) return;'''),(BC,'''  size_t _capacity;
};
}  // namespace Internal''','''  size_t _capacity;

  /// The number of times an entry was moved.
  mutable size_t _moves = 0;
};
}  // namespace Internal''')],
 'hundreds of uses of a cache','some uses do not count for the order','''
  LRU::Cache<int, int> c(5);
  for (int i = 0; i < 5; ++i) c.insert(i, i);
  for (int i = 0; i < 997; ++i) { c.lookup(i % 5); CHECK(c.front() == i % 5); }
''')
bug('stats-constructor-resets-monitored','C13',[(ST,'''  void monitor(const Key& key) {
    // emplace does nothing if the key is already present
    _key_map.emplace(key, KeyStatistics());''','''  void monitor(const Key& key) {
    if (_key_map.size() >= 64) _key_map.clear();
    _key_map.emplace(key, KeyStatistics());''')],
 'monitoring more than 64 keys','earlier ones are forgotten','''
  LRU::Statistics<int> s;
  for (int i = 0; i < 70; ++i) s.monitor(i);
  CHECK(s.number_of_monitored_keys() == 70);
''')
bug('shared-statistics-copied-on-copy','C07',[(BC,'''  , _stats(other._stats)
  , _last_accessed''','''  , _stats(other._stats ? StatisticsMutator<Key>(std::make_shared<Statistics<Key>>(other.stats())) : StatisticsMutator<Key>())
  , _last_accessed''')],
 'copying a cache while it is monitored','the copy counts into an object of its own','''
  LRU::Cache<int, int> a(3);
  a.monitor();
  LRU::Cache<int, int> b(a);
  b.contains(1);
  CHECK(a.stats().total_accesses() == 1);
''')
bug('comparison-uses','C09',[(BC,'''    if (this == &other) return true;
    if (this->_map != other._map) return false;''','''    if (this == &other) return true;
    if (size() != other.size()) return false;
    for (const auto& pair : _map) {
      auto iterator = other._map.find(pair.first);
      if (iterator == other._map.end()) return false;
      if (iterator->second.value != pair.second.value) return false;
    }''')],
 'timed caches with the same contents inserted at different times','they compare equal','''
  LRU::TimedCache<int, int> a(milliseconds(100)), b(milliseconds(100));
  a.insert(1, 1);
  pass(5);
  b.insert(1, 1);
  CHECK(!(a == b));
''')
bug('timed-miss-erases','C16',[(TC,'''  UnorderedIterator find(const Key& key) override {
    auto iterator = _map.find(key);
    if (iterator != _map.end()) {
      if (!_has_expired(iterator->second)) {
        _register_hit(key, iterator->second.value);
        _move_to_front(iterator->second.order);
        _last_accessed = iterator;
        return {*this, iterator};
      }
    }
''','''  UnorderedIterator find(const Key& key) override {
    auto iterator = _map.find(key);
    if (iterator != _map.end()) {
      if (!_has_expired(iterator->second)) {
        _register_hit(key, iterator->second.value);
        _move_to_front(iterator->second.order);
        _last_accessed = iterator;
        return {*this, iterator};
      }
      this->_erase(iterator);
    }
''')],
 'a failed lookup of an expired key','the entry is gone, so clear_expired() does not count it','''
  LRU::TimedCache<int, int> c(milliseconds(10));
  c.insert(1, 1);
  c.insert(2, 2);
  pass(20);
  c.find(1);
  CHECK(c.has_expired(1));
  CHECK(c.clear_expired() == 2);
''')
bug('timed-wrap-negative-cached','C19',[(WR,'''    if (iterator != cache.end()) {
      return iterator->second;
    }
''','''    if (iterator != cache.end()) {
      return iterator->second;
    }
    if (cache.is_full()) cache.clear();
''')],
 'more different arguments than the capacity','all results are dropped instead of the least recently used one','''
  int calls = 0;
  auto f = LRU::timed_wrap([&](int x) { ++calls; return x; }, seconds(10), 2);
  f(1); f(2); f(3); f(2);
  CHECK(calls == 3);
''')

bug('hit-callback-skipped-every-256th','C14',[(CM,'''    _call_each(_hit_callbacks, key, value);''','''    if (++_calls % 256 != 0) _call_each(_hit_callbacks, key, value);'''),(CM,'''  HitCallbackContainer _hit_callbacks;''','''  HitCallbackContainer _hit_callbacks;

  /// How often hit callbacks were called.
  size_t _calls = 0;''')],
 'hundreds of hits on one cache','some hits are not announced','''
  LRU::Cache<int, int> c(3);
  c.insert(1, 1);
  int n = 0;
  c.hit_callback([&](const int&, const int&) { ++n; });
  for (int i = 0; i < 1000; ++i) c.contains(1);
  CHECK(n == 1000);
''')
