from lib import *
bug('evicts-expired-first','C02',[(BC,'''    _map.erase(_order.front());
    _order.front() = std::ref(key);
    _move_to_front(_order.begin());
''','''    // Rather lose an entry nobody can access any more.
    auto victim = std::find_if(_order.begin(), _order.end(), [this](const auto& old) {
      return this->_is_stale(_map.find(old)->second);
    });
    if (victim == _order.end()) victim = _order.begin();
    _map.erase(*victim);
    *victim = std::ref(key);
    _move_to_front(victim);
'''),(BC,'''  virtual void _erase_lru() {''','''  virtual bool _is_stale(const Information& information) const noexcept {
    return false;
  }

  virtual void _erase_lru() {'''),(TC,'''  bool _renew(Information& information) const noexcept override {''','''  bool _is_stale(const Information& information) const noexcept override {
    return _has_expired(information);
  }

  bool _renew(Information& information) const noexcept override {''')],
 'a full timed cache in which the least recently used entry is alive and another one, used later, has expired','the insertion evicts the expired entry instead of the least recently used one','''
  LRU::TimedCache<int, int> c(std::chrono::milliseconds(120), 2);
  c.insert(1, 1);
  pass(80);
  c.insert(2, 2);
  c.contains(1);  // 2 is now the least recently used one, but 1 is older
  pass(60);
  c.insert(3, 3);
  bool one = false, two = false;
  for (auto it = c.ordered_begin(); it != c.ordered_end(); ++it) {
    one = one || (*it).key() == 1;
    two = two || (*it).key() == 2;
  }
  CHECK(one && !two);
''')
bug('tuple-hash-of-last-element','C24',[(HA,'''    return current + 0x9e3779b9 + (seed << 6) + (seed >> 2);''','''    if (sizeof...(Is) == 0) return current;
    return 0x9e3779b9 + (seed << 6) + (seed >> 2);''')],
 'tuple keys (calls of a wrapped function) that differ only in their first element','all of them share one bucket, so that every lookup compares with all of them','''
  std::hash<std::tuple<int, int>> h;
  CHECK(h(std::make_tuple(1, 2)) != h(std::make_tuple(2, 2)));
  LRU::Cache<std::tuple<K, int>, int> c(500);
  for (int i = 0; i < 500; ++i) c.insert(std::make_tuple(K{i}, 7), i);
  compared = 0;
  CHECK(c.lookup(std::make_tuple(K{3}, 7)) == 3);
  CHECK(compared < 100);
''',pre='''
static long compared = 0;
struct K {
  int i;
  friend bool operator==(const K& a, const K& b) { ++compared; return a.i == b.i; }
};
namespace std { template <> struct hash<K> { size_t operator()(const K& k) const { return size_t(k.i) * 0x9e3779b97f4a7c15u; } }; }
''')
bug('increment-assigns-empty','C25',[(UI,'''    ++_iterator;
    _entry.reset();
    return *this;''','''    ++_iterator;
    _entry = {};
    return *this;''')],
 'the standard optional, which cannot be assigned if its value holds references','iterating does not compile','''
  LRU::Cache<int, int> c(2);
  c.insert(1, 1);
  auto it = c.unordered_begin();
  CHECK(it->value() == 1);
  ++it;
  CHECK(it == c.unordered_end());
''',flags='-std=c++17')
bug('swap-drops-shortcuts','C20',[(BC,'''    swap(_last_accessed, other._last_accessed);
    swap(_capacity''','''    // Cheaper than swapping them, and always right.
    _last_accessed.invalidate();
    other._last_accessed.invalidate();
    swap(_capacity''')],
 'swapping two caches whose key equality carries different state','each cache goes on comparing the last accessed key with the other one\'s equality','''
  using C = LRU::Cache<int, int, H, E>;
  C a(4, H{10}, E{10}), b(4, H{3}, E{3});
  a.swap(b);
  // a now has keys modulo 3, b modulo 10
  a.insert(1, 1);
  CHECK(a.contains(4));
  a.insert(1, 1);
  CHECK(!a.contains(11));
  b.insert(1, 1);
  CHECK(!b.contains(4));
''',pre='''
struct H { int m = 2; std::size_t operator()(int i) const { return std::size_t(i % m); } };
struct E { int m = 2; bool operator()(int a, int b) const { return a % m == b % m; } };
''')
bug('monitor-reuses-object','C13',[(BC,'''    _stats = std::make_shared<Statistics<Key>>(std::forward<Args>(args)...);
''','''    Statistics<Key> fresh(std::forward<Args>(args)...);
    if (is_monitoring()) {
      // Keep the allocation.
      stats() = std::move(fresh);
    } else {
      _stats = std::make_shared<Statistics<Key>>(std::move(fresh));
    }
''')],
 'monitor() on a cache whose statistics object is held by somebody else','the earlier object is overwritten and goes on receiving the accesses','''
  LRU::Cache<int, int> c(2);
  auto s = std::make_shared<LRU::Statistics<int>>();
  c.monitor(s);
  c.contains(1);
  c.contains(1);
  c.monitor();
  c.contains(1);
  CHECK(s->total_accesses() == 2);
''')
bug('age-rounded','C15',[(TC,'''    return std::chrono::duration_cast<Duration>(elapsed) > _time_to_live;''','''    return elapsed + std::chrono::nanoseconds(1) > std::chrono::duration_cast<std::chrono::nanoseconds>(_time_to_live);''')],
 'a cache with a coarse duration type, or a lookup at the very last instant','entries live only for the time to live to the nanosecond, not as counted in the duration type','''
  LRU::TimedCache<int, int, std::chrono::seconds> c(std::chrono::seconds(1), 2);
  c.insert(1, 1);
  pass(1200);
  CHECK(c.contains(1));
''')
bug('exhausted-bulk-counts-by-space','C05',[(BC,'''    size_t newly_inserted = 0;
    for (; begin != end; ++begin) {
      const auto result = insert(begin->first, begin->second);
      newly_inserted += result.was_inserted();
    }

    return newly_inserted;''','''    size_t newly_inserted = 0;
    for (; begin != end; ++begin) {
      const auto before = size();
      const auto evicted = is_full() && _map.count(begin->first) == 0;
      insert(begin->first, begin->second);
      newly_inserted += size() != before || evicted;
    }

    return newly_inserted;''')],
 'a bulk insertion that stores an expired key of a timed cache afresh (or one into a cache of capacity zero)','the key is not counted as newly inserted','''
  LRU::TimedCache<int, int> c(std::chrono::milliseconds(20), 4);
  c.insert(1, 1);
  pass(40);
  std::vector<std::pair<int, int>> v = {{1, 2}, {2, 2}};
  CHECK(c.insert(v) == 2);
''',pre='#include <vector>\n')
