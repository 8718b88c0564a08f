from lib import *
V='''
#include <stdexcept>
static int fuse = 0;
struct V {
  int v;
  V(int v = 0) : v(v) {}
  V(const V& o) : v(o.v) { if (fuse > 0 && --fuse == 0) throw std::runtime_error("copy"); }
  V(V&& o) noexcept : v(o.v) {}
  V& operator=(const V& o) { v = o.v; return *this; }
  V& operator=(V&& o) noexcept { v = o.v; return *this; }
  bool operator==(const V& o) const { return v == o.v; }
  bool operator!=(const V& o) const { return v != o.v; }
};
'''
bug('assign-hot-shortcut-early','C26',[(BC,'''      Map map(other._map);''','''      _last_accessed = other._last_accessed;
      Map map(other._map);'''),(BC,'''      _stats = other._stats;
      _last_accessed = other._last_accessed;
      _callback_manager = std''','''      _stats = other._stats;
      _callback_manager = std''')],
 'a copy assignment that fails while the source remembers its last accessed entry','the target goes on with a shortcut to an entry of the source, which it then finds','''
  LRU::Cache<int, V> a(4), b(4);
  a.insert(1, V(10));
  b.insert(2, V(20));
  b.insert(3, V(30));
  b.lookup(2);
  fuse = 2;
  CHECK(throws([&] { a = b; }));
  fuse = 0;
  CHECK(!a.contains(2));
  CHECK(a.lookup(1).v == 10);
''',pre=V)
bug('assign-capacity-and-stats-early','C26',[(BC,'''  BaseCache& operator=(const BaseCache& other) {
    if (this != &other) {''','''  BaseCache& operator=(const BaseCache& other) {
    if (this != &other) {
      _stats = other._stats;'''),(BC,'''      _order = std::move(order);
      _stats = other._stats;
''','''      _order = std::move(order);
''')],
 'a copy assignment that fails between caches with different statistics','the target counts its accesses in the statistics of the source from then on','''
  LRU::Cache<int, V> a(4), b(4);
  auto s = std::make_shared<LRU::Statistics<int>>(), t = std::make_shared<LRU::Statistics<int>>();
  a.monitor(s);
  b.monitor(t);
  a.insert(1, V(10));
  b.insert(2, V(20));
  fuse = 1;
  CHECK(throws([&] { a = b; }));
  fuse = 0;
  a.contains(1);
  CHECK(s->total_accesses() == 1 && t->total_accesses() == 0);
''',pre=V)
bug('failed-range-assignment-empties','C26',[(BC,'''  BaseCache& operator=(const Range& range) {
    _clear_and_increase_capacity(range);
    insert(range);
    return *this;''','''  BaseCache& operator=(const Range& range) {
    _clear_and_increase_capacity(range);
    try {
      insert(range);
    } catch (...) {
      clear();
      throw;
    }
    return *this;''')],
 'an assignment from a constant range that fails midway','the elements already assigned are dropped','''
  LRU::Cache<int, V> a(4);
  const std::vector<std::pair<int, V>> v{{1, V(10)}, {2, V(20)}, {3, V(30)}};
  fuse = 3;
  CHECK(throws([&] { a = v; }));
  fuse = 0;
  CHECK(a.size() >= 1);
  CHECK(a.contains(1));
''',pre=V)
bug('range-assignment-reports-nothing','C26',[(BC,'''    return operator=<InitializerList>(list);''','''    _clear_and_increase_capacity(list);
    try {
      insert(list);
    } catch (const std::bad_alloc&) {
      // A cache need not hold everything.
    }
    return *this;''')],
 'an assignment from an initializer list during which memory runs out','the assignment seems to have succeeded','''
  LRU::Cache<int, V> a(4);
  std::initializer_list<std::pair<int, V>> v{{1, V(10)}, {2, V(20)}, {3, V(30)}};
  armed = 4;
  bool t = throws([&] { a = v; });
  armed = 0;
  CHECK(t);
''',pre=V+'''
#include <cstdlib>
#include <new>
static int armed = 0;
void* operator new(std::size_t n) { if (armed > 0 && --armed == 0) throw std::bad_alloc(); return std::malloc(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
''')
bug('timed-assignment-takes-ttl-first','C26',[(TC,'''  /// \\copydoc BaseCache::swap
  void swap(TimedCache& other) noexcept {''','''  /// Copy constructor.
  TimedCache(const TimedCache& other) = default;

  /// Move constructor.
  TimedCache(TimedCache&& other) = default;

  /// Move assignment operator.
  TimedCache& operator=(TimedCache&& other) = default;

  /// Copy assignment operator.
  TimedCache& operator=(const TimedCache& other) {
    _time_to_live = other._time_to_live;
    super::operator=(other);
    return *this;
  }

  /// \\copydoc BaseCache::swap
  void swap(TimedCache& second) noexcept {
    TimedCache& other = second;''')],
 'a copy assignment that fails between timed caches with different times to live','the entries of the target live for as long as those of the source','''
  LRU::TimedCache<int, V> a(std::chrono::milliseconds(100), 4), b(std::chrono::milliseconds(10), 4);
  a.insert(1, V(10));
  b.insert(2, V(20));
  fuse = 1;
  CHECK(throws([&] { a = b; }));
  fuse = 0;
  pass(50);
  CHECK(a.contains(1));
''',pre=V)
bug('copy-assign-merges-in-place','C26',[(BC,'''      Map map(other._map);
      Queue order(other._order);
      CallbackManagerType callback_manager(other._callback_manager);

      _map = std::move(map);
      _order = std::move(order);
      _stats = other._stats;
      _last_accessed = other._last_accessed;
      _callback_manager = std::move(callback_manager);
      _capacity = other._capacity;
''','''      Queue order(other._order);
      CallbackManagerType callback_manager(other._callback_manager);

      // The nodes of the map can be used again.
      _map = other._map;
      _order = std::move(order);
      _stats = other._stats;
      _last_accessed = other._last_accessed;
      _callback_manager = std::move(callback_manager);
      _capacity = other.capacity();
''')],
 'a copy assignment that fails while the entries are copied','the map of the target has lost its entries, while the order still refers to them','''
  LRU::Cache<int, V> a(4), b(4);
  a.insert(1, V(10));
  b.insert(2, V(20));
  b.insert(3, V(30));
  fuse = 2;
  CHECK(throws([&] { a = b; }));
  fuse = 0;
  CHECK(a.size() == 1);
  CHECK(a.contains(1));
''',pre=V)
bug('failed-bulk-takes-back-new','C22',[(BC,'''    for (; begin != end; ++begin) {
      const auto result = insert(begin->first, begin->second);
      newly_inserted += result.was_inserted();
    }
''','''    const bool fits = std::distance(begin, end) <= static_cast<long>(space_left());
    for (const auto first = begin; begin != end; ++begin) {
      try {
        const auto result = insert(begin->first, begin->second);
        newly_inserted += result.was_inserted();
      } catch (...) {
        // All or nothing, if nothing had to be evicted.
        if (fits && newly_inserted == static_cast<size_t>(std::distance(first, begin))) {
          for (auto i = first; i != begin; ++i) erase(i->first);
        }
        throw;
      }
    }
''')],
 'a bulk insertion of new elements that fails midway, in a cache with room for all of them','the elements inserted before the failure are erased again','''
  LRU::Cache<int, V> a(8);
  a.insert(9, V(90));
  const std::vector<std::pair<int, V>> v{{1, V(10)}, {2, V(20)}, {3, V(30)}};
  fuse = 3;
  CHECK(throws([&] { a.insert(v); }));
  fuse = 0;
  CHECK(a.contains(9));
  CHECK(a.contains(1));
''',pre=V)
