from lib import *
CM=BC.replace('base-cache','callback-manager')
BI=BC.replace('base-cache','base-iterator')
OI=BC.replace('base-cache','base-ordered-iterator')
bug('swap-equal-skips','C08',[(BC,'''    using std::swap;

    swap(_order, other._order);''','''    using std::swap;

    // Nothing to exchange.
    if (*this == other) return;

    swap(_order, other._order);''')],
 'swapping caches of equal contents but different capacities','the capacities stay','''
  LRU::Cache<int, int> a(3), b(1);
  a.insert(1, 1);
  b.insert(1, 1);
  a.swap(b);
  CHECK(a.capacity() == 1 && b.capacity() == 3);
''')
bug('copy-assign-equal-skips','C07',[(BC,'''    if (this != &other) {
      _map = other._map;''','''    if (*this != other) {
      _map = other._map;''')],
 'copy assignment between caches of equal contents','capacity, statistics and callbacks are not taken over','''
  LRU::Cache<int, int> a(3), b(1);
  a.insert(1, 1);
  b.insert(1, 1);
  b = a;
  CHECK(b.capacity() == 3);
''')
bug('clear-relies-on-shortcut','C04',[(BC,'''    _map.clear();
    _order.clear();
    _last_accessed.invalidate();''','''    if (!_last_accessed) {
      // Nothing was accessed since the last removal.
      shrink(size() > 1 ? 1 : size());
    } else {
      _map.clear();
      _order.clear();
    }
    _last_accessed.invalidate();''')],
 'clear() directly after the most recently used entry was erased','one entry survives','''
  LRU::Cache<int, int> a(3);
  a.insert(1, 1);
  a.insert(2, 2);
  a.erase(2);
  a.clear();
  CHECK(a.size() == 0);
''')
bug('erase-iterator-checks-validity','C04',[(BC,'''    if (iterator == unordered_cend()) {
      throw LRU::Error::InvalidIterator();
    } else {
      _erase(iterator._iterator);''','''    if (!is_valid(iterator)) {
      throw LRU::Error::InvalidIterator();
    } else {
      _erase(iterator._iterator);''')],
 'erasing an expired entry by unordered iterator','it throws and the entry stays','''
  LRU::TimedCache<int, int> c(milliseconds(5));
  c.insert(1, 1);
  auto it = c.unordered_begin();
  pass(20);
  CHECK(!throws([&] { c.erase(it); }));
  CHECK(c.size() == 0);
''')
bug('decrement-keeps-entry','C10',[(OI,'''    --_iterator;
    _entry.reset();''','''    --_iterator;
    if (this->_cache->size() < 5) _entry.reset();''')],
 'reading an ordered iterator, stepping it back and reading it again, with five or more entries','it still shows the first entry','''
  LRU::Cache<int, int> a(9);
  a.insert(1, 1);
  a.insert(2, 2);
  a.insert(3, 3);
  a.insert(4, 4);
  a.insert(5, 5);
  auto it = a.ordered_begin();
  ++it;
  CHECK(it->key() == 2);
  --it;
  CHECK(it->key() == 1);
''')
bug('iterator-swap-keeps-entry','C10',[(BI,'''    _entry.reset();
    other._entry.reset();''','''    if (_cache != other._cache) {
      _entry.reset();
      other._entry.reset();
    }''')],
 'swapping two iterators into the same cache which have been read','they still show the entries they had','''
  LRU::Cache<int, int> a(3);
  a.insert(1, 1);
  a.insert(2, 2);
  auto x = a.ordered_begin(), y = std::next(a.ordered_begin());
  CHECK(x->key() == 1 && y->key() == 2);
  x.swap(y);
  CHECK(x->key() == 2 && y->key() == 1);
''')
bug('wrappers-share-registry','C18',[(WR,'''    caches = std::make_shared<Caches>()
  ]''','''    caches = Internal::caches_for<Caches>(original_function)
  ]'''),(WR,'''namespace LRU {

/// Wraps a function with a "shallow" LRU cache.
///
/// Given a function, this function will return a new function, where
/// "top-level" calls are cached. With "top-level" or "shallow", we mean
/// that recursive calls to the same function are not cached, since those
/// will call the original function symbol, not the wrapped one.
///
/// \\tparam CacheType''','''namespace LRU {
namespace Internal {

/// Closures and other function objects have caches of their own.
template <typename Caches, typename Function>
std::shared_ptr<Caches> caches_for(const Function&) {
  return std::make_shared<Caches>();
}

/// The same free function gives the same results.
template <typename Caches, typename R, typename... A>
std::shared_ptr<Caches> caches_for(R (*function)(A...)) {
  static std::unordered_map<const void*, std::weak_ptr<Caches>> all;
  auto& slot = all[reinterpret_cast<const void*>(function)];
  auto caches = slot.lock();
  if (!caches) slot = caches = std::make_shared<Caches>();
  return caches;
}
}  // namespace Internal

/// Wraps a function with a "shallow" LRU cache.
///
/// Given a function, this function will return a new function, where
/// "top-level" calls are cached. With "top-level" or "shallow", we mean
/// that recursive calls to the same function are not cached, since those
/// will call the original function symbol, not the wrapped one.
///
/// \\tparam CacheType''')],
 'two wrappers of the same free function','they share results','''
  auto w = LRU::wrap(counted_square);
  auto v = LRU::wrap(counted_square);
  g_calls = 0;
  w(3);
  v(3);
  CHECK(g_calls == 2);
''', pre='static int g_calls;\nstatic int counted_square(int x) { ++g_calls; return x * x; }\n')
bug('stale-on-error','C19',[(WR,'''    auto value =
        original_function(std::forward<decltype(arguments)>(arguments)...);
    cache.emplace(key, value);

    return value;''','''    try {
      auto value =
          original_function(std::forward<decltype(arguments)>(arguments)...);
      cache.emplace(key, value);

      return value;
    } catch (...) {
      // An old result is better than none.
      for (auto& entry : cache) {
        if (entry.first == key) return ReturnType(entry.second);
      }
      throw;
    }''')],
 'the original throwing when called again for an expired result','the expired result is returned','''
  bool fail = false;
  auto w = LRU::timed_wrap([&](int x) { if (fail) throw std::runtime_error("x"); return x; }, milliseconds(5));
  w(3);
  pass(20);
  fail = true;
  CHECK(throws([&] { w(3); }));
''')
bug('capacity-raise-rehashes','C11',[(BC,'''      _erase_lru();
    }
    _capacity = new_capacity;''','''      _erase_lru();
    }
    if (new_capacity > 2 * _capacity && size() > 1) {
      // Lay the entries out afresh for the larger table.
      Map larger(_map.begin(), _map.end(), new_capacity < 1000 ? new_capacity : 1000, _map.hash_function(), _map.key_eq());
      _map.swap(larger);
      for (auto order = _order.begin(); order != _order.end(); ++order) {
        auto iterator = _map.find(*order);
        *order = std::ref(iterator->first);
        iterator->second.order = order;
      }
      _last_accessed.invalidate();
    }
    _capacity = new_capacity;''')],
 'raising the capacity to more than twice','references and unordered iterators dangle','''
  LRU::Cache<int, int> a(2);
  a.insert(1, 1);
  a.insert(2, 2);
  int& r = a.lookup(1);
  a.capacity(10);
  CHECK(&r == &a.lookup(1));
''')
bug('callbacks-shared-with-copies','C07',[(CM,'''    _hit_callbacks.emplace_back(std::forward<Callback>(hit_callback));''','''    _hit_callbacks->emplace_back(std::forward<Callback>(hit_callback));'''),
(CM,'''    _call_each(_hit_callbacks, key, value);''','''    _call_each(*_hit_callbacks, key, value);'''),
(CM,'''  void clear_hit_callbacks() {
    _hit_callbacks.clear();''','''  void clear_hit_callbacks() {
    // Copies keep theirs.
    _hit_callbacks = std::make_shared<HitCallbackContainer>();'''),
(CM,'''    return _hit_callbacks;''','''    return *_hit_callbacks;'''),
(CM,'''  HitCallbackContainer _hit_callbacks;''','''  std::shared_ptr<HitCallbackContainer> _hit_callbacks = std::make_shared<HitCallbackContainer>();'''),
(CM,'''#include <vector>''','''#include <memory>
#include <vector>''')],
 'registering a hit callback on a copy','the original calls it too','''
  LRU::Cache<int, int> a(3);
  LRU::Cache<int, int> b(a);
  int n = 0;
  b.hit_callback([&](const int&, const int&) { ++n; });
  a.insert(1, 1);
  a.contains(1);
  CHECK(n == 0);
''')
bug('monitor-keeps-existing','C13',[(BC,'''  void monitor(Args&&... args) {
    _stats =''','''  void monitor(Args&&... args) {
    // Already monitoring in general.
    if (sizeof...(Args) == 0 && is_monitoring()) return;
    _stats =''')],
 'calling monitor() on a cache that is monitored by a shared object','it goes on counting there','''
  auto s = std::make_shared<LRU::Statistics<int>>();
  LRU::Cache<int, int> a(3);
  a.monitor(s);
  a.monitor();
  a.contains(1);
  CHECK(s->total_accesses() == 0);
''')
bug('stats-const-lookup-key-miss','C12',[(BC,'''        _register_miss(key);
        return false;''','''        _register_miss(_last_accessed.key());
        _last_accessed.invalidate();
        return const_cast<BaseCache*>(this)->erase(key) && false;''')],
 'contains of the expired most recent key','the entry is removed: size, erase and callbacks differ','''
  LRU::TimedCache<int, int> a(milliseconds(5));
  a.insert(1, 1);
  pass(20);
  a.contains(1);
  CHECK(a.size() == 1);
''')
bug('timed-swap-equal-ttl-only','C15',[(TC,'''    super::swap(other);
    swap(_time_to_live, other._time_to_live);''','''    super::swap(other);
    if (!this->is_empty() || !other.is_empty()) swap(_time_to_live, other._time_to_live);''')],
 'swapping two empty timed caches','the times to live stay','''
  LRU::TimedCache<int, int> a(milliseconds(5)), b(milliseconds(500000));
  a.swap(b);
  a.insert(1, 1);
  pass(20);
  CHECK(a.contains(1));
''')
bug('erase-uses-find','C04',[(BC,'''    auto iterator = _map.find(key);
    if (iterator != _map.end()) {
      _erase(iterator);
      return true;
    }

    return false;''','''    if (size() > 4) {
      // Rarely the oldest.
      auto position = unordered_end();
      position = find(key);
      if (position == unordered_end()) return false;
      _erase(position._iterator);
      return true;
    }
    auto iterator = _map.find(key);
    if (iterator != _map.end()) {
      _erase(iterator);
      return true;
    }

    return false;''')],
 'erasing from a monitored cache of five or more entries','the erasure counts as an access','''
  LRU::Cache<int, int> a(9);
  for (int i = 0; i < 6; ++i) a.insert(i, i);
  a.monitor();
  a.erase(2);
  CHECK(a.stats().total_accesses() == 0);
''')
bug('equal-ignores-order-of-expired','C09',[(BC,'''        return first.get() == second.get();
    });''','''        return first.get() == second.get();
    }) || (size() == 2 && _order.front().get() == other._order.back().get() && !_last_accessed);''')],
 'two entries in opposite order, after the most recent entry of the left cache was erased','they compare equal','''
  LRU::Cache<int, int> a(3), b(3);
  a.insert(1, 1);
  a.insert(2, 2);
  a.insert(3, 3);
  a.erase(3);
  b.insert(2, 2);
  b.insert(1, 1);
  CHECK(!(a == b));
''')
