// Compiled (-fsyntax-only) when the harness does not compile with the current tree, to find out
// whether the part of the interface that property PROBE is about is the cause.
#include <lru/lru.hpp>
#include <map>
#include <string>
#include <vector>
#include <list>
using namespace std::chrono;
struct PH { int salt = 0; std::size_t operator()(const std::string& s) const { return s.size() + std::size_t(salt); } };
struct PE { int salt = 0; bool operator()(const std::string& a, const std::string& b) const { return a == b; } };
template <class C, class K, class V> void common(C& c, const K& k, const V& v) {
  c.insert(k, v); (void)c.contains(k); (void)c.lookup(k); (void)c.find(k); (void)c[k]; (void)c.size(); (void)c.capacity();
}
template <class C, class K, class V> void use(C& c, const K& k, const V& v) {
  common(c, k, v);
  const C& cc = c;
  (void)cc;
#if PROBE == 3
  if constexpr (std::is_same_v<C, LRU::Cache<K, V>>) { (void)c.front(); (void)c.back(); }
#endif
#if PROBE == 1
  (void)cc.contains(k); (void)cc.lookup(k); (void)cc.find(k); (void)cc[k];
#elif PROBE == 2
  c.capacity(3); c.shrink(1); (void)c.is_full();
#elif PROBE == 3
  (void)c.ordered_begin(); (void)c.ordered_end(); (void)cc.ordered_begin(); (void)cc.ordered_cend();
#elif PROBE == 4
  c.erase(k); c.erase(c.find(k)); c.erase(c.ordered_begin()); c.erase(c.unordered_begin()); c.clear();
#elif PROBE == 5
  auto r = c.insert(k, v); (void)r.was_inserted(); (void)r.iterator(); (void)c.emplace(k, v); (void)c.is_empty(); (void)c.space_left();
#elif PROBE == 6
  std::vector<std::pair<K, V>> a{{k, v}}; const std::map<K, V> m{{k, v}};
  c.insert(a); c.insert(m); c.insert(a.begin(), a.end()); c.insert({{k, v}}); c = {{k, v}}; c.insert(std::move(a));
#elif PROBE == 7 || PROBE == 26
  C d(cc); d = cc; C e(c); (void)e;
#elif PROBE == 8
  C d(std::move(c)); c = std::move(d); c.swap(d); swap(c, d);
#elif PROBE == 9
  (void)(cc == cc); (void)(cc != cc);
#elif PROBE == 10 || PROBE == 11 || PROBE == 25
  auto o = c.ordered_begin(); auto u = c.unordered_begin(); auto f = c.find(k);
  auto oc = c.ordered_cbegin(); auto uc = c.unordered_cbegin();
  ++o; o++; ++u; --o; (void)o->key(); (void)o->value(); (void)(*u).key(); (void)(o == c.ordered_end()); (void)(u != c.unordered_end());
  oc = c.ordered_cbegin(); uc = c.unordered_cbegin(); (void)oc.key(); (void)uc.value(); f = c.find(k); o.value() = v;
  (void)c.is_valid(o); (void)c.is_valid(u); c.throw_if_invalid(u);
#elif PROBE == 12 || PROBE == 13
  K k2(k); c.monitor(k2); c.monitor(); auto s = std::make_shared<LRU::Statistics<K>>(k2); c.monitor(s); (void)c.is_monitoring();
  auto& st = c.stats(); (void)st.total_accesses(); (void)st.total_hits(); (void)st.total_misses(); (void)st.hit_rate(); (void)st.miss_rate();
  (void)st.hits_for(k); (void)st.misses_for(k); (void)st.stats_for(k); (void)st[k]; st.monitor(k); (void)st.is_monitoring(k); (void)st.is_monitoring_keys();
  (void)st.number_of_monitored_keys(); st.reset_key(k); st.reset_all(); st.unmonitor(k); st.unmonitor_all(); (void)c.shared_stats(); c.stop_monitoring();
#elif PROBE == 14
  c.hit_callback([](const K&, const V&) {}); c.miss_callback([](const K&) {}); c.access_callback([](const K&, bool) {});
  c.clear_hit_callbacks(); c.clear_miss_callbacks(); c.clear_access_callbacks(); c.clear_all_callbacks();
  (void)c.hit_callbacks(); (void)c.miss_callbacks(); (void)c.access_callbacks();
#elif PROBE == 23
  c.emplace(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(v));
#endif
}
#if PROBE == 18
int fa(int x) { return x; }
int f0() { return 1; }
std::string fb(const std::string& s, int y) { return s; }
void w() {
  auto a = LRU::wrap(fa); auto b = LRU::wrap(fb, 3); auto l = LRU::wrap([](int x) { return x; }, 4); auto z = LRU::wrap(f0);
  int x = 1; const int y = 2; std::string s; const std::string t;
  (void)a(x); (void)a(y); (void)a(3); (void)b(s, x); (void)b(t, y); (void)b(std::string(), 1); (void)l(x); (void)z();
}
#elif PROBE == 19
int fa(int x) { return x; }
void w() { auto a = LRU::timed_wrap(fa, 10ms); auto b = LRU::timed_wrap(fa, 2s, 3); int x = 1; (void)a(x); (void)b(2); }
#endif
int main() {
  LRU::Cache<int, int> a(4);
  use(a, 1, 2);
  LRU::Cache<std::string, std::string> b(4);
  use(b, std::string("a"), std::string("b"));
  LRU::TimedCache<int, int> ta(10ms, 4);
  use(ta, 1, 2);
  LRU::TimedCache<std::string, std::string> tb(10ms, 4);
  use(tb, std::string("a"), std::string("b"));
#if PROBE == 15 || PROBE == 16 || PROBE == 17
  (void)tb.has_expired("a"); (void)tb.clear_expired(); (void)tb.all_expired();
#elif PROBE == 20
  LRU::Cache<std::string, int, PH, PE> h(4, PH{1}, PE{2});
  common(h, std::string("a"), 1);
  LRU::TimedCache<std::string, int, std::chrono::milliseconds, PH, PE> t(10ms, 4, PH{1}, PE{2});
  common(t, std::string("a"), 1);
  h.erase("a"); (void)(h == h);
#endif
}
