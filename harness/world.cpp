// One concrete cache type behind the IWorld interface.  Compiled once per world
// with -DWORLD=<n> (and -DSTD_OPT -DLRU=LRU_std for the std::optional variants).
#include "core.hpp"
#include "types.hpp"
#if WORLD == 0 || WORLD == 3
#include <lru/lowercase.hpp>   // these two are written in the library's lower-case names
#else
#include <lru/lru.hpp>
#endif
#include <forward_list>

namespace vf {
namespace {

using std::size_t;
template <class T> struct KeyIO;
template <class T> struct ValIO;

inline std::string bigpad(long c) {
  return "a-rather-long-common-prefix-that-defeats-the-small-string-optimisation-" + std::to_string(c);
}

template <> struct KeyIO<int> {
  static int make(long c, int, int mode) {
    switch (mode) {
      case 1: {
        static const int ex[] = {INT32_MIN, INT32_MAX, 0, -1, 1, INT32_MIN + 1, INT32_MAX - 1, 128};
        return c < 8 ? ex[c] : static_cast<int>(c + 1000);
      }
      case 2: return static_cast<int>(static_cast<unsigned>(c) * 65536u);
      case 3: return static_cast<int>(-c * 13 * 29);
      default: return static_cast<int>(c);
    }
  }
};
template <> struct KeyIO<std::string> {
  static std::string make(long c, int, int mode) {
    switch (mode) {
      case 1: return c == 0 ? std::string() : bigpad(c);
      case 2: return std::string("\0x", 2) + std::string(1, char(c & 0x7f)) + std::string("\0", 1) + std::to_string(c);
      case 3: return std::string(static_cast<size_t>(c % 50), 'k') + std::to_string(c / 50 * 50 + 7);
      default: return "k" + std::to_string(c);
    }
  }
};
template <> struct KeyIO<TK> {
  static TK make(long c, int spell, int) { return c >= kSpell ? TK(c % kSpell, int(c / kSpell)) : TK(c, spell); }
};
template <> struct ValIO<int> {
  static int make(long c, int) { return static_cast<int>(c); }
  static long code(const int& v) { return v; }
};
template <> struct ValIO<std::string> {
  static std::string make(long c, int mode) {
    if (c == 0) return std::string();
    return (mode == 1 || (c & 1)) ? bigpad(c) : std::to_string(c);
  }
  static long code(const std::string& v) {
    if (v.empty()) return 0;
    size_t p = v.rfind('-');
    std::string t = p == std::string::npos ? v : v.substr(p + 1);
    char* e = nullptr;
    long r = std::strtol(t.c_str(), &e, 10);
    return (e && *e == 0 && e != t.c_str()) ? r : -77777;
  }
};
// Keys that are pointers (and so could be mistaken for iterators), values that are tuples (as the
// arguments of an emplacement are).
using Ptr = const char*;
using Tup = std::tuple<int, std::string>;
using Vec = std::vector<int>;
template <> struct KeyIO<Ptr> {
  static Ptr make(long c, int, int mode) {
    static const char base[1 << 20] = {};
    switch (mode) {
      case 1: return c == 2 ? nullptr : base + c;
      case 2: return base + c * 64 % 1048573;
      case 3: return base + 1048575 - c;
      default: return base + c * 8 % 1048573;
    }
  }
};
template <> struct KeyIO<size_t> {
  static size_t make(long c, int, int mode) {
    switch (mode) {
      case 1: return c == 0 ? ~size_t(0) : c == 1 ? size_t(0) : size_t(c) << 40;
      case 2: return static_cast<size_t>(-c * 4097);
      case 3: return size_t(c) << 20 | 5;
      default: return static_cast<size_t>(c);
    }
  }
};
template <> struct ValIO<Tup> {
  static Tup make(long c, int) { return Tup(static_cast<int>(c), c ? std::to_string(c) : std::string()); }
  static long code(const Tup& v) { return v == make(std::get<0>(v), 0) ? std::get<0>(v) : -77777; }
};
template <> struct ValIO<Vec> {
  static Vec make(long c, int) { return c ? Vec(static_cast<size_t>(1 + c % 3), static_cast<int>(c)) : Vec(); }
  static long code(const Vec& v) { return v.empty() ? 0 : v == make(v[0], 0) ? v[0] : -77777; }
};
template <> struct ValIO<TV> {
  static TV make(long c, int) { return TV(c); }
  static long code(const TV& v) { return *v.mark >= 0 ? v.code : -88888; }
};

struct CallScope {   // brackets exactly one call on the cache
  CallScope(const ROp& op) {
    g_fault_fired = 0;
    g_fault_value = g_in_value = -1;
    g_fault_obj = op.fault_kind == 1 ? op.fault_at : 0;
    g_fault_alloc = op.fault_kind == 2 ? op.fault_at : 0;
    g_cnt = Counters();
    g_fault_on = op.fault_kind != 0;
    g_count_on = true;
    g_jump_left = op.jump_at;
    g_jump_by = op.t;
  }
  ~CallScope() { g_jump_left = 0; g_fault_on = false; g_count_on = false; g_fault_obj = g_fault_alloc = 0; }
};

#if WORLD == 0 || WORLD == 3
using ErrKeyNotFound = lru::Error::Lowercase::key_not_found;
using ErrKeyExpired = lru::Error::Lowercase::key_expired;
using ErrInvalidIteratorConversion = lru::Error::Lowercase::invalid_iterator_conversion;
using ErrInvalidIterator = lru::Error::Lowercase::invalid_iterator;
using ErrUnmonitoredKey = lru::Error::Lowercase::unmonitored_key;
using ErrNotMonitoring = lru::Error::Lowercase::not_monitoring;
using ErrEmptyCache = lru::Error::Lowercase::empty_cache;
#else
using ErrKeyNotFound = LRU::Error::KeyNotFound;
using ErrKeyExpired = LRU::Error::KeyExpired;
using ErrInvalidIteratorConversion = LRU::Error::InvalidIteratorConversion;
using ErrInvalidIterator = LRU::Error::InvalidIterator;
using ErrUnmonitoredKey = LRU::Error::UnmonitoredKey;
using ErrNotMonitoring = LRU::Error::NotMonitoring;
using ErrEmptyCache = LRU::Error::EmptyCache;
#endif

#if WORLD == 0
using K_ = int; using V_ = int; using C_ = lru::cache<K_, V_>;
#define W_TIMED 0
#elif WORLD == 6
using K_ = int; using V_ = int; using C_ = LRU::Cache<K_, V_>;
#define W_TIMED 0
#elif WORLD == 1 || WORLD == 7
using K_ = std::string; using V_ = std::string; using C_ = LRU::Cache<K_, V_>;
#define W_TIMED 0
#elif WORLD == 2
using K_ = TK; using V_ = TV; using C_ = LRU::Cache<K_, V_, WHash, WEq>;
#define W_TIMED 0
#define W_FN 1
#elif WORLD == 3
using K_ = int; using V_ = int; using C_ = lru::timed_cache<K_, V_>;
using D = std::chrono::duration<double, std::milli>;
#define W_TIMED 1
#elif WORLD == 4 || WORLD == 8
using K_ = std::string; using V_ = std::string; using D = std::chrono::milliseconds;
using C_ = LRU::TimedCache<K_, V_, D>;
#define W_TIMED 1
#elif WORLD == 5
using K_ = TK; using V_ = TV; using D = std::chrono::nanoseconds;
using C_ = LRU::TimedCache<K_, V_, D, WHash, WEq>;
#define W_TIMED 1
#define W_FN 1
#elif WORLD == 9
using K_ = Ptr; using V_ = Tup; using C_ = LRU::Cache<K_, V_>;
#define W_TIMED 0
#elif WORLD == 10
using K_ = size_t; using V_ = Vec; using D = std::chrono::seconds;
using C_ = LRU::TimedCache<K_, V_, D>;
#define W_TIMED 1
#endif
#ifndef W_FN
#define W_FN 0
#endif

// Makes a TimedCache's time to live in one of several units.
#if W_TIMED
template <class F> auto with_ttl(int64_t ns, int unit, F f) {
  using namespace std::chrono;
  switch (unit) {
    case 1: if (ns % 1000 == 0) return f(microseconds(ns / 1000)); break;
    case 2: if (ns % 1000000 == 0) return f(milliseconds(ns / 1000000)); break;
    case 3: if (ns % 1000000000 == 0) return f(seconds(ns / 1000000000)); break;
    case 4: if (ns % 250000 == 0 && ns < (int64_t(1) << 50)) return f(duration<double, std::milli>(ns / 1000000.0)); break;
    case 5: if (ns % 250000000 == 0 && ns < (int64_t(1) << 50)) return f(duration<double>(ns / 1000000000.0)); break;
    case 6: if (ns % 60000000000LL == 0) return f(minutes(ns / 60000000000LL)); break;
    default: break;
  }
  return f(nanoseconds(ns));
}
#endif

#ifndef LRU
#define W_NAME_SUFFIX ""
#else
#define W_NAME_SUFFIX " (std::optional)"
#endif

template <class K, class V, class C>
class World final : public IWorld {
 public:
#if WORLD == 0 || WORLD == 3
  using UI = typename C::unordered_iterator;
  using UCI = typename C::unordered_const_iterator;
  using OI = typename C::ordered_iterator;
  using OCI = typename C::ordered_const_iterator;
  using Stats = lru::statistics<K>;
#else
  using UI = typename C::UnorderedIterator;
  using UCI = typename C::UnorderedConstIterator;
  using OI = typename C::OrderedIterator;
  using OCI = typename C::OrderedConstIterator;
  using Stats = LRU::Statistics<K>;
#endif
  using IR = typename C::InsertionResultType;

  template <class It> static long vcode(It& it) { return ValIO<V>::code((*it).value()); }

  struct Handle {
    int kind = IK_U; bool set = false;
    UI u; UCI uc; OI o; OCI oc; V* p = nullptr; const V* cp = nullptr; const K* kp = nullptr;
  };

  explicit World(const WorldCfg& cfg) : cfg_(cfg) {
    for (int i = 0; i < NPOOL; ++i) pool_[i] = std::make_shared<Stats>();
  }

  WorldInfo info() const override {
    WorldInfo w;
    w.timed = W_TIMED;
    w.tracked = W_FN;
#if W_TIMED
    w.floating = std::is_floating_point<D::rep>::value;
    w.tick_ns = std::chrono::duration_cast<std::chrono::nanoseconds>(D(1)).count();
#endif
    return w;
  }

  K mk(long c, int spell = 0) {
    K k = KeyIO<K>::make(c, spell, cfg_.keymode);
    reg(k, c);
    return k;
  }
  V mv(long c) { return ValIO<V>::make(c, cfg_.valmode); }
  long kcode(const TK& k) { return *k.mark >= 0 ? k.code + (exact_ ? kSpell * k.spell : 0) : -99999; }
  template <class T> void reg(const T& k, long c) { codes_.emplace(k, c); }
  void reg(const TK&, long) {}
  template <class T> long kcode(const T& k) {
    auto i = codes_.find(k);
    return i == codes_.end() ? -99999 : i->second;
  }

  Res run(const ROp& op) override {
    Res r;
    int fn[NSLOTS];
    std::copy(fn_, fn_ + NSLOTS, fn);
    try {
      exec(op, r);
    } catch (const ErrKeyNotFound&) { r.exc = EX_KEYNOTFOUND;
    } catch (const ErrKeyExpired&) { r.exc = EX_KEYEXPIRED;
    } catch (const ErrInvalidIterator&) { r.exc = EX_INVALIDITERATOR;
    } catch (const ErrInvalidIteratorConversion&) { r.exc = EX_INVALIDCONV;
    } catch (const ErrUnmonitoredKey&) { r.exc = EX_UNMONITORED;
    } catch (const ErrNotMonitoring&) { r.exc = EX_NOTMONITORING;
    } catch (const ErrEmptyCache&) { r.exc = EX_EMPTY;
    } catch (const Injected&) { r.exc = EX_INJECTED;
    } catch (const std::bad_alloc&) { r.exc = EX_BADALLOC;
    } catch (const std::exception&) { r.exc = EX_STD;
    } catch (...) { r.exc = EX_OTHER; }
    r.fired = g_fault_fired;
    if (r.fired && r.exc) std::copy(fn, fn + NSLOTS, fn_);   // no cache has taken over another relation
    return r;
  }

  template <class F> static int sub_exc(F f) {
    try { f(); return EX_NONE;
    } catch (const ErrKeyNotFound&) { return EX_KEYNOTFOUND;
    } catch (const ErrKeyExpired&) { return EX_KEYEXPIRED;
    } catch (const ErrInvalidIterator&) { return EX_INVALIDITERATOR;
    } catch (const ErrInvalidIteratorConversion&) { return EX_INVALIDCONV;
    } catch (const ErrUnmonitoredKey&) { return EX_UNMONITORED;
    } catch (const ErrNotMonitoring&) { return EX_NOTMONITORING;
    } catch (const ErrEmptyCache&) { return EX_EMPTY;
    } catch (...) { return EX_OTHER; }
  }

  void counts(Res& r) {
    r.add(F_KCOPY, g_cnt.kcopy); r.add(F_VCOPY, g_cnt.vcopy);
    r.add(F_NHASH, g_cnt.hash); r.add(F_NEQ, g_cnt.eq);
    r.add(F_WORK, g_cnt.work);
  }

  // Position from the LRU end, without touching the cache's state.
  OCI cnth(const C& c, int pos) {
    if (pos < 0) return c.ordered_cend();
    OCI it = c.ordered_cbegin();
    for (int i = 0; i < pos && it != c.ordered_cend(); ++i) ++it;
    return it;
  }
  OI nth(C& c, int pos) {
    if (pos < 0) return c.ordered_end();
    OI it = c.ordered_begin();
    for (int i = 0; i < pos && it != c.ordered_end(); ++i) ++it;
    return it;
  }
  // The unordered iterator of the entry at an order position (by walking).
  UI uofpos(C& c, int pos) {
    if (pos < 0) return c.unordered_end();
    OI o = nth(c, pos);
    if (o == c.ordered_end()) return c.unordered_end();
    const K* want = &o->key();
    UI u = c.unordered_begin();
    for (; u != c.unordered_end(); ++u) if (&u->key() == want) break;
    return u;
  }
  UCI ucofpos(const C& c, int pos) {
    if (pos < 0) return c.unordered_cend();
    OCI o = cnth(c, pos);
    if (o == c.ordered_cend()) return c.unordered_cend();
    const K* want = &o->key();
    UCI u = c.unordered_cbegin();
    for (; u != c.unordered_cend(); ++u) if (&u->key() == want) break;
    return u;
  }
  template <class F> void with_it(C& c, int kind, int pos, F f) {
    switch (kind) {
      case IK_U: { auto i = uofpos(c, pos); f(i); break; }
      case IK_UC: { auto i = ucofpos(c, pos); f(i); break; }
      case IK_O: { auto i = nth(c, pos); f(i); break; }
      default: { auto i = cnth(c, pos); f(i); break; }
    }
  }

  C& at(int s) { return *slot_[s]; }

  void ins_result(C& c, const IR& res, Res& r) {
    bool a = res.was_inserted(), b = static_cast<bool>(res), d = res.first;
    r.add(F_INSERTED, a);
    r.add(F_AGREE, a == b && a == d);
    UI it = res.iterator();
    bool end = it == c.end();
    r.add(F_ITEND, end);
    if (!end) {
      r.add(F_ITKEY, kcode((*it).key()));
      r.add(F_ITVAL, vcode(it));
      UI it2 = res.second;
      r.add(F_SELF, it2 == it);
    }
  }

  // Which of the two relations on keys each cache has been given.
  void relation(const ROp& op) {
    switch (op.kind) {
      case OP_CREATE: fn_[op.slot] = op.fnstate; break;
      case OP_COPY_CTOR: case OP_COPY_ASSIGN: case OP_MOVE_CTOR: case OP_MOVE_ASSIGN: fn_[op.slot] = fn_[op.slot2]; break;
      case OP_SWAP: std::swap(fn_[op.slot], fn_[op.slot2]); break;
      default: break;
    }
    exact_ = fn_[op.slot] == 0;
  }

  // ------------------------------------------------------------------ exec
  void exec(const ROp& op, Res& r) {
    g_fault_fired = 0;
    g_source_changed = false;
    relation(op);
    switch (op.kind) {
      case OP_LOOKUP: return lookup(op, r);
      case OP_INSERT: return insert(op, r);
      case OP_ERASE_KEY: {
        C& c = at(op.slot);
        bool e;
        if (op.pos >= 0) {   // argument refers to the stored key itself
          OCI it = cnth(c, op.pos);
          if (it == c.ordered_cend()) { r.add(F_GUARD, 1); return; }
          const K& ref = it->key();
          CallScope s(op); e = c.erase(ref);
        } else {
          K k = mk(op.key, op.spell);
          CallScope s(op); e = c.erase(k);
        }
        r.add(F_ERASED, e);
        counts(r);
        return;
      }
      case OP_ERASE_IT: {
        C& c = at(op.slot);
        with_it(c, op.it, op.pos, [&](auto& it) { CallScope s(op); c.erase(it); });
        counts(r);
        return;
      }
      case OP_CLEAR: { { CallScope s(op); at(op.slot).clear(); } counts(r); return; }
      case OP_SHRINK: { { CallScope s(op); at(op.slot).shrink(static_cast<size_t>(op.n)); } counts(r); return; }
      case OP_CAPACITY: { { CallScope s(op); at(op.slot).capacity(static_cast<size_t>(op.n)); } counts(r); return; }
      case OP_BULK: return bulk(op, r);
      case OP_ASSIGN: return assign(op, r);
      case OP_CREATE: return create(op, r);
      case OP_COPY_CTOR: {
        C& src = at(op.slot2);
        drop_handles(op.slot);
        std::unique_ptr<C> n;
        {
          CallScope s(op);
          if (op.flag) n = std::make_unique<C>(static_cast<const C&>(src)); else n.reset(new C(src));
        }
        slot_[op.slot] = std::move(n);
        post_copy(op, r);
        return;
      }
      case OP_COPY_ASSIGN: {
        drop_handles(op.slot);
        C& src = at(op.slot2);
        C* ret;
        {
          CallScope s(op);
          if (op.flag) ret = &(at(op.slot) = static_cast<const C&>(src)); else ret = static_cast<C*>(&(at(op.slot) = src));
        }
        r.add(F_SELF, ret == slot_[op.slot].get());
        post_copy(op, r);
        return;
      }
      case OP_MOVE_CTOR: {
        drop_handles(op.slot); drop_handles(op.slot2);
        detach(op.slot2);
        auto n = std::make_unique<C>(std::move(at(op.slot2)));
        slot_[op.slot] = std::move(n);
        detach(op.slot);
        moved_from(op, r);
        return;
      }
      case OP_MOVE_ASSIGN: {
        drop_handles(op.slot); drop_handles(op.slot2);
        detach(op.slot); detach(op.slot2);
        at(op.slot) = std::move(at(op.slot2));
        detach(op.slot);
        moved_from(op, r);
        return;
      }
      case OP_SWAP: {
        drop_handles(op.slot); drop_handles(op.slot2);
        detach(op.slot); detach(op.slot2);
        C &a = at(op.slot), &b = at(op.slot2);
        switch (op.form % 3) {
          case 0: a.swap(b); break;
          case 1: { using std::swap; swap(a, b); break; }
          default: std::swap(a, b); break;
        }
        detach(op.slot); detach(op.slot2);
        return;
      }
      case OP_DESTROY: drop_handles(op.slot); slot_[op.slot].reset(); return;
      case OP_COMPARE: {
        const C &a = at(op.slot), &b = at(op.slot2);
        r.add(F_EQ, a == b); r.add(F_EQ, b == a);
        r.add(F_NE, a != b); r.add(F_NE, b != a);
        r.add(F_SELF, (a == a) && !(b != b));
        return;
      }
      case OP_WALK: return walk_write(op, r);
      case OP_FILL: {
        C& c = at(op.slot);
        long cnt = 0, expensive = 0;
        for (long i = 0; i < op.n; ++i) {
          K k = mk(op.key + i); V v = mv(op.val + i);
          bool ins;
          {
            CallScope s(op);
            ins = op.form & 1 ? c.emplace(std::move(k), std::move(v)).was_inserted() : c.insert(k, v).was_inserted();
          }
          cnt += ins;
          expensive += g_cnt.work > kWorkBound;
        }
        r.add(F_COUNT, cnt);
        r.add(F_NEXPENSIVE, expensive);
        return;
      }
      case OP_H_TAKE: case OP_H_READ: case OP_H_WRITE: case OP_H_STEP: case OP_H_CMP:
      case OP_H_CONV: case OP_H_ERASE: case OP_H_VALID: case OP_H_COPY:
        return handle_op(op, r);
      case OP_EXPQ: return expq(op, r);
      case OP_CLEAR_EXPIRED:
#if W_TIMED
        { long n; { CallScope s(op); n = static_cast<long>(at(op.slot).clear_expired()); } r.add(F_COUNT, n); }
        counts(r);
#endif
        return;
      case OP_STAT: return stat_op(op, r);
      case OP_CB: return cb_op(op, r);
      case OP_FN: {
#if W_FN
        r.add(F_HFN, at(op.slot).hash_function().state);
        r.add(F_EFN, at(op.slot).key_equal().state);
#endif
        return;
      }
      case OP_TUPLE: {
        switch (op.form) {
          case 0: return tuple_op(op, r, [&](long i) { return std::make_tuple(Cnt{op.val + i}, Cnt{i * 7}); });
          case 1: return tuple_op(op, r, [&](long i) { return std::make_tuple(Cnt{op.val}, Cnt{i}); });
          case 2: return tuple_op(op, r, [&](long i) { return std::make_tuple(Cnt{i}, Cnt{op.val}); });
          case 3: return tuple_op(op, r, [&](long i) { return std::make_tuple(Cnt{op.val}, Cnt{i}, Cnt{7}); });
          case 4: return tuple_op(op, r, [&](long i) { return std::make_tuple(Cnt{op.val + i}); });
          default: return tuple_op(op, r, [&](long i) { return std::make_tuple(Cnt{i}, Cnt{i}, Cnt{i % 3}); });
        }
      }
      case OP_FRONTBACK: {
#if !W_TIMED
        const C& c = at(op.slot);
        if (op.flag) r.add(F_KEY, kcode(c.back())); else r.add(F_KEY, kcode(c.front()));
#endif
        return;
      }
      case OP_ENDERR: return enderr(op, r);
      case OP_SIZEQ: {
        const C& c = at(op.slot);
        r.add(F_SIZE, c.size()); r.add(F_CAP, c.capacity()); r.add(F_SPACE, c.space_left());
        r.add(F_EMPTY, c.is_empty()); r.add(F_FULL, c.is_full());
        return;
      }
      default: return;
    }
  }

  // Keys that are tuples: the library supplies their hash.
  template <class Make> void tuple_op(const ROp& op, Res& r, Make make) {
    using Key = decltype(make(0L));
    LRU::Cache<Key, long> c(static_cast<size_t>(op.n));
    for (long i = 0; i < op.n; ++i) c.insert(make(i), i);
    long found = 0, nhash = 0, neq = 0;
    for (long i = op.n - 1; i >= 0; --i) {
      Key k = make(i), other = make(i + op.n);
      bool ok;
      for (int j = 0; j < 2; ++j) {
        { CallScope s(op); ok = j ? !c.contains(other) : c.lookup(k) == i; }
        nhash = std::max(nhash, g_cnt.hash); neq = std::max(neq, g_cnt.eq);
        if (!ok) break;
      }
      found += ok;
    }
    r.add(F_FOUND, found); r.add(F_NEQ, neq); r.add(F_NHASH, nhash);
  }

  void detach(int s) {
    if (!slot_[s]) return;
    slot_[s]->stop_monitoring();
    slot_[s]->clear_all_callbacks();
  }

  void post_copy(const ROp& op, Res& r) {
    const C &a = at(op.slot), &b = at(op.slot2);
    r.add(F_SAMEPTR, a.is_monitoring() == b.is_monitoring() && a.shared_stats() == b.shared_stats());
    r.add(F_NCB, a.hit_callbacks().size() == b.hit_callbacks().size() &&
                     a.miss_callbacks().size() == b.miss_callbacks().size() &&
                     a.access_callbacks().size() == b.access_callbacks().size());
  }

  // What a moved-from cache must still be able to do.  After this the source
  // slot is empty (destroyed), except for form 2 where it was assigned to.
  void moved_from(const ROp& op, Res& r) {
    C& src = at(op.slot2);
    bool ok = true;
    switch (op.form % 4) {
      case 1: {
        src.clear();
        ok = ok && src.size() == 0 && src.is_empty();
        size_t cap = src.capacity();
        ok = ok && cap != 0xbebebebebebebebeULL;   // what ASan fills fresh memory with
        r.add(F_CAP, static_cast<long>(std::min<size_t>(cap, size_t(1) << 40)));
        long n = static_cast<long>(std::min<size_t>(cap, 4));
        for (long i = 0; i < n; ++i) { K k = mk(i); V v = mv(i + 1); ok = ok && src.insert(k, v).was_inserted(); }
        ok = ok && static_cast<long>(src.size()) == n;
        for (long i = 0; i < n; ++i) { K k = mk(i); ok = ok && src.contains(k) && ValIO<V>::code(src.lookup(k)) == i + 1; }
        if (cap == 0) { K k = mk(0); V v = mv(1); ok = ok && !src.insert(k, v).was_inserted() && src.size() == 0; }
        break;
      }
      case 2: {
        src = static_cast<const C&>(at(op.slot));
        detach(op.slot2);
        r.add(F_MOVEDFROM, ok);
        return;
      }
      case 3: {
        size_t cap = src.capacity();
        ok = ok && cap != 0xbebebebebebebebeULL;   // what ASan fills fresh memory with
        r.add(F_CAP, static_cast<long>(std::min<size_t>(cap, size_t(1) << 40)));
        for (long i = 0; i < 3; ++i) {
          K k = mk(50000 + i); V v = mv(i + 1);
          auto res = src.emplace(k, v);
          if (cap > 0) { ok = ok && res.was_inserted() && src.contains(k); } else { ok = ok && !res.was_inserted(); }
          ok = ok && src.size() <= cap;
        }
        KV w; bool t = false;
        walk(src.ordered_cbegin(), src.ordered_cend(), src.size() + 3, w, t);
        ok = ok && !t && w.size() == src.size();
        break;
      }
      default: break;
    }
    slot_[op.slot2].reset();
    r.add(F_MOVEDFROM, ok);
  }

  void lookup(const ROp& op, Res& r) {
    C& c = at(op.slot);
    const C& cc = c;
    std::optional<K> own;
    const K* kp;
    if (op.pos >= 0) {
      OCI it = cnth(c, op.pos);
      if (it == c.ordered_cend()) { r.add(F_GUARD, 1); return; }
      kp = &it->key();
    } else {
      own.emplace(mk(op.key, op.spell));
      kp = &*own;
    }
    const K& k = *kp;
    if (op.rep) {   // of this key, or of all the keys in turn
      long found = 0;
      std::vector<K> ks;
      for (long x : op.keys) ks.push_back(mk(x));
      for (int i = 0; i < op.rep; ++i) {
        const K& a = ks.empty() ? k : ks[i % ks.size()];
        (void)sub_exc([&] {
          switch (op.form) {
            case LF_CONTAINS: found += c.contains(a); break;
            case LF_CCONTAINS: found += cc.contains(a); break;
            case LF_FIND: found += c.find(a) != c.end(); break;
            case LF_CFIND: found += cc.find(a) != cc.end(); break;
            case LF_LOOKUP: (void)c.lookup(a); ++found; break;
            case LF_INDEX: (void)c[a]; ++found; break;
            case LF_CLOOKUP: (void)cc.lookup(a); ++found; break;
            default: (void)cc[a]; ++found;
          }
        });
      }
      r.add(F_COUNT, found);
    }
    struct Cnt { World* w; Res& r; ~Cnt() { w->counts(r); } };
    switch (op.form) {
      case LF_CONTAINS: { bool b; { CallScope s(op); b = c.contains(k); } r.add(F_FOUND, b); counts(r); return; }
      case LF_CCONTAINS: { bool b; { CallScope s(op); b = cc.contains(k); } r.add(F_FOUND, b); counts(r); return; }
      case LF_FIND: {
        UI it = [&] { CallScope s(op); return c.find(k); }();
        Counters save = g_cnt;
        bool end = it == c.end();
        r.add(F_FOUND, !end);
        if (!end) {
          r.add(F_KEY, kcode((*it).key()));
          r.add(F_VAL, vcode(it));
          if (op.flag) it->second = mv(op.val);
        }
        g_cnt = save; counts(r);
        return;
      }
      case LF_CFIND: {
        UCI it = [&] { CallScope s(op); return cc.find(k); }();
        Counters save = g_cnt;
        bool end = it == cc.end();
        r.add(F_FOUND, !end);
        if (!end) { r.add(F_KEY, kcode((*it).key())); r.add(F_VAL, vcode(it)); }
        g_cnt = save; counts(r);
        return;
      }
      case LF_LOOKUP: case LF_INDEX: {
        V* v;
        { Cnt x{this, r}; CallScope s(op); v = op.form == LF_LOOKUP ? &c.lookup(k) : &c[k]; }
        r.add(F_VAL, ValIO<V>::code(*v));
        if (op.flag) *v = mv(op.val);
        return;
      }
      default: {
        const V* v;
        { Cnt x{this, r}; CallScope s(op); v = op.form == LF_CLOOKUP ? &cc.lookup(k) : &cc[k]; }
        r.add(F_VAL, ValIO<V>::code(*v));
        return;
      }
    }
  }

  // Emplaces from raw constructor arguments.
  template <class VA> IR piecewise(C& c, const ROp& op, const VA& va) {
    if constexpr (!std::is_same<K, TK>::value && !std::is_same<K, std::string>::value) {
      K a = mk(op.key);
      CallScope s(op);
      return c.emplace(std::piecewise_construct, std::forward_as_tuple(a), va);
    } else if constexpr (std::is_same<K, std::string>::value) {
      std::string a = mk(op.key);
      const char* d = a.data(); size_t n = a.size();
      CallScope s(op);
      return c.emplace(std::piecewise_construct, std::forward_as_tuple(d, n), va);
    } else {
      long a = op.key % kSpell; int b = op.spell + int(op.key / kSpell);
      CallScope s(op);
      return c.emplace(std::piecewise_construct, std::forward_as_tuple(a, b), va);
    }
  }
  static bool is_moved(const TK& k) { return *k.mark == 0; }
  static bool is_moved(const TV& k) { return *k.mark == 0; }
  template <class T> static bool is_moved(const T&) { return true; }

  void insert(const ROp& op, Res& r) {
    C& c = at(op.slot);
    // every argument is made before the measured call
    K k = mk(op.key, op.spell);
    V v = mv(op.val);
    const K* ak = nullptr; const V* av = nullptr;
    bool needk = op.form == IF_INSERT_ALIASKEY || op.form == IF_INSERT_ALIASBOTH || op.form == IF_EMPLACE_ALIASBOTH;
    bool needv = op.form == IF_INSERT_ALIASVAL || op.form == IF_INSERT_ALIASBOTH || op.form == IF_EMPLACE_ALIASVAL || op.form == IF_EMPLACE_ALIASBOTH;
    if (needk) {
      OCI i = cnth(c, op.pos);
      if (op.pos < 0 || i == c.ordered_cend()) { r.add(F_GUARD, 1); return; }
      ak = &i->key();
    }
    if (needv) {
      OCI i = cnth(c, op.pos2);
      if (op.pos2 < 0 || i == c.ordered_cend()) { r.add(F_GUARD, 1); return; }
      av = &i->second;
    }
    auto call = [&](auto f) { CallScope s(op); return f(); };
    auto done = [&](const IR& res, bool lvalues) {
      Counters save = g_cnt;
      ins_result(c, res, r);
      if (lvalues) r.add(F_ARGS, kcode(k) == op.key && ValIO<V>::code(v) == op.val && !(W_FN && (is_moved(k) || is_moved(v))));
      g_cnt = save;
      counts(r);
    };
    switch (op.form) {
      case IF_INSERT: done(call([&] { return c.insert(k, v); }), true); return;
      case IF_INSERT_ALIASKEY: done(call([&] { return c.insert(*ak, v); }), true); return;
      case IF_INSERT_ALIASVAL: done(call([&] { return c.insert(k, *av); }), true); return;
      case IF_INSERT_ALIASBOTH: done(call([&] { return c.insert(*ak, *av); }), true); return;
      case IF_EMPLACE_LL: done(call([&] { return c.emplace(k, v); }), true); return;
      case IF_EMPLACE_CONST: {
        const K& ck = k; const V& cv = v;
        done(call([&] { return c.emplace(ck, cv); }), true); return;
      }
      case IF_EMPLACE_ALIASVAL: done(call([&] { return c.emplace(k, *av); }), true); return;
      case IF_EMPLACE_ALIASBOTH: done(call([&] { return c.emplace(*ak, *av); }), true); return;
      case IF_EMPLACE_RR: {
        auto res = call([&] { return c.emplace(std::move(k), std::move(v)); });
        done(res, false);
        r.add(F_MOVED, is_moved(k) && is_moved(v));
        return;
      }
      case IF_EMPLACE_RL: {
        auto res = call([&] { return c.emplace(std::move(k), v); });
        done(res, false);
        r.add(F_ARGS, ValIO<V>::code(v) == op.val && !(W_FN && is_moved(v)));
        return;
      }
      case IF_EMPLACE_PIECE_RR: {
        auto res = call([&] {
          return c.emplace(std::piecewise_construct, std::forward_as_tuple(std::move(k)), std::forward_as_tuple(std::move(v)));
        });
        done(res, false);
        r.add(F_MOVED, is_moved(k) && is_moved(v));
        return;
      }
      case IF_INSERT_TEMP: {
        auto res = call([&] { return c.insert(K(k), V(v)); });
        Counters save = g_cnt;
        ins_result(c, res, r);
        g_cnt = save; g_cnt.kcopy -= 1; g_cnt.vcopy -= 1;   // the temporaries
        counts(r);
        return;
      }
      case IF_EMPLACE_PIECE: {
        if constexpr (std::is_same<V, int>::value) {
          int a = v; done(piecewise(c, op, std::forward_as_tuple(a)), true);
        } else if constexpr (std::is_same<V, std::string>::value) {
          const char* d = v.data(); size_t n = v.size();
          done(piecewise(c, op, std::forward_as_tuple(d, n)), true);
        } else if constexpr (std::is_same<V, Tup>::value) {
          done(piecewise(c, op, std::forward_as_tuple(std::get<0>(v), std::get<1>(v))), true);
        } else if constexpr (std::is_same<V, Vec>::value) {
          done(piecewise(c, op, std::forward_as_tuple(v.begin(), v.end())), true);
        } else {
          long a = op.val - 1, b = 1;
          done(piecewise(c, op, std::forward_as_tuple(a, b)), true);
        }
        return;
      }
      case IF_EMPLACE_PIECE_DEFAULT: done(piecewise(c, op, std::forward_as_tuple()), true); return;
      case IF_EMPLACE_RAW: {
        if constexpr (std::is_same<K, int>::value) {
          short s = static_cast<short>(0); (void)s;
          done(call([&] { return c.emplace(static_cast<long>(k), static_cast<long>(v)); }), true);
        } else if constexpr (std::is_same<K, std::string>::value) {
          if (k.find('\0') != std::string::npos) { done(call([&] { return c.emplace(k, v.c_str()); }), true); return; }
          done(call([&] { return c.emplace(k.c_str(), v.c_str()); }), true);
        } else if constexpr (std::is_same<V, Tup>::value) {
          auto p = std::make_pair(std::get<0>(v), std::get<1>(v));
          done(call([&] { return c.emplace(k, std::move(p)); }), true);
        } else if constexpr (std::is_same<V, Vec>::value) {
          done(call([&] { return c.emplace(static_cast<long>(k), v); }), true);
        } else {
          done(call([&] { return c.emplace(op.key, op.val); }), true);
        }
        return;
      }
      default: return;
    }
  }

  using P = std::pair<K, V>;
  std::vector<P> vec(const ROp& op) {
    std::vector<P> v;
    v.reserve(op.items.size());
    for (size_t i = 0; i < op.items.size(); ++i)
      v.emplace_back(mk(op.items[i].first, i < op.spells.size() ? op.spells[i] : 0), mv(op.items[i].second));
    return v;
  }
  template <class R> bool intact(const R& rng, const ROp& op) {
    size_t i = 0;
    for (auto& p : rng) {
      if (i >= op.items.size()) return false;
      if (kcode(p.first) != op.items[i].first || ValIO<V>::code(p.second) != op.items[i].second) return false;
      ++i;
    }
    return i == op.items.size();
  }
  // Notes whether a call that fails leaves the range alone.
  template <class R> struct Watch {
    World& o; const R& r; const ROp& op; int n = std::uncaught_exceptions();
    ~Watch() { if (std::uncaught_exceptions() > n && !o.intact(r, op)) g_source_changed = true; }
  };
  template <class R> Watch<R> watch(const R& r, const ROp& op) { return {*this, r, op}; }
  // Calls f with each kind of range source. f(range-ish...) where iterator pairs
  // come as two arguments.
  template <bool Input = true, class F> void with_source(const ROp& op, Res& r, F f) {
    switch (op.form) {
      case RS_LVEC: { auto v = vec(op); auto w = watch(v, op); f(v); if (!g_fault_fired) r.add(F_ARGS, intact(v, op)); return; }
      case RS_CVEC: { const auto v = vec(op); f(v); r.add(F_ARGS, intact(v, op)); return; }
      case RS_RVEC: { auto v = vec(op); f(std::move(v)); return; }
      case RS_ITVEC: { auto v = vec(op); auto w = watch(v, op); f(v.begin(), v.end()); r.add(F_ARGS, intact(v, op)); return; }
      case RS_CITVEC: { auto v = vec(op); f(v.cbegin(), v.cend()); r.add(F_ARGS, intact(v, op)); return; }
      case RS_ITLIST: { auto v = vec(op); std::list<P> l(v.begin(), v.end()); auto w = watch(l, op); f(l.begin(), l.end()); r.add(F_ARGS, intact(l, op)); return; }
      case RS_FWD: { auto v = vec(op); std::forward_list<P> l(v.begin(), v.end()); f(l.begin(), l.end()); r.add(F_ARGS, intact(l, op)); return; }
      case RS_LLIST: { auto v = vec(op); std::list<P> l(v.begin(), v.end()); auto w = watch(l, op); f(l); r.add(F_ARGS, intact(l, op)); return; }
      case RS_RLIST: { auto v = vec(op); std::list<P> l; for (auto& x : v) l.emplace_back(std::move(x)); f(std::move(l)); return; }
      case RS_LMAP: { auto v = vec(op); std::deque<P> l(v.begin(), v.end()); auto w = watch(l, op); f(l); r.add(F_ARGS, intact(l, op)); return; }
      case RS_PTR: { auto v = vec(op); P* b = v.data(); f(b, b + v.size()); r.add(F_ARGS, intact(v, op)); return; }
      case RS_RITER: { auto v = vec(op); std::reverse(v.begin(), v.end()); f(v.rbegin(), v.rend()); std::reverse(v.begin(), v.end()); r.add(F_ARGS, intact(v, op)); return; }
      case RS_LCP: case RS_ITCP: {
        auto v = vec(op);
        std::list<std::pair<const K, V>> l(v.begin(), v.end());
        if (op.form == RS_LCP) f(l); else f(l.begin(), l.end());
        r.add(F_ARGS, intact(l, op));
        return;
      }
      case RS_INPUT: {
        auto v = vec(op);
        if constexpr (Input) { Single st{&v, 0}; f(SingleIt{&st}, SingleIt{}); }
        else f(v.begin(), v.end());
        r.add(F_ARGS, intact(v, op));
        return;
      }
      case RS_CONV: case RS_LCONV: {
        auto v = vec(op);
        std::vector<std::pair<Conv<K>, Conv<V>>> l;
        for (auto& x : v) l.emplace_back(Conv<K>{&x.first}, Conv<V>{&x.second});
        if (op.form == RS_LCONV) f(l); else f(l.begin(), l.end());
        r.add(F_ARGS, intact(v, op));
        return;
      }
      default: { auto v = vec(op); f(v); r.add(F_ARGS, intact(v, op)); return; }
    }
  }
  // a type that only converts to the wanted one
  template <class T> struct Conv { const T* p; operator const T&() const { return *p; } };
  // an iterator that can go over its elements only once
  struct Single { std::vector<P>* v; size_t i; };
  struct SingleIt {
    using iterator_category = std::input_iterator_tag;
    using value_type = P; using difference_type = std::ptrdiff_t; using pointer = const P*; using reference = const P&;
    Single* s = nullptr;
    bool done() const { return !s || s->i >= s->v->size(); }
    const P& operator*() const { return (*s->v)[s->i]; }
    const P* operator->() const { return &(*s->v)[s->i]; }
    SingleIt& operator++() { ++s->i; return *this; }
    SingleIt operator++(int) { SingleIt t = *this; ++s->i; return t; }
    bool operator==(const SingleIt& o) const { return done() == o.done(); }
    bool operator!=(const SingleIt& o) const { return done() != o.done(); }
  };
  // initializer lists of run-time length up to 6
  template <class F> void with_init(const ROp& op, F f) {
    auto v = vec(op);
    using L = std::initializer_list<P>;
    switch (v.size()) {
      case 0: { L l{}; f(l); return; }
      case 1: { L l{v[0]}; f(l); return; }
      case 2: { L l{v[0], v[1]}; f(l); return; }
      case 3: { L l{v[0], v[1], v[2]}; f(l); return; }
      case 4: { L l{v[0], v[1], v[2], v[3]}; f(l); return; }
      case 5: { L l{v[0], v[1], v[2], v[3], v[4]}; f(l); return; }
      default: { L l{v[0], v[1], v[2], v[3], v[4], v[5]}; f(l); return; }
    }
  }

  void bulk(const ROp& op, Res& r) {
    C& c = at(op.slot);
    size_t n = 0;
    if (op.form == RS_OTHER_ORDERED) {
      C& o = at(op.slot2);
      if (op.flag) { const C& co = o; CallScope s(op); n = c.insert(co.ordered_begin(), co.ordered_end()); }
      else { CallScope s(op); n = c.insert(o.ordered_begin(), o.ordered_end()); }
    } else if (op.form == RS_OTHER_UNORD || op.form == RS_OTHER_CACHE) {
      C& o = at(op.slot2);
      const C& co = o;
      size_t lim = o.size() + 5;
      bool trunc = false;
      for (auto& e : const_range(co, lim, trunc)) { r.add(F_KEY, e.first); r.add(F_VAL, e.second); }
      CallScope s(op);
      if (op.form == RS_OTHER_CACHE) { if (op.flag) n = c.insert(co); else n = c.insert(o); }
      else if (op.flag) n = c.insert(co.begin(), co.end());
      else n = c.insert(o.unordered_begin(), o.unordered_end());
    } else if (op.form == RS_INIT) {
      with_init(op, [&](auto& l) { CallScope s(op); n = c.insert(l); });
    } else {
      with_source(op, r, [&](auto&&... a) { CallScope s(op); n = c.insert(std::forward<decltype(a)>(a)...); });
    }
    r.add(F_COUNT, static_cast<long>(n));
    counts(r);
  }

  void assign(const ROp& op, Res& r) {
    drop_handles(op.slot);
    C& c = at(op.slot);
    if (op.form == RS_INIT) {
      with_init(op, [&](auto& l) { CallScope s(op); c = l; });
    } else {
      with_source<false>(op, r, [&](auto&&... a) {
        if constexpr (sizeof...(a) == 1) { CallScope s(op); assign1(c, std::forward<decltype(a)>(a)...); }
        else { c.clear(); c.insert(a...); }
      });
    }
    if (moved_in(op)) copies(r);
  }
  template <class R> void assign1(C& c, R&& x) { c = std::forward<R>(x); }
  static bool moved_in(const ROp& op) { return W_FN && (op.form == RS_RVEC || op.form == RS_RLIST); }   // the copies are counted
  static void copies(Res& r) { r.add(F_KCOPY, g_cnt.kcopy); r.add(F_VCOPY, g_cnt.vcopy); }

  void create(const ROp& op, Res& r) {
    drop_handles(op.slot);
    std::unique_ptr<C> n;
    size_t cap = static_cast<size_t>(op.n);
#if W_FN
    WHash h{op.fnstate}; WEq e{op.fnstate};
#define FN , h, e
#else
#define FN
#endif
#if W_TIMED
    with_ttl(op.t, op.flag2, [&](auto ttl) {
#define TTL ttl,
#else
#define TTL
#endif
      switch (op.flag) {
        case CF_DEFAULT:
#if W_TIMED
#if W_FN
          n = std::make_unique<C>(ttl, LRU::Internal::DEFAULT_CAPACITY, h, e);
#else
          n = std::make_unique<C>(ttl);
#endif
#elif W_FN
          n = std::make_unique<C>(LRU::Internal::DEFAULT_CAPACITY, h, e);
#else
          n = std::make_unique<C>();
#endif
          break;
        case CF_CAP_RANGE:
          if (op.form == RS_INIT) with_init(op, [&](auto& l) { CallScope s(op); n.reset(new C(TTL cap, l FN)); });
          else with_source(op, r, [&](auto&&... a) { CallScope s(op); n.reset(new C(TTL cap, std::forward<decltype(a)>(a)... FN)); });
          break;
        case CF_RANGE:
          if (op.form == RS_INIT) with_init(op, [&](auto& l) { CallScope s(op); n.reset(new C(TTL l FN)); });
          else with_source<false>(op, r, [&](auto&&... a) { CallScope s(op); n.reset(new C(TTL std::forward<decltype(a)>(a)... FN)); });
          break;
        default: n.reset(new C(TTL cap FN)); break;
      }
#if W_TIMED
      return 0;
    });
#endif
#undef FN
#undef TTL
    slot_[op.slot] = std::move(n);
    r.add(F_CAP, static_cast<long>(std::min<size_t>(at(op.slot).capacity(), size_t(1) << 62)));
    if (moved_in(op) && (op.flag == CF_CAP_RANGE || op.flag == CF_RANGE)) copies(r);
  }

  template <class It> void walk(It it, It end, size_t limit, KV& out, bool& trunc) {
    for (; it != end; ++it) {
      if (out.size() > limit) { trunc = true; return; }
      auto& e = *it;
      out.emplace_back(kcode(e.key()), ValIO<V>::code(e.value()));
    }
  }

  void observe(int s, int mask, Obs& o) override {
    o = Obs();
    if (!slot_[s]) return;
    o.alive = true;
    exact_ = fn_[s] == 0;
    C& c = at(s);
    const C& cc = c;
    o.size = static_cast<long>(cc.size());
    o.cap = static_cast<long>(std::min<size_t>(cc.capacity(), size_t(1) << 62));
    size_t lim = cc.size() + 5;
    if (mask & OB_SIZES) {
      o.space = static_cast<long>(std::min<size_t>(cc.space_left(), size_t(1) << 62));
      o.empty = cc.is_empty(); o.full = cc.is_full();
    }
    if (mask & OB_FWD) {
      auto e = c.ordered_end();
      for (auto it = c.ordered_begin(); it != e; it++) {
        if (o.fwd.size() > lim) { o.truncated = true; break; }
        o.fwd.emplace_back(kcode(it->first), ValIO<V>::code(it->second));
      }
    }
    if (mask & OB_CFWD) walk(cc.ordered_begin(), cc.ordered_end(), lim, o.cfwd, o.truncated);
    if (mask & OB_BWD) {
      auto it = cc.ordered_end();
      auto b = cc.ordered_begin();
      while (it != b) {
        if (o.bwd.size() > lim) { o.truncated = true; break; }
        --it;
        o.bwd.emplace_back(kcode(it->key()), ValIO<V>::code(it->value()));
      }
      std::reverse(o.bwd.begin(), o.bwd.end());
    }
    if (mask & OB_UNORD) { walk(c.unordered_begin(), c.unordered_end(), lim, o.unord, o.truncated); std::sort(o.unord.begin(), o.unord.end()); }
    if (mask & OB_CUNORD) {
      for (const auto& e : const_range(cc, lim, o.truncated)) o.cunord.push_back(e);
      std::sort(o.cunord.begin(), o.cunord.end());
    }
#if !W_TIMED
    if (mask & OB_ENDS) {
      o.has_ends = true;
      o.front_exc = sub_exc([&] { o.front = kcode(cc.front()); });
      o.back_exc = sub_exc([&] { o.back = kcode(cc.back()); });
    }
#endif
  }
  KV const_range(const C& c, size_t lim, bool& trunc) {
    KV v;
    for (auto& e : c) {   // range-for over begin()/end()
      if (v.size() > lim) { trunc = true; break; }
      v.emplace_back(kcode(e.first), ValIO<V>::code(e.second));
    }
    return v;
  }

  // Writes through a non-const iterator at a position, checks agreement of accessors.
  void walk_write(const ROp& op, Res& r) {
    C& c = at(op.slot);
    with_it(c, op.it, op.pos, [&](auto& it) {
      using It = std::decay_t<decltype(it)>;
      bool isend;
      if constexpr (std::is_same<It, UI>::value || std::is_same<It, UCI>::value) isend = it == static_cast<It>(c.unordered_end());
      else isend = it == static_cast<It>(c.ordered_end());
      if (isend) { r.add(F_GUARD, 1); return; }
      auto& e = *it;
      long k = kcode(e.key()), v = ValIO<V>::code(e.value());
      r.add(F_KEY, k); r.add(F_VAL, v);
      bool agree = kcode(e.first) == k && ValIO<V>::code(e.second) == v && kcode(it->key()) == k && kcode(it->first) == k &&
                   ValIO<V>::code(it->value()) == v && ValIO<V>::code(it->second) == v;
      if (!op.flag2) {   // throwing accessors (entry not expired)
        agree = agree && kcode(it.key()) == k && ValIO<V>::code(it.value()) == v &&
                kcode(it.entry().key()) == k && ValIO<V>::code(it.entry().second) == v;
      }
      std::pair<const K&, typename It::ValueType&> pr = *it;
      agree = agree && kcode(pr.first) == k && ValIO<V>::code(pr.second) == v;
      agree = agree && static_cast<const void*>(&pr.first) == static_cast<const void*>(&e.key()) && static_cast<const void*>(&pr.second) == static_cast<const void*>(&e.value());
      // comparisons of the entry with pairs, conversion to an entry of constant value
      auto compares = [&](const K& kk, const V& vv) {
        std::pair<const K&, const V&> q(kk, vv);
        const auto& ce = e;
        bool eq = e.first == kk && e.second == vv;
        return (e == q) == eq && (q == e) == eq && (e != q) == !eq && (q != e) == !eq && (ce == q) == eq && (q != ce) == !eq;
      };
      auto o = nth(c, op.val % (long(c.size()) + 1));
      agree = agree && compares(e.key(), e.value());
      if (o != c.ordered_end()) agree = agree && compares(o->key(), o->value()) && compares(e.key(), o->value()) && compares(o->key(), e.value());
      LRU::Entry<K, const V> constant(e);
      agree = agree && &constant.key() == &e.key() && &constant.value() == &e.value() && compares(constant.first, constant.second);
      // stepping copies
      It a = it, b = it;
      auto prev = a++;
      auto& ref = ++b;
      agree = agree && prev == it && a == b && a != it && static_cast<void*>(&ref) == static_cast<void*>(&b) && kcode((*prev).key()) == k;
      if constexpr (std::is_same<It, OI>::value || std::is_same<It, OCI>::value) {
        auto q = a--;
        auto& ref2 = --b;
        agree = agree && q != a && a == it && b == it && static_cast<void*>(&ref2) == static_cast<void*>(&b) && kcode(a->key()) == k && ValIO<V>::code((*b).value()) == v;
      }
      r.add(F_AGREE, agree);
      if constexpr (std::is_same<It, UI>::value || std::is_same<It, OI>::value) {
        if (op.flag) {
          switch (op.n % 4) {
            case 0: (*it).second = mv(op.val); break;
            case 1: it->value() = mv(op.val); break;
            case 2: if (!op.flag2) it.value() = mv(op.val); else it->second = mv(op.val); break;
            default: if (!op.flag2) it.entry().value() = mv(op.val); else (*it).value() = mv(op.val); break;
          }
          r.add(F_ITVAL, ValIO<V>::code(it->second));
        }
      }
    });
  }

  void enderr(const ROp& op, Res& r) {
    C& c = at(op.slot);
    const C& cc = c;
    auto three = [&](auto it) {
      r.add(F_SUBEXC, sub_exc([&] { (void)it.key(); }));
      r.add(F_SUBEXC, sub_exc([&] { (void)it.value(); }));
      r.add(F_SUBEXC, sub_exc([&] { (void)it.entry(); }));
      r.add(F_SUBEXC, sub_exc([&] { cc.throw_if_invalid(it); }));
      r.add(F_VALID, cc.is_valid(it));
    };
    switch (op.it) {
      case IK_U: three(c.unordered_end()); three(c.end()); break;
      case IK_UC: three(cc.unordered_end()); three(cc.end()); three(c.cend()); three(c.unordered_cend()); break;
      case IK_O: three(c.ordered_end()); break;
      default: three(cc.ordered_end()); three(c.ordered_cend()); break;
    }
    // conversion of the end; equality of the two ends
    r.add(F_SUBEXC + 0, 1000 + sub_exc([&] { OI x(c.unordered_end()); (void)x; }));
    r.add(F_SUBEXC + 0, 1000 + sub_exc([&] { OCI x(cc.unordered_end()); (void)x; }));
    r.add(F_SUBEXC + 0, 1000 + sub_exc([&] { OCI x(c.unordered_end()); (void)x; }));
    r.add(F_EQ, c.ordered_end() == c.unordered_end());
    r.add(F_EQ, c.unordered_end() == c.ordered_end());
    r.add(F_EQ, cc.ordered_end() == cc.unordered_end());
    r.add(F_NE, c.ordered_end() != c.unordered_end());
    if (!cc.is_empty()) {
      r.add(F_NE, 10 + (c.ordered_begin() != c.unordered_end()));
      r.add(F_NE, 10 + (c.unordered_begin() != c.ordered_end()));
    }
  }

  // ------------------------------------------------------------- handles
  void drop_handles(int s) { for (auto& h : handles_) if (h.second == s) { h.first = Handle(); h.second = -1; } }

  template <class F> void on_it(Handle& h, F f) {
    switch (h.kind) {
      case IK_U: f(h.u); break;
      case IK_UC: f(h.uc); break;
      case IK_O: f(h.o); break;
      case IK_OC: f(h.oc); break;
      default: break;
    }
  }

  // an unordered iterator is not assigned to an ordered one; otherwise const takes non-const
  template <class X, class Y> static constexpr bool kAssigns =
      (std::is_same<X, UCI>::value && std::is_same<Y, UI>::value) || (std::is_same<X, OCI>::value && std::is_same<Y, OI>::value);
  template <class X> void get(X& x, bool end, Res& r) {
    if (end) return;
    r.add(F_KEY, kcode((*x).key()));
    r.add(F_VAL, ValIO<V>::code(x->value()));
  }

  void handle_op(const ROp& op, Res& r) {
    Handle& h = handles_[op.h].first;
    if (op.kind == OP_H_TAKE) {
      C& c = at(op.slot);
      const C& cc = c;
      Handle n;
      n.kind = op.it; n.set = true;
      handles_[op.h].second = op.slot;
      bool end = op.pos < 0;
      if (!end && cnth(c, op.pos) == cc.ordered_cend()) { r.add(F_GUARD, 1); handles_[op.h].first = n; return; }
      switch (op.it) {
        case IK_U:
          if (op.form == 1 && !end) { n.u = c.unordered_begin(); n.u = uofpos(c, op.pos); }
          else n.u = uofpos(c, op.pos);
          break;
        case IK_UC:
          switch (op.form % 3) {
            case 0: n.uc = ucofpos(c, op.pos); break;
            case 1: { UI u = uofpos(c, op.pos); if (!end) (void)u->first; UCI x(u); n.uc = x; break; }
            default: { UCI x(uofpos(c, op.pos)); n.uc = std::move(x); break; }
          }
          break;
        case IK_O:
          switch (op.form % 3) {
            case 0: n.o = nth(c, op.pos); break;
            case 1: if (end) n.o = c.ordered_end(); else { UI u = uofpos(c, op.pos); (void)u->first; OI x(u); n.o = x; } break;
            default: if (end) n.o = c.ordered_end(); else { UI u = uofpos(c, op.pos); (void)*u; n.o = OI(std::move(u)); } break;
          }
          break;
        case IK_OC:
          switch (op.form % 4) {
            case 0: n.oc = cnth(c, op.pos); break;
            case 1: { OI x = nth(c, op.pos); if (!end) (void)x->first; OCI y(x); n.oc = y; break; }
            case 2: if (end) n.oc = c.ordered_cend(); else { UCI u = ucofpos(c, op.pos); (void)*u; n.oc = OCI(std::move(u)); } break;
            default: if (end) n.oc = c.ordered_cend(); else { UI u = uofpos(c, op.pos); n.oc = OCI(u); } break;
          }
          break;
        case IK_REF: { auto it = nth(c, op.pos); n.p = &(*it).value(); n.kp = &(*it).key(); break; }
        default: { auto it = cnth(c, op.pos); n.cp = &(*it).value(); n.kp = &it->key(); break; }
      }
      handles_[op.h].first = n;
      return;
    }
    switch (op.kind) {
      case OP_H_READ: {
        if (h.kind == IK_REF || h.kind == IK_CREF) {
          r.add(F_KEY, kcode(*h.kp));
          r.add(F_VAL, ValIO<V>::code(h.kind == IK_REF ? *h.p : *h.cp));
          return;
        }
        on_it(h, [&](auto& it) {
          auto f = [&](auto& i) {
            switch (op.form % 5) {
              case 0: r.add(F_KEY, kcode((*i).key())); r.add(F_VAL, ValIO<V>::code((*i).value())); break;
              case 1: r.add(F_KEY, kcode(i->first)); r.add(F_VAL, ValIO<V>::code(i->second)); break;
              case 2: r.add(F_KEY, kcode(i.key())); r.add(F_VAL, ValIO<V>::code(i.value())); break;
              case 3: r.add(F_KEY, kcode(i.entry().first)); r.add(F_VAL, ValIO<V>::code(i.entry().value())); break;
              default: r.add(F_VAL, ValIO<V>::code(i.value())); r.add(F_KEY, kcode(i.key())); break;
            }
          };
          if (op.flag) { auto copy = it; f(copy); } else f(it);
        });
        return;
      }
      case OP_H_WRITE: {
        V v = mv(op.val);
        switch (h.kind) {
          case IK_U: if (op.form & 1) h.u->second = v; else (*h.u).value() = v; break;
          case IK_O: if (op.form & 1) h.o->second = v; else (*h.o).value() = v; break;
          case IK_REF: *h.p = v; break;
          default: break;
        }
        return;
      }
      case OP_H_STEP: {
        if (h.kind == IK_O || h.kind == IK_OC) {
          auto f = [&](auto& it) {
            using It = std::decay_t<decltype(it)>;
            const It before = it;
            bool agree = true;
            switch (op.form % 4) {
              case 0: { auto& ref = ++it; agree = &ref == &it; break; }
              case 1: { auto prev = it++; agree = prev == before; break; }
              case 2: { auto& ref = --it; agree = &ref == &it; break; }
              default: { auto prev = it--; agree = prev == before; break; }
            }
            bool e = it == static_cast<It>(at(op.slot).ordered_end());
            r.add(F_AGREE, agree && it != before);
            r.add(F_ITEND, e);
            if (!e) { r.add(F_KEY, kcode((*it).key())); r.add(F_VAL, ValIO<V>::code((*it).value())); }
          };
          if (h.kind == IK_O) f(h.o); else f(h.oc);
        }
        return;
      }
      case OP_H_CMP: {
        Handle& g = handles_[op.h2].first;
        cmp(h, g, r);
        return;
      }
      case OP_H_CONV: {   // unordered handle -> ordered, into h2
        Handle n; n.set = true;
        int ex = EX_NONE;
        bool end = op.n != 0;
        // X: the wanted type; from the handle itself or a temporary, with the entry fetched before or not
        auto conv = [&](auto& from, auto& to) {
          using X = std::decay_t<decltype(to)>;
          using Y = std::decay_t<decltype(from)>;
          if ((op.form & 1) && !end) (void)*from;
          ex = sub_exc([&] {
            switch (op.form / 2) {
              case 0: { X x(from); get(x, end, r); to = x; break; }
              case 1: { Y t(from); if ((op.form & 1) && !end) (void)*t; X x(std::move(t)); get(x, end, r); to = std::move(x); break; }
              default:
                if constexpr (kAssigns<X, Y>) {
                  Y t(from);
                  if ((op.form & 1) && !end) (void)*t;
                  if (op.form % 4 < 2) to = from; else to = std::move(t);
                  get(to, end, r);
                } else { X x(from); get(x, end, r); to = std::move(x); }
            }
          });
        };
        if (h.kind == IK_U) {
          if (op.flag2) { n.kind = IK_UC; conv(h.u, n.uc); }
          else if (op.flag) { n.kind = IK_O; conv(h.u, n.o); }
          else { n.kind = IK_OC; conv(h.u, n.oc); }
        } else if (h.kind == IK_UC) {
          n.kind = IK_OC; conv(h.uc, n.oc);
        } else if (h.kind == IK_O) {
          n.kind = IK_OC; conv(h.o, n.oc);
        } else return;
        r.add(F_SUBEXC, ex);
        if (ex == EX_NONE) { handles_[op.h2].first = std::move(n); handles_[op.h2].second = op.slot; }
        return;
      }
      case OP_H_ERASE: {
        C& c = at(op.slot);
        on_it(h, [&](auto& it) { CallScope s(op); c.erase(it); });
        return;
      }
      case OP_H_VALID: {
        const C& c = at(op.slot);
        on_it(h, [&](auto& it) {
          r.add(F_VALID, c.is_valid(it));
          r.add(F_SUBEXC, sub_exc([&] { c.throw_if_invalid(it); }));
#if W_TIMED
          r.add(F_EXPIRED, c.has_expired(it));
#endif
        });
        return;
      }
      case OP_H_COPY: {
        Handle& g = handles_[op.h2].first;
        switch (op.form % 4) {
          case 0: g = h; handles_[op.h2].second = op.slot; break;               // copy assignment
          case 1: {
            Handle t(h);
            if (op.n == 0) on_it(t, [](auto& it) { (void)*it; });   // with its entry fetched
            g = std::move(t); handles_[op.h2].second = op.slot;
            if (op.n == 0) on_it(g, [&](auto& it) { get(it, false, r); });
            break;
          }
          case 2: case 3: {
            if (g.kind != h.kind) return;
            if (op.flag2) { on_it(h, [](auto& it) { (void)*it; }); on_it(g, [](auto& it) { (void)*it; }); }
            if (op.form % 4 == 2) { using std::swap;
              switch (h.kind) { case IK_U: swap(h.u, g.u); break; case IK_UC: swap(h.uc, g.uc); break;
                case IK_O: swap(h.o, g.o); break; case IK_OC: swap(h.oc, g.oc); break;
                case IK_REF: std::swap(h.p, g.p); std::swap(h.kp, g.kp); break; default: std::swap(h.cp, g.cp); std::swap(h.kp, g.kp); break; }
            } else {
              switch (h.kind) { case IK_U: h.u.swap(g.u); break; case IK_UC: h.uc.swap(g.uc); break;
                case IK_O: h.o.swap(g.o); break; case IK_OC: h.oc.swap(g.oc); break;
                case IK_REF: std::swap(h.p, g.p); std::swap(h.kp, g.kp); break; default: std::swap(h.cp, g.cp); std::swap(h.kp, g.kp); break; }
            }
            std::swap(handles_[op.h].second, handles_[op.h2].second);
            if (op.flag2) { on_it(h, [&](auto& it) { get(it, false, r); }); on_it(g, [&](auto& it) { get(it, false, r); }); }
            break;
          }
        }
        return;
      }
      default: return;
    }
  }

  void cmp(Handle& a, Handle& b, Res& r) {
    auto both = [&](auto& x, auto& y) { r.add(F_EQ, x == y); r.add(F_NE, x != y); };
    on_it(a, [&](auto& x) { on_it(b, [&](auto& y) { both(x, y); both(y, x); }); });
  }

  void expq(const ROp& op, Res& r) {
    C& c = at(op.slot);
    const C& cc = c;
    (void)cc; (void)c; (void)r;
    switch (op.form) {
#if W_TIMED
      case EQ_ALL: r.add(F_EXPIRED, cc.all_expired()); return;
      case EQ_KEY: { K k = mk(op.key, op.spell); r.add(F_EXPIRED, cc.has_expired(k)); return; }
      case EQ_IT: with_it(c, op.it, op.pos, [&](auto& it) { r.add(F_EXPIRED, cc.has_expired(it)); }); return;
#else
      case EQ_ALL: case EQ_KEY: case EQ_IT: return;
#endif
      case EQ_VALID: with_it(c, op.it, op.pos, [&](auto& it) { r.add(F_VALID, cc.is_valid(it)); }); return;
      case EQ_THROW: with_it(c, op.it, op.pos, [&](auto& it) { r.add(F_SUBEXC, sub_exc([&] { cc.throw_if_invalid(it); })); }); return;
      case EQ_READ:
        with_it(c, op.it, op.pos, [&](auto& it) {
          if (op.flag && op.pos >= 0) {   // what was read before must not change what is reported now
            if (op.flag & 1) (void)kcode((*it).key());
            if (op.flag & 2) (void)ValIO<V>::code(it->value());
          }
          r.add(F_SUBEXC, sub_exc([&] { r.add(F_KEY, kcode(it.key())); }));
          r.add(F_SUBEXC, sub_exc([&] { r.add(F_VAL, ValIO<V>::code(it.value())); }));
          r.add(F_SUBEXC, sub_exc([&] { r.add(F_KEY, kcode(it.entry().key())); }));
          if (op.pos >= 0) { r.add(F_ITKEY, kcode((*it).key())); r.add(F_ITVAL, ValIO<V>::code(it->value())); }
        });
        return;
      default: return;
    }
  }

  // ------------------------------------------------------------ statistics
  // Two of these could as well be a range, or two iterators, of keys.
  static constexpr bool kNoSingleKeys = std::is_same<K, std::string>::value || std::is_same<K, Ptr>::value;
  void stat_op(const ROp& op, Res& r) {
    C& c = at(op.slot);
    const C& cc = c;
    auto& p = pool_[op.n < 0 ? 0 : op.n % NPOOL];
    switch (op.form) {
      case SF_ATTACH_LV: c.monitor(p); return;
      case SF_ATTACH_RV: { auto q = p; c.monitor(std::move(q)); return; }
      case SF_ATTACH_NEW0: c.monitor(); p = c.shared_stats(); return;
      case SF_ATTACH_NEWKEYS: {
        if (op.keys.size() == 1) { K a = mk(op.keys[0]); if constexpr (kNoSingleKeys) { c.monitor(std::vector<K>{a}); } else { c.monitor(std::move(a)); } }
        else if (!kNoSingleKeys && (op.keys.size() == 2 || (op.keys.size() == 3 && !op.flag))) {
          if constexpr (!kNoSingleKeys) {
            K a = mk(op.keys[0]), b = mk(op.keys[1]);
            if (op.keys.size() == 2) { c.monitor(std::move(a), std::move(b)); }
            else { K d = mk(op.keys[2]); c.monitor(std::move(a), std::move(b), std::move(d)); }
          }
        } else { std::vector<K> v; for (long k : op.keys) v.push_back(mk(k)); if (op.flag) c.monitor(v); else c.monitor(v.begin(), v.end()); }
        p = c.shared_stats();
        return;
      }
      case SF_NEWPOOL: {   // a fresh object in the pool, not attached to anything
        std::vector<K> v; for (long k : op.keys) v.push_back(mk(k));
        switch (op.flag % 4) {
          case 0: p = std::make_shared<Stats>(); break;
          case 1: p = std::make_shared<Stats>(v.begin(), v.end()); break;
          case 2: p = std::make_shared<Stats>(v); break;
          default:
            if (v.size() == 2) { std::initializer_list<K> l{v[0], v[1]}; p = std::make_shared<Stats>(l); }
            else if (v.size() == 3) { std::initializer_list<K> l{v[0], v[1], v[2]}; p = std::make_shared<Stats>(l); }
            else p = std::make_shared<Stats>(v.begin(), v.end());
        }
        return;
      }
      case SF_ATTACH_NULL: { typename C::StatisticsPointer np; if (op.flag) c.monitor(np); else c.monitor(std::move(np)); return; }
      case SF_STOP: c.stop_monitoring(); return;
      case SF_ISMON: r.add(F_ISMON, cc.is_monitoring()); r.add(F_ISMON, static_cast<bool>(cc.shared_stats())); return;
      case SF_STATS: {
        if (op.flag) { const Stats& s = cc.stats(); fill(s, r); }
        else { Stats& s = c.stats(); fill(s, r); }
        return;
      }
      case SF_SHARED: {
        r.add(F_SAMEPTR, op.n >= 0 ? (c.shared_stats() == pool_[op.n] && cc.shared_stats() == pool_[op.n]) : c.shared_stats() == nullptr);
        return;
      }
      default: break;
    }
    K k = mk(op.key);
    Stats& s = op.flag2 ? c.stats() : *p;   // through the cache or directly
    switch (op.form) {
      case SF_MONITOR: s.monitor(k); for (long x : op.keys) s.monitor(mk(x)); return;
      case SF_UNMONITOR: s.unmonitor(k); return;
      case SF_UNMONITOR_ALL: s.unmonitor_all(); return;
      case SF_RESET_KEY: s.reset_key(k); return;
      case SF_RESET_ALL: s.reset_all(); return;
      case SF_QUERY: {
        r.add(F_NMON, s.number_of_monitored_keys());
        r.add(F_ISMON, s.is_monitoring(k));
        r.add(F_ISMON, s.is_monitoring_keys());
        r.add(F_SUBEXC, sub_exc([&] { r.add(F_KHITS, s.hits_for(k)); }));
        r.add(F_SUBEXC, sub_exc([&] { r.add(F_KMISSES, s.misses_for(k)); }));
        r.add(F_SUBEXC, sub_exc([&] { r.add(F_TOTAL, s.accesses_for(k)); }));
        r.add(F_SUBEXC, sub_exc([&] { auto& x = s.stats_for(k); r.add(F_KHITS, x.hits); r.add(F_KMISSES, x.misses); }));
        r.add(F_SUBEXC, sub_exc([&] { auto& x = s[k]; r.add(F_TOTAL, x.accesses()); }));
        return;
      }
      default: return;
    }
  }
  void fill(const Stats& s, Res& r) {
    r.add(F_TOTAL, s.total_accesses()); r.add(F_HITS, s.total_hits()); r.add(F_MISSES, s.total_misses());
    r.add(F_NMON, s.number_of_monitored_keys());
  }
  StatObs stat(int p) override {
    StatObs o; o.alive = true;
    const Stats& s = *pool_[p];
    o.total = s.total_accesses(); o.hits = s.total_hits(); o.misses = s.total_misses();
    o.nkeys = s.number_of_monitored_keys(); o.hr = s.hit_rate(); o.mr = s.miss_rate();
    return o;
  }
  bool stat_key(int p, long key, long& h, long& m) override {
    const Stats& s = *pool_[p];
    K k = mk(key);
    if (!s.is_monitoring(k)) return false;
    h = static_cast<long>(s.hits_for(k)); m = static_cast<long>(s.misses_for(k));
    return true;
  }

  // ------------------------------------------------------------- callbacks
  // In every form a callback can be handed over; with flag2, the same object is
  // registered twice and has to be called twice.
  template <typename F, typename G, typename R>
  static void register_cb(G& f, const ROp& op, R&& reg) {
    if (op.flag2) {
      if (op.flag & 1) { F g(f); reg(g); reg(g); }
      else { const F g(f); reg(g); reg(std::cref(g).get()); }
      return;
    }
    switch (op.flag & 3) {
      case 0: reg(f); break;
      case 1: { F g(f); reg(g); break; }
      case 2: { F g(f); reg(std::move(g)); break; }
      default: { const auto g = f; reg(g); }
    }
  }
  void cb_op(const ROp& op, Res& r) {
    C& c = at(op.slot);
    int id = static_cast<int>(op.n);
    auto* log = &log_;
    World* w = this;
    switch (op.form) {
      case CB_HIT: {
        auto f = [log, w, id](const K& k, const V& v) { log->push_back({id, 0, w->kcode(k), ValIO<V>::code(v)}); };
        register_cb<std::function<void(const K&, const V&)>>(f, op, [&](auto&& g) { c.hit_callback(std::forward<decltype(g)>(g)); });
        break;
      }
      case CB_MISS: {
        auto f = [log, w, id](const K& k) { log->push_back({id, 1, w->kcode(k), 0}); };
        register_cb<std::function<void(const K&)>>(f, op, [&](auto&& g) { c.miss_callback(std::forward<decltype(g)>(g)); });
        break;
      }
      case CB_ACCESS: {
        auto f = [log, w, id](const K& k, bool hit) { log->push_back({id, 2, w->kcode(k), hit}); };
        register_cb<std::function<void(const K&, bool)>>(f, op, [&](auto&& g) { c.access_callback(std::forward<decltype(g)>(g)); });
        break;
      }
      case CB_CLEAR_HIT: c.clear_hit_callbacks(); break;
      case CB_CLEAR_MISS: c.clear_miss_callbacks(); break;
      case CB_CLEAR_ACCESS: c.clear_access_callbacks(); break;
      default: c.clear_all_callbacks(); break;
    }
    r.add(F_NCB, c.hit_callbacks().size() + 100 * c.miss_callbacks().size() + 10000 * c.access_callbacks().size());
  }
  std::vector<Event> drain() override {
    std::vector<Event> v;
    v.swap(log_);
    return v;
  }

 private:
  WorldCfg cfg_;
  int fn_[NSLOTS] = {0};
  bool exact_ = false;
  std::unique_ptr<C> slot_[NSLOTS];
  std::shared_ptr<Stats> pool_[NPOOL];
  std::pair<Handle, int> handles_[NHANDLES] = {};
  std::vector<Event> log_;
  struct Cmp { template <class T> bool operator()(const T& a, const T& b) const { return a < b; }
    bool operator()(const TK&, const TK&) const { return false; } };
  std::map<K, long, Cmp> codes_;
};

struct Register {
  Register() {
    world_factory(WORLD) = [](const WorldCfg& c) -> std::unique_ptr<IWorld> { return std::make_unique<World<K_, V_, C_>>(c); };
  }
} g_register;

}  // namespace
}  // namespace vf
