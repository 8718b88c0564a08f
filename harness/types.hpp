// Key and value types whose every life event is visible to the harness, and
// stateful hash / equality functors.
#ifndef VERIF_TYPES_HPP
#define VERIF_TYPES_HPP
#include "core.hpp"

namespace vf {

inline void obj_event(long value = -1) {
  if (g_fault_on && g_fault_obj > 0 && --g_fault_obj == 0) {
    ++g_fault_fired;
    g_fault_value = value;
    throw Injected();
  }
}

// A key: equivalence class `code`, written in some `spell`ing.
struct TK {
  long code; int spell; int* mark;   // mark: heap cell, so that ASan sees stale use
  explicit TK(long c, int s = 0) : code(c), spell(s), mark(nullptr) { obj_event(); mark = new int(1); ++g_live_keys; }
  TK(const TK& o) : code(o.code), spell(o.spell), mark(nullptr) {
    if (g_count_on) ++g_cnt.kcopy;
    obj_event(); mark = new int(*o.mark); ++g_live_keys;
  }
  TK(TK&& o) : code(o.code), spell(o.spell), mark(nullptr) {
    if (g_count_on) ++g_cnt.kmove;
    obj_event(); mark = new int(*o.mark); o.code = -1000 - o.code; *o.mark = 0; ++g_live_keys;
  }
  TK& operator=(const TK& o) {
    if (g_count_on) ++g_cnt.kcopy;
    obj_event(); code = o.code; spell = o.spell; *mark = *o.mark; return *this;
  }
  TK& operator=(TK&& o) {
    if (g_count_on) ++g_cnt.kmove;
    obj_event(); code = o.code; spell = o.spell; *mark = *o.mark;
    if (&o != this) { o.code = -1000 - o.code; *o.mark = 0; }
    return *this;
  }
  ~TK() { --g_live_keys; delete mark; }
  friend bool operator==(const TK& a, const TK& b) {
    if (g_count_on) ++g_cnt.eq;
    return a.code == b.code && (g_tk_eq_mode == 0 || a.spell == b.spell) && *a.mark >= 0 && *b.mark >= 0;
  }
  friend bool operator!=(const TK& a, const TK& b) { return !(a == b); }
};

struct TV {
  long code; int* mark;
  TV() : code(0), mark(nullptr) { obj_event(); mark = new int(1); ++g_live_vals; }
  explicit TV(long c) : code(c), mark(nullptr) { obj_event(); mark = new int(1); ++g_live_vals; }
  TV(long a, long b) : code(a + b), mark(nullptr) { obj_event(); mark = new int(1); ++g_live_vals; }
  TV(const TV& o) : code(o.code), mark(nullptr) {
    if (g_count_on) ++g_cnt.vcopy;
    obj_event(o.code); g_in_value = o.code; mark = new int(*o.mark); g_in_value = -1; ++g_live_vals;
  }
  TV(TV&& o) : code(o.code), mark(nullptr) {
    if (g_count_on) ++g_cnt.vmove;
    obj_event(o.code); g_in_value = o.code; mark = new int(*o.mark); g_in_value = -1; o.code = -1000 - o.code; *o.mark = 0; ++g_live_vals;
  }
  TV& operator=(const TV& o) {
    if (g_count_on) ++g_cnt.vcopy;
    obj_event(o.code); code = o.code; *mark = *o.mark; return *this;
  }
  TV& operator=(TV&& o) {
    if (g_count_on) ++g_cnt.vmove;
    obj_event(o.code); code = o.code; *mark = *o.mark;
    if (&o != this) { o.code = -1000 - o.code; *o.mark = 0; }
    return *this;
  }
  ~TV() { --g_live_vals; delete mark; }
  friend bool operator==(const TV& a, const TV& b) { return a.code == b.code && *a.mark >= 0 && *b.mark >= 0; }
  friend bool operator!=(const TV& a, const TV& b) { return !(a == b); }
};

// A part of a tuple key, whose hash the library has to combine with those of the other parts.
struct Cnt {
  long code;
  friend bool operator==(const Cnt& a, const Cnt& b) { if (g_count_on) ++g_cnt.eq; return a.code == b.code; }
};

// state 0 (default constructed): exact spelling counts.  state s != 0: classes;
// s & 3 selects the distribution (0 good, 1 constant, 2 modulo 2, 3 modulo 5 scaled).
struct WHash {
  int state = 0;
  std::size_t operator()(const TK& k) const {
    if (g_count_on) ++g_cnt.hash;
    std::uint64_t x = static_cast<std::uint64_t>(k.code) + (*k.mark < 0);
    if (state == 0) x = x * 31 + k.spell;
    switch (state & 3) {
      case 1: return 42;
      case 2: return static_cast<std::size_t>(k.code & 1);
      case 3: return static_cast<std::size_t>((k.code % 5) * 1000003);
      default: break;
    }
    x += static_cast<std::uint64_t>(state) * 0x9e3779b97f4a7c15ULL;
    x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 27; x *= 0x94d049bb133111ebULL; x ^= x >> 31;
    return static_cast<std::size_t>(x);
  }
};
struct WEq {
  int state = 0;
  bool operator()(const TK& a, const TK& b) const {
    if (g_count_on) ++g_cnt.eq;
    if (*a.mark < 0 || *b.mark < 0) return false;
    return a.code == b.code && (state != 0 || a.spell == b.spell);
  }
};
}  // namespace vf

namespace std {
template <>
struct hash<vf::Cnt> {
  size_t operator()(const vf::Cnt& k) const {
    if (vf::g_count_on) ++vf::g_cnt.hash;
    std::uint64_t x = static_cast<std::uint64_t>(k.code) + 0x9e3779b97f4a7c15ULL;
    x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 27; x *= 0x94d049bb133111ebULL; x ^= x >> 31;
    return static_cast<size_t>(x);
  }
};
template <>
struct hash<vf::TK> {
  size_t operator()(const vf::TK& k) const {
    return std::hash<long>{}(k.code) + (vf::g_tk_eq_mode ? k.spell * 7919u : 0u);
  }
};
}  // namespace std
#endif
