// The originals and the wrappers of them.  wrap_part.cpp builds the wrappers.
#ifndef VERIF_WRAP_HPP
#define VERIF_WRAP_HPP
#include "engine.hpp"
#include "types.hpp"
#include <cstdio>
#include <sstream>

namespace vf { struct Weak; }
template <> struct std::hash<vf::Weak> { std::size_t operator()(const vf::Weak&) const noexcept; };

namespace vf {

// What the originals do when called.
struct Env {
  std::vector<std::pair<long, long>> log;   // (function, argument code) of each original call
  long serial = 0;
  int throw_at = 0;         // throw at the n-th original call from now
  int64_t slow = 0;         // each original call takes this long
  bool recurse = false;
};
extern Env g;

inline long original(long fid, long code) {
  g.log.emplace_back(fid, code);
  if (g.throw_at > 0 && --g.throw_at == 0) throw Injected();
  g_now_ns += g.slow;
  return ++g.serial;
}
inline std::string str(long c) { return c == 0 ? std::string() : (c & 1) ? "argument-number-that-is-long-enough-for-the-heap-" + std::to_string(c) : std::to_string(c); }
inline long unstr(const std::string& s) { if (s.empty()) return 0; auto p = s.rfind('-'); return atol(s.c_str() + (p == std::string::npos ? 0 : p + 1)); }

inline int fp_a(int x) { return int(original(1, x)); }
inline int fp_b(int x) { return int(original(2, x)); }
inline std::string fs_a(const std::string& s, int y) { return "r" + std::to_string(original(3, unstr(s) * 8 + y)); }
inline std::string fs_b(const std::string& s, int y) { return "r" + std::to_string(original(4, unstr(s) * 8 + y)); }
inline long fv_a(std::string s) { std::string t = std::move(s); return original(5, unstr(t)); }
inline long fv_b(std::string s) { std::string t = std::move(s); return original(6, unstr(t)); }
inline double ft_a(int x, char y, long z) { return double(original(7, (x * 4 + y) * 4 + z)); }
inline int f0_a() { return int(original(8, 0)); }
inline int f0_b() { return int(original(9, 0)); }
// equal sums hash alike under naive combination
inline long fm_a(int x, int y) { return original(10, x * 16 + y); }
inline std::string fl_a(int x) { return "x" + std::to_string(original(11, x)); }

// references to something that is overwritten by later calls, and const results
inline std::string& fr_a(int x) { static std::string r[3]; auto& s = r[x % 3]; s = "a-result-that-is-long-enough-for-the-heap" + std::to_string(original(12, x)); return s; }
inline long& fr_b(int x) { static long r; r = original(13, x); return r; }
inline const std::string& fc_a(int x) { static std::string r; r = "x" + std::to_string(original(14, x)); return r; }
inline const std::string fc_b(int x) { return "x" + std::to_string(original(15, x)); }

// An argument type most of whose values hash alike.
struct Weak { int v; bool operator==(const Weak& o) const { return v == o.v; } bool operator!=(const Weak& o) const { return v != o.v; } };
inline long fw_a(Weak x) { return original(16, x.v); }
inline long fw_b(const Weak& x, int y) { return original(17, x.v * 16 + y); }

struct Callee { virtual ~Callee() = default; virtual long call(long a, int form) = 0; virtual long code(long a) const { return a; } };

template <class W> struct IntCallee : Callee {
  W w;
  explicit IntCallee(W&& x) : w(std::move(x)) {}
  template <class M, class... A> IntCallee(int, M m, A&&... a) : w(m(a...)) {}
  long call(long a, int form) override {
    switch (form % 4) {
      case 0: { int x = int(a); return conv(w(x)); }
      case 1: { const int x = int(a); return conv(w(x)); }
      case 2: { int x = int(a); return conv(w(std::move(x))); }
      default: return conv(w(int(a)));
    }
  }
  static long conv(long v) { return v; }
  static long conv(const std::string& s) { return atol(s.c_str() + (s.size() > 30 ? 41 : 1)); }
};
template <class W> struct StrIntCallee : Callee {
  W w;
  explicit StrIntCallee(W&& x) : w(std::move(x)) {}
  long call(long a, int form) override {
    std::string s = str(a / 8);
    int y = int(a % 8);
    const std::string& cs = s;
    const int cy = y;
    std::string keep = s, r;
    switch (form % 4) {
      case 0: r = w(s, y); break;
      case 1: r = w(cs, cy); break;
      case 2: r = w(std::move(s), int(y)); return atol(r.c_str() + 1);
      default: r = w(str(a / 8), y); break;
    }
    if (s != keep) return -4242;   // an lvalue argument was changed
    return atol(r.c_str() + 1);
  }
};
template <class W> struct StrCallee : Callee {
  W w;
  explicit StrCallee(W&& x) : w(std::move(x)) {}
  long call(long a, int form) override {
    std::string s = str(a);
    const std::string& cs = s;
    std::string keep = s;
    long r = 0;
    switch (form % 4) {
      case 0: r = w(s); break;
      case 1: r = w(cs); break;
      case 2: return w(std::move(s));
      default: r = w(str(a)); break;
    }
    return s == keep ? r : -4242;
  }
};
template <class W> struct TripleCallee : Callee {
  W w;
  explicit TripleCallee(W&& x) : w(std::move(x)) {}
  long call(long a, int form) override {
    int x = int(a / 16); char y = char(a / 4 % 4); long z = a % 4;
    switch (form % 4) {
      case 0: return long(w(x, y, z));
      case 1: { const int cx = x; const char cy = y; const long cz = z; return long(w(cx, cy, cz)); }
      case 2: return long(w(std::move(x), std::move(y), std::move(z)));
      default: return long(w(int(x), y, long(z)));
    }
  }
};
template <class W> struct PairCallee : Callee {
  W w;
  explicit PairCallee(W&& x) : w(std::move(x)) {}
  long call(long a, int form) override {
    int x = int(a / 16), y = int(a % 16);
    switch (form % 4) {
      case 0: return w(x, y);
      case 1: { const int cx = x, cy = y; return w(cx, cy); }
      case 2: return w(std::move(x), std::move(y));
      default: return w(x, int(y));
    }
  }
};
template <class W> struct WeakCallee : Callee {
  W w;
  explicit WeakCallee(W&& x) : w(std::move(x)) {}
  long call(long a, int form) override {
    Weak x{int(a)};
    const Weak y{int(a)};
    switch (form % 3) { case 0: return w(x); case 1: return w(y); default: return w(Weak{int(a)}); }
  }
};
template <class W> struct WeakPairCallee : Callee {
  W w;
  explicit WeakPairCallee(W&& x) : w(std::move(x)) {}
  long call(long a, int form) override {
    Weak x{int(a / 16)};
    const Weak y{int(a / 16)};
    int z = int(a % 16);
    switch (form % 3) { case 0: return w(x, z); case 1: return w(y, int(z)); default: return w(Weak{int(a / 16)}, z); }
  }
};
template <class W> struct NullaryCallee : Callee {
  W w;
  explicit NullaryCallee(W&& x) : w(std::move(x)) {}
  long call(long, int) override { return w(); }
  long code(long) const override { return 0; }
};
// recursive: the original calls the wrapper
struct Recursive : Callee {
  std::function<long(long)> w;
  long fid;
  long body(long n) {
    g.log.emplace_back(fid, n);
    if (g.throw_at > 0 && --g.throw_at == 0) throw Injected();
    g_now_ns += g.slow;
    if (n > 0 && g.recurse) (void)w(n - 1);
    return ++g.serial;
  }
  long call(long a, int form) override { long x = a; return form % 2 ? w(x) : w(long(a)); }
};

constexpr int NSIG = 22;
struct WrapArgs { bool dflt; std::size_t cap; int form; int64_t ttl; };
using Builder = std::unique_ptr<Callee> (*)(int sig, const WrapArgs& a, long& fid);
constexpr int NPARTS = 4;
Builder& builder(int timed, int part);

}  // namespace vf
inline std::size_t std::hash<vf::Weak>::operator()(const vf::Weak& x) const noexcept { return std::size_t(x.v & 1); }
#endif
