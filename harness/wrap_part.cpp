// Builds the wrappers of one group of originals (-DWRAP_PART=n -DWRAP_TIMED=0/1).
#include "engine.hpp"
#include "types.hpp"
#include "wrap.hpp"
#include <lru/lru.hpp>

namespace vf {
namespace {

template <template <class> class H, class W> std::unique_ptr<Callee> make(W&& w) { return std::make_unique<H<std::decay_t<W>>>(std::move(w)); }

// mk(f): wraps f with the arguments of this wrapper.
template <class MK> std::unique_ptr<Callee> build(int sig, MK mk, long& fid) {
  switch (sig) {
#if WRAP_PART == 0
    case 0: fid = 1; return make<IntCallee>(mk(fp_a));
#endif
#if WRAP_PART == 1
    case 1: fid = 2; return make<IntCallee>(mk(fp_b));
#endif
#if WRAP_PART == 0
    case 2: fid = 3; return make<StrIntCallee>(mk(fs_a));
#endif
#if WRAP_PART == 1
    case 3: fid = 4; return make<StrIntCallee>(mk(fs_b));
#endif
#if WRAP_PART == 0
    case 4: fid = 5; return make<StrCallee>(mk(fv_a));
#endif
#if WRAP_PART == 1
    case 5: fid = 6; return make<StrCallee>(mk(fv_b));
#endif
#if WRAP_PART == 0
    case 6: fid = 7; return make<TripleCallee>(mk(ft_a));
#endif
#if WRAP_PART == 2
    case 7: fid = 8; return make<NullaryCallee>(mk(f0_a));
#endif
#if WRAP_PART == 1
    case 8: fid = 9; return make<NullaryCallee>(mk(f0_b));
#endif
#if WRAP_PART == 2
    case 9: fid = 10; return make<PairCallee>(mk(fm_a));
#endif
#if WRAP_PART == 2
    case 10: fid = 11; return make<IntCallee>(mk(fl_a));
#endif
#if WRAP_PART == 2
    case 11: case 12: {   // closures of one type, different captures
      long id = fid = 20 + sig;
      auto l = [id](int x) { return original(id, x); };
      struct L { static auto get(long i) { return [i](int x) { return original(i, x); }; } };
      (void)l;
      return make<IntCallee>(mk(L::get(id)));
    }
#endif
#if WRAP_PART == 3
    case 13: {
      fid = 40;
      std::function<long(int)> f = [](int x) { return original(40, x); };
      return make<IntCallee>(mk(f));
    }
#endif
#if WRAP_PART == 3
    case 14: {
      fid = 41;
      long n = 0;
      return make<IntCallee>(mk([n](auto x) mutable { ++n; return original(41, long(x)) + 0 * n; }));
    }
#endif
#if WRAP_PART == 3
    case 15: {
      fid = 42;
      auto r = std::make_unique<Recursive>();
      Recursive* p = r.get();
      r->fid = 42;
      r->w = mk([p](long n) { return p->body(n); });
      return r;
    }
#endif
#if WRAP_PART == 0
    case 20: fid = 16; return make<WeakCallee>(mk(fw_a));
#endif
#if WRAP_PART == 2
    case 21: fid = 17; return make<WeakPairCallee>(mk(fw_b));
#endif
#if WRAP_PART == 1
    case 16: fid = 12; return make<IntCallee>(mk(fr_a));
    case 17: fid = 13; return make<IntCallee>(mk(fr_b));
#endif
#if WRAP_PART == 2
    case 18: fid = 14; return make<IntCallee>(mk(fc_a));
    case 19: fid = 15; return make<IntCallee>(mk(fc_b));
#endif
    default: return nullptr;
  }
}

std::unique_ptr<Callee> build_all(int sig, const WrapArgs& a, long& fid) {
#if WRAP_TIMED
  using namespace std::chrono;
  const std::size_t cap = a.cap;
  if (a.dflt) return build(sig, [&](auto f) { return LRU::timed_wrap(f, nanoseconds(a.ttl)); }, fid);
#if WRAP_PART != 3
  if (a.form % 3 == 0 && a.ttl % 1000000 == 0) return build(sig, [&](auto f) { return LRU::timed_wrap(f, milliseconds(a.ttl / 1000000), cap); }, fid);
#endif
#if WRAP_PART == 3 || WRAP_PART == 1
  if (a.form % 3 == 1 && a.ttl % 250000 == 0) return build(sig, [&](auto f) { return LRU::timed_wrap(f, duration<double, std::milli>(a.ttl / 1e6), cap); }, fid);
#endif
  return build(sig, [&](auto f) { return LRU::timed_wrap(f, nanoseconds(a.ttl), cap); }, fid);
#else
  if (a.dflt) return build(sig, [&](auto f) { return LRU::wrap(f); }, fid);
  if (a.form % 2) { const int cap = int(a.cap); return build(sig, [&](auto f) { return LRU::wrap(f, cap); }, fid); }
  std::size_t cap = a.cap;
  return build(sig, [&](auto f) { return LRU::wrap(f, std::move(cap)); }, fid);
#endif
}
struct Reg { Reg() { builder(WRAP_TIMED, WRAP_PART) = build_all; } } g_reg;

}  // namespace
}  // namespace vf
