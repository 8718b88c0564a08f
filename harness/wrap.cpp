// wrap() and timed_wrap(): several wrappers at a time against a model of memoisation.
#include "engine.hpp"
#include "types.hpp"
#include "wrap.hpp"
#include <cstdio>
#include <sstream>

namespace vf {

Env g;
Builder& builder(int timed, int part) { static Builder t[2][NPARTS]; return t[timed][part]; }

namespace {

struct MW {   // model of one wrapper
  bool alive = false, timed = false, recursive = false;
  long fid = 0; unsigned long cap = 0; int64_t ttl = 0; int64_t t = 0; long id = 0;
  struct E { long code, value; int64_t t; };
  std::vector<E> order;
  int find(long c) const { for (size_t i = 0; i < order.size(); ++i) if (order[i].code == c) return int(i); return -1; }
};

struct Throw {};

class WrapRun {
 public:
  WrapRun(const Scenario& s, Outcome& o, bool v) : sc(s), out(o), verbose(v), timed(s.cfg.world == 1) {}
  const Scenario& sc; Outcome& out; bool verbose, timed;
  static constexpr int NW = 4;
  std::unique_ptr<Callee> real[NW];
  MW m[NW];
  // model of the environment
  std::vector<std::pair<long, long>> mlog; long mserial = 0; int mthrow = 0; int64_t mnow = 0; bool mrec = false;

  static int pm(int a, int n) { return int(((long)a % n + n) % n); }

  long model_call(MW& w, long code) {
    int i = w.find(code);
    if (i >= 0) {
      bool exp = w.timed && mnow - w.order[size_t(i)].t > w.ttl;
      if (!exp) {
        ++out.feat[FE_HIT];
        MW::E e = w.order[size_t(i)];
        w.order.erase(w.order.begin() + i);
        w.order.push_back(e);
        return e.value;
      }
      ++out.feat[FE_EXPMISS];
    }
    ++out.feat[FE_MISS];
    mlog.emplace_back(w.fid, code);
    if (mthrow > 0 && --mthrow == 0) throw Throw();
    mnow += g.slow;
    if (w.recursive && code > 0 && mrec) (void)model_call(w, code - 1);
    long v = ++mserial;
    if (w.cap == 0) { ++out.feat[FE_ZEROCAP]; return v; }
    i = w.find(code);
    if (i >= 0) w.order.erase(w.order.begin() + i);
    w.order.push_back({code, v, mnow});
    if (w.order.size() > w.cap) { w.order.erase(w.order.begin()); ++out.feat[FE_EVICT]; }
    return v;
  }
  bool bad(const std::string& s) { out.bad = true; out.msg = "step " + std::to_string(out.steps) + ": " + s; return false; }

  bool call(int s, long arg, int form, int throw_at, int64_t slow, bool rec) {
    ++out.steps;
    MW& w = m[s];
    long code = real[s]->code(arg);
    std::ostringstream d;
    d << "call wrapper " << s << " of function " << w.fid << " (capacity " << w.cap;
    if (w.timed) d << ", ttl " << w.ttl;
    d << ") with argument " << code << " form " << form % 4 << " at time " << g_now_ns;
    if (throw_at) d << " throwing at original call " << throw_at;
    if (verbose) printf("%4ld %s\n", out.steps, d.str().c_str());
    g.log.clear(); mlog.clear();
    g.throw_at = mthrow = throw_at; g.slow = slow; g.recurse = mrec = rec;
    mnow = g_now_ns; mserial = g.serial;
    long want = 0, got = 0; bool wthrow = false, gthrow = false;
    try { want = model_call(w, code); } catch (const Throw&) { wthrow = true; }
    try { got = real[s]->call(arg, form); } catch (const Injected&) { gthrow = true; }
    std::ostringstream o;
    auto show = [&](const std::vector<std::pair<long, long>>& l) { for (auto& x : l) o << ' ' << x.first << '(' << x.second << ')'; };
    if (g.log != mlog) { o << d.str() << ": original calls:"; show(g.log); o << "; expected:"; show(mlog); return bad(o.str()); }
    if (wthrow != gthrow) return bad(d.str() + (gthrow ? ": threw" : ": did not throw"));
    if (!wthrow && want != got) { o << d.str() << ": result " << got << ", expected " << want; return bad(o.str()); }
    return true;
  }

  void create(int s, const int* p) {
    static const unsigned long caps[] = {3, 1, 2, 0, 4, 8, 130};
    static const int64_t ttls[] = {5000000, 0, 1000000, 10250000, 100000000, 1, 60000000000LL, 2500000};
    MW w;
    w.alive = true;
    int sig = pm(p[1], NSIG);
    bool dflt = pm(p[3], 6) == 5;
    w.cap = dflt ? 128 : caps[pm(p[2], 7)];
    w.recursive = sig == 15;
    w.timed = timed;
    w.ttl = ttls[pm(p[4], 8)];
    ++out.steps;
    real[s].reset();
    m[s] = w;
    WrapArgs wa{dflt, w.cap, pm(p[5], 6), w.ttl};
    for (int i = 0; i < NPARTS && !real[s]; ++i) if (Builder bl = builder(timed, i)) real[s] = bl(sig, wa, m[s].fid);
    if (!real[s]) { out.skipped = true; throw Stop(); }
    if (verbose) printf("%4ld new wrapper %d of function %ld, capacity %lu, ttl %ld\n", out.steps, s, m[s].fid, w.cap, long(w.ttl));
  }

  void go() {
    reset_globals(sc.cfg);
    g = Env();
    int dp[9] = {0, sc.cfg.form * 2, sc.cfg.cap, sc.cfg.obs, sc.cfg.ttl, sc.cfg.t0, 0, 0, 0};
    create(0, dp);
    dp[1] += 1; dp[2] = sc.cfg.fn + sc.cfg.cap; dp[4] += 1;
    create(1, dp);
    for (auto& r : sc.ops) {
      const int* p = r.p;
      int s = pm(p[0], NW);
      if (r.kind == OP_CREATE) { create(s, p); continue; }
      for (int i = 0; i < NW && !real[s]; ++i) s = (s + 1) % NW;
      int nargs = 2 + pm(sc.cfg.nkeys, 7);
      bool thr = pm(p[3], 9) == 8;
      int64_t slow = pm(p[4], 7) == 6 ? 1 + pm(p[4] / 7, 4) * 1000000 : 0;
      switch (r.kind) {
        case OP_LOOKUP: {
          long a = pm(p[1], nargs);
          // arguments that a poor hash combination confuses
          if (pm(p[6], 3) == 0) a = long(pm(p[1], 8)) * 16 + pm(p[1] / 8, 4);
          if (m[s].recursive) a = pm(p[1], 9);
          if (!call(s, a, pm(p[2], 4), thr ? 1 + pm(p[5], 3) : 0, slow, pm(p[7], 2))) return;
          break;
        }
        case OP_BULK: {   // the same call in a row
          long a = pm(p[1], nargs);
          for (int i = 0; i < 2 + pm(p[2], 2); ++i) if (!call(s, a, pm(p[2], 4) + i, 0, slow, pm(p[7], 2))) return;
          break;
        }
        case OP_FILL: {   // more distinct arguments than the default capacity
          if (m[s].cap > 100 || pm(p[2], 3) == 0) {
            int n = m[s].cap > 100 ? 129 + pm(p[1], 4) : 9;
            bool rec = false;
            for (int i = 0; i < n; ++i) if (!call(s, 200 + i, pm(p[2], 4), 0, 0, rec)) return;
            if (!call(s, 200 + pm(p[1], 5), 0, 0, 0, rec)) return;
            ++out.feat[FE_BIG];
          }
          break;
        }
        case OP_ADVANCE: {
          ++out.steps;
          if (!timed) { g_now_ns += pm(p[1], 1000) * 1000000LL; break; }
          int64_t d = pm(p[1], 3000000);
          if (!m[s].order.empty() && pm(p[2], 4)) {
            auto& e = m[s].order[size_t(pm(p[3], int(m[s].order.size())))];
            static const int64_t delta[] = {0, 1, -1, 2};
            d = e.t + m[s].ttl + delta[pm(p[4], 4)] - g_now_ns;
            if (d >= 0) ++out.feat[FE_BOUNDARY];
          }
          if (d > 0) { g_now_ns += d; g_sys_now_ns += d; }
          if (pm(p[5], 4) == 0) g_sys_now_ns += (pm(p[6], 200) - 100) * 1000000000000LL;
          if (verbose) printf("%4ld the clock is at %ld\n", out.steps, long(g_now_ns));
          break;
        }
        default: break;
      }
    }
  }
};

void run_wrap(const Scenario& sc, Outcome& out, bool verbose) {
  WrapRun r(sc, out, verbose);
  r.go();
}
struct Reg { Reg() { wrap_runner() = run_wrap; } } g_reg;

}  // namespace
}  // namespace vf
