#include "engine.hpp"
#include "types.hpp"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <sstream>

namespace vf {

int64_t g_now_ns = 0, g_sys_now_ns = 0;
bool g_virtual = true;
int g_jump_left = 0;
int64_t g_jump_by = 0;
bool g_fault_on = false;
int g_fault_obj = 0, g_fault_alloc = 0, g_fault_fired = 0;
long g_fault_value = -1, g_in_value = -1;
bool g_source_changed = false;
Counters g_cnt;
bool g_count_on = false;
long g_live_keys = 0, g_live_vals = 0;
int g_tk_eq_mode = 0;
long g_live_allocs = 0;

WorldFactory& world_factory(int id) { static WorldFactory t[NWORLDS]; return t[id]; }
WrapRunner& wrap_runner() { static WrapRunner r; return r; }

static const int64_t kT0[] = {1000000000, 0, 1000000000000007, 123456789012345, 99999999999999999};

void reset_globals(const Cfg& c) {
  g_now_ns = kT0[((c.t0 % 5) + 5) % 5];
  g_sys_now_ns = 1700000000000000000;
  g_jump_left = 0;
  g_fault_on = g_count_on = false;
  g_fault_obj = g_fault_alloc = g_fault_fired = 0;
  g_cnt = Counters();
  g_live_keys = g_live_vals = 0;
  g_tk_eq_mode = c.eqmode;
}

std::string describe(const ROp& o) {
  std::ostringstream s;
  s << kOpNames[o.kind] << " slot=" << o.slot;
  auto p = [&](const char* n, long v) { if (v) s << ' ' << n << '=' << v; };
  p("slot2", o.slot2); p("key", o.key); p("spell", o.spell); p("val", o.val); p("form", o.form); p("it", o.it);
  if (o.pos != -1) s << " pos=" << o.pos;
  if (o.pos2 != -1) s << " pos2=" << o.pos2;
  p("n", o.n); p("flag", o.flag); p("flag2", o.flag2); p("t", o.t); p("fn", o.fnstate); p("h", o.h); p("h2", o.h2); p("jump", o.jump_at); p("rep", o.rep);
  if (o.fault_kind) s << " fault=" << (o.fault_kind == 1 ? "object" : "alloc") << '@' << o.fault_at;
  if (!o.items.empty()) {
    s << " items=[";
    for (size_t i = 0; i < o.items.size() && i < 12; ++i) s << (i ? " " : "") << o.items[i].first << ':' << o.items[i].second;
    s << (o.items.size() > 12 ? " ...]" : "]");
  }
  if (!o.keys.empty()) { s << " keys=["; for (size_t i = 0; i < o.keys.size(); ++i) s << (i ? " " : "") << o.keys[i]; s << ']'; }
  return s.str();
}
std::string describe(const Res& r) {
  std::ostringstream s;
  if (r.exc) s << "throws " << kExcNames[r.exc];
  for (auto& f : r.f) s << ' ' << (f.first < F_NFIELDS ? kFieldNames[f.first] : "?") << '=' << f.second;
  return s.str();
}
static std::string kvs(const KV& v) {
  std::ostringstream s;
  s << '[';
  for (size_t i = 0; i < v.size() && i < 20; ++i) s << (i ? " " : "") << v[i].first << ':' << v[i].second;
  if (v.size() > 20) s << " ...(" << v.size() << ')';
  s << ']';
  return s.str();
}
static std::string evs(const std::vector<Event>& v) {
  std::ostringstream s;
  static const char* n[] = {"hit", "miss", "access"};
  for (auto& e : v) s << " cb" << e.cb << '.' << n[e.type] << '(' << e.key << ',' << e.val << ')';
  return s.str();
}



class Base {
 public:
  Base(const Scenario& s, int t, bool v, Outcome& o) : sc(s), cfg(s.cfg), target(t), verbose(v), out(o) {}
  const Scenario& sc;
  Cfg cfg;
  int target;
  bool verbose;
  Outcome& out;
  std::string where;

  // Reports a mismatch; returns if it is not for this target.
  bool mismatch(uint64_t tags, const std::string& msg) {
    if (target == 0 || (tags & T(target))) {
      out.bad = true;
      out.msg = "step " + std::to_string(out.steps) + " " + where + ": " + msg;
      throw Stop();
    }
    ++out.offtarget;
    if (verbose) printf("    (off target) %s\n", msg.c_str());
    return false;
  }
  void fail(const std::string& msg) { mismatch(~0ull, msg); }
  static void clock(const ROp& op) {
    if (op.kind == OP_ADVANCE) { g_now_ns += op.t; g_sys_now_ns += op.t; }
    if (op.kind == OP_SYSJUMP) g_sys_now_ns += op.t;
  }
  static WorldCfg wcfg(const Cfg& c) { WorldCfg w; w.keymode = c.keymode; w.valmode = c.valmode; w.hashmode = c.fn; return w; }
  std::unique_ptr<IWorld> make(int id) {
    auto f = world_factory(id);
    if (!f) { fprintf(stderr, "world %d is not linked\n", id); exit(3); }
    return f(wcfg(cfg));
  }
  Res run(IWorld& w, const ROp& op) {
    if (op.kind == OP_ADVANCE || op.kind == OP_SYSJUMP) return Res();
    Res r = w.run(op);
    if (verbose) printf("    -> %s\n", describe(r).c_str());
    return r;
  }
  void begin(const ROp& op) {
    ++out.steps;
    where = describe(op);
    if (verbose) printf("%4ld %s\n", out.steps, where.c_str());
  }
};

// ------------------------------------------------------------------------ E1
class ModelRun : public Base {
 public:
  using Base::Base;
  std::unique_ptr<IWorld> w;
  std::unique_ptr<Model> m;
  WorldInfo info;

  void go() {
    reset_globals(cfg);
    w = make(cfg.world);
    info = w->info();
    m = std::make_unique<Model>(info, cfg);
    m->unordered_ok = m->jump_ok = true;
    step(m->initial());
    size_t n = 0;
    for (auto& r : sc.ops) { step(m->resolve(r)); ++n; }
    where = "final observation";
    for (int i = 0; i < NSLOTS; ++i) check_obs(i, OB_ALL, T(1));
    check_pools();
    out.feat = m->feat;
    where = "destruction of everything";
    w.reset();
    if (g_live_vals || g_live_keys)
      mismatch(T(21), "leaked " + std::to_string(g_live_vals) + " values and " + std::to_string(g_live_keys) + " keys");
  }

  void forget_handles(int slot) { for (auto& x : m->h) if (x.slot == slot) x = MHandle(); }

  void step(const ROp& op) {
    begin(op);
    clock(op);
    const int64_t t0 = g_now_ns;
    Res r = run(*w, op);
    if (op.jump_at) { g_now_ns = t0 + op.t; g_sys_now_ns += op.t; }   // whether the call read the clock that often or not
    Expect e;
    m->step(op, r, e);
    bool whole = op.fault_kind && op.kind != OP_INSERT && op.kind != OP_BULK;   // a fault in copying or assigning a cache
    if (whole && !e.fields_only_if_no_exc) { e.exc_tags |= T(26); if (r.fired > 0) { e.exc = 0; e.exc_tags = T(26); } }
    if (e.fault) settle_fault(op, r, e);
    compare(op, r, e);
    if (whole && e.fields_only_if_no_exc) {
      if (g_source_changed) mismatch(T(26), "the source range has been changed");
      for (int i = 0; i < NSLOTS; ++i) check_obs(i, OB_ALL, T(26));
      check_pools(T(26));
    }
    bool touched2 = op.kind == OP_COPY_CTOR || op.kind == OP_COPY_ASSIGN || op.kind == OP_MOVE_CTOR || op.kind == OP_MOVE_ASSIGN ||
                    op.kind == OP_SWAP || op.kind == OP_COMPARE || op.kind == OP_BULK;
    if (cfg.obs) {
      int mask = cfg.obs == 1 ? (OB_FWD | OB_SIZES) : cfg.obsmask;
      if (cfg.obs == 3 && out.steps % 4) mask = 0;
      if (op.kind == OP_FILL) mask |= OB_SIZES;
      if (mask) {
        if (cfg.obs == 2) for (int i = 0; i < NSLOTS; ++i) check_obs(i, mask, e.optags);
        else { check_obs(op.slot, mask, e.optags); if (touched2 && op.slot2 != op.slot) check_obs(op.slot2, mask, e.optags); }
        auto ev = w->drain();
        if (!ev.empty()) mismatch(T(14) | T(3), "iteration or size queries invoked callbacks:" + evs(ev));
      }
      check_pools();
    }
    if (info.tracked) {
      long live = long(m->total_size());
      if (g_live_vals != live) mismatch(T(21) | (whole ? T(26) : 0), "live value objects: " + std::to_string(g_live_vals) + ", stored entries: " + std::to_string(live));
    }
  }

  static bool same(const KV& a, const std::vector<MEntry>& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (a[i].first != b[i].k || a[i].second != b[i].v) return false;
    return true;
  }

  void settle_fault(const ROp& op, const Res& r, Expect& e) {
    Obs o;
    w->observe(m->fault_slot, OB_ALL, o);
    std::vector<int> exp;   // tells candidates apart that differ in age only
    if (info.timed) {
      for (size_t i = 0; i < o.fwd.size(); ++i) {
        ROp q; q.kind = OP_EXPQ; q.form = EQ_IT; q.it = IK_O; q.pos = int(i); q.slot = m->fault_slot;
        exp.push_back(w->run(q).get(F_EXPIRED) == 1);
      }
    }
    w->drain();
    auto ages = [&](const std::vector<MEntry>& c) {
      for (size_t i = 0; i < exp.size(); ++i) if (m->expired(m->s[m->fault_slot], c[i]) != bool(exp[i])) return false;
      return true;
    };
    for (auto& c : m->candidates) {
      if (same(o.fwd, c) && ages(c)) { m->s[m->fault_slot].order = c; return; }
    }
    std::ostringstream s;
    s << "after " << kExcNames[r.exc] << " the cache holds " << kvs(o.fwd) << ", which is none of the permitted states; before: ";
    KV b;
    for (auto& x : m->candidates[0]) b.emplace_back(x.k, x.v);
    s << kvs(b);
    mismatch(T(op.kind == OP_ASSIGN ? 26 : 22), s.str());
    throw Stop();
  }

  void compare(const ROp& op, const Res& r, const Expect& e) {
    if (r.exc == EX_OTHER) mismatch(e.exc_tags | e.optags, "unexpected exception");
    if (!((e.exc >> r.exc) & 1)) {
      std::string want;
      for (int i = 0; i <= EX_OTHER; ++i) if ((e.exc >> i) & 1) want += std::string(want.empty() ? "" : " or ") + kExcNames[i];
      mismatch(e.exc_tags, std::string("exception: got ") + kExcNames[r.exc] + ", expected " + (want.empty() ? "the injected one" : want));
    } else if (!e.fields_only_if_no_exc) {
      uint64_t prev = 0;
      size_t n = std::min(r.f.size(), e.f.size());
      for (size_t i = 0; i < n; ++i) {
        const EF& x = e.f[i];
        if (r.f[i].first != x.f) {
          mismatch(prev | x.tags | (r.f[i].first == F_GUARD ? e.optags : 0),
                   std::string("observed ") + kFieldNames[r.f[i].first] + " where " + kFieldNames[x.f] + " was expected");
          break;
        }
        long v = r.f[i].second;
        if (v < x.lo || v > x.hi) {
          std::ostringstream s;
          s << kFieldNames[x.f] << ": got " << v << ", expected " << x.lo;
          if (x.hi != x.lo) s << ".." << x.hi;
          mismatch(x.tags, s.str());
          prev |= x.tags;
        }
      }
      if (r.f.size() != e.f.size() && prev == 0 && !(n < r.f.size() && r.f[n].first != (n < e.f.size() ? e.f[n].f : -1) && n < e.f.size()))
        mismatch(e.optags, "number of observed facts " + std::to_string(r.f.size()) + ", expected " + std::to_string(e.f.size()) + " (" + describe(r) + ")");
    }
    auto got = w->drain();
    auto want = e.events;
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    if (!(got == want)) mismatch(T(14) | (m->s[op.slot].taint & T(26)), "callbacks invoked:" + evs(got) + "; expected:" + evs(want));
  }

  void check_obs(int i, int mask, uint64_t optags) {
    MCache& c = m->s[i];
    Obs o;
    w->observe(i, mask, o);
    if (!o.alive && !c.alive) return;
    if (o.alive != c.alive) { mismatch(optags, "slot liveness"); return; }
    optags |= c.taint;
    uint64_t before = out.offtarget;
    std::string at = "cache " + std::to_string(i) + ": ";
    KV want;
    for (auto& x : c.order) want.emplace_back(x.k, x.v);
    if (o.truncated) mismatch(T(10) | T(3) | T(21) | T(5) | optags, at + "iteration visits more entries than size()");
    if (o.size != long(want.size())) mismatch(T(5) | optags, at + "size " + std::to_string(o.size) + ", expected " + std::to_string(want.size()));
    long mcap = long(std::min<unsigned long>(c.cap, 1ul << 62));
    if (o.cap != mcap) mismatch(T(2) | T(5) | optags, at + "capacity " + std::to_string(o.cap) + ", expected " + std::to_string(mcap));
    if (o.size > o.cap) mismatch(T(2), at + "holds more than its capacity");
    if (mask & OB_SIZES) {
      if (o.empty != (o.size == 0) || o.full != (o.size == o.cap)) mismatch(T(5), at + "is_empty/is_full");
      if (c.cap < (1ul << 62) && o.space != o.cap - o.size) mismatch(T(5), at + "space_left " + std::to_string(o.space));
    }
    bool fwd_ok = true;
    if (mask & OB_FWD) {
      fwd_ok = o.fwd == want;
      if (!fwd_ok) {
        KV a = o.fwd, b = want;
        std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        auto ks = [](const KV& v) { std::vector<long> k; for (auto& x : v) k.push_back(x.first); return k; };
        uint64_t tg = optags;
        if (long(o.fwd.size()) > o.cap) tg |= T(2);
        if (long(o.fwd.size()) != o.size) tg |= T(5);
        const char* what = "contents differ";
        if (ks(a) == ks(b)) {
          if (a == b) { tg |= T(3); what = "order differs"; }
          else { tg |= T(1) | T(10); what = "values differ"; }
        } else tg |= T(1);
        mismatch(tg, at + what + ": " + kvs(o.fwd) + ", expected " + kvs(want));
      }
    }
    const KV& ref = (mask & OB_FWD) ? o.fwd : want;
    KV sorted = ref;
    std::sort(sorted.begin(), sorted.end());
    uint64_t it = T(10) | (fwd_ok ? optags : 0);
    if ((mask & OB_CFWD) && o.cfwd != ref) mismatch(it | T(3), at + "const ordered iteration " + kvs(o.cfwd) + ", expected " + kvs(ref));
    if ((mask & OB_BWD) && o.bwd != ref) mismatch(it | T(3), at + "backward iteration (reversed) " + kvs(o.bwd) + ", expected " + kvs(ref));
    if ((mask & OB_UNORD) && o.unord != sorted) mismatch(it | T(5), at + "unordered iteration " + kvs(o.unord) + ", expected " + kvs(sorted));
    if ((mask & OB_CUNORD) && o.cunord != sorted) mismatch(it | T(5), at + "const unordered iteration " + kvs(o.cunord) + ", expected " + kvs(sorted));
    if ((mask & OB_ENDS) && o.has_ends) {
      if (want.empty()) {
        if (o.front_exc != EX_EMPTY || o.back_exc != EX_EMPTY) mismatch(T(3), at + "front()/back() of an empty cache do not throw EmptyCache");
      } else if (o.front_exc || o.back_exc || o.front != want.back().first || o.back != want.front().first) {
        mismatch(T(3), at + "front() " + std::to_string(o.front) + " back() " + std::to_string(o.back) + ", expected " +
                           std::to_string(want.back().first) + " and " + std::to_string(want.front().first));
      }
    }
    if (uint64_t(out.offtarget) != before) forget_handles(i);
  }

  void check_pools(uint64_t also = 0) {
    for (int i = 0; i < NPOOL; ++i) {
      StatObs s = w->stat(i);
      const MStats& x = m->stats[m->pool[i]];
      std::string at = "statistics object " + std::to_string(i) + ": ";
      if (s.total != x.total || s.hits != x.hits || s.misses != x.total - x.hits) {
        std::ostringstream o;
        o << at << "accesses/hits/misses " << s.total << '/' << s.hits << '/' << s.misses << ", expected " << x.total << '/' << x.hits << '/' << x.total - x.hits;
        mismatch(T(12) | T(13) | also, o.str());
      }
      if (x.total > 0) {
        double hr = double(x.hits) / double(x.total);
        if (std::fabs(s.hr - hr) > 1e-9 || std::fabs(s.mr - (1 - hr)) > 1e-9) mismatch(T(12), at + "rates");
      }
      if (s.nkeys != x.keys.size()) mismatch(T(13) | also, at + "monitored keys " + std::to_string(s.nkeys) + ", expected " + std::to_string(x.keys.size()));
      if (!cfg.eqmode) {
        for (auto& k : x.keys) {
          long h = -1, ms = -1;
          if (!w->stat_key(i, k.first, h, ms)) mismatch(T(13), at + "key " + std::to_string(k.first) + " is not monitored");
          else if (h != k.second.first || ms != k.second.second) {
            std::ostringstream o;
            o << at << "key " << k.first << " hits/misses " << h << '/' << ms << ", expected " << k.second.first << '/' << k.second.second;
            mismatch(T(12) | T(13), o.str());
          }
        }
      }
    }
  }
};

// ------------------------------------------------------------------------ E2
class TwinRun : public Base {
 public:
  using Base::Base;

  static bool skip_field(int f, bool counters) {
    switch (f) {
      case F_KCOPY: case F_VCOPY: case F_NHASH: case F_NEQ: case F_WORK: case F_NEXPENSIVE: case F_MOVED: case F_HFN: case F_EFN: return !counters;
      default: return false;
    }
  }
  void same_res(const Res& a, const Res& b, const std::string& what, bool counters, bool order_of_exc = true) {
    auto fa = a.f, fb = b.f;
    auto drop = [&](std::vector<std::pair<int, long>>& f) {
      f.erase(std::remove_if(f.begin(), f.end(), [&](auto& x) { return skip_field(x.first, counters); }), f.end());
    };
    drop(fa); drop(fb);
    auto norm = [](int e) { return e == EX_KEYEXPIRED ? int(EX_KEYNOTFOUND) : e; };   // either is allowed for an expired key
    if (norm(a.exc) != norm(b.exc) || fa != fb) {
      Res x = a, y = b;
      x.f = fa; y.f = fb;
      fail(what + ": results differ: {" + describe(x) + "} against {" + describe(y) + "}");
    }
  }
  void same_events(IWorld& a, IWorld& b, const std::string& what) {
    auto x = a.drain(), y = b.drain();
    std::sort(x.begin(), x.end());
    std::sort(y.begin(), y.end());
    if (!(x == y)) fail(what + ": callbacks differ:" + evs(x) + " against" + evs(y));
  }
  void same_obs(IWorld& a, int sa, IWorld& b, int sb, const std::string& what, int mask = OB_ALL, bool caps = true) {
    Obs x, y;
    a.observe(sa, mask, x);
    b.observe(sb, mask, y);
    if (x.alive != y.alive) fail(what + ": liveness");
    if (!x.alive) return;
    auto chk = [&](const KV& p, const KV& q, const char* n) { if (p != q) fail(what + ": " + n + " differs: " + kvs(p) + " against " + kvs(q)); };
    chk(x.fwd, y.fwd, "ordered contents");
    chk(x.cfwd, y.cfwd, "const ordered contents");
    chk(x.bwd, y.bwd, "backward contents");
    chk(x.unord, y.unord, "unordered contents");
    chk(x.cunord, y.cunord, "const unordered contents");
    if (x.size != y.size || x.empty != y.empty || (caps && (x.cap != y.cap || x.space != y.space || x.full != y.full)) || x.truncated != y.truncated) {
      std::ostringstream s;
      s << what << ": size/capacity " << x.size << '/' << x.cap << " against " << y.size << '/' << y.cap;
      fail(s.str());
    }
    if (x.has_ends && y.has_ends && (x.front != y.front || x.back != y.back || x.front_exc != y.front_exc || x.back_exc != y.back_exc)) fail(what + ": front()/back() differ");
  }
  void same_pool(IWorld& a, IWorld& b, const Model& m, const std::string& what, bool per_key = true) {
    for (int i = 0; i < NPOOL; ++i) {
      StatObs x = a.stat(i), y = b.stat(i);
      if (x.total != y.total || x.hits != y.hits || x.misses != y.misses || x.nkeys != y.nkeys) {
        std::ostringstream s;
        s << what << ": statistics object " << i << " differs: " << x.total << '/' << x.hits << " against " << y.total << '/' << y.hits;
        fail(s.str());
      }
      if (!cfg.eqmode && per_key)
        for (auto& k : m.stats[m.pool[i]].keys) {
          long h1 = -1, m1 = -1, h2 = -1, m2 = -1;
          bool p = a.stat_key(i, k.first, h1, m1), q = b.stat_key(i, k.first, h2, m2);
          if (p != q || h1 != h2 || m1 != m2) fail(what + ": statistics of key " + std::to_string(k.first) + " differ");
        }
    }
  }

  // ---- same history on two kinds of world (C17, C20, C25)
  void lockstep(int wa, int wb) {
    reset_globals(cfg);
    auto a = make(wa), b = make(wb);
    WorldInfo info = a->info();
    Model m(info, cfg);
    int kind = profile_kind;
    bool counters = kind == Profile::OPT_TWIN, exact_seen = false;
    auto one = [&](ROp op) {
      if (op.kind == OP_ADVANCE && kind == Profile::TIMED_TWIN) {
        for (auto& c : m.s) if (c.alive) for (auto& e : c.order) {   // nothing may expire
          int64_t last = c.ttl > (int64_t(1) << 60) ? g_now_ns + (int64_t(1) << 40) : m.boundary(c, e, 0);
          op.t = std::max<int64_t>(0, std::min(op.t, last - g_now_ns));
        }
      }
      if (kind == Profile::TIMED_TWIN && (op.kind == OP_COMPARE || op.kind == OP_CLEAR_EXPIRED || op.kind == OP_FRONTBACK ||
          (op.kind == OP_EXPQ && (op.form == EQ_ALL || op.form == EQ_KEY || op.form == EQ_IT)))) return;
      if (kind == Profile::KEY_TWIN && op.kind == OP_COMPARE && op.slot != op.slot2 && (cfg.eqmode || cfg.spell || m.s[op.slot].fn != m.s[op.slot2].fn)) return;
      begin(op);
      clock(op);
      Res x = run(*a, op), y = run(*b, op);
      Expect e;
      m.step(op, x, e);
      if (kind == Profile::TIMED_TWIN && op.kind == OP_H_VALID) {   // only the timed one reports expiry
        x.f.erase(std::remove_if(x.f.begin(), x.f.end(), [](auto& f) { return f.first == F_EXPIRED; }), x.f.end());
      }
      if (op.kind == OP_CREATE && op.flag == CF_RANGE) { m.s[op.slot].cap = static_cast<unsigned long>(std::max(0L, x.get(F_CAP))); }
      if (kind == Profile::KEY_TWIN) {
        if (op.kind == OP_FN) {
          if (x.get(F_HFN) != m.s[op.slot].fn || x.get(F_EFN) != m.s[op.slot].fn)
            fail("hash_function()/key_equal() state " + std::to_string(x.get(F_HFN)) + '/' + std::to_string(x.get(F_EFN)) + ", expected " + std::to_string(m.s[op.slot].fn));
        }
      }
      // where spellings are keys of their own, == of the key still sees one key: its counts then differ
      for (auto& c : m.s) if (kind == Profile::KEY_TWIN && c.alive && c.fn == 0) exact_seen = true;
      if (!exact_seen || op.kind != OP_STAT) same_res(x, y, "twins", counters);
      same_events(*a, *b, "twins");
      if (cfg.obs == 2 || (cfg.obs && out.steps % 4 == 0)) for (int i = 0; i < NSLOTS; ++i) same_obs(*a, i, *b, i, "cache " + std::to_string(i), cfg.obsmask | OB_SIZES);
      if (cfg.obs) same_pool(*a, *b, m, "twins", !exact_seen);
    };
    one(m.initial());
    for (auto& r : sc.ops) one(m.resolve(r));
    where = "final observation";
    for (int i = 0; i < NSLOTS; ++i) {
      same_obs(*a, i, *b, i, "cache " + std::to_string(i));
      if (kind == Profile::KEY_TWIN && m.s[i].alive) {
        ROp o; o.kind = OP_FN; o.slot = i;
        Res x = run(*a, o);
        if (x.get(F_HFN) != m.s[i].fn || x.get(F_EFN) != m.s[i].fn) fail("hash_function()/key_equal() state differs at the end");
      }
    }
    same_pool(*a, *b, m, "twins", !exact_seen);
    out.feat = m.feat;
  }

  // ---- bulk against element-wise (C06)
  void bulk() {
    reset_globals(cfg);
    auto a = make(cfg.world), b = make(cfg.world);
    Model m(a->info(), cfg);
    m.unordered_ok = true;
    auto one = [&](const ROp& op) {
      begin(op);
      clock(op);
      if (op.kind != OP_BULK && op.kind != OP_ASSIGN && !(op.kind == OP_CREATE && (op.flag == CF_RANGE || op.flag == CF_CAP_RANGE))) {
        Res x = run(*a, op), y = run(*b, op);
        Expect e;
        m.step(op, x, e);
        same_res(x, y, "same operation on both", true);
        return;
      }
      // element by element on b
      std::vector<std::pair<long, long>> items = op.items;
      if (op.kind == OP_BULK && op.form == RS_OTHER_ORDERED) {
        Obs o;
        b->observe(op.slot2, OB_FWD, o);
        items = o.fwd;
      }
      Res x = run(*a, op);
      if (op.kind == OP_BULK && (op.form == RS_OTHER_UNORD || op.form == RS_OTHER_CACHE)) {
        items.clear();
        for (size_t i = 0; i + 1 < x.f.size() && x.f[i].first == F_KEY; i += 2) items.emplace_back(x.f[i].second, x.f[i + 1].second);
      }
      Expect e;
      m.step(op, x, e);
      for (auto& f : e.f) {   // capacity rules and the state of the source
        if (f.f != F_CAP && f.f != F_ARGS) continue;
        long v = x.get(f.f, LONG_MIN);
        if (x.exc == EX_NONE && (v < f.lo || v > f.hi)) fail(std::string(kFieldNames[f.f]) + ": got " + std::to_string(v) + ", expected at least " + std::to_string(f.lo));
      }
      if (x.exc != EX_NONE) fail(std::string("bulk operation threw ") + kExcNames[x.exc]);
      if (op.kind == OP_ASSIGN) {
        Obs o;
        b->observe(op.slot, 0, o);
        ROp c; c.kind = OP_CLEAR; c.slot = op.slot;
        run(*b, c);
        if (o.cap < long(items.size())) { c.kind = OP_CAPACITY; c.n = long(items.size()); run(*b, c); }
      } else if (op.kind == OP_CREATE) {
        ROp c = op;
        c.flag = CF_CAP; c.items.clear(); c.spells.clear();
        c.n = op.flag == CF_CAP_RANGE ? op.n : x.get(F_CAP, 0);
        run(*b, c);
        Obs o; a->observe(op.slot, 0, o);
        m.s[op.slot].cap = static_cast<unsigned long>(o.cap);
      }
      for (size_t i = 0; i < items.size(); ++i) {
        ROp c; c.kind = OP_INSERT; c.slot = op.slot; c.form = IF_INSERT; c.key = items[i].first; c.val = items[i].second;
        c.spell = i < op.spells.size() ? op.spells[i] : 0;
        run(*b, c);
      }
      if (cfg.obs) for (int i = 0; i < NSLOTS; ++i) same_obs(*a, i, *b, i, "bulk against element-wise, cache " + std::to_string(i), cfg.obsmask | OB_SIZES);
      else same_obs(*a, op.slot, *b, op.slot, "bulk against element-wise", OB_FWD | OB_SIZES);
      same_events(*a, *b, "bulk against element-wise");
    };
    one(m.initial());
    for (auto& r : sc.ops) one(m.resolve(r));
    where = "final observation";
    for (int i = 0; i < NSLOTS; ++i) same_obs(*a, i, *b, i, "cache " + std::to_string(i));
    out.feat = m.feat;
  }

  // ---- copies, moves and swaps against independently built twins (C07, C08)
  // World x holds everything; y and z each hold one replica in slot 0.
  struct Side {
    std::unique_ptr<IWorld> w; std::unique_ptr<Model> m; int xslot = 0; bool dead = false; int hoff = 0;
  };
  Res on_x(IWorld& x, Side& s, ROp op) {
    op.slot = s.xslot;
    if (op.kind >= OP_H_TAKE && op.kind <= OP_H_COPY) { op.h += s.hoff; op.h2 += s.hoff; }
    return run(x, op);
  }
  static bool single(int k) {
    switch (k) {
      case OP_CREATE: case OP_COPY_CTOR: case OP_COPY_ASSIGN: case OP_MOVE_CTOR: case OP_MOVE_ASSIGN: case OP_SWAP: case OP_DESTROY: case OP_COMPARE: return false;
      default: return true;
    }
  }

  void copymove(bool move) {
    reset_globals(cfg);
    auto x = make(cfg.world);
    Side a, d;    // side 0: the source; side 1: the copy (C07) or the other partner (C08)
    a.w = make(cfg.world); d.w = make(cfg.world);
    WorldInfo info = x->info();
    a.m = std::make_unique<Model>(info, cfg); d.m = std::make_unique<Model>(info, cfg);
    a.m->nh = d.m->nh = NHANDLES / 2;
    a.xslot = 0; d.xslot = 1; d.hoff = NHANDLES / 2;
    bool detached = false;
    std::array<StatObs, NPOOL> base{};
    std::vector<std::array<std::map<long, std::pair<long, long>>, 1>> dummy;
    std::array<std::map<long, std::pair<long, long>>, NPOOL> kbase;

    auto counters_ok = [&](const ROp& op) { return op.kind == OP_LOOKUP || op.kind == OP_INSERT || op.kind == OP_ERASE_KEY || op.kind == OP_ERASE_IT || op.kind == OP_H_ERASE; };
    auto both = [&](Side& s, const ROp& op, const std::string& what) {
      Res r = on_x(*x, s, op), q = run(*s.w, op);
      Expect e;
      s.m->step(op, q, e);
      (void)counters_ok;
      same_res(r, q, what, false);
      same_events(*x, *s.w, what);
    };
    auto obs_side = [&](Side& s, const std::string& what, int mask = OB_ALL) {
      if (!s.dead) same_obs(*x, s.xslot, *s.w, 0, what, mask);
    };

    // --- prefix
    ROp init = a.m->initial();
    begin(init);
    { Res r = run(*x, init); run(*a.w, init); Expect e; a.m->step(init, r, e); }
    int split = std::min<int>(std::max(0, cfg.split), int(sc.ops.size()));
    bool two = move && (cfg.form % 8) >= 2;     // the other partner exists beforehand
    {
      ROp o2 = d.m->initial();
      if (move) o2.n = long(1 + (o2.n + 3 * cfg.form) % 7);
      if (move && info.timed) o2.t = o2.t / 3 + 1000000;
      if (move && info.tracked && cfg.fn) o2.fnstate = cfg.obsmask & 2 ? cfg.fn + 8 : 0;
      run(*d.w, o2);
      Expect e; Res r; d.m->step(o2, r, e);
      if (two) { ROp o3 = o2; o3.slot = 1; run(*x, o3); }
    }
    for (int i = 0; i < split; ++i) {
      const RawOp& raw = sc.ops[i];
      if (!single(raw.kind)) continue;
      bool other = move && two && ((raw.p[0] % 3) + 3) % 3 == 2;
      Side& s = other ? d : a;
      if (other && raw.kind == OP_STAT) continue;
      ROp op = s.m->resolve(raw);
      begin(op);
      clock(op);
      if (op.kind == OP_ADVANCE || op.kind == OP_SYSJUMP) continue;
      if (other && op.kind == OP_CB) op.n += 1000;
      both(s, op, "prefix");
      if (!move) { run(*d.w, op); Expect e; Res r; Res dummyres = r; // the replica of the copy sees the same prefix
        d.m->step(op, r, e); d.w->drain(); }
    }
    where = "before the copy/move";
    obs_side(a, "source before", cfg.obs ? int(OB_ALL) : int(OB_SIZES));
    if (two) obs_side(d, "partner before", cfg.obs ? int(OB_ALL) : int(OB_SIZES));
    if (a.m->s[0].order.size() >= 2) ++a.m->feat[FE_BULK];

    // --- the event
    ROp ev;
    int f = ((cfg.form % 8) + 8) % 8;
    auto detach_twin = [&](Side& s) {
      ROp o; o.kind = OP_STAT; o.form = SF_STOP; run(*s.w, o);
      Res r; Expect e; s.m->step(o, r, e);
      o = ROp(); o.kind = OP_CB; o.form = CB_CLEAR_ALL; run(*s.w, o);
      Expect e2; s.m->step(o, r, e2);
    };
    if (!move) {
      if (f & 4) {   // self-assignment first
        ev.kind = OP_COPY_ASSIGN; ev.slot = ev.slot2 = 0; ev.flag = f & 1;
        begin(ev);
        Res r = run(*x, ev);
        if (r.exc || !r.get(F_SELF) || !r.get(F_SAMEPTR) || !r.get(F_NCB)) fail("self-assignment: " + describe(r));
        for (auto& h : a.m->h) h = MHandle();   // the world drops them
        obs_side(a, "after self-assignment");
      }
      ev = ROp();
      ev.slot = 1; ev.slot2 = 0; ev.flag = f & 1;
      if (f & 2) {
        ev.kind = OP_COPY_ASSIGN;
        // what the receiver was before must not matter
        static const int caps[] = {5, 0, 1, 5, 2, 40, 128, 5};
        ROp o; o.kind = OP_CREATE; o.slot = 1; o.flag = CF_CAP; o.n = caps[(cfg.cap + cfg.ttl) & 7]; o.t = 3000000; o.fnstate = cfg.fn && (cfg.obsmask & 1) ? cfg.fn + 4 : 0;
        run(*x, o);
        int fill = cfg.obsmask & 2 ? 4 : cfg.nkeys % 3 ? 0 : 45;
        for (int i = 0; i < fill; ++i) { ROp q; q.kind = OP_INSERT; q.slot = 1; q.key = i * 2; q.val = 777000 + i; run(*x, q); }
        ROp q; q.kind = OP_LOOKUP; q.slot = 1; q.key = 2; run(*x, q);
        if (cfg.obsmask & 4) { ROp t; t.kind = OP_STAT; t.slot = 1; t.form = SF_ATTACH_LV; t.n = cfg.nkeys % NPOOL; run(*x, t); }
        if (cfg.obsmask & 8) for (int i = 0; i < 3; ++i) { ROp t; t.kind = OP_CB; t.slot = 1; t.form = i; t.n = 900000 + i; run(*x, t); }
        x->drain();
      } else ev.kind = OP_COPY_CTOR;
      begin(ev);
      Res r = run(*x, ev);
      if (r.exc) fail(std::string("copying threw ") + kExcNames[r.exc]);
      if (r.get(F_SAMEPTR) != 1) fail("the copy monitors another statistics object");
      if (r.get(F_NCB) != 1) fail("the copy carries other callbacks");
      if (!x->drain().empty()) fail("copying invoked callbacks");
      obs_side(a, "source after copying");
      obs_side(d, "copy");
      ++a.m->feat[FE_COPY];
      // equal (unless == of keys is finer than the key equality)
      if (!cfg.eqmode) {
        ROp c; c.kind = OP_COMPARE; c.slot = 0; c.slot2 = 1;
        Res q = run(*x, c);
        if (q.exc || q.get(F_EQ) != 1 || q.get(F_NE) != 0) fail("source and copy do not compare equal");
      }
      for (int i = 0; i < NPOOL; ++i) {
        base[i] = a.w->stat(i);
        StatObs s = x->stat(i);
        if (s.total != base[i].total || s.hits != base[i].hits) fail("copying changed statistics");
        if (!cfg.eqmode) for (auto& k : a.m->stats[a.m->pool[i]].keys) { long h = 0, q = 0; a.w->stat_key(i, k.first, h, q); kbase[i][k.first] = {h, q}; }
      }
    } else {
      ev.slot = 1; ev.slot2 = 0;
      ev.form = 0;
      detached = true;
      if (f < 2) { ev.kind = OP_MOVE_CTOR; ev.form = sub3(cfg.obsmask); }
      else if (f < 4) { ev.kind = OP_MOVE_ASSIGN; ev.form = sub3(cfg.obsmask); }
      else { ev.kind = OP_SWAP; ev.form = f % 3; }
      begin(ev);
      detach_twin(a); detach_twin(d);
      Res r = run(*x, ev);
      x->drain();
      if (r.exc) fail(std::string("move/swap threw ") + kExcNames[r.exc]);
      if (ev.kind != OP_SWAP && r.get(F_MOVEDFROM, 1) != 1) fail("the moved-from cache is not usable");
      if (ev.kind == OP_SWAP) { ++a.m->feat[FE_SWAP]; std::swap(a.xslot, d.xslot); }
      else { ++a.m->feat[FE_MOVE]; a.xslot = 1; d.dead = true; }
      for (auto* s : {&a, &d}) for (auto& h : s->m->h) h = MHandle();
      obs_side(a, ev.kind == OP_SWAP ? "swapped (1)" : "moved-to cache");
      obs_side(d, "swapped (2)");
    }
    // handles into the copy's slot do not exist; those of the source survive
    if (!move) for (auto& h : d.m->h) h = MHandle();

    // --- suffix
    for (size_t i = size_t(split); i < sc.ops.size(); ++i) {
      const RawOp& raw = sc.ops[i];
      bool second = ((raw.p[0] % 2) + 2) % 2;
      if (raw.kind == OP_DESTROY) {
        Side& s = second ? d : a;
        Side& o = second ? a : d;
        if (s.dead || o.dead) continue;
        ROp op; op.kind = OP_DESTROY; op.slot = s.xslot;
        begin(op);
        run(*x, op);
        s.dead = true;
        ++a.m->feat[FE_SHRINK];
        continue;
      }
      if (!single(raw.kind) || raw.kind == OP_STAT) continue;
      if (a.dead && d.dead) break;
      Side& s = a.dead ? d : d.dead ? a : second ? d : a;
      ROp op = s.m->resolve(raw);
      begin(op);
      clock(op);
      if (op.kind == OP_ADVANCE || op.kind == OP_SYSJUMP) continue;
      both(s, op, &s == &a ? "source side" : "other side");
      if (cfg.obs == 2) {
        obs_side(a, "source side", cfg.obsmask | OB_SIZES);
        obs_side(d, "other side", cfg.obsmask | OB_SIZES);
      }
      if (!move && cfg.obs) pools(*x, *a.w, *d.w, base, kbase);
    }
    where = "final observation";
    obs_side(a, "source side");
    obs_side(d, "other side");
    if (!move) pools(*x, *a.w, *d.w, base, kbase);
    (void)detached;
    out.feat = a.m->feat;
    for (int i = 0; i < FE_N; ++i) if (i != FE_COPY && i != FE_MOVE && i != FE_SWAP) out.feat[i] += d.m->feat[i];
  }
  static int sub3(int p) { static const int f[] = {0, 1, 3}; return f[((p % 3) + 3) % 3]; }

  void pools(IWorld& x, IWorld& y, IWorld& z, const std::array<StatObs, NPOOL>& base, const std::array<std::map<long, std::pair<long, long>>, NPOOL>& kbase) {
    for (int i = 0; i < NPOOL; ++i) {
      StatObs a = x.stat(i), b = y.stat(i), c = z.stat(i);
      if (a.total != b.total + c.total - base[i].total || a.hits != b.hits + c.hits - base[i].hits) {
        std::ostringstream s;
        s << "shared statistics object " << i << ": accesses/hits " << a.total << '/' << a.hits << ", expected "
          << b.total + c.total - base[i].total << '/' << b.hits + c.hits - base[i].hits;
        fail(s.str());
      }
      for (auto& k : kbase[i]) {
        long h1 = 0, m1 = 0, h2 = 0, m2 = 0, h3 = 0, m3 = 0;
        x.stat_key(i, k.first, h1, m1); y.stat_key(i, k.first, h2, m2); z.stat_key(i, k.first, h3, m3);
        if (h1 != h2 + h3 - k.second.first || m1 != m2 + m3 - k.second.second) fail("shared statistics of key " + std::to_string(k.first));
      }
    }
  }
  int profile_kind = 0;
};

static int twin_of(int kind, int w) {
  static const int timed[] = {0, 0, 0, 0, 1, 2}, keyed[] = {0, 0, 0, 0, 0, 3}, opt[] = {6, 7, 0, 0, 8};
  return kind == Profile::TIMED_TWIN ? timed[w] : kind == Profile::KEY_TWIN ? keyed[w] : kind == Profile::OPT_TWIN ? opt[w] : w;
}

Outcome run_scenario(const Scenario& sc, int target, bool verbose) {
  Outcome out;
  int prop = atoi(sc.prop.c_str() + (sc.prop.empty() || sc.prop[0] != 'C' ? 0 : 1));
  const Profile* p = profile(prop);
  int kind = p && !sc.cfg.alt ? p->kind : Profile::MODEL;
  if (kind != Profile::WRAP && (!world_factory(sc.cfg.world) || !world_factory(twin_of(kind, sc.cfg.world)))) {
    out.skipped = true;   // it did not compile: check.py gives its verdict on that
    return out;
  }
  long allocs = g_live_allocs;
  {
    std::string hold;   // the message is moved out at the end
    try {
      switch (kind) {
        case Profile::MODEL: { ModelRun r(sc, target, verbose, out); r.go(); break; }
        case Profile::WRAP: wrap_runner()(sc, out, verbose); break;
        default: {
          TwinRun r(sc, target, verbose, out);
          r.profile_kind = kind;
          int w = sc.cfg.world;
          switch (kind) {
            case Profile::BULK_TWIN: r.bulk(); break;
            case Profile::COPY_TWIN: r.copymove(false); break;
            case Profile::MOVE_TWIN: r.copymove(true); break;
            case Profile::TIMED_TWIN: r.lockstep(w, twin_of(kind, w)); break;
            case Profile::KEY_TWIN: r.lockstep(w, twin_of(kind, w)); break;
            default: r.lockstep(w, twin_of(kind, w)); break;
          }
        }
      }
    } catch (const Stop&) {
    }
  }
  if (!out.bad && out.offtarget == 0 && kind == Profile::MODEL && (target == 21 || target == 0)) {
    if (g_live_allocs != allocs) {
      out.bad = true;
      out.msg = "leaked " + std::to_string(g_live_allocs - allocs) + " allocations";
    }
  }
  return out;
}

}  // namespace vf
