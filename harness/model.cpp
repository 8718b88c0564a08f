#include "model.hpp"
#include <algorithm>
#include <cstring>
#include <sstream>

namespace vf {

const char* const kOpNames[OP_COUNT_] = {
    "LOOKUP", "INSERT", "ERASE_KEY", "ERASE_IT", "CLEAR", "SHRINK", "CAPACITY", "BULK", "ASSIGN", "CREATE",
    "COPY_CTOR", "COPY_ASSIGN", "MOVE_CTOR", "MOVE_ASSIGN", "SWAP", "DESTROY", "COMPARE", "WALK", "FILL",
    "H_TAKE", "H_READ", "H_WRITE", "H_STEP", "H_CMP", "H_CONV", "H_ERASE", "H_VALID", "H_COPY", "ADVANCE",
    "SYSJUMP", "EXPQ", "CLEAR_EXPIRED", "STAT", "CB", "FN", "FRONTBACK", "ENDERR", "SIZEQ", "TUPLE"
};
const char* const kExcNames[] = {"none", "KeyNotFound", "KeyExpired", "InvalidIterator", "InvalidIteratorConversion",
    "UnmonitoredKey", "NotMonitoring", "EmptyCache", "Injected", "bad_alloc", "std::exception", "other"};
const char* const kFieldNames[F_NFIELDS] = {"found", "key", "value", "inserted", "iterator-is-end", "iterator-key",
    "iterator-value", "count", "erased", "source-unchanged", "source-moved-from", "key-copies", "value-copies",
    "hash-calls", "equality-calls", "size", "capacity", "space_left", "is_empty", "is_full", "equal", "not-equal",
    "accessors-agree", "walk", "exception-of-part", "hash-function-state", "key-equal-state", "is_monitoring",
    "total_accesses", "total_hits", "total_misses", "hits_for", "misses_for", "monitored-keys", "rate",
    "same-statistics-object", "moved-from-usable", "has_expired", "is_valid", "position-missing", "callbacks",
    "step", "self", "functions-entered", "expensive-insertions"};
const char* const kFeatNames[FE_N] = {"evictions", "hits", "misses", "updates", "expired_misses", "revivals", "erasures",
    "erase_misses", "clears", "copies", "moves", "swaps", "reorders", "evict_after_reorder", "monitored_accesses",
    "shared_stats_accesses", "callback_events", "bulk_ops", "bulk_with_duplicates", "handle_reads", "handle_reads_after_changes", "faults_fired",
    "fast_path_accesses", "big_caches", "equal_pairs", "unequal_pairs", "boundary_advances", "writes_through",
    "conversions", "shrinks", "cleanups_removing_some", "expiry_queries", "new_insertions", "walk_ops", "key_stat_ops",
    "resets", "aliased_args", "piecewise", "zero_capacity_inserts", "last_accessed_expired", "respelled_accesses", "end_errors", "steps", "empty_ends", "expired_during_call", "repeated_lookups", "many_monitored_keys"};

// ------------------------------------------------------------- scenario text
#define CFG_FIELDS(X) X(world) X(cap) X(ttl) X(ttlunit) X(keymode) X(valmode) X(nkeys) X(nvals) X(fn) X(eqmode) X(obs) X(obsmask) X(t0) X(spell) X(split) X(form) X(alt)

std::string Scenario::text() const {
  std::ostringstream o;
  o << "vf1 " << prop << "\ncfg";
#define X(n) o << ' ' << #n << '=' << cfg.n;
  CFG_FIELDS(X)
#undef X
  o << '\n';
  for (auto& r : ops) {
    o << "op " << kOpNames[r.kind];
    for (int i = 0; i < RawOp::NP; ++i) o << ' ' << r.p[i];
    o << '\n';
  }
  return o.str();
}

bool Scenario::parse(const std::string& s, Scenario& out) {
  std::istringstream in(s);
  std::string line;
  out = Scenario();
  bool ok = false;
  while (std::getline(in, line)) {
    std::istringstream l(line);
    std::string w;
    if (!(l >> w)) continue;
    if (w == "vf1") { l >> out.prop; ok = true; }
    else if (w == "cfg") {
      while (l >> w) {
        auto e = w.find('=');
        if (e == std::string::npos) continue;
        std::string n = w.substr(0, e);
        int v = atoi(w.c_str() + e + 1);
#define X(f) if (n == #f) out.cfg.f = v;
        CFG_FIELDS(X)
#undef X
      }
    } else if (w == "op") {
      l >> w;
      RawOp r;
      r.kind = -1;
      for (int i = 0; i < OP_COUNT_; ++i) if (w == kOpNames[i]) r.kind = i;
      if (r.kind < 0) continue;
      for (int i = 0; i < RawOp::NP; ++i) if (!(l >> r.p[i])) r.p[i] = 0;
      out.ops.push_back(r);
    }
  }
  return ok;
}

// ------------------------------------------------------------------- helpers
Model::Model(const WorldInfo& wi, const Cfg& c) : w(wi), cfg(c) {
  for (int i = 0; i < NPOOL; ++i) { stats.emplace_back(); pool[i] = i; }
}

static inline int pos_mod(int a, int n) { return n <= 0 ? 0 : int(((long)a % n + n) % n); }

int Model::alive_slot(int p) const {
  for (int i = 0; i < NSLOTS; ++i) { int j = (pos_mod(p, NSLOTS) + i) % NSLOTS; if (s[j].alive) return j; }
  return 0;
}
int Model::other_slot(int p, int notthis) const {   // alive and different, or -1
  for (int i = 0; i < NSLOTS; ++i) { int j = (pos_mod(p, NSLOTS) + i) % NSLOTS; if (j != notthis && s[j].alive) return j; }
  return -1;
}
unsigned long Model::pick_cap(int p) const {
  static const unsigned long t[] = {3, 1, 2, 4, 5, 0, 7, 8, 10, 3, 2, 16, 33, 128, 300, ~0ul};
  return t[pos_mod(p, 16)];
}
int64_t Model::pick_ttl(int i) const {
  static const int64_t t[] = {5000000, 0, 1000000, 10250000, 100000000, 60000000000LL, 2500000, 750000, 1000000000,
                              3600000000000LL * 1000000LL};
  int j = pos_mod(i, 10);
  if (w.floating) return t[j];
  static const int64_t n[] = {5, 0, 1, 17, 1000, 1000000000, 999, 2, 60000000000LL, 3600000000000LL * 1000000LL};
  if (w.tick_ns == 1 && (i / 10) % 2) return n[j];
  return t[j];
}
bool Model::expired(const MCache& c, const MEntry& e) const {
  int64_t age = g_now_ns - e.t;
  if (w.floating) return age > c.ttl;
  return age / w.tick_ns > c.ttl / w.tick_ns;
}
int64_t Model::boundary(const MCache& c, const MEntry& e, int kind) const {
  int64_t last;   // last instant at which the entry is accessible
  if (c.ttl > (int64_t(1) << 60)) return g_now_ns;
  last = w.floating ? e.t + c.ttl : e.t + (c.ttl / w.tick_ns) * w.tick_ns + (w.tick_ns - 1);
  switch (kind % 6) {
    case 0: return last;
    case 1: return last + 1;
    case 2: return last - 1;
    case 3: return e.t + c.ttl;
    case 4: return e.t + c.ttl + 1;
    default: return last + 2;
  }
}
long Model::pick_val(int p) {
  if (cfg.nvals <= 8) return pos_mod(p, cfg.nvals);
  return ++next_val;
}
int Model::pick_pos(const MCache& c, int p, bool end_ok) const {
  int n = int(c.order.size());
  if (n == 0) return -1;
  if (end_ok && pos_mod(p, 11) == 10) return -1;
  switch (pos_mod(p, 4)) {
    case 0: return 0;
    case 1: return n - 1;
    default: return pos_mod(p / 4, n);
  }
}
long Model::pick_key(const MCache& c, int p) {
  int m = pos_mod(p, 8), q = pos_mod(p / 8, 1 << 20);
  int n = int(c.order.size());
  if (m < 4 || n == 0) return q % std::max(1, cfg.nkeys);
  if (m == 4) return c.order.front().k;
  if (m == 5) return c.order.back().k;
  if (m == 6) return c.order[q % n].k;
  // an absent one, by preference one that was there
  if (!c.reason.empty()) {
    auto it = c.reason.begin();
    std::advance(it, q % c.reason.size());
    return it->first;
  }
  return q % std::max(1, cfg.nkeys);
}
bool Model::handle_alive(int i) const {
  const MHandle& x = h[i];
  if (!x.set || x.slot < 0 || !s[x.slot].alive) return false;
  return x.end || s[x.slot].find_id(x.id) >= 0;
}
void Model::evict_front(MCache& c, int why) {
  c.reason[c.order.front().k] = why;
  c.order.erase(c.order.begin());
}
enum { WHY_EVICT = 1, WHY_ERASE = 2, WHY_CLEAR = 3, WHY_EXPIRE = 4 };

int Model::put(MCache& c, long k, long v) {
  if (c.cap == 0) { ++feat[FE_ZEROCAP]; return 0; }
  int i = c.find(k);
  if (i >= 0) {
    MEntry e = c.order[i];
    bool exp = w.timed && expired(c, e);
    e.v = v;
    if (exp) { e.t = g_now_ns; e.id = next_id++; ++feat[FE_REVIVE]; } else ++feat[FE_UPDATE];
    if (i + 1 != int(c.order.size())) ++feat[FE_REORDER];
    c.order.erase(c.order.begin() + i);
    c.order.push_back(e);
    return exp;
  }
  c.order.push_back({k, v, g_now_ns, next_id++});
  c.reason.erase(k);
  ++feat[FE_INSERT];
  if (c.order.size() > c.cap) {
    if (feat[FE_REORDER]) ++feat[FE_REORDEREVICT];
    ++feat[FE_EVICT];
    evict_front(c, WHY_EVICT);
  }
  return 1;
}

ROp Model::initial() const {
  ROp o;
  o.kind = OP_CREATE; o.slot = 0; o.flag = CF_CAP;
  o.n = long(pick_cap(cfg.cap)); o.t = pick_ttl(cfg.ttl); o.flag2 = cfg.ttlunit;
  o.fnstate = cfg.fn;
  return o;
}

// ------------------------------------------------------------------- resolve
ROp Model::resolve(const RawOp& r) {
  ROp o;
  o.kind = r.kind;
  const int* p = r.p;
  o.slot = alive_slot(p[0]);
  MCache& c = s[o.slot];
  int rel = c.fn;
  auto spelling = [&](int q, long& key) {
    int sp = cfg.spell && w.tracked ? pos_mod(q, 3) : 0;
    if (rel != 0) return sp;
    if (key < kSpell) key += kSpell * sp;   // another key there
    return 0;
  };
  auto noop = [&] { o.kind = OP_SIZEQ; };
  auto arm = [&](size_t n) {   // a fault while copying or assigning n entries
    if (!p[9] || pos_mod(p[9], 3) == 0) return;
    o.fault_kind = pos_mod(p[9], 3); o.fault_at = 1 + pos_mod(p[10], 3 * int(n) + 6);
    if (o.fault_kind == 1 && !w.tracked) o.fault_kind = 2;
  };
  auto fill_items = [&](int q, int seed) {
    static const int lens[] = {2, 3, 1, 0, 4, 5, 6, 9};
    int n = lens[pos_mod(q, 8)];
    if (o.form == RS_INIT) n = std::min(n, 6);
    unsigned x = unsigned(seed) * 2654435761u + 12345u;
    for (int i = 0; i < n; ++i) {
      x = x * 1664525u + 1013904223u;
      o.items.emplace_back((x >> 10) % unsigned(std::max(1, cfg.nkeys)), pick_val(int((x >> 20) & 7)));
      o.spells.push_back(spelling(int(x >> 16) & 3, o.items.back().first));
    }
  };
  switch (r.kind) {
    case OP_LOOKUP:
      o.form = pos_mod(p[2], LF_N);
      o.key = pick_key(c, p[1]);
      o.spell = spelling(p[3], o.key);
      if (pos_mod(p[5], 6) == 5) { o.pos = c.find(o.key); if (o.pos >= 0) { o.spell = 0; ++feat[FE_ALIAS]; } }
      o.flag = (o.form == LF_FIND || o.form == LF_LOOKUP || o.form == LF_INDEX) && pos_mod(p[4], 4) == 3;
      if (o.flag) o.val = pick_val(p[6]);
      if (int q = pos_mod(p[8], 30000); q >= 29700) {
        o.rep = q - 29700;
        if (o.rep == 299 && c.cbs.empty()) o.rep = 66000;
        if (pos_mod(p[7], 3)) {
          for (auto& x : c.order) if (o.keys.size() < 12) o.keys.push_back(x.k);
          if (p[7] & 1) o.keys.push_back(pick_key(c, p[6]));
          if (p[7] & 2) o.rep *= 5;
          if (o.rep > 300 && !c.cbs.empty()) o.rep = 300;
        }
        break;
      }
      if (jump_ok && w.timed && o.form != LF_FIND && o.form != LF_CFIND && pos_mod(p[7], 12) == 11) {
        int i = c.find(o.key);
        if (i < 0 || expired(c, c.order[i]) || c.ttl > (int64_t(1) << 50)) break;
        o.t = boundary(c, c.order[i], 1) - g_now_ns;
        if (o.t > 0) o.jump_at = 1 + pos_mod(p[8], 3); else o.t = 0;
      }
      break;
    case OP_INSERT: {
      o.form = pos_mod(p[2], IF_N);
      o.key = pick_key(c, p[1]);
      o.val = pick_val(p[4]);
      o.spell = spelling(p[3], o.key);
      bool needk = o.form == IF_INSERT_ALIASKEY || o.form == IF_INSERT_ALIASBOTH || o.form == IF_EMPLACE_ALIASBOTH;
      bool needv = o.form == IF_INSERT_ALIASVAL || o.form == IF_INSERT_ALIASBOTH || o.form == IF_EMPLACE_ALIASVAL || o.form == IF_EMPLACE_ALIASBOTH;
      if ((needk || needv) && c.order.empty()) { o.form = IF_INSERT; break; }
      if (needk) { o.pos = pick_pos(c, p[5], false); o.key = c.order[o.pos].k; o.spell = 0; }
      if (needv) { o.pos2 = pick_pos(c, p[6], false); o.val = c.order[o.pos2].v; }
      if (needk || needv) ++feat[FE_ALIAS];
      if (o.form == IF_EMPLACE_PIECE_DEFAULT) o.val = 0;
      if (o.form == IF_EMPLACE_RAW) { o.spell = 0; o.key %= kSpell; }
      if (o.form == IF_EMPLACE_PIECE || o.form == IF_EMPLACE_PIECE_DEFAULT || o.form == IF_EMPLACE_PIECE_RR) ++feat[FE_PIECE];
      if (p[7] && pos_mod(p[7], 3) != 0) { o.fault_kind = pos_mod(p[7], 3); o.fault_at = 1 + pos_mod(p[8], 10); if (o.fault_kind == 1 && !w.tracked) o.fault_kind = 2; }
      break;
    }
    case OP_ERASE_KEY:
      o.key = pick_key(c, p[1]);
      o.spell = spelling(p[3], o.key);
      if (pos_mod(p[5], 5) == 4) { o.pos = c.find(o.key); if (o.pos >= 0) { ++feat[FE_ALIAS]; o.spell = 0; } }
      break;
    case OP_ERASE_IT:
      o.it = pos_mod(p[1], 4);
      o.pos = pick_pos(c, p[2], true);
      break;
    case OP_CLEAR: case OP_CLEAR_EXPIRED: case OP_SIZEQ: case OP_FN: break;
    case OP_SHRINK:
      o.n = pos_mod(p[1], int(c.order.size()) + 3);
      break;
    case OP_CAPACITY:
      o.n = long(pick_cap(p[1]));
      if (pos_mod(p[2], 3) == 0) o.n = long(std::min<unsigned long>(pos_mod(p[1], int(c.order.size()) + 2), 400));
      break;
    case OP_BULK: case OP_ASSIGN: {
      o.form = pos_mod(p[1], RS_N);
      if (o.kind == OP_ASSIGN) {
        static const int f[] = {RS_LVEC, RS_CVEC, RS_RVEC, RS_INIT, RS_LLIST, RS_RLIST, RS_LMAP, RS_LCP, RS_LCONV};
        o.form = f[pos_mod(p[1], 9)];
      }
      bool unord = o.form == RS_OTHER_UNORD || o.form == RS_OTHER_CACHE;
      if (unord && !unordered_ok) { o.form = RS_LVEC; unord = false; }
      if (unord) {
        o.slot2 = pos_mod(p[6], 4) ? other_slot(p[4], o.slot) : o.slot;
        if (o.slot2 < 0) o.slot2 = o.slot;
        if (cfg.spell && w.tracked && (c.fn == 0) != (s[o.slot2].fn == 0)) o.slot2 = o.slot;
        o.flag = pos_mod(p[5], 2);
        for (auto& e : s[o.slot2].order) {
          o.items.emplace_back(e.k, e.v);
          if (w.timed && o.slot2 == o.slot && expired(c, e)) { o.items.resize(500); break; }   // inserting may replace the entry under the iterator
        }
        if (o.items.size() > 400) noop();
        break;
      }
      if (o.form == RS_OTHER_ORDERED) {
        o.slot2 = other_slot(p[4], o.slot);
        if (o.slot2 >= 0 && cfg.spell && w.tracked && (c.fn == 0) != (s[o.slot2].fn == 0)) o.slot2 = -1;   // spelled keys mean something else there
        if (o.slot2 < 0) { o.form = RS_LVEC; o.slot2 = 0; }
      }
      if (o.form == RS_OTHER_ORDERED) {
        o.flag = pos_mod(p[5], 2);
        for (auto& e : s[o.slot2].order) o.items.emplace_back(e.k, e.v);
        if (o.items.size() > 400) { noop(); break; }
      } else {
        fill_items(p[2], p[3]);
        if (o.kind == OP_BULK && p[7] && pos_mod(p[7], 3) != 0) {
          o.fault_kind = pos_mod(p[7], 3); o.fault_at = 1 + pos_mod(p[8], 30);
          if (o.fault_kind == 1 && !w.tracked) o.fault_kind = 2;
        }
        if (o.kind == OP_ASSIGN) arm(o.items.size());
      }
      break;
    }
    case OP_CREATE: {
      o.slot = pos_mod(p[0], NSLOTS);
      static const int f[] = {CF_CAP, CF_CAP_RANGE, CF_RANGE, CF_DEFAULT, CF_CAP_RANGE, CF_RANGE};
      o.flag = f[pos_mod(p[1], 6)];
      o.n = o.flag == CF_DEFAULT ? 128 : long(pick_cap(p[2]));
      o.form = pos_mod(p[3], RS_N);
      if (o.form == RS_OTHER_ORDERED || o.form >= RS_OTHER_UNORD) o.form = RS_ITVEC;
      if (o.form == RS_INPUT && o.flag == CF_RANGE) o.form = RS_ITVEC;
      o.t = pos_mod(p[6], 3) ? pick_ttl(p[6]) : pick_ttl(cfg.ttl);
      o.flag2 = pos_mod(p[7], 7);
      o.fnstate = w.tracked && cfg.fn ? (pos_mod(p[8], 2) ? cfg.fn : 4 + 4 * pos_mod(p[8], 50) + (cfg.fn & 3)) : 0;
      if (pos_mod(p[8], 5) == 4) o.fnstate = 0;   // the exact relation: a cache assigned to or swapped with must take over the other one's
      if (o.flag == CF_CAP_RANGE || o.flag == CF_RANGE) {
        rel = o.fnstate;
        fill_items(p[4], p[5]);
        arm(o.items.size());
      }
      break;
    }
    case OP_COPY_CTOR: case OP_MOVE_CTOR:
      o.slot2 = alive_slot(p[1]);
      o.slot = pos_mod(p[0], NSLOTS);
      if (o.slot == o.slot2) o.slot = (o.slot + 1) % NSLOTS;
      o.flag = pos_mod(p[2], 2);
      o.form = pos_mod(p[3], 4);
      if (o.kind == OP_COPY_CTOR) arm(s[o.slot2].order.size());
      break;
    case OP_COPY_ASSIGN: case OP_MOVE_ASSIGN:
      o.slot2 = alive_slot(p[1]);
      o.slot = pos_mod(p[0], NSLOTS);
      o.flag = pos_mod(p[2], 2);
      o.form = pos_mod(p[3], 4);
      if (!s[o.slot].alive) { o.kind = r.kind == OP_COPY_ASSIGN ? OP_COPY_CTOR : OP_MOVE_CTOR; }
      else if (r.kind == OP_MOVE_ASSIGN && o.slot == o.slot2) {
        int q = other_slot(p[0], o.slot2);
        if (q < 0) { o.kind = OP_MOVE_CTOR; o.slot = (o.slot + 1) % NSLOTS; } else o.slot = q;
      }
      if (o.kind == OP_COPY_CTOR || (o.kind == OP_COPY_ASSIGN && o.slot != o.slot2)) arm(s[o.slot2].order.size());
      break;
    case OP_SWAP:
      o.slot2 = alive_slot(p[1]);
      o.form = pos_mod(p[2], 3);
      break;
    case OP_DESTROY: {
      if (other_slot(0, o.slot) < 0) noop();
      break;
    }
    case OP_COMPARE: o.slot2 = alive_slot(p[1]); break;
    case OP_WALK:
      o.it = pos_mod(p[1], 4);
      o.pos = pick_pos(c, p[2], false);
      if (o.pos < 0) { noop(); break; }
      o.flag = pos_mod(p[3], 2) && (o.it == IK_U || o.it == IK_O);
      o.n = pos_mod(p[4], 4);
      o.val = o.flag ? pick_val(p[5]) : 0;
      o.flag2 = w.timed && expired(c, c.order[o.pos]);
      break;
    case OP_FILL: {
      static const int ns[] = {20, 60, 150, 300, 700, 1500};
      o.n = ns[pos_mod(p[1], (c.fn & 3) ? 2 : 6)];   // colliding keys make every operation linear
      o.key = 10000 + 1500 * pos_mod(p[2], 6);
      o.val = 1 + pos_mod(p[3], 100);
      o.form = pos_mod(p[4], 2);
      break;
    }
    case OP_H_TAKE: {
      o.h = pos_mod(p[1], nh);
      o.it = pos_mod(p[2], IK_N);
      o.pos = pick_pos(c, p[3], o.it < 4);
      o.form = pos_mod(p[4], 12);
      if (o.pos < 0 && o.it >= 4) noop();
      break;
    }
    case OP_H_READ: case OP_H_WRITE: case OP_H_STEP: case OP_H_CMP: case OP_H_CONV: case OP_H_ERASE: case OP_H_VALID: case OP_H_COPY: {
      int i = -1;
      auto want = [&](int j) {
        if (!handle_alive(j)) return false;
        int k = h[j].kind; bool end = h[j].end;
        switch (r.kind) {
          case OP_H_WRITE: return !end && (k == IK_U || k == IK_O || k == IK_REF);
          case OP_H_STEP: return (k == IK_O || k == IK_OC) && !s[h[j].slot].order.empty();
          case OP_H_CMP: case OP_H_VALID: case OP_H_ERASE: return k < 4;
          case OP_H_CONV: return k == IK_U || k == IK_UC || k == IK_O;
          default: return true;
        }
      };
      for (int d = 0; d < nh && i < 0; ++d) { int j = (pos_mod(p[1], nh) + d) % nh; if (want(j)) i = j; }
      if (i < 0) {   // take one instead
        o.kind = OP_H_TAKE;
        o.h = pos_mod(p[1], nh);
        o.it = r.kind == OP_H_STEP ? (pos_mod(p[2], 2) ? IK_O : IK_OC) : r.kind == OP_H_WRITE ? (pos_mod(p[2], 2) ? IK_O : IK_U) : pos_mod(p[2], 4);
        o.pos = pick_pos(c, p[3], true);
        o.form = pos_mod(p[4], 12);
        break;
      }
      o.h = i; o.slot = h[i].slot;
      o.h2 = pos_mod(p[2], nh);
      o.form = pos_mod(p[3], 20);
      o.flag = pos_mod(p[4], 2);
      MCache& hc = s[o.slot];
      if (r.kind == OP_H_READ && h[i].end) o.form = 2 + pos_mod(p[3], 3);
      if (r.kind == OP_H_WRITE) o.val = pick_val(p[5]);
      if (r.kind == OP_H_STEP) {
        int pos = h[i].end ? int(hc.order.size()) : hc.find_id(h[i].id);
        bool fwd = o.form % 4 < 2;
        if (fwd && h[i].end) fwd = false;
        else if (!fwd && pos == 0) fwd = true;
        o.form = (fwd ? 0 : 2) + (o.form & 1);
      }
      if (r.kind == OP_H_CMP) {
        int a = h[i].kind;
        auto ok = [&](int j) {
          if (!handle_alive(j) || h[j].kind >= 4) return false;
          // ordered and unordered iterators of different caches may be compared, too
          bool mixed = (a == IK_U || a == IK_UC) != (h[j].kind == IK_U || h[j].kind == IK_UC);
          return h[j].slot == o.slot ? true : mixed && o.flag;
        };
        int q = -1;
        for (int d = 0; d < nh && q < 0; ++d) { int j = (o.h2 + d) % nh; if (j != i && ok(j)) q = j; }
        o.h2 = q < 0 ? i : q;
      }
      if (r.kind == OP_H_COPY) {
        if (o.form % 4 >= 2) {
          int q = -1;
          for (int d = 0; d < nh && q < 0; ++d) { int j = (o.h2 + d) % nh; if (j != i && handle_alive(j) && h[j].kind == h[i].kind) q = j; }
          if (q < 0) o.form = 0; else o.h2 = q;
        }
        if (o.h2 == i && o.form % 4 == 1) o.form = 0;
        // fetch the entries before a swap and read them afterwards
        o.flag2 = o.form % 4 >= 2 && !h[i].end && !h[o.h2].end && h[i].kind < 4 && pos_mod(p[5], 3) != 0;
      }
      if (r.kind == OP_H_CONV && o.h2 == i) o.h2 = (o.h2 + 1) % nh;
      if (r.kind == OP_H_CONV) { o.form %= 6; o.flag2 = h[i].kind == IK_U && pos_mod(p[5], 3) == 0; }
      if (r.kind == OP_H_CONV || r.kind == OP_H_COPY) o.n = h[i].end || h[i].kind >= 4;
      break;
    }
    case OP_ADVANCE: {
      int64_t d = 0;
      switch (pos_mod(p[1], 6)) {
        case 0: d = pos_mod(p[2], 4); break;
        case 1: d = w.tick_ns * pos_mod(p[2], 5) + pos_mod(p[3], 3) * (w.tick_ns / 2); break;
        case 2: d = std::min<int64_t>(c.ttl, int64_t(1) << 50) / (1 + pos_mod(p[2], 4)); break;
        case 3: case 4: {
          if (!c.order.empty()) {
            const MEntry& e = c.order[pick_pos(c, p[2], false)];
            d = boundary(c, e, pos_mod(p[3], 6)) - g_now_ns;
            if (d >= 0) ++feat[FE_BOUNDARY];
          }
          break;
        }
        default: d = int64_t(pos_mod(p[2], 1000)) * 1000003; break;
      }
      o.t = d < 0 ? 0 : d;
      break;
    }
    case OP_TUPLE:
      o.form = pos_mod(p[1], 6);
      o.n = 1 + pos_mod(p[2], pos_mod(p[3], 4) ? 500 : 20);
      o.val = pos_mod(p[4], 1 << 20);
      break;
    case OP_SYSJUMP: o.t = int64_t(pos_mod(p[1], 2000001) - 1000000) * 10000000000LL; break;
    case OP_EXPQ:
      o.form = pos_mod(p[1], EQ_N);
      o.key = pick_key(c, p[2]);
      o.spell = spelling(p[3], o.key);
      o.it = pos_mod(p[4], 4);
      o.pos = pick_pos(c, p[5], true);
      if (o.form == EQ_READ) o.flag = pos_mod(p[6], 4);
      break;
    case OP_STAT: {
      o.form = pos_mod(p[1], SF_N);
      o.n = pos_mod(p[2], NPOOL);
      o.key = pick_key(c, p[3]) % kSpell;
      o.flag = pos_mod(p[4], 4);
      o.flag2 = pos_mod(p[5], 2);
      // Some lists name a key more than once, before or after another one.
      int nk = pos_mod(p[6], 6), step = pos_mod(p[8], 6);
      for (int i = 0; i < nk; ++i) {
        int at = step < 4 ? i * step : step == 4 ? i / 2 : i & 1;
        o.keys.push_back(pos_mod(p[7] + at, std::max(1, cfg.nkeys)));
      }
      if (cfg.eqmode && (o.form == SF_MONITOR || o.form == SF_UNMONITOR || o.form == SF_RESET_KEY || o.form == SF_QUERY)) o.form = SF_STATS;
      // Now and then a few hundred keys are monitored.
      bool many = pos_mod(p[6], 30000) >= 29200;
      if (many) { o.keys.clear(); int from = pos_mod(p[7], 64), n = 3 + pos_mod(p[8], 330); for (int i = 0; i < n; ++i) o.keys.push_back(from + i); }
      if (cfg.eqmode || (o.form == SF_MONITOR && !many)) o.keys.clear();
      if (o.form == SF_SHARED) {
        if (c.stat < 0) o.n = -1;
        else { o.n = 0; for (int i = 0; i < NPOOL; ++i) if (pool[i] == c.stat) o.n = i; }
      }
      break;
    }
    case OP_CB:
      o.form = pos_mod(p[1], CB_N);
      if (o.form >= CB_CLEAR_HIT && pos_mod(p[3], 3)) o.form = pos_mod(p[2], 3);
      o.flag = pos_mod(p[4], 4);
      if (o.form < CB_CLEAR_HIT) o.flag2 = pos_mod(p[5], 4) == 0;
      if (o.form < CB_CLEAR_HIT && c.cbs.size() >= 8) { o.form = CB_CLEAR_HIT + pos_mod(p[2], 4); o.flag2 = false; }
      o.n = next_cb++;
      break;
    case OP_FRONTBACK: o.flag = pos_mod(p[1], 2); if (w.timed) noop(); break;
    case OP_ENDERR: o.it = pos_mod(p[1], 4); break;
    default: noop();
  }
  return o;
}

// ---------------------------------------------------------------------- step
void Model::counts(Expect& e, const MCache& c, long kl, long kh, long vl, long vh, bool fast) {
  if (!w.tracked) { e.any(F_KCOPY); e.any(F_VCOPY); e.any(F_NHASH); e.any(F_NEQ); e.any(F_WORK); return; }
  e.range(F_KCOPY, kl, kh, T(23));
  e.range(F_VCOPY, vl, vh, T(23));
  bool good = (c.fn & 3) == 0;
  if (fast) { e.range(F_NHASH, 0, 0, T(24)); ++feat[FE_FAST]; }
  else if (good) e.range(F_NHASH, 0, kHashBound, T(24));
  else e.any(F_NHASH);
  if (good) e.range(F_NEQ, 0, kEqBound, T(24)); else e.any(F_NEQ);
  if (good) e.range(F_WORK, 0, kWorkBound, T(24)); else e.any(F_WORK);
}

// Operations on n entries at once.
void Model::counts_many(Expect& e, const MCache& c, unsigned long n) {
  e.any(F_KCOPY); e.any(F_VCOPY);
  long m = long(n) + 1;
  if (w.tracked && (c.fn & 3) == 0) {
    e.range(F_NHASH, 0, kHashBound * m, T(24)); e.range(F_NEQ, 0, kEqBound * m, T(24)); e.range(F_WORK, 0, kWorkBound * m, T(24));
  } else { e.any(F_NHASH); e.any(F_NEQ); e.any(F_WORK); }
}

// Where the entry expired while the call was running (`back` ns ago it was still alive, perhaps),
// either outcome is right, but nothing in between.
void Model::access(MCache& c, long key, Expect& e, bool& live, long& val, int64_t back, bool found) {
  int i = c.find(key);
  bool exp = i >= 0 && w.timed && expired(c, c.order[i]);
  if (exp && back) {
    g_now_ns -= back;
    bool before = expired(c, c.order[i]);
    g_now_ns += back;
    if (!before && found) exp = false;
    if (!before) ++feat[FE_JUMP];
  }
  live = i >= 0 && !exp;
  if (exp) { ++feat[FE_EXPMISS]; if (i + 1 == int(c.order.size())) ++feat[FE_LASTEXP]; }
  if (live) ++feat[FE_HIT]; else ++feat[FE_MISS];
  val = live ? c.order[i].v : 0;
  if (c.stat >= 0) {
    MStats& st = stats[c.stat];
    ++st.total;
    ++feat[FE_STATACC];
    int sharers = 0;
    for (auto& o : s) sharers += o.alive && o.stat == c.stat;
    if (sharers > 1) ++feat[FE_SHAREDACC];
    if (live) ++st.hits;
    auto k = st.keys.find(key % kSpell);
    if (k != st.keys.end()) { if (live) ++k->second.first; else ++k->second.second; }
  }
  for (auto& cb : c.cbs) {
    if (cb.second == 0 && live) e.events.push_back({cb.first, 0, key, val});
    if (cb.second == 1 && !live) e.events.push_back({cb.first, 1, key, 0});
    if (cb.second == 2) e.events.push_back({cb.first, 2, key, live});
  }
  feat[FE_CBEV] += long(e.events.size());
  if (live) {
    MEntry x = c.order[i];
    if (i + 1 != int(c.order.size())) ++feat[FE_REORDER];
    c.order.erase(c.order.begin() + i);
    c.order.push_back(x);
  }
}

void Model::step(const ROp& op, const Res& real, Expect& e) {
  MCache& c = s[op.slot];
  const uint64_t timed = w.timed ? T(15) : 0;
  e.optags = T(1) | c.taint;
  e.exc_tags = T(1) | c.taint;
  long fast = c.fast;
  c.fast = -1;
  candidates.clear();
  for (auto& x : h) if (x.set && !handle_alive(int(&x - &h[0]))) x = MHandle();

  auto items = op.items;
  auto range_put = [&](MCache& d, long& newly, long& dups) {
    newly = dups = 0;
    for (auto& it : items) { if (put(d, it.first, it.second)) ++newly; else if (d.cap) ++dups; }
    ++feat[FE_BULK];
    if (dups) ++feat[FE_DUPBULK];
  };
  auto failed_item = [&]() -> long {   // the element whose value could not be copied, if that can be told
    long at = -1;
    for (size_t i = 0; i < items.size(); ++i) if (items[i].second == g_fault_value) { if (at >= 0) return -1; at = long(i); }
    return g_fault_value > 0 ? at : -1;
  };
  auto struck = [&] {   // copying or assigning a cache failed as it was told to
    if (!op.fault_kind || (real.exc != EX_INJECTED && real.exc != EX_BADALLOC) || real.fired == 0) return false;
    ++feat[FE_FAULT];
    e.exc = 1u << real.exc;
    e.fields_only_if_no_exc = true;
    c.taint |= T(26);
    e.optags = T(26) | c.taint;
    return true;
  };
  auto moved_in = [&](long dups) {   // a range moved in leaves nothing to copy, except perhaps for keys that were there already
    if (!w.tracked || (op.form != RS_RVEC && op.form != RS_RLIST)) return;
    e.range(F_KCOPY, 0, 2 * dups, T(23)); e.range(F_VCOPY, 0, 3 * dups, T(23));
  };
  auto src_field = [&] {   // does the source form report F_ARGS ?
    switch (op.form) {
      case RS_RVEC: case RS_RLIST: case RS_INIT: case RS_OTHER_ORDERED: case RS_OTHER_UNORD: case RS_OTHER_CACHE: return false;
      default: return true;
    }
  };

  switch (op.kind) {
    case OP_LOOKUP: {
      if (op.spell || op.key >= kSpell) ++feat[FE_SPELL];
      int why = c.reason.count(op.key) ? c.reason[op.key] : 0;
      bool live; long val;
      bool present = c.find(op.key) >= 0;
      if (op.rep) {
        long n = 0;
        for (int i = 0; i < op.rep; ++i) { access(c, op.keys.empty() ? op.key : op.keys[i % op.keys.size()], e, live, val, 0, false); n += live; }
        if (!op.keys.empty()) fast = -1;
        e.add(F_COUNT, n, T(1) | c.taint);
        ++feat[FE_REPEAT];
      }
      access(c, op.key, e, live, val, op.jump_at ? op.t : 0,
             op.form == LF_CONTAINS || op.form == LF_CCONTAINS ? real.get(F_FOUND, 0) == 1 : real.exc == EX_NONE);
      uint64_t tg = T(1) | c.taint;
      if (live) tg |= T(2) | T(4) | T(11) | timed;
      else {
        if (why == WHY_EVICT) tg |= T(2);
        if (why == WHY_ERASE || why == WHY_CLEAR) tg |= T(4);
        if (why == WHY_EXPIRE) tg |= T(16);
        if (present) tg |= T(15);
      }
      uint64_t vt = T(1) | c.taint | T(11) | T(10);
      e.optags = T(1) | T(3) | timed | c.taint;
      bool can_fast = live && fast == op.key && op.form != LF_FIND && op.form != LF_CFIND && op.pos < 0;
      switch (op.form) {
        case LF_CONTAINS: case LF_CCONTAINS:
          e.exc_tags = tg;
          e.add(F_FOUND, live, tg);
          counts(e, c, 0, 0, 0, 0, can_fast);
          break;
        case LF_FIND: case LF_CFIND:
          e.exc_tags = tg;
          e.add(F_FOUND, live, tg);
          if (live) { e.add(F_KEY, op.key, vt); e.add(F_VAL, val, vt); }
          counts(e, c, 0, 0, 0, 0, false);
          break;
        default:
          e.exc_tags = tg;
          if (!live) e.exc = present ? (1u << EX_KEYNOTFOUND) | (1u << EX_KEYEXPIRED) : (1u << EX_KEYNOTFOUND);
          counts(e, c, 0, 0, 0, 0, can_fast);
          if (live) e.add(F_VAL, val, vt);
      }
      if (live) { c.fast = op.key; if (op.flag) { c.order.back().v = op.val; ++feat[FE_WRITE]; } }
      return;
    }
    case OP_INSERT: {
      MCache before = c;
      int i = c.find(op.key);
      bool present = i >= 0;
      bool wasexp = present && w.timed && expired(c, c.order[i]);
      bool faulted = op.fault_kind && (real.exc == EX_INJECTED || real.exc == EX_BADALLOC) && real.fired > 0;
      e.optags = T(2) | T(1) | T(3) | T(5) | timed | T(23) * (op.form != IF_INSERT) | c.taint;
      if (faulted) {
        ++feat[FE_FAULT];
        e.exc = 1u << real.exc;
        e.fault = true; e.fields_only_if_no_exc = true;
        fault_slot = op.slot;
        c.taint |= T(22);
        e.optags = T(22) | c.taint;
        candidates.push_back(c.order);
        if (present) {
          auto add = [&](bool move, bool nv) {
            auto v = c.order;
            if (nv) v[i].v = op.val;
            if (move) { MEntry x = v[i]; v.erase(v.begin() + i); v.push_back(x); }
            candidates.push_back(v);
          };
          add(true, false); add(true, true); add(false, true);
          if (wasexp) { auto v = c.order; v.erase(v.begin() + i); candidates.push_back(v); }
        }
        return;
      }
      if (op.fault_kind) {
        e.exc_tags |= T(22);
        if (real.fired > 0) { e.exc = 0; e.exc_tags = T(22); }   // swallowed
      }
      int ins = put(c, op.key, op.val);
      uint64_t tg = T(5) | c.taint | (wasexp ? T(15) : 0) | (c.cap == 0 ? T(2) : 0);
      e.exc_tags |= tg | T(23);
      e.add(F_INSERTED, ins, tg);
      e.add(F_AGREE, 1, T(5));
      e.add(F_ITEND, c.cap == 0, tg);
      if (c.cap) {
        e.add(F_ITKEY, op.key, tg | T(1) | T(23));
        e.add(F_ITVAL, op.val, tg | T(1) | T(23));
        e.add(F_SELF, 1, T(5) | T(10));
        c.fast = op.key;
      }
      bool isnew = !present && c.cap > 0;
      auto cnt = [&](long k, long v) {
        if (isnew) counts(e, c, k, k, v, v, false);
        else { counts(e, c, 0, LONG_MAX, 0, LONG_MAX, false); }
        if (real.get(F_WORK, 0) <= kWorkBound) return;
        int& left = isnew && before.order.size() + 1 > before.peak ? c.growths : c.odd;
        if (left > 0) { --left; e.f.pop_back(); e.range(F_WORK, 0, kWorkBound * 2 + 100 * long(c.order.size()), T(24)); }
      };
      c.peak = std::max<unsigned long>(c.peak, before.order.size() + isnew);
      switch (op.form) {
        case IF_INSERT: case IF_INSERT_ALIASKEY: case IF_INSERT_ALIASVAL: case IF_INSERT_ALIASBOTH:
        case IF_EMPLACE_LL: case IF_EMPLACE_CONST: case IF_EMPLACE_ALIASVAL: case IF_EMPLACE_ALIASBOTH:
          { // unused local arguments are reported too; aliases change what is stored, not them
            bool aliased = op.form == IF_INSERT_ALIASKEY || op.form == IF_INSERT_ALIASVAL || op.form == IF_INSERT_ALIASBOTH || op.form == IF_EMPLACE_ALIASVAL || op.form == IF_EMPLACE_ALIASBOTH;
            (void)aliased;
            e.add(F_ARGS, 1, T(23));
          }
          cnt(1, 1);
          break;
        case IF_EMPLACE_RR: case IF_EMPLACE_PIECE_RR:
          cnt(0, 0);
          if (isnew) e.add(F_MOVED, 1, T(23)); else e.any(F_MOVED);
          break;
        case IF_EMPLACE_RL: cnt(0, 1); e.add(F_ARGS, 1, T(23)); break;
        case IF_INSERT_TEMP: cnt(1, 1); if (!isnew) { for (int q = 0; q < 5; ++q) e.f.pop_back(); e.any(F_KCOPY); e.any(F_VCOPY); e.any(F_NHASH); e.any(F_NEQ); e.any(F_WORK); } break;
        case IF_EMPLACE_PIECE: case IF_EMPLACE_PIECE_DEFAULT: case IF_EMPLACE_RAW:
          e.add(F_ARGS, 1, T(23)); cnt(0, 0); break;
        default: break;
      }
      return;
    }
    case OP_ERASE_KEY: {
      if (op.spell || op.key >= kSpell) ++feat[FE_SPELL];
      int i = c.find(op.key);
      bool exp = i >= 0 && w.timed && expired(c, c.order[i]);
      e.optags = T(4) | T(3) | c.taint;
      e.exc_tags = T(4) | c.taint;
      // whether erasing an expired key reports true is left open
      if (exp) e.range(F_ERASED, 0, 1, T(4)); else e.add(F_ERASED, i >= 0, T(4) | c.taint);
      counts(e, c, 0, 0, 0, 0, false);
      if (i >= 0) { c.order.erase(c.order.begin() + i); c.reason[op.key] = WHY_ERASE; ++feat[FE_ERASE]; } else ++feat[FE_ERASEMISS];
      return;
    }
    case OP_ERASE_IT: {
      e.optags = T(4) | T(3) | c.taint;
      e.exc_tags = T(4) | c.taint;
      if (op.pos < 0) { e.exc = 1u << EX_INVALIDITERATOR; ++feat[FE_ERASEMISS]; return; }
      counts(e, c, 0, 0, 0, 0, false);
      c.reason[c.order[op.pos].k] = WHY_ERASE;
      c.order.erase(c.order.begin() + op.pos);
      ++feat[FE_ERASE];
      return;
    }
    case OP_CLEAR:
      e.optags = T(4) | c.taint; e.exc_tags = T(4);
      for (auto& x : c.order) c.reason[x.k] = WHY_CLEAR;
      counts_many(e, c, c.order.size());
      c.order.clear();
      c.fresh_table();
      ++feat[FE_CLEAR];
      return;
    case OP_SHRINK:
      e.optags = T(2) | T(3) | c.taint; e.exc_tags = T(2);
      counts_many(e, c, c.order.size() > static_cast<unsigned long>(op.n) ? c.order.size() - static_cast<unsigned long>(op.n) : 0);
      while (c.order.size() > static_cast<unsigned long>(op.n)) { evict_front(c, WHY_EVICT); ++feat[FE_SHRINK]; }
      return;
    case OP_CAPACITY:
      e.optags = T(2) | T(3) | T(5) | c.taint; e.exc_tags = T(2);
      counts_many(e, c, c.order.size() > static_cast<unsigned long>(op.n) ? c.order.size() - static_cast<unsigned long>(op.n) : 0);
      while (c.order.size() > static_cast<unsigned long>(op.n)) { evict_front(c, WHY_EVICT); ++feat[FE_SHRINK]; }
      c.cap = static_cast<unsigned long>(op.n);
      return;
    case OP_BULK: {
      e.optags = T(6) | T(5) | T(2) | T(1) | T(3) | timed | c.taint;
      bool unord = op.form == RS_OTHER_UNORD || op.form == RS_OTHER_CACHE;
      if (unord) {   // in whatever order the other cache lists its entries
        std::vector<std::pair<long, long>> seen;
        for (size_t i = 0; i + 1 < real.f.size() && real.f[i].first == F_KEY; i += 2) seen.emplace_back(real.f[i].second, real.f[i + 1].second);
        auto x = seen, y = items;
        std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
        if (x == y) items = seen;
        for (auto& q : items) { e.add(F_KEY, q.first, T(10)); e.add(F_VAL, q.second, T(10)); }
      }
      bool faulted = op.fault_kind && (real.exc == EX_INJECTED || real.exc == EX_BADALLOC) && real.fired > 0;
      if (faulted) {
        ++feat[FE_FAULT];
        e.exc = 1u << real.exc;
        e.fault = true; e.fields_only_if_no_exc = true;
        fault_slot = op.slot;
        MCache d = c;
        auto savef = feat;
        const long at = failed_item();
        for (auto& it : items) {
          if (at >= 0 && &it - &items[0] != at) { put(d, it.first, it.second); continue; }
          candidates.push_back(d.order);
          int i = d.find(it.first);
          if (i >= 0) {
            auto add = [&](bool move, bool nv) {
              auto v = d.order;
              if (nv) v[i].v = it.second;
              if (move) { MEntry x = v[i]; v.erase(v.begin() + i); v.push_back(x); }
              candidates.push_back(v);
            };
            add(true, false); add(true, true); add(false, true);
            if (w.timed && expired(d, d.order[i])) { auto v = d.order; v.erase(v.begin() + i); candidates.push_back(v); }
          }
          put(d, it.first, it.second);
        }
        feat = savef;
        c.taint |= T(22);
        e.optags = T(22) | c.taint;
        return;
      }
      if (op.fault_kind) { e.exc_tags |= T(22); if (real.fired > 0) { e.exc = 0; e.exc_tags = T(22); } }
      long newly, dups;
      long n0 = c.cap ? 1 : 0;
      long present0 = 0;
      std::vector<MEntry> before = c.order;
      range_put(c, newly, dups);
      // revived expired keys are updates in place as far as copies go: count keys that were new
      long fresh = 0;
      for (auto& x : c.order) { (void)x; }
      {
        MCache d; d.cap = c.cap; d.ttl = c.ttl; d.order = before;
        auto savef = feat; long saveid = next_id;
        for (auto& it : items) { if (d.cap && d.find(it.first) < 0) ++fresh; else if (d.cap) ++present0; put(d, it.first, it.second); }
        feat = savef; next_id = saveid;
      }
      e.exc_tags |= T(6) | T(5);
      if (src_field()) e.add(F_ARGS, 1, T(6) | T(23));
      e.add(F_COUNT, newly, T(5) | T(6) | c.taint);
      if (w.tracked) {
        bool rv = op.form == RS_RVEC || op.form == RS_RLIST;
        long lo = rv ? 0 : fresh * n0, hi = rv ? 0 : fresh * n0;
        if (present0) { e.range(F_KCOPY, lo, hi + 2 * present0, T(23)); e.range(F_VCOPY, lo, hi + 3 * present0, T(23)); }
        else { e.range(F_KCOPY, lo, hi, T(23)); e.range(F_VCOPY, lo, hi, T(23)); }
      } else { e.any(F_KCOPY); e.any(F_VCOPY); }
      if (w.tracked && (c.fn & 3) == 0) {
        long m = long(items.size()) + 1;
        if (op.form == RS_OTHER_ORDERED || unord) m += long(before.size() + items.size());
        e.range(F_NHASH, 0, kHashBound * m, T(24)); e.range(F_NEQ, 0, kEqBound * m, T(24));
        e.range(F_WORK, 0, kWorkBound * m + 300 * long(before.size() + items.size()), T(24));
      } else { e.any(F_NHASH); e.any(F_NEQ); e.any(F_WORK); }
      c.peak = std::max<unsigned long>(c.peak, c.order.size() + 1);
      return;
    }
    case OP_ASSIGN: {
      kill_handles(op.slot);
      for (auto& x : c.order) c.reason[x.k] = WHY_CLEAR;
      c.order.clear();
      c.fresh_table();
      c.cap = std::max<unsigned long>(c.cap, items.size());
      if (struck()) {   // what was assigned before the failure, and nothing else
        MCache d = c;
        auto savef = feat;
        const long at = failed_item();
        for (auto& it : items) {
          if (at >= 0 && &it - &items[0] != at) { put(d, it.first, it.second); continue; }
          candidates.push_back(d.order);
          int i = d.find(it.first);
          if (i >= 0) {
            auto add = [&](bool move, bool nv) {
              auto v = d.order;
              if (nv) v[i].v = it.second;
              if (move) { MEntry x = v[i]; v.erase(v.begin() + i); v.push_back(x); }
              candidates.push_back(v);
            };
            add(true, false); add(true, true); add(false, true);
          }
          put(d, it.first, it.second);
        }
        if (at < 0) candidates.push_back(d.order);
        feat = savef;
        e.fault = true;
        fault_slot = op.slot;
        return;
      }
      long newly, dups;
      range_put(c, newly, dups);
      e.optags = T(6) | T(1) | c.taint; e.exc_tags = T(6);
      if (src_field()) e.add(F_ARGS, 1, T(6));
      moved_in(dups);
      return;
    }
    case OP_CREATE: {
      kill_handles(op.slot);
      if (struck()) return;   // there is no new cache, and the old one is still there
      MCache n;
      n.alive = true; n.ttl = op.t; n.fn = w.tracked ? op.fnstate : 0;
      unsigned long m = items.size();
      bool pair = op.form == RS_ITVEC || op.form == RS_CITVEC || op.form == RS_ITLIST || op.form == RS_FWD ||
                  op.form == RS_PTR || op.form == RS_RITER || op.form == RS_ITCP || op.form == RS_INPUT || op.form == RS_CONV;
      bool ranged = op.flag == CF_RANGE || op.flag == CF_CAP_RANGE;
      e.optags = T(2) | T(6) | T(1); e.exc_tags = T(6) | T(2);
      if (ranged && src_field()) e.add(F_ARGS, 1, T(6));
      const long inf = long(1) << 62;
      if (op.flag == CF_DEFAULT) { n.cap = 128; e.add(F_CAP, 128, T(2)); }
      else if (op.flag == CF_RANGE) {
        if (pair) { n.cap = std::max<unsigned long>(m, 128); e.add(F_CAP, long(n.cap), T(6)); }
        else {
          e.range(F_CAP, long(m), inf, T(6));
          long rc = real.get(F_CAP, long(m));
          n.cap = rc >= long(m) ? static_cast<unsigned long>(rc) : m;
        }
      } else {
        n.cap = static_cast<unsigned long>(op.n);
        e.add(F_CAP, long(std::min<unsigned long>(n.cap, 1ul << 62)), T(6) | T(2));
      }
      c = n;
      if (ranged) { long newly, dups; range_put(c, newly, dups); moved_in(dups); }
      return;
    }
    case OP_COPY_CTOR: case OP_COPY_ASSIGN: {
      kill_handles(op.slot);
      MCache& src = s[op.slot2];
      if (struck()) { src.taint |= T(26); src.fast = -1; return; }   // both as they were
      e.optags = T(7); e.exc_tags = T(7);
      if (op.kind == OP_COPY_ASSIGN) e.add(F_SELF, 1, T(7));
      e.add(F_SAMEPTR, 1, T(7) | T(13)); e.add(F_NCB, 1, T(7) | T(14));
      ++feat[FE_COPY];
      if (op.slot == op.slot2) return;
      src.taint |= T(7);
      src.fast = -1;
      MCache n = src;
      for (auto& x : n.order) x.id = next_id++;
      n.peak = n.order.size();
      c = n;
      return;
    }
    case OP_MOVE_CTOR: case OP_MOVE_ASSIGN: {
      kill_handles(op.slot); kill_handles(op.slot2);
      MCache& src = s[op.slot2];
      e.optags = T(8); e.exc_tags = T(8);
      ++feat[FE_MOVE];
      MCache n = src;
      n.taint |= T(8); n.stat = -1; n.cbs.clear(); n.fast = -1;
      c = n;
      src = MCache();
      if (op.form % 4 == 1 || op.form % 4 == 3) e.range(F_CAP, 0, LONG_MAX, T(8));
      e.add(F_MOVEDFROM, 1, T(8));
      if (op.form % 4 == 2) { src = c; for (auto& x : src.order) x.id = next_id++; }
      return;
    }
    case OP_SWAP: {
      kill_handles(op.slot); kill_handles(op.slot2);
      MCache& b = s[op.slot2];
      e.optags = T(8); e.exc_tags = T(8);
      ++feat[FE_SWAP];
      if (op.slot != op.slot2) std::swap(c, b);
      for (MCache* x : {&c, &b}) { x->stat = -1; x->cbs.clear(); x->fast = -1; x->taint |= T(8); }
      return;
    }
    case OP_DESTROY: kill_handles(op.slot); c = MCache(); e.optags = T(21); e.exc_tags = T(21); return;
    case OP_COMPARE: {
      MCache& b = s[op.slot2];
      e.optags = T(9) | c.taint; e.exc_tags = T(9);
      c.fast = fast;
      bool eq = c.order.size() == b.order.size();
      for (size_t i = 0; eq && i < c.order.size(); ++i) {
        eq = c.order[i].k == b.order[i].k && c.order[i].v == b.order[i].v && (!w.timed || c.order[i].t == b.order[i].t);
      }
      if (&c != &b && (cfg.eqmode || c.fn != b.fn || (cfg.spell && c.fn == 0))) { e.any(F_EQ); e.any(F_EQ); e.any(F_NE); e.any(F_NE); }
      else {
        if (&c != &b) ++feat[eq ? FE_EQTRUE : FE_EQFALSE];
        uint64_t tg = T(9) | (c.taint & T(7));
        e.add(F_EQ, eq, tg); e.add(F_EQ, eq, tg); e.add(F_NE, !eq, tg); e.add(F_NE, !eq, tg);
      }
      e.add(F_SELF, 1, T(9));
      return;
    }
    case OP_WALK: {
      MEntry& x = c.order[op.pos];
      e.optags = T(10) | T(3) | c.taint; e.exc_tags = T(10) | T(16);
      e.add(F_KEY, x.k, T(10) | T(3)); e.add(F_VAL, x.v, T(10) | T(1)); e.add(F_AGREE, 1, T(10));
      ++feat[FE_WALK];
      if (op.flag) { x.v = op.val; e.add(F_ITVAL, op.val, T(10)); ++feat[FE_WRITE]; }
      return;
    }
    case OP_FILL: {
      long cnt = 0;
      // put() is linear; do it with care for large caches
      for (long i = 0; i < op.n; ++i) cnt += put(c, op.key + i, op.val + i) ? 1 : 0;
      e.optags = T(2) | T(5) | T(1) | T(3) | timed | c.taint; e.exc_tags = T(5);
      e.add(F_COUNT, cnt, T(5));
      if (w.tracked && (c.fn & 3) == 0) {
        e.range(F_NEXPENSIVE, 0, c.order.size() + 1 > c.peak ? 24 : c.odd, T(24));
        if (real.get(F_NEXPENSIVE, 0) && c.order.size() + 1 <= c.peak) c.odd = std::max(0, c.odd - int(real.get(F_NEXPENSIVE)));
      } else e.any(F_NEXPENSIVE);
      c.peak = std::max<unsigned long>(c.peak, c.order.size() + 1);
      if (c.order.size() >= 100) ++feat[FE_BIG];
      if (cnt > 0 && c.cap) c.fast = -1;
      return;
    }
    case OP_H_TAKE: {
      MHandle n;
      n.set = true; n.kind = op.it; n.slot = op.slot; n.end = op.pos < 0; n.id = op.pos < 0 ? 0 : c.order[op.pos].id;
      h[op.h] = n;
      e.optags = T(10) | T(3); e.exc_tags = T(10);
      return;
    }
    case OP_H_READ: {
      const MHandle& x = h[op.h];
      e.optags = T(10) | T(11) | T(3) | c.taint; e.exc_tags = T(11) | T(10) | T(16);
      ++feat[FE_HREAD];
      if (x.end) { e.exc = 1u << EX_INVALIDITERATOR; return; }
      const MEntry& en = c.order[c.find_id(x.id)];
      bool thrower = x.kind < 4 && op.form % 5 >= 2;
      if (thrower && w.timed && expired(c, en)) { e.exc = 1u << EX_KEYEXPIRED; return; }
      uint64_t tg = T(11) | T(10) | c.taint;
      if (x.kind < 4 && op.form % 5 == 4) { e.add(F_VAL, en.v, tg); e.add(F_KEY, en.k, tg); }
      else { e.add(F_KEY, en.k, tg); e.add(F_VAL, en.v, tg); }
      return;
    }
    case OP_H_WRITE: {
      e.optags = T(10) | T(11) | T(1) | c.taint; e.exc_tags = T(10);
      c.order[c.find_id(h[op.h].id)].v = op.val;
      ++feat[FE_WRITE];
      return;
    }
    case OP_H_STEP: {
      MHandle& x = h[op.h];
      int pos = x.end ? int(c.order.size()) : c.find_id(x.id);
      pos += op.form % 4 < 2 ? 1 : -1;
      x.end = pos == int(c.order.size());
      uint64_t tg = T(11) | T(10) | T(3) | c.taint;
      e.exc_tags = tg; e.optags = tg;
      e.add(F_AGREE, 1, tg);
      e.add(F_ITEND, x.end, tg);
      ++feat[FE_STEP];
      if (!x.end) { x.id = c.order[pos].id; e.add(F_KEY, c.order[pos].k, tg); e.add(F_VAL, c.order[pos].v, tg); }
      return;
    }
    case OP_H_CMP: {
      const MHandle &a = h[op.h], &b = h[op.h2];
      bool eq = a.slot == b.slot && ((a.end && b.end) || (!a.end && !b.end && a.id == b.id));
      e.exc_tags = T(10) | T(11); e.optags = T(10);
      for (int i = 0; i < 2; ++i) { e.add(F_EQ, eq, T(10) | T(11)); e.add(F_NE, !eq, T(10) | T(11)); }
      return;
    }
    case OP_H_CONV: {
      auto handle_entry = [&](const MHandle& x) {
        const MEntry& en = c.order[c.find_id(x.id)];
        e.add(F_KEY, en.k, T(10) | c.taint); e.add(F_VAL, en.v, T(10) | c.taint);
      };
      const MHandle a = h[op.h];
      e.exc_tags = T(10); e.optags = T(10);
      ++feat[FE_CONV];
      bool bad = a.end && a.kind != IK_O && !op.flag2;
      if (!a.end) handle_entry(a);
      e.add(F_SUBEXC, bad ? EX_INVALIDCONV : EX_NONE, T(10));
      if (!bad) { MHandle n = a; n.kind = a.kind != IK_U ? IK_OC : op.flag2 ? IK_UC : op.flag ? IK_O : IK_OC; h[op.h2] = n; }
      return;
    }
    case OP_H_ERASE: {
      const MHandle a = h[op.h];
      e.optags = T(4) | T(3) | T(11) | c.taint; e.exc_tags = T(4) | T(11);
      if (a.end) { e.exc = 1u << EX_INVALIDITERATOR; return; }
      int i = c.find_id(a.id);
      c.reason[c.order[i].k] = WHY_ERASE;
      c.order.erase(c.order.begin() + i);
      ++feat[FE_ERASE];
      return;
    }
    case OP_H_VALID: {
      const MHandle& a = h[op.h];
      bool exp = !a.end && w.timed && expired(c, c.order[c.find_id(a.id)]);
      e.exc_tags = T(16) | T(10); e.optags = T(16);
      uint64_t tg = T(16) | (a.end ? T(10) : 0);
      e.add(F_VALID, !a.end && !exp, tg);
      e.add(F_SUBEXC, a.end ? EX_INVALIDITERATOR : exp ? EX_KEYEXPIRED : EX_NONE, tg);
      if (w.timed) e.add(F_EXPIRED, exp, T(16));
      ++feat[FE_EXPQ];
      return;
    }
    case OP_H_COPY: {
      e.exc_tags = T(10) | T(11); e.optags = T(10);
      if (op.form % 4 == 1 && op.n == 0) {
        const MEntry& en = c.order[c.find_id(h[op.h].id)];
        e.add(F_KEY, en.k, T(10) | T(11) | c.taint); e.add(F_VAL, en.v, T(10) | T(11) | c.taint);
      }
      if (op.form % 4 < 2) h[op.h2] = h[op.h];
      else std::swap(h[op.h], h[op.h2]);
      if (op.flag2) for (int i : {op.h, op.h2}) {
        const MCache& hc = s[h[i].slot];
        const MEntry& en = hc.order[hc.find_id(h[i].id)];
        e.add(F_KEY, en.k, T(10) | T(11) | hc.taint); e.add(F_VAL, en.v, T(10) | T(11) | hc.taint);
      }
      return;
    }
    case OP_EXPQ: {
      e.exc_tags = T(16); e.optags = T(16) | T(3) | c.taint;
      c.fast = fast;
      ++feat[FE_EXPQ];
      bool end = op.pos < 0;
      bool exp = !end && w.timed && expired(c, c.order[op.pos]);
      int sub = end ? EX_INVALIDITERATOR : exp ? EX_KEYEXPIRED : EX_NONE;
      uint64_t rt = T(16) | (end || !exp ? T(10) : 0);
      switch (op.form) {
        case EQ_ALL:
          if (w.timed) { bool a = true; for (auto& x : c.order) a = a && expired(c, x); e.add(F_EXPIRED, a, T(16)); }
          return;
        case EQ_KEY:
          if (w.timed) { int i = c.find(op.key); e.add(F_EXPIRED, i >= 0 && expired(c, c.order[i]), T(16)); }
          return;
        case EQ_IT: if (w.timed) e.add(F_EXPIRED, exp, T(16)); return;
        case EQ_VALID: e.add(F_VALID, !end && !exp, rt); return;
        case EQ_THROW: e.add(F_SUBEXC, sub, rt); return;
        default:
          if (sub == EX_NONE) e.add(F_KEY, c.order[op.pos].k, rt);
          e.add(F_SUBEXC, sub, rt);
          if (sub == EX_NONE) e.add(F_VAL, c.order[op.pos].v, rt);
          e.add(F_SUBEXC, sub, rt);
          if (sub == EX_NONE) e.add(F_KEY, c.order[op.pos].k, rt);
          e.add(F_SUBEXC, sub, rt);
          if (!end) { e.add(F_ITKEY, c.order[op.pos].k, rt | T(16)); e.add(F_ITVAL, c.order[op.pos].v, rt | T(16)); }
          return;
      }
    }
    case OP_CLEAR_EXPIRED: {
      if (!w.timed) return;
      e.optags = T(16) | T(3) | c.taint; e.exc_tags = T(16);
      std::vector<MEntry> keep; long n = 0;
      for (auto& x : c.order) { if (expired(c, x)) { ++n; c.reason[x.k] = WHY_EXPIRE; } else keep.push_back(x); }
      if (n && !keep.empty()) ++feat[FE_CLEAREXP];
      c.order = keep;
      e.add(F_COUNT, n, T(16));
      counts_many(e, c, c.order.size() + static_cast<unsigned long>(n));
      return;
    }
    case OP_STAT: {
      e.optags = T(13); e.exc_tags = T(13);
      int pi = op.n < 0 ? 0 : int(op.n % NPOOL);
      auto fresh = [&](bool keys) {
        MStats st;
        if (keys) for (long k : op.keys) st.keys.emplace(k, std::make_pair(0L, 0L));
        if (st.keys.size() > 40) ++feat[FE_MANYKEYS];
        stats.push_back(st);
        return int(stats.size()) - 1;
      };
      switch (op.form) {
        case SF_ATTACH_LV: case SF_ATTACH_RV: c.stat = pool[pi]; return;
        case SF_ATTACH_NEW0: pool[pi] = fresh(false); c.stat = pool[pi]; return;
        case SF_ATTACH_NEWKEYS: pool[pi] = fresh(true); c.stat = pool[pi]; return;
        case SF_NEWPOOL: pool[pi] = fresh(op.flag % 4 != 0); return;
        case SF_ATTACH_NULL: case SF_STOP: c.stat = -1; return;
        case SF_ISMON: e.add(F_ISMON, c.stat >= 0, T(13)); e.add(F_ISMON, c.stat >= 0, T(13)); return;
        case SF_STATS: {
          if (c.stat < 0) { e.exc = 1u << EX_NOTMONITORING; return; }
          MStats& st = stats[c.stat];
          e.add(F_TOTAL, long(st.total), T(12) | T(13)); e.add(F_HITS, long(st.hits), T(12) | T(13));
          e.add(F_MISSES, long(st.total - st.hits), T(12) | T(13)); e.add(F_NMON, long(st.keys.size()), T(13));
          return;
        }
        case SF_SHARED: e.add(F_SAMEPTR, c.stat < 0 ? op.n < 0 : (op.n >= 0 && pool[pi] == c.stat), T(13)); return;
        default: break;
      }
      int si = pool[pi];
      if (op.flag2) { if (c.stat < 0) { e.exc = 1u << EX_NOTMONITORING; return; } si = c.stat; }
      MStats& st = stats[si];
      auto it = st.keys.find(op.key);
      bool mon = it != st.keys.end();
      ++feat[FE_STATKEY];
      switch (op.form) {
        case SF_MONITOR:
          st.keys.emplace(op.key, std::make_pair(0L, 0L));
          for (long k : op.keys) st.keys.emplace(k, std::make_pair(0L, 0L));
          if (st.keys.size() > 40) ++feat[FE_MANYKEYS];
          return;
        case SF_UNMONITOR: if (!mon) e.exc = 1u << EX_UNMONITORED; else st.keys.erase(it); return;
        case SF_UNMONITOR_ALL: st.keys.clear(); return;
        case SF_RESET_KEY: if (!mon) e.exc = 1u << EX_UNMONITORED; else { it->second = {0, 0}; ++feat[FE_RESET]; } return;
        case SF_RESET_ALL: for (auto& k : st.keys) k.second = {0, 0}; ++feat[FE_RESET]; return;
        case SF_QUERY: {
          e.add(F_NMON, long(st.keys.size()), T(13));
          e.add(F_ISMON, mon, T(13)); e.add(F_ISMON, !st.keys.empty(), T(13));
          long hi = mon ? it->second.first : 0, mi = mon ? it->second.second : 0;
          int x = mon ? EX_NONE : EX_UNMONITORED;
          uint64_t tg = T(12) | T(13);
          if (mon) e.add(F_KHITS, hi, tg);
          e.add(F_SUBEXC, x, T(13));
          if (mon) e.add(F_KMISSES, mi, tg);
          e.add(F_SUBEXC, x, T(13));
          if (mon) e.add(F_TOTAL, hi + mi, tg);
          e.add(F_SUBEXC, x, T(13));
          if (mon) { e.add(F_KHITS, hi, tg); e.add(F_KMISSES, mi, tg); }
          e.add(F_SUBEXC, x, T(13));
          if (mon) e.add(F_TOTAL, hi + mi, tg);
          e.add(F_SUBEXC, x, T(13));
          return;
        }
        default: return;
      }
    }
    case OP_CB: {
      e.optags = T(14); e.exc_tags = T(14);
      auto drop = [&](int t) { c.cbs.erase(std::remove_if(c.cbs.begin(), c.cbs.end(), [&](auto& x) { return t < 0 || x.second == t; }), c.cbs.end()); };
      switch (op.form) {
        case CB_HIT: for (int i = 0; i <= int(op.flag2); ++i) c.cbs.emplace_back(int(op.n), 0); break;
        case CB_MISS: for (int i = 0; i <= int(op.flag2); ++i) c.cbs.emplace_back(int(op.n), 1); break;
        case CB_ACCESS: for (int i = 0; i <= int(op.flag2); ++i) c.cbs.emplace_back(int(op.n), 2); break;
        case CB_CLEAR_HIT: drop(0); break;
        case CB_CLEAR_MISS: drop(1); break;
        case CB_CLEAR_ACCESS: drop(2); break;
        default: drop(-1);
      }
      long n[3] = {0, 0, 0};
      for (auto& x : c.cbs) ++n[x.second];
      e.add(F_NCB, n[0] + 100 * n[1] + 10000 * n[2], T(14));
      return;
    }
    case OP_TUPLE:
      e.exc_tags = e.optags = T(24);
      c.fast = fast;
      e.add(F_FOUND, op.n, T(1) | T(24));
      e.range(F_NEQ, 0, kEqBound, T(24));
      e.range(F_NHASH, 0, 3 * kHashBound, T(24));
      if (op.n >= 100) ++feat[FE_BIG];
      return;
    case OP_FN:
      e.exc_tags = T(20); e.optags = T(20);
      if (w.tracked) { e.add(F_HFN, c.fn, T(20)); e.add(F_EFN, c.fn, T(20)); }
      return;
    case OP_FRONTBACK:
      e.exc_tags = T(3); e.optags = T(3);
      c.fast = fast;
      if (c.order.empty()) { e.exc = 1u << EX_EMPTY; ++feat[FE_EMPTYEX]; }
      else e.add(F_KEY, op.flag ? c.order.front().k : c.order.back().k, T(3));
      return;
    case OP_ENDERR: {
      e.exc_tags = T(10) | T(16); e.optags = T(10);
      ++feat[FE_ENDERR];
      static const int reps[] = {2, 4, 1, 2};
      for (int i = 0; i < reps[op.it]; ++i) {
        for (int j = 0; j < 4; ++j) e.add(F_SUBEXC, EX_INVALIDITERATOR, T(10) | T(16));
        e.add(F_VALID, 0, T(10) | T(16));
      }
      for (int i = 0; i < 3; ++i) e.add(F_SUBEXC, 1000 + EX_INVALIDCONV, T(10));
      for (int i = 0; i < 3; ++i) e.add(F_EQ, 1, T(10));
      e.add(F_NE, 0, T(10));
      if (!c.order.empty()) { e.add(F_NE, 11, T(10)); e.add(F_NE, 11, T(10)); }
      return;
    }
    case OP_SIZEQ:
      e.exc_tags = T(5); e.optags = T(5) | c.taint;
      c.fast = fast;
      e.add(F_SIZE, long(c.order.size()), T(5)); e.add(F_CAP, long(c.cap), T(2) | T(5));
      e.add(F_SPACE, long(c.cap - c.order.size()), T(5)); e.add(F_EMPTY, c.order.empty(), T(5));
      e.add(F_FULL, c.order.size() == c.cap, T(5));
      return;
    case OP_ADVANCE: c.fast = fast; return;
    default: c.fast = fast; return;
  }
}

}  // namespace vf
