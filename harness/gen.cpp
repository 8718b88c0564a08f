// Profiles (what each property's cases are made of) and the generators.
#include "engine.hpp"
#include <cstring>

namespace vf {

uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x) : s(mix(x)) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ULL; uint64_t x = s; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31); }
  int below(int n) { return n <= 1 ? 0 : int(next() % uint64_t(n)); }
};

using F = std::array<long, FE_N>;
using W = std::vector<std::pair<int, int>>;

static W plus(W a, const W& b) { for (auto& x : b) a.push_back(x); return a; }
static const W kCore = {{OP_LOOKUP, 30}, {OP_INSERT, 28}, {OP_ERASE_KEY, 6}, {OP_ERASE_IT, 4}, {OP_CLEAR, 1}, {OP_SHRINK, 2},
                        {OP_CAPACITY, 3}, {OP_BULK, 3}, {OP_ASSIGN, 1}};
static const W kMulti = {{OP_CREATE, 2}, {OP_COPY_CTOR, 2}, {OP_COPY_ASSIGN, 2}, {OP_MOVE_CTOR, 1}, {OP_MOVE_ASSIGN, 1}, {OP_SWAP, 1}, {OP_DESTROY, 1}};
static const W kTime = {{OP_ADVANCE, 8}, {OP_SYSJUMP, 1}, {OP_EXPQ, 2}, {OP_CLEAR_EXPIRED, 2}};
static const W kHandles = {{OP_H_TAKE, 5}, {OP_H_READ, 6}, {OP_H_WRITE, 3}, {OP_H_STEP, 4}, {OP_H_CMP, 3}, {OP_H_CONV, 2}, {OP_H_ERASE, 2}, {OP_H_VALID, 1}, {OP_H_COPY, 2}};
static const W kStat = {{OP_STAT, 6}};
static const W kCb = {{OP_CB, 4}};
static const W kRead = {{OP_WALK, 2}, {OP_FRONTBACK, 1}, {OP_SIZEQ, 1}, {OP_COMPARE, 1}};

// Circumstances that no property depends on, so that every check meets them.
static const W kAmbient = {{OP_STAT, 2}, {OP_CB, 2}, {OP_ADVANCE, 1}, {OP_CLEAR_EXPIRED, 1}, {OP_EXPQ, 1}, {OP_COPY_CTOR, 1}, {OP_COPY_ASSIGN, 1}, {OP_MOVE_ASSIGN, 1},
                           {OP_SWAP, 1}, {OP_H_TAKE, 1}, {OP_H_READ, 1}, {OP_H_WRITE, 1}, {OP_COMPARE, 1}, {OP_WALK, 1}, {OP_ENDERR, 1}, {OP_FRONTBACK, 1}, {OP_SIZEQ, 1}};

const Profile* profile(int prop) {
  static const std::vector<int> all = {0, 1, 2, 3, 4, 5, 0, 2, 3, 5, 9, 10}, basic = {0, 1, 2}, timed = {3, 4, 5}, timed_any = {3, 4, 5, 10}, tracked = {2, 5};
  static const std::vector<Profile> ps = {
      {1, Profile::MODEL, all, plus(plus(plus(kCore, kTime), kMulti), plus(kHandles, kRead)), 6, 60,
       "random operation histories; non-trivial: at least one successful and one failed lookup and one of eviction, erasure, expiry, update or write-through",
       [](const F& f) { return f[FE_HIT] && f[FE_MISS] && (f[FE_EVICT] || f[FE_ERASE] || f[FE_EXPMISS] || f[FE_UPDATE] || f[FE_WRITE]); }, false, true, true, false, true},
      {2, Profile::MODEL, all, plus(plus(plus(kCore, kTime), kMulti), {{OP_CAPACITY, 6}, {OP_SHRINK, 6}, {OP_INSERT, 20}, {OP_BULK, 4}, {OP_FILL, 1}}), 6, 70,
       "histories with small and changing capacities; non-trivial: at least one eviction, shrink or zero-capacity insertion",
       [](const F& f) { return f[FE_EVICT] || f[FE_SHRINK] || f[FE_ZEROCAP]; }, false, true, true, false, false},
      {3, Profile::MODEL, all, plus(plus(plus(kCore, kTime), kRead), plus(plus(kHandles, kStat), kMulti)), 6, 60,
       "histories mixing hits, misses, updates and reads; non-trivial: an access that changes the recency order",
       [](const F& f) { return f[FE_REORDER] > 0; }, false, true, true, false, true},
      {4, Profile::MODEL, all, plus(plus(plus(kCore, kTime), kMulti), {{OP_ERASE_KEY, 12}, {OP_ERASE_IT, 12}, {OP_CLEAR, 2}, {OP_H_TAKE, 4}, {OP_H_ERASE, 6}, {OP_H_CONV, 1}}), 6, 60,
       "histories rich in erasures by key and by every iterator kind; non-trivial: something was erased or cleared",
       [](const F& f) { return f[FE_ERASE] || f[FE_CLEAR]; }, false, true, true, false, false},
      {5, Profile::MODEL, all, plus(plus(plus(kCore, kTime), kMulti), {{OP_INSERT, 24}, {OP_BULK, 6}, {OP_SIZEQ, 4}, {OP_CAPACITY, 3}}), 6, 60,
       "histories over all insertion forms; non-trivial: both a new insertion and an update, revival or zero-capacity insertion",
       [](const F& f) { return f[FE_INSERT] && (f[FE_UPDATE] || f[FE_REVIVE] || f[FE_ZEROCAP]); }, false, true, true, false, false},
      {6, Profile::BULK_TWIN, all, plus(plus(kCore, {{OP_ADVANCE, 4}, {OP_BULK, 30}, {OP_ASSIGN, 24}, {OP_CREATE, 30}}), {{OP_SWAP, 2}, {OP_COPY_CTOR, 2}}), 3, 24,
       "histories on twins where one applies bulk construction/assignment/insertion and the other the same elements one by one; non-trivial: a bulk operation with at least one element took effect",
       [](const F& f) { return f[FE_BULK] && (f[FE_INSERT] || f[FE_UPDATE]); }, false, true, false, false, false},
      {7, Profile::COPY_TWIN, all, plus(plus(plus(plus(kCore, kTime), kHandles), plus(kStat, kCb)), {{OP_DESTROY, 2}, {OP_WALK, 1}}), 6, 50,
       "prefix, copy (construction or assignment, const or not, self-assignment), interleaved suffix on both sides against two independently built replicas; non-trivial: the copied cache was not empty and the suffix changed a side",
       [](const F& f) { return f[FE_COPY] && f[FE_BULK] && (f[FE_REORDER] || f[FE_ERASE] || f[FE_INSERT]); }, false, true, true, false, true},
      {8, Profile::MOVE_TWIN, all, plus(plus(plus(kCore, kTime), kHandles), {{OP_DESTROY, 2}, {OP_WALK, 1}, {OP_STAT, 2}, {OP_CB, 2}}), 6, 50,
       "prefix on two caches, move or swap in every form, suffix against independently built replicas; non-trivial: the moved or swapped cache held at least two entries",
       [](const F& f) { return (f[FE_MOVE] || f[FE_SWAP]) && f[FE_BULK]; }, false, true, true, false, false},
      {9, Profile::MODEL, all, plus(plus(plus(kCore, kMulti), {{OP_COMPARE, 40}, {OP_COPY_CTOR, 8}, {OP_COPY_ASSIGN, 6}, {OP_ADVANCE, 2}, {OP_H_WRITE, 3}, {OP_LOOKUP, 10}}), kStat), 6, 60,
       "several caches with few distinct keys and values, often copies, compared with each other; non-trivial: two different caches were compared",
       [](const F& f) { return f[FE_EQTRUE] + f[FE_EQFALSE] > 0; }, false, true, false, true, true},
      {10, Profile::MODEL, all, plus(plus(plus(kCore, kTime), plus(kMulti, kHandles)), {{OP_WALK, 16}, {OP_ENDERR, 6}, {OP_H_CONV, 6}, {OP_H_CMP, 6}}), 6, 50,
       "histories with walks of all kinds after each step, conversions, comparisons, end iterators and writes; non-trivial: a walk or conversion on a non-empty cache",
       [](const F& f) { return f[FE_WALK] || f[FE_CONV]; }, false, true, true, false, false},
      {11, Profile::MODEL, all, plus(plus(plus(kCore, {{OP_ADVANCE, 2}}), kHandles), {{OP_H_TAKE, 10}, {OP_H_READ, 14}, {OP_H_STEP, 8}, {OP_FILL, 2}, {OP_INSERT, 10}, {OP_CAPACITY, 3}, {OP_STAT, 1}}), 10, 80,
       "tracked iterators and references read, written, stepped and compared over long histories, with growth; non-trivial: a tracked handle was read after a later operation",
       [](const F& f) { return f[FE_HREAD] > 0; }, false, true, true, false, false},
      {12, Profile::MODEL, all, plus(plus(plus(kCore, kTime), plus(kMulti, kHandles)), {{OP_STAT, 14}, {OP_LOOKUP, 20}, {OP_CB, 2}}), 6, 60,
       "histories with statistics attached; non-trivial: an access to a monitored cache",
       [](const F& f) { return f[FE_STATACC] > 0; }, false, false, true, false, true},
      {13, Profile::MODEL, all, plus(plus(plus(kCore, kTime), {{OP_CREATE, 4}, {OP_COPY_CTOR, 2}, {OP_DESTROY, 2}}), {{OP_STAT, 45}, {OP_LOOKUP, 20}}), 6, 60,
       "histories of attaching, sharing, replacing and stopping statistics and (un)monitoring and resetting keys; non-trivial: key monitoring was used or a shared object received an access",
       [](const F& f) { return f[FE_STATKEY] || f[FE_SHAREDACC]; }, false, false, false, false, true},
      {14, Profile::MODEL, all, plus(plus(plus(kCore, kTime), plus(kHandles, kRead)), {{OP_CB, 16}, {OP_LOOKUP, 20}, {OP_CREATE, 1}, {OP_COPY_CTOR, 1}, {OP_STAT, 2}}), 6, 60,
       "histories with registered callbacks; non-trivial: a callback had to be invoked",
       [](const F& f) { return f[FE_CBEV] > 0; }, false, false, true, false, true},
      {15, Profile::MODEL, timed_any, plus(plus(kCore, kMulti), {{OP_ADVANCE, 25}, {OP_SYSJUMP, 4}, {OP_CLEAR_EXPIRED, 2}, {OP_EXPQ, 2}, {OP_LOOKUP, 20}, {OP_INSERT, 10}}), 6, 60,
       "timed caches under a virtual clock moved to the edges of the time to live; non-trivial: an access to an expired key, a revival, or a clock moved to an edge",
       [](const F& f) { return f[FE_EXPMISS] || f[FE_REVIVE] || f[FE_BOUNDARY]; }, false, true, true, false, false},
      {16, Profile::MODEL, timed_any, plus(plus(plus(kCore, kMulti), kHandles), {{OP_ADVANCE, 25}, {OP_SYSJUMP, 1}, {OP_CLEAR_EXPIRED, 14}, {OP_EXPQ, 30}, {OP_H_VALID, 6}, {OP_ENDERR, 2}}), 6, 60,
       "timed caches whose recency order differs from the age order, expiry queries and clean-ups at the edges; non-trivial: an expiry query or a clean-up that removes some and keeps some",
       [](const F& f) { return f[FE_EXPQ] || f[FE_CLEAREXP]; }, false, true, true, false, false},
      {17, Profile::TIMED_TWIN, timed, plus(plus(plus(kCore, kMulti), plus(kHandles, kRead)), plus(plus(kStat, kCb), {{OP_ADVANCE, 8}, {OP_EXPQ, 3}, {OP_ENDERR, 1}})), 6, 60,
       "the same history on a timed and a basic cache, the clock moving up to the last instant at which nothing has expired; non-trivial: a hit, a miss and an eviction, erasure or update",
       [](const F& f) { return f[FE_HIT] && f[FE_MISS] && (f[FE_EVICT] || f[FE_ERASE] || f[FE_UPDATE]); }, false, false, true, false, true},
      {18, Profile::WRAP, {0}, {{OP_LOOKUP, 70}, {OP_CREATE, 10}, {OP_FILL, 3}, {OP_ADVANCE, 4}, {OP_BULK, 8}}, 6, 60,
       "several wrappers (same and different functions, signatures, capacities), calls with lvalue/const/rvalue arguments, throwing and recursive originals; non-trivial: a reused result and an evicted or recomputed one",
       [](const F& f) { return f[FE_HIT] && f[FE_MISS]; }, false, false, false, false, false},
      {19, Profile::WRAP, {1}, {{OP_LOOKUP, 60}, {OP_CREATE, 8}, {OP_FILL, 2}, {OP_ADVANCE, 25}, {OP_BULK, 5}}, 6, 60,
       "timed wrappers under a virtual clock moved to the edges of the time to live; non-trivial: a reused result and a result recomputed because of its age",
       [](const F& f) { return f[FE_HIT] && f[FE_EXPMISS]; }, false, false, false, false, false},
      {20, Profile::KEY_TWIN, tracked, plus(plus(plus(kCore, kMulti), plus(kHandles, kRead)), plus(plus(kStat, kCb), {{OP_FN, 2}, {OP_ADVANCE, 3}, {OP_EXPQ, 1}, {OP_CLEAR_EXPIRED, 1}})), 6, 60,
       "the same history with many spellings of equal keys, stateful and colliding functors, and on canonical keys under default functors; non-trivial: an access or erasure with a different spelling",
       [](const F& f) { return f[FE_SPELL] > 0; }, false, true, true, false, true},
      {21, Profile::MODEL, {2, 5, 2, 5, 1, 4}, plus(plus(plus(kCore, kTime), plus(kMulti, kHandles)), plus(plus(kStat, kCb), {{OP_WALK, 2}, {OP_COMPARE, 2}, {OP_ENDERR, 1}, {OP_COPY_CTOR, 3}, {OP_MOVE_ASSIGN, 3}, {OP_SWAP, 3}, {OP_DESTROY, 3}, {OP_FILL, 1}})), 8, 80,
       "histories of everything on several caches under ASan and UBSan with live-object and allocation accounting; non-trivial: at least one removal and one copy, move or swap",
       [](const F& f) { return (f[FE_ERASE] || f[FE_EVICT] || f[FE_CLEAR]) && (f[FE_COPY] || f[FE_MOVE] || f[FE_SWAP]); }, true, true, true, false, true},
      {22, Profile::MODEL, {2, 5, 2, 5, 1, 4, 0, 3}, plus(plus(kCore, {{OP_ADVANCE, 3}, {OP_COPY_CTOR, 1}, {OP_CREATE, 1}, {OP_H_TAKE, 1}, {OP_H_READ, 1}}), {{OP_INSERT, 40}, {OP_BULK, 24}, {OP_FILL, 1}}), 6, 50,
       "histories with a throwing construction, copy or move or a failing allocation armed at the n-th event of an insertion; non-trivial: the fault struck",
       [](const F& f) { return f[FE_FAULT] > 0; }, true, true, false, false, false},
      {23, Profile::MODEL, {2, 5, 2, 5, 2, 5, 1, 4}, plus(plus(kCore, {{OP_ADVANCE, 2}, {OP_COPY_CTOR, 1}}), {{OP_INSERT, 60}, {OP_BULK, 16}, {OP_CAPACITY, 3}}), 6, 50,
       "all emplacement and insertion forms with counted copies, aliasing arguments and moved-in ranges; non-trivial: a new insertion and a piecewise or aliasing one",
       [](const F& f) { return f[FE_INSERT] && (f[FE_PIECE] || f[FE_ALIAS] || f[FE_BULK]); }, false, true, false, false, false},
      {24, Profile::MODEL, {2, 5}, plus(plus(kCore, {{OP_ADVANCE, 2}, {OP_CREATE, 1}, {OP_COPY_CTOR, 1}, {OP_SWAP, 1}, {OP_H_TAKE, 1}, {OP_H_ERASE, 1}}), {{OP_FILL, 6}, {OP_LOOKUP, 40}, {OP_TUPLE, 1}}), 6, 50,
       "histories on caches filled up to thousands of entries, hash and equality calls counted per operation; non-trivial: an operation on a cache of at least 100 entries or a repeated access",
       [](const F& f) { return f[FE_BIG] || f[FE_FAST]; }, false, false, true, false, false},
      {26, Profile::MODEL, {2, 5, 2, 5, 2, 5, 1, 4, 0, 3, 9, 10}, plus(plus(kCore, plus(kStat, kCb)), {{OP_ADVANCE, 3}, {OP_SWAP, 1}, {OP_H_TAKE, 2}, {OP_H_READ, 2}, {OP_CREATE, 14}, {OP_COPY_CTOR, 12}, {OP_COPY_ASSIGN, 24}, {OP_ASSIGN, 14}, {OP_COMPARE, 2}}), 6, 50,
       "histories on several caches with a throwing copy or a failing allocation armed at the n-th event of a copy, of a construction from a range or of an assignment; non-trivial: the fault struck",
       [](const F& f) { return f[FE_FAULT] > 0; }, false, true, false, false, true},
      {25, Profile::OPT_TWIN, {0, 1, 4}, plus(plus(plus(kCore, kMulti), plus(kHandles, kRead)), plus(plus(kStat, kCb), plus(kTime, {{OP_ENDERR, 2}, {OP_H_COPY, 8}, {OP_H_CONV, 6}, {OP_H_CMP, 4}, {OP_H_TAKE, 6}}))), 6, 60,
       "the same history with the bundled optional and with std::optional; non-trivial: an iterator was read, converted or stepped",
       [](const F& f) { return f[FE_HREAD] || f[FE_CONV] || f[FE_STEP]; }, false, false, true, false, true},
  };
  for (auto& p : ps) if (p.prop == prop) return &p;
  return nullptr;
}

static void fill_cfg(const Profile& p, Rng& r, Cfg& c) {
  c.world = p.worlds[r.below(int(p.worlds.size()))];
  c.cap = r.below(10) ? r.below(10) : r.below(16);
  if (p.prop == 24 || p.prop == 11) c.cap = r.below(3) ? 13 + r.below(3) : r.below(16);
  c.ttl = r.below(3) == 0 ? 0 : r.below(20);
  c.ttlunit = r.below(7);
  c.keymode = r.below(4); c.valmode = r.below(2);
  static const int nk[] = {4, 6, 8, 12, 20, 3};
  c.nkeys = nk[r.below(6)];
  if (p.prop == 24 || p.prop == 11) c.nkeys = r.below(2) ? 40 : c.nkeys;
  c.nvals = p.smallvals ? 1 + r.below(4) : 1000;
  bool tr = c.world == 2 || c.world == 5;
  c.fn = tr ? (r.below(4) == 0 ? 0 : 1 + r.below(40)) : 0;
  if (p.prop == 20) c.fn = 1 + r.below(40);
  if (p.prop == 24) c.fn = 4 * r.below(20);
  c.spell = p.spell && tr && r.below(4) != 0;
  if (p.prop == 20) c.spell = 1;
  c.eqmode = c.spell && r.below(3) == 0;
  if (p.prop == 12 || p.prop == 13 || p.prop == 9) c.eqmode = 0;
  c.obs = r.below(4);
  c.obsmask = r.below(3) ? int(OB_ALL) : r.below(128);
  c.t0 = r.below(5);
  c.form = r.below(8);
}

namespace {
// Structured stretches: sequences that random operations rarely form.
struct Gen {
  const Profile& p;
  Rng& r;
  Scenario& s;
  const W& w;
  int total = 0;
  bool bigger;
  bool has(int kind) const { for (auto& x : w) if (x.first == kind && x.second > 0) return true; return false; }
  RawOp raw(int kind) {
    RawOp o;
    o.kind = kind;
    for (int j = 0; j < 9; ++j) o.p[j] = r.below(1 << 22);
    return o;
  }
  RawOp random() {
    int q = r.below(total), kind = 0;
    for (auto& x : w) { if (q < x.second) { kind = x.first; break; } q -= x.second; }
    RawOp o = raw(kind);
    if (kind == OP_FILL && bigger) o.p[1] = r.below(20) ? r.below(4) : 4 + r.below(2);
    if (p.prop == 26 && r.below(4)) { o.p[9] = r.below(1 << 22); o.p[10] = r.below(1 << 22); }
    if (kind == OP_INSERT || kind == OP_BULK) {
      bool fault = p.faults && (p.prop == 22 ? r.below(3) != 0 : r.below(8) == 0);
      if (!fault) o.p[7] = o.p[8] = 0;
      // plain insertions should be common
      if (kind == OP_INSERT && p.prop != 23 && r.below(3) == 0) o.p[2] = 0;
    }
    return o;
  }
  void add(const RawOp& o) { s.ops.push_back(o); }
  RawOp insert(int slot, int key) { RawOp o = raw(OP_INSERT); o.p[0] = slot; o.p[1] = key * 8; if (r.below(2)) o.p[2] = 0; o.p[3] = 0; o.p[4] = 1; o.p[7] = o.p[8] = 0; return o; }
  RawOp lookup(int slot, int key) { RawOp o = raw(OP_LOOKUP); o.p[0] = slot; o.p[1] = key * 8; o.p[3] = o.p[4] = 0; return o; }
  // the same operation over and over
  void repeat() {
    RawOp o = random();
    if (o.kind == OP_FILL || o.kind == OP_CREATE || o.kind == OP_DESTROY) o = raw(OP_LOOKUP);
    int n = r.below(5) ? 2 + r.below(7) : r.below(8) ? 10 + r.below(30) : 60 + r.below(80);
    if (n > 9 && o.kind != OP_LOOKUP && o.kind != OP_STAT) n = 9;
    for (int i = 0; i < n; ++i) add(o);
  }
  // many different keys in a row
  void load(int slot, int n) {
    int k0 = r.below(s.cfg.nkeys), step = 1 + r.below(3);
    for (int i = 0; i < n; ++i) add(insert(slot, (k0 + i * step) % s.cfg.nkeys));
  }
  // the same uses in another order on a cache and its copy, compared afterwards
  void permuted() {
    int a = r.below(NSLOTS), b = (a + 1 + r.below(NSLOTS - 1)) % NSLOTS;
    if (r.below(2)) load(a, 3 + r.below(16));
    RawOp c = raw(OP_COPY_CTOR);
    c.p[0] = b; c.p[1] = a;
    if (r.below(4)) add(c);
    int n = 2 + r.below(4), common = r.below(3);
    std::vector<int> keys;
    for (int i = 0; i < n + common; ++i) keys.push_back(r.below(s.cfg.nkeys));
    std::vector<int> other = keys;
    for (int i = n - 1; i > 0; --i) std::swap(other[i], other[r.below(i + 1)]);
    bool ins = r.below(3) == 0;
    for (int k : keys) add(ins ? insert(a, k) : lookup(a, k));
    for (int k : other) add(ins ? insert(b, k) : lookup(b, k));
    RawOp q = raw(OP_COMPARE);
    q.p[0] = a; q.p[1] = b;
    add(q);
    if (r.below(2)) { std::swap(q.p[0], q.p[1]); add(q); }
  }
  // many accesses to one key whose accesses are counted
  void burst() {
    int slot = r.below(NSLOTS), key = r.below(s.cfg.nkeys);
    RawOp a = raw(OP_STAT);
    a.p[0] = slot; a.p[1] = r.below(2) ? SF_ATTACH_NEW0 : SF_ATTACH_LV;
    if (r.below(2)) add(a);
    RawOp m = raw(OP_STAT);
    m.p[0] = slot; m.p[1] = SF_MONITOR; m.p[3] = key * 8; m.p[5] = 1;
    add(m);
    int n = r.below(3) ? 2 + r.below(20) : r.below(3) ? 20 + r.below(40) : 60 + r.below(90);
    int mode = r.below(4);   // as it comes, absent, present, changing
    if (mode == 1) { RawOp e = raw(OP_ERASE_KEY); e.p[0] = slot; e.p[1] = key * 8; e.p[3] = e.p[5] = 0; add(e); }
    if (mode == 2) add(insert(slot, key));
    for (int i = 0; i < n; ++i) {
      if (mode == 3 && r.below(6) == 0) { RawOp e = raw(OP_ERASE_KEY); e.p[0] = slot; e.p[1] = key * 8; e.p[3] = e.p[5] = 0; add(r.below(2) ? e : insert(slot, key)); }
      RawOp l = lookup(slot, key);
      if (mode == 1) while (true) { int f = ((l.p[2] % LF_N) + LF_N) % LF_N; if (f != LF_LOOKUP && f != LF_INDEX) break; l.p[2]++; }
      add(l);
    }
    RawOp q = raw(OP_STAT);
    q.p[0] = slot; q.p[1] = SF_QUERY; q.p[3] = key * 8; q.p[5] = 1;
    add(q);
  }
  // entries of several ages, the older ones partly used later, seen at the edge
  void ladder() {
    int slot = r.below(NSLOTS), steps = 2 + r.below(3);
    for (int i = 0; i < steps; ++i) {
      load(slot, 1 + r.below(4));
      RawOp t = raw(OP_ADVANCE);
      t.p[0] = slot; t.p[1] = 2;
      add(t);
      for (int u = r.below(3); u > 0; --u) add(lookup(slot, r.below(s.cfg.nkeys)));
      if (has(OP_H_TAKE) && r.below(2)) { RawOp h = raw(OP_H_TAKE); h.p[0] = slot; add(h); }
    }
    RawOp t = raw(OP_ADVANCE);
    t.p[0] = slot; t.p[1] = 3; t.p[2] = 2 + 4 * r.below(8);
    add(t);
    if (has(OP_EXPQ)) { RawOp e = raw(OP_EXPQ); e.p[0] = slot; add(e); }
    if (has(OP_CLEAR_EXPIRED) && r.below(4)) { RawOp e = raw(OP_CLEAR_EXPIRED); e.p[0] = slot; add(e); }
    if (has(OP_H_READ)) for (int u = r.below(4); u > 0; --u) add(raw(r.below(2) ? OP_H_READ : OP_H_STEP));
  }
};
}  // namespace

Scenario generate(const Profile& p, uint64_t seed) {
  Rng r(seed);
  Scenario s;
  s.prop = "C" + std::string(p.prop < 10 ? "0" : "") + std::to_string(p.prop);
  fill_cfg(p, r, s.cfg);
  W w = p.weights;
  bool wrap = p.kind == Profile::WRAP;
  if (!wrap) {
    // the ambient ones where the profile has nothing of the kind
    for (auto& x : kAmbient) {
      bool there = false;
      for (auto& y : w) there = there || y.first == x.first;
      if (!there) w.push_back(x);
    }
    // swarm: half of the cases drop some of the operation kinds
    if (r.below(2)) {
      for (auto& x : w) if (x.first != OP_INSERT && x.first != OP_LOOKUP && r.below(10) < 4) x.second = 0;
    }
    if (!p.big) for (auto& x : w) if (x.first == OP_FILL) x.second = 0;
    // twins of a copy, move or bulk operation: some cases against the model instead
    bool twin = p.kind == Profile::COPY_TWIN || p.kind == Profile::MOVE_TWIN || p.kind == Profile::BULK_TWIN;
    if (twin && r.below(4) == 0) {
      s.cfg.alt = 1;
      for (auto& x : kMulti) w.push_back({x.first, p.kind == Profile::BULK_TWIN ? 1 : x.second * 3});
    }
  }
  // some cases on big caches, some on medium ones, some long ones
  bool bigger = p.big && !wrap && p.prop != 11 && p.prop != 24 && r.below(30) == 0;
  bool medium = !bigger && !wrap && p.prop != 24 && r.below(6) == 0;
  if (bigger || medium) {
    if (bigger) w.push_back({OP_FILL, 8});
    s.cfg.cap = 11 + r.below(medium ? 3 : 5);
    s.cfg.nkeys = 40;
    if (s.cfg.fn && (s.cfg.fn & 3) && r.below(3)) s.cfg.fn = (s.cfg.fn & ~3) + 4;
  }
  Gen g{p, r, s, w, 0, bigger};
  for (auto& x : w) g.total += x.second;
  int len = p.minlen + r.below(p.maxlen - p.minlen + 1);
  if (r.below(3) == 0) len = p.minlen + r.below((p.maxlen - p.minlen) / 4 + 1);
  if (r.below(50) == 0) len *= 5;
  s.cfg.split = r.below(len) * 2 / 3;
  if (medium) { int n = 6 + r.below(30); g.load(0, n); if (r.below(2)) s.cfg.split += n; }
  bool structured = !wrap && r.below(2);
  bool counted = p.prop == 12 || p.prop == 13 || p.prop == 20 || p.prop == 17, many = p.prop == 9 || p.prop == 7;
  while (int(s.ops.size()) < len) {
    int q = structured ? r.below(100) : 99;
    if (q < 3) g.repeat();
    else if (counted && q > 96) g.burst();
    else if (q < (many ? 7 : 4)) g.permuted();
    else if (q < 8 && s.cfg.world >= 3 && s.cfg.world != 9) g.ladder();
    else g.add(g.random());
  }
  return s;
}

Scenario from_bytes(const Profile& p, const uint8_t* d, size_t n) {
  Scenario s;
  s.prop = "C" + std::string(p.prop < 10 ? "0" : "") + std::to_string(p.prop);
  size_t i = 0;
  auto byte = [&]() -> int { return i < n ? d[i++] : 0; };
  // Half of the inputs name a generated case and a list of changes to it.
  if (n && (d[0] & 1)) {
    uint64_t seed = 0;
    for (int k = 0; k < 4; ++k) seed = seed << 8 | uint64_t(byte());
    s = generate(p, mix(seed));
    while (i + 3 < n && !s.ops.empty()) {
      size_t at = size_t(byte()) % s.ops.size();
      int sel = byte() % 16, v = byte();
      v |= (byte() & 0x7f) << 8;
      RawOp& o = s.ops[at];
      if (sel >= 14 && p.prop == 26) o.p[sel - 5] = v;
      else if (sel < 9) { if (p.faults || sel != 7 || (o.kind != OP_INSERT && o.kind != OP_BULK)) o.p[sel] = v; }
      else if (sel == 9 && s.ops.size() < 400) { RawOp t = o; s.ops.insert(s.ops.begin() + v % int(s.ops.size() + 1), t); }
      else if (sel == 10) s.ops.erase(s.ops.begin() + long(at));
      else if (sel == 11) std::swap(o, s.ops[size_t(v) % s.ops.size()]);
      else if (sel == 12) s.cfg.split = v % int(s.ops.size() + 1);
      else if (sel == 13) s.ops.resize(at + 1);
    }
    return s;
  }
  Cfg& c = s.cfg;
  byte();
  c.world = p.worlds[byte() % p.worlds.size()];
  c.cap = byte() % 16; c.ttl = byte() % 20; c.ttlunit = byte() % 7;
  int b = byte();
  c.keymode = b & 3; c.valmode = (b >> 2) & 1; c.obs = (b >> 3) & 3; c.t0 = (b >> 5) % 5;
  c.nkeys = 2 + byte() % 20;
  c.nvals = p.smallvals ? 1 + byte() % 4 : 1000;
  bool tr = c.world == 2 || c.world == 5;
  b = byte();
  c.fn = tr ? b % 41 : 0;
  if (p.prop == 20) c.fn = 1 + b % 40;
  if (p.prop == 24) c.fn = 4 * (b % 20);
  b = byte();
  c.spell = p.prop == 20 ? 1 : (p.spell && tr && (b & 1));
  c.eqmode = c.spell && (b & 6) == 2;
  if (p.prop == 12 || p.prop == 13 || p.prop == 9) c.eqmode = 0;
  c.form = (b >> 4) & 7;
  c.obsmask = OB_ALL;
  c.split = byte() % 24;
  int total = 0;
  for (auto& x : p.weights) total += x.second;
  while (i + 1 < n && s.ops.size() < 120) {
    RawOp o;
    int q = byte() % std::min(total, 256);
    q = q * total / std::min(total, 256);
    for (auto& x : p.weights) { if (q < x.second) { o.kind = x.first; break; } q -= x.second; }
    for (int j = 0; j < 9; ++j) o.p[j] = byte();
    if (p.prop == 26) { o.p[9] = byte(); o.p[10] = byte(); }
    o.p[1] |= byte() << 8;
    o.p[2] |= byte() << 8;
    if (!p.faults) { if (o.kind == OP_INSERT || o.kind == OP_BULK) o.p[7] = 0; }
    if (o.kind == OP_FILL && !p.big) continue;
    s.ops.push_back(o);
  }
  return s;
}

uint64_t scenario_hash(const Scenario& sc) {
  std::string t = sc.text();
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : t) { h ^= c; h *= 1099511628211ULL; }
  return mix(h);
}

}  // namespace vf
