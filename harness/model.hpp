// Reference model: an independent, deliberately naive description of what the
// caches do, plus the total interpretation of raw operations.
#ifndef VERIF_MODEL_HPP
#define VERIF_MODEL_HPP
#include "core.hpp"
#include <array>
#include <climits>
#include <map>
#include <string>
#include <vector>

namespace vf {

constexpr uint64_t T(int n) { return uint64_t(1) << n; }

struct Cfg {
  int world = 0;
  int cap = 3;        // index into capacity table
  int ttl = 0;        // index into ttl table
  int ttlunit = 0;
  int keymode = 0, valmode = 0;
  int nkeys = 6, nvals = 1000;
  int fn = 0;         // functor state of slot 0 (tracked worlds)
  int eqmode = 0;
  int obs = 3;        // 0 none until the end, 1 sizes+forward, 2 full each step, 3 full only touched slots sparse
  int obsmask = OB_ALL;
  int t0 = 0;         // start of time selector
  int spell = 0;      // spelled keys allowed
  int split = 0;      // twin engines: where the prefix ends / form
  int form = 0;
  int alt = 0;        // compare with the model instead of a twin
};

struct Scenario {
  std::string prop;
  Cfg cfg;
  std::vector<RawOp> ops;
  std::string text() const;
  static bool parse(const std::string& s, Scenario& out);
};

struct EF { int f; long lo, hi; uint64_t tags; };
struct Expect {
  uint32_t exc = 1u << EX_NONE;
  uint64_t exc_tags = 0;
  std::vector<EF> f;
  std::vector<Event> events;
  bool fault = false;               // candidates of the model must be matched
  uint64_t optags = 0;              // properties an unexpected state after this op speaks to
  bool fields_only_if_no_exc = false;
  void add(int field, long v, uint64_t tags) { f.push_back({field, v, v, tags}); }
  void any(int field) { f.push_back({field, LONG_MIN, LONG_MAX, 0}); }
  void range(int field, long lo, long hi, uint64_t tags) { f.push_back({field, lo, hi, tags}); }
};

struct MEntry { long k, v; int64_t t; long id; };
struct MCache {
  bool alive = false;
  std::vector<MEntry> order;        // LRU first
  unsigned long cap = 0;
  int64_t ttl = 0;
  int stat = -1;                    // index of statistics object
  std::vector<std::pair<int, int>> cbs;  // id, type
  int fn = 0;
  long fast = -1;                   // key whose next access must not hash
  std::map<long, int> reason;       // why a key is absent
  uint64_t taint = 0;
  // insertions that may be expensive because the hash table grows (C24)
  unsigned long peak = 0; int growths = 24, odd = 3;
  void fresh_table() { peak = 0; growths = 24; }
  int find(long k) const { for (size_t i = 0; i < order.size(); ++i) if (order[i].k == k) return int(i); return -1; }
  int find_id(long id) const { for (size_t i = 0; i < order.size(); ++i) if (order[i].id == id) return int(i); return -1; }
};
struct MStats { unsigned long total = 0, hits = 0; std::map<long, std::pair<long, long>> keys; };
struct MHandle { bool set = false; int kind = 0, slot = -1; bool end = false; long id = 0; };

enum Feat : int {
  FE_EVICT, FE_HIT, FE_MISS, FE_UPDATE, FE_EXPMISS, FE_REVIVE, FE_ERASE, FE_ERASEMISS, FE_CLEAR, FE_COPY,
  FE_MOVE, FE_SWAP, FE_REORDER, FE_REORDEREVICT, FE_STATACC, FE_SHAREDACC, FE_CBEV, FE_BULK, FE_DUPBULK, FE_HREAD,
  FE_HSURVIVE, FE_FAULT, FE_FAST, FE_BIG, FE_EQTRUE, FE_EQFALSE, FE_BOUNDARY, FE_WRITE, FE_CONV,
  FE_SHRINK, FE_CLEAREXP, FE_EXPQ, FE_INSERT, FE_WALK, FE_STATKEY, FE_RESET, FE_ALIAS, FE_PIECE, FE_ZEROCAP,
  FE_LASTEXP, FE_SPELL, FE_ENDERR, FE_STEP, FE_EMPTYEX, FE_JUMP, FE_REPEAT, FE_MANYKEYS, FE_N
};
extern const char* const kFeatNames[FE_N];

class Model {
 public:
  Model(const WorldInfo& w, const Cfg& c);
  ROp resolve(const RawOp& r);
  // Updates the model by the operation and says what must have been observed.
  // `real` is only consulted where the property leaves the outcome open.
  void step(const ROp& op, const Res& real, Expect& e);
  bool expired(const MCache& c, const MEntry& e) const;
  int64_t boundary(const MCache& c, const MEntry& e, int kind) const;
  ROp initial() const;

  WorldInfo w;
  Cfg cfg;
  std::array<MCache, NSLOTS> s;
  std::vector<MStats> stats;
  std::array<int, NPOOL> pool;
  std::array<MHandle, NHANDLES> h;
  std::vector<std::vector<MEntry>> candidates;  // after a fault
  int fault_slot = 0;
  std::array<long, FE_N> feat{};
  long next_id = 1, next_val = 1;
  int next_cb = 1;
  int nh = NHANDLES;        // handles in use
  bool jump_ok = false;        // time may pass during a call
  bool unordered_ok = false;   // the unordered order of the real cache may be consulted

  unsigned long total_size() const { unsigned long n = 0; for (auto& c : s) if (c.alive) n += c.order.size(); return n; }
  bool handle_alive(int i) const;
  // Inserts into a state; returns 1 inserted, 0 updated.
  int put(MCache& c, long k, long v);

 private:
  int alive_slot(int p) const;
  int other_slot(int p, int notthis) const;
  long pick_key(const MCache& c, int p);
  unsigned long pick_cap(int p) const;
  int64_t pick_ttl(int i) const;
  long pick_val(int p);
  int pick_pos(const MCache& c, int p, bool end_ok) const;
  void access(MCache& c, long key, Expect& e, bool& live, long& val, int64_t back = 0, bool found = false);
  void kill_handles(int slot) { for (auto& x : h) if (x.slot == slot) x = MHandle(); }
  void evict_front(MCache& c, int why);
  void counts_many(Expect& e, const MCache& c, unsigned long n);
  void counts(Expect& e, const MCache& c, long kc_lo, long kc_hi, long vc_lo, long vc_hi, bool fast);
};

constexpr long kHashBound = 24;
constexpr long kEqBound = 64;

}  // namespace vf
#endif
