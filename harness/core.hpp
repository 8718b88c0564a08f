// Common vocabulary of the harness: operations, results, the world interface.
#ifndef VERIF_CORE_HPP
#define VERIF_CORE_HPP
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <utility>
#include <vector>

namespace vf {

// ---------------------------------------------------------------- time
extern int64_t g_now_ns;      // what steady_clock::now() returns
extern bool g_virtual;         // the harness, not libFuzzer, asks for the time
extern int64_t g_sys_now_ns;  // what system_clock::now() returns
extern int g_jump_left;       // >0: after that many readings of steady_clock ...
extern int64_t g_jump_by;     // ... so much time passes

// ---------------------------------------------------------------- faults
// Countdown of fault points; 0 = disarmed.
extern bool g_fault_on;         // inside an armed cache call
extern int g_fault_obj;         // >0: throw Injected at the n-th key/value event
extern int g_fault_alloc;       // >0: throw bad_alloc at the n-th allocation
extern int g_fault_fired;
extern long g_fault_value;      // the value whose copy or move threw, or -1
extern long g_in_value;         // the value being copied, or -1
extern bool g_source_changed;   // a failed call has changed the range it was given
struct Injected {};             // what throwing keys/values throw

// ---------------------------------------------------------------- counters
struct Counters {
  long kcopy = 0, kmove = 0, vcopy = 0, vmove = 0, hash = 0, eq = 0, alloc = 0;
  long work = 0;   // functions entered (C24 only, whose worlds are instrumented)
};
extern Counters g_cnt;
extern bool g_count_on;         // inside a measured cache call
extern long g_live_keys, g_live_vals;  // live TK / TV objects
extern int g_tk_eq_mode;        // TK::operator==: 0 by class, 1 exact spelling

// ---------------------------------------------------------------- ops
enum Op : int {
  OP_LOOKUP, OP_INSERT, OP_ERASE_KEY, OP_ERASE_IT, OP_CLEAR, OP_SHRINK, OP_CAPACITY,
  OP_BULK, OP_ASSIGN, OP_CREATE, OP_COPY_CTOR, OP_COPY_ASSIGN, OP_MOVE_CTOR,
  OP_MOVE_ASSIGN, OP_SWAP, OP_DESTROY, OP_COMPARE, OP_WALK, OP_FILL,
  OP_H_TAKE, OP_H_READ, OP_H_WRITE, OP_H_STEP, OP_H_CMP, OP_H_CONV, OP_H_ERASE,
  OP_H_VALID, OP_H_COPY, OP_ADVANCE, OP_SYSJUMP, OP_EXPQ, OP_CLEAR_EXPIRED, OP_STAT,
  OP_CB, OP_FN, OP_FRONTBACK, OP_ENDERR, OP_SIZEQ, OP_TUPLE, OP_COUNT_
};
extern const char* const kOpNames[OP_COUNT_];

// In a cache whose functors tell spellings apart, spelling s of key c is the key c + kSpell * s.
constexpr long kSpell = 100000;

// Raw operation as generated, shrunk and stored: plain integers.
struct RawOp {
  int kind = 0;
  static constexpr int NP = 11;
  int p[NP] = {0};
};

// lookup forms
enum { LF_CONTAINS, LF_FIND, LF_LOOKUP, LF_INDEX, LF_CCONTAINS, LF_CFIND, LF_CLOOKUP, LF_CINDEX, LF_N };
// insert forms
enum {
  IF_INSERT, IF_INSERT_ALIASKEY, IF_INSERT_ALIASVAL, IF_INSERT_ALIASBOTH, IF_EMPLACE_LL,
  IF_EMPLACE_RR, IF_EMPLACE_PIECE, IF_EMPLACE_RL, IF_EMPLACE_ALIASVAL, IF_EMPLACE_PIECE_RR,
  IF_INSERT_TEMP, IF_EMPLACE_PIECE_DEFAULT, IF_EMPLACE_CONST, IF_EMPLACE_ALIASBOTH, IF_EMPLACE_RAW, IF_N
};
// range sources
enum {
  RS_LVEC, RS_CVEC, RS_RVEC, RS_ITVEC, RS_ITLIST, RS_INIT, RS_LLIST, RS_RLIST, RS_LMAP,
  RS_OTHER_ORDERED, RS_CITVEC, RS_FWD, RS_PTR, RS_RITER, RS_LCP, RS_ITCP, RS_INPUT, RS_CONV, RS_LCONV, RS_OTHER_UNORD, RS_OTHER_CACHE, RS_N
};
// iterator kinds
enum { IK_U, IK_UC, IK_O, IK_OC, IK_REF, IK_CREF, IK_N };
// create forms
enum { CF_CAP, CF_DEFAULT, CF_CAP_RANGE, CF_RANGE, CF_FN };
// stat forms
enum {
  SF_ATTACH_LV, SF_ATTACH_RV, SF_ATTACH_NEW0, SF_ATTACH_NEWKEYS, SF_STOP, SF_ISMON, SF_STATS,
  SF_MONITOR, SF_UNMONITOR, SF_UNMONITOR_ALL, SF_RESET_KEY, SF_RESET_ALL, SF_QUERY, SF_NEWPOOL, SF_ATTACH_NULL, SF_SHARED, SF_N
};
// callback forms
enum { CB_HIT, CB_MISS, CB_ACCESS, CB_CLEAR_HIT, CB_CLEAR_MISS, CB_CLEAR_ACCESS, CB_CLEAR_ALL, CB_N };
// expiry queries
enum { EQ_ALL, EQ_KEY, EQ_IT, EQ_VALID, EQ_THROW, EQ_READ, EQ_N };

// Resolved operation: everything spelled out, independent of any model.
struct ROp {
  int kind = 0;
  int slot = 0, slot2 = 0;
  long key = 0;
  int spell = 0;
  long val = 0;
  int form = 0;        // sub-form of the operation
  int it = 0;          // iterator kind
  int pos = -1;        // position in order (LRU = 0), -1 = end
  int pos2 = -1;
  long n = 0;          // sizes, capacities, counts
  int flag = 0, flag2 = 0;
  int64_t t = 0;       // durations
  int fnstate = 0;
  int h = 0, h2 = 0;   // handles
  int fault_kind = 0, fault_at = 0;
  int rep = 0;         // the same call is made that many times before
  int jump_at = 0;     // time t passes during the call, after that many readings of the clock
  std::vector<std::pair<long, long>> items;
  std::vector<int> spells;
  std::vector<long> keys;
};

// ---------------------------------------------------------------- results
enum Exc : int {
  EX_NONE = 0, EX_KEYNOTFOUND, EX_KEYEXPIRED, EX_INVALIDITERATOR, EX_INVALIDCONV,
  EX_UNMONITORED, EX_NOTMONITORING, EX_EMPTY, EX_INJECTED, EX_BADALLOC, EX_STD, EX_OTHER
};
extern const char* const kExcNames[];

enum Field : int {
  F_FOUND, F_KEY, F_VAL, F_INSERTED, F_ITEND, F_ITKEY, F_ITVAL, F_COUNT, F_ERASED, F_ARGS,
  F_MOVED, F_KCOPY, F_VCOPY, F_NHASH, F_NEQ, F_SIZE, F_CAP, F_SPACE, F_EMPTY, F_FULL, F_EQ,
  F_NE, F_AGREE, F_WALK, F_SUBEXC, F_HFN, F_EFN, F_ISMON, F_TOTAL, F_HITS, F_MISSES,
  F_KHITS, F_KMISSES, F_NMON, F_RATE, F_SAMEPTR, F_MOVEDFROM, F_EXPIRED, F_VALID, F_GUARD,
  F_NCB, F_STEP, F_SELF, F_WORK, F_NEXPENSIVE, F_NFIELDS
};
extern const char* const kFieldNames[F_NFIELDS];

struct Res {
  int exc = EX_NONE;
  int fired = 0;
  std::vector<std::pair<int, long>> f;
  void add(int field, long v) { f.emplace_back(field, v); }
  long get(int field, long dflt = -1) const {
    for (auto& x : f) if (x.first == field) return x.second;
    return dflt;
  }
};

struct Event {
  int cb; int type; long key; long val;
  bool operator<(const Event& o) const {
    return std::tie(cb, type, key, val) < std::tie(o.cb, o.type, o.key, o.val);
  }
  bool operator==(const Event& o) const {
    return cb == o.cb && type == o.type && key == o.key && val == o.val;
  }
};

using KV = std::vector<std::pair<long, long>>;

enum { OB_FWD = 1, OB_BWD = 2, OB_CFWD = 4, OB_UNORD = 8, OB_CUNORD = 16, OB_SIZES = 32, OB_ENDS = 64, OB_ALL = 127 };

struct Obs {
  bool alive = false;
  KV fwd, bwd, cfwd, unord, cunord;
  bool truncated = false;     // a walk did not end
  long size = 0, cap = 0, space = 0, empty = 0, full = 0;
  int front_exc = 0, back_exc = 0;
  long front = -1, back = -1;
  bool has_ends = false;
};

struct StatObs { bool alive = false; unsigned long total = 0, hits = 0, misses = 0, nkeys = 0; double hr = 0, mr = 0; };

constexpr long kWorkBound = 2000;   // functions entered by one single-key operation
constexpr int NSLOTS = 3;
constexpr int NPOOL = 3;
constexpr int NHANDLES = 6;

struct WorldInfo {
  bool timed = false;
  bool tracked = false;       // TK/TV with weird functors
  int64_t tick_ns = 1;        // resolution of the duration type
  bool floating = false;
  const char* name = "";
};

struct WorldCfg {
  int keymode = 0, valmode = 0, hashmode = 0;
};

class IWorld {
 public:
  virtual ~IWorld() = default;
  virtual WorldInfo info() const = 0;
  virtual Res run(const ROp& op) = 0;
  virtual void observe(int slot, int mask, Obs& out) = 0;
  virtual StatObs stat(int pool) = 0;
  virtual bool stat_key(int pool, long key, long& h, long& m) = 0;
  virtual std::vector<Event> drain() = 0;
};

using WorldFactory = std::unique_ptr<IWorld> (*)(const WorldCfg&);
constexpr int NWORLDS = 12;
WorldFactory& world_factory(int id);

}  // namespace vf
#endif
