// Runs scenarios: engine E1 (against the model), E2 (twins), wrap.
#ifndef VERIF_ENGINE_HPP
#define VERIF_ENGINE_HPP
#include "model.hpp"

namespace vf {

struct Stop {};   // thrown to end a case early
struct Outcome {
  bool bad = false, skipped = false;
  std::string msg;
  std::array<long, FE_N> feat{};
  long steps = 0;
  long offtarget = 0;      // mismatches that speak to other properties only
};

// target: property number, or 0 for "any".
Outcome run_scenario(const Scenario& sc, int target, bool verbose);

struct Profile {
  int prop;
  enum Kind { MODEL, BULK_TWIN, COPY_TWIN, MOVE_TWIN, TIMED_TWIN, KEY_TWIN, OPT_TWIN, WRAP } kind;
  std::vector<int> worlds;             // worlds drawn from (first component of twins)
  std::vector<std::pair<int, int>> weights;
  int minlen, maxlen;
  const char* rule;
  bool (*nontrivial)(const std::array<long, FE_N>& f);
  bool faults, spell, big, smallvals, stats;
};
const Profile* profile(int prop);
uint64_t mix(uint64_t x);
Scenario generate(const Profile& p, uint64_t seed);
uint64_t scenario_hash(const Scenario& sc);
// For byte-driven exploration.
Scenario from_bytes(const Profile& p, const uint8_t* d, size_t n);

using WrapRunner = void (*)(const Scenario&, Outcome&, bool verbose);
WrapRunner& wrap_runner();

extern long g_live_allocs;
std::string describe(const ROp& o);
std::string describe(const Res& r);
void reset_globals(const Cfg& c);

}  // namespace vf
#endif
