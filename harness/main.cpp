// Command line of the harness.
//   run    PROP SEED START COUNT CURFILE OUTFILE HASHFILE   cases START..START+COUNT-1
//   replay FILE [-v]                                        exit 0 held, 1 violated
//   shrink FILE OUT SECONDS                                 smaller failing scenario
//   gen    PROP SEED INDEX                                  prints a case
#include "engine.hpp"
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <new>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

// ------------------------------------------------------------ virtual clocks
namespace std { namespace chrono { inline namespace _V2 {
#ifdef VF_FUZZ
// libFuzzer has its own time.
static int64_t real_ns(clockid_t c) { timespec t; clock_gettime(c, &t); return t.tv_sec * 1000000000LL + t.tv_nsec; }
#endif
steady_clock::time_point steady_clock::now() noexcept {
#ifdef VF_FUZZ
  if (!vf::g_virtual) return time_point(duration(real_ns(CLOCK_MONOTONIC)));
#endif
  time_point t{duration(vf::g_now_ns)};
  if (vf::g_jump_left > 0 && --vf::g_jump_left == 0) vf::g_now_ns += vf::g_jump_by;
  return t;
}
system_clock::time_point system_clock::now() noexcept {
#ifdef VF_FUZZ
  if (!vf::g_virtual) return time_point(duration(real_ns(CLOCK_REALTIME)));
#endif
  return time_point(duration(vf::g_sys_now_ns));
}
} } }

// ---------------------------------------------------------------- allocation
static void* do_alloc(std::size_t n) {
  using namespace vf;
  if (g_count_on) ++g_cnt.alloc;
  if (g_fault_on && g_fault_alloc > 0 && --g_fault_alloc == 0) { ++g_fault_fired; g_fault_value = g_in_value; throw std::bad_alloc(); }
  if (n > (std::size_t(1) << 34)) throw std::bad_alloc();
  void* p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  ++g_live_allocs;
  return p;
}
static void do_free(void* p) noexcept { if (p) { --vf::g_live_allocs; std::free(p); } }
void* operator new(std::size_t n) { return do_alloc(n); }
void* operator new[](std::size_t n) { return do_alloc(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { try { return do_alloc(n); } catch (...) { return nullptr; } }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { try { return do_alloc(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { do_free(p); }
void operator delete[](void* p) noexcept { do_free(p); }
void operator delete(void* p, std::size_t) noexcept { do_free(p); }
void operator delete[](void* p, std::size_t) noexcept { do_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_free(p); }

extern "C" const char* __asan_default_options() {
  return "exitcode=77:detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=4096:malloc_fill_byte=190:"
         "detect_stack_use_after_return=0:handle_abort=0:hard_rss_limit_mb=2500:quarantine_size_mb=64:malloc_context_size=12:detect_container_overflow=1";
}
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:exitcode=78:print_stacktrace=1"; }

// What the instrumented worlds of C24 call on entering a function.
extern "C" void __cyg_profile_func_enter(void*, void*) { if (vf::g_count_on) ++vf::g_cnt.work; }
extern "C" void __cyg_profile_func_exit(void*, void*) {}

using namespace vf;

static int prop_number(const char* s) {
  if (!strcmp(s, "ANY")) return 0;
  return atoi(s[0] == 'C' ? s + 1 : s);
}
static std::string slurp(const char* f) {
  std::ifstream i(f);
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}
static void cpu_alarm(int sec) {
  itimerval t{};
  t.it_value.tv_sec = sec;
  setitimer(ITIMER_VIRTUAL, &t, nullptr);
}
constexpr int kCpuLimit = 20;

struct Cur {
  char* p = nullptr; size_t n = 1 << 17;
  explicit Cur(const char* f) {
    int fd = open(f, O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, off_t(n))) { perror(f); exit(3); }
    p = static_cast<char*>(mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    close(fd);
  }
  void set(const std::string& s) { size_t k = std::min(n - 1, s.size()); memcpy(p, s.data(), k); p[k] = 0; }
};

static std::string json(const std::string& s) {
  std::string o = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (static_cast<unsigned char>(c) < 32) o += ' ';
    else o += c;
  }
  return o + "\"";
}

static int cmd_run(char** a) {
  int prop = prop_number(a[0]);
  int target = prop;
  if (const char* t = getenv("VF_TARGET")) target = prop_number(t);
  const Profile* pr = profile(prop);
  if (!pr) return 3;
  uint64_t seed = strtoull(a[1], nullptr, 10), start = strtoull(a[2], nullptr, 10), count = strtoull(a[3], nullptr, 10);
  Cur cur(a[4]);
  std::unordered_set<uint64_t> hashes;
  std::array<long, FE_N> feat{}, cases{};
  long evals = 0, nontrivial = 0, steps = 0, off = 0;
  std::vector<std::string> samples;
  std::string failure, fail_text;
  run_scenario(generate(*pr, mix(seed) ^ mix(uint64_t(prop) << 40)), prop, false);   // warm-up: statics
  for (uint64_t i = start; i < start + count; ++i) {
    Scenario sc = generate(*pr, mix(mix(seed) ^ (uint64_t(prop) << 40)) + i * 0x9e3779b97f4a7c15ULL);
    cur.set(sc.text());
    cpu_alarm(kCpuLimit);
    Outcome o = run_scenario(sc, target, false);
    if (o.skipped) continue;
    ++evals;
    steps += o.steps; off += o.offtarget;
    for (int f = 0; f < FE_N; ++f) { feat[f] += o.feat[f]; cases[f] += o.feat[f] > 0; }
    if (o.bad) { failure = o.msg; fail_text = sc.text(); break; }
    if (pr->nontrivial(o.feat)) {
      ++nontrivial;
      hashes.insert(scenario_hash(sc));
      if (samples.size() < 3 && sc.ops.size() < 14) samples.push_back(sc.text());
    }
  }
  cpu_alarm(0);
  cur.set("");
  {
    std::ofstream h(a[6], std::ios::binary);
    for (uint64_t x : hashes) h.write(reinterpret_cast<const char*>(&x), 8);
  }
  std::ofstream o(a[5]);
  o << "{\"evaluations\":" << evals << ",\"nontrivial\":" << nontrivial << ",\"steps\":" << steps << ",\"offtarget\":" << off
    << ",\"rule\":" << json(pr->rule) << ",\"features\":{";
  for (int f = 0; f < FE_N; ++f) o << (f ? "," : "") << '"' << kFeatNames[f] << "\":[" << feat[f] << ',' << cases[f] << ']';
  o << "},\"samples\":[";
  for (size_t i = 0; i < samples.size(); ++i) o << (i ? "," : "") << json(samples[i]);
  o << "],\"failure\":" << json(failure) << ",\"scenario\":" << json(fail_text) << "}\n";
  return failure.empty() ? 0 : 1;
}

static int replay_target(const Scenario& sc) {
  if (const char* t = getenv("VF_TARGET")) return prop_number(t);
  return prop_number(sc.prop.c_str());
}

static int cmd_replay(const char* file, bool verbose) {
  Scenario sc;
  if (!Scenario::parse(slurp(file), sc)) { fprintf(stderr, "cannot parse %s\n", file); return 3; }
  const Profile* pr = profile(prop_number(sc.prop.c_str()));
  if (pr) run_scenario(generate(*pr, 1), 99, false);
  cpu_alarm(kCpuLimit);
  setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
  Outcome o = run_scenario(sc, replay_target(sc), verbose);
  if (o.bad) { printf("FAILS: %s\n", o.msg.c_str()); return 1; }
  printf("HOLDS (%ld steps)\n", o.steps);
  return 0;
}

static int trial(const Scenario& sc, int target) {   // 0 holds
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1); dup2(fd, 2);
    cpu_alarm(kCpuLimit);
    Outcome o = run_scenario(sc, target, false);
    _exit(o.bad ? 1 : 0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFEXITED(st)) return WEXITSTATUS(st);
  return 128 + WTERMSIG(st);
}

static int cmd_shrink(const char* file, const char* outf, int seconds) {
  Scenario sc;
  if (!Scenario::parse(slurp(file), sc)) return 3;
  int target = replay_target(sc);
  const Profile* pr = profile(prop_number(sc.prop.c_str()));
  if (pr && !getenv("VF_NOWARM")) {
    // statics of the library must not be warmed by a run that may crash
  }
  timeval t0{}, t1{};
  gettimeofday(&t0, nullptr);
  long trials = 0;
  auto left = [&] { gettimeofday(&t1, nullptr); return t1.tv_sec - t0.tv_sec < seconds; };
  auto fails = [&](const Scenario& s) { ++trials; return trial(s, target) != 0; };
  auto save = [&] { std::ofstream o(outf); o << sc.text(); };
  if (!fails(sc)) { fprintf(stderr, "does not fail\n"); return 2; }
  save();
  bool changed = true;
  while (changed && left()) {
    changed = false;
    for (size_t chunk = std::max<size_t>(1, sc.ops.size() / 2); chunk >= 1 && left(); chunk /= 2) {
      for (size_t i = 0; i + chunk <= sc.ops.size() && left();) {
        Scenario t = sc;
        t.ops.erase(t.ops.begin() + long(i), t.ops.begin() + long(i + chunk));
        if (int(i) < sc.cfg.split) t.cfg.split = std::max(0, sc.cfg.split - int(std::min<size_t>(chunk, size_t(sc.cfg.split) - i)));
        if (fails(t)) { sc = t; changed = true; save(); } else i += chunk;
      }
      if (chunk == 1) break;
    }
    int* cf[] = {&sc.cfg.ttl, &sc.cfg.ttlunit, &sc.cfg.keymode, &sc.cfg.valmode, &sc.cfg.eqmode, &sc.cfg.spell, &sc.cfg.t0, &sc.cfg.obs, &sc.cfg.cap, &sc.cfg.fn, &sc.cfg.form};
    for (int* f : cf) {
      for (int v : {0, 1, 2}) {
        if (*f == v || !left()) break;
        int old = *f;
        *f = v;
        if (fails(sc)) { changed = true; save(); break; }
        *f = old;
      }
    }
    for (size_t i = 0; i < sc.ops.size(); ++i) {
      for (int j = 0; j < RawOp::NP; ++j) {
        int old = sc.ops[i].p[j];
        if (old == 0) continue;
        bool done = false;
        for (int v : {0, 1, 2, 3, 4, old % 8, old % 64, old % 720, old / 16}) {
          if (!left()) break;
          if (v >= old || v < 0) continue;
          sc.ops[i].p[j] = v;
          if (fails(sc)) { changed = true; done = true; save(); break; }
          sc.ops[i].p[j] = old;
        }
        if (!done) sc.ops[i].p[j] = old;
      }
    }
  }
  save();
  fprintf(stderr, "%ld trials, %zu operations left\n", trials, sc.ops.size());
  return 1;
}

#ifndef VF_FUZZ
int main(int c, char** v) {
  if (c >= 9 && !strcmp(v[1], "run")) return cmd_run(v + 2);
  if (c >= 3 && !strcmp(v[1], "replay")) return cmd_replay(v[2], c > 3);
  if (c >= 5 && !strcmp(v[1], "shrink")) return cmd_shrink(v[2], v[3], atoi(v[4]));
  if (c >= 5 && !strcmp(v[1], "gen")) {
    const Profile* p = profile(prop_number(v[2]));
    uint64_t seed = strtoull(v[3], nullptr, 10), i = strtoull(v[4], nullptr, 10);
    fputs(generate(*p, mix(mix(seed) ^ (uint64_t(p->prop) << 40)) + i * 0x9e3779b97f4a7c15ULL).text().c_str(), stdout);
    return 0;
  }
  fprintf(stderr, "usage\n");
  return 3;
}
#endif
