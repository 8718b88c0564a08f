// libFuzzer entry: bytes -> scenario (from_bytes) -> run.
#include "engine.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/time.h>

using namespace vf;

namespace {
const Profile* g_profile;
int g_prop;
char* g_cur;
constexpr size_t kCur = 1 << 17;
}

void limit(int sec) {
  itimerval t{};
  t.it_value.tv_sec = sec;
  setitimer(ITIMER_VIRTUAL, &t, nullptr);
}

extern "C" int LLVMFuzzerInitialize(int*, char***) {
  const char* p = getenv("VF_PROP");
  if (!p) { fprintf(stderr, "VF_PROP is not set\n"); exit(3); }
  g_prop = atoi(p + 1);
  g_profile = profile(g_prop);
  const char* f = getenv("VF_SCENARIO");
  int fd = open(f ? f : "/dev/null", O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (f && fd >= 0 && ftruncate(fd, kCur) == 0) {
    g_cur = static_cast<char*>(mmap(nullptr, kCur, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    close(fd);
  }
  run_scenario(generate(*g_profile, 1), 99, false);
  g_virtual = false;
  return 0;
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
  Scenario sc = from_bytes(*g_profile, d, n);
  if (g_cur) { std::string t = sc.text(); size_t k = std::min(kCur - 1, t.size()); memcpy(g_cur, t.data(), k); g_cur[k] = 0; }
  limit(20);
  g_virtual = true;
  Outcome o = run_scenario(sc, g_prop, false);
  g_virtual = false;
  limit(0);
  if (o.bad) { fprintf(stderr, "FAILS: %s\n", o.msg.c_str()); abort(); }
  return 0;
}
