// Shared pieces of the concrete harnesses: result file, random numbers, failure reports.
#ifndef VF_H
#define VF_H
#include <cfloat>
#include <climits>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <unordered_map>
#include <vector>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

static FILE *vf_out;
static long vf_cases, vf_distinct;
static bool vf_thorough;
static int vf_rank;
static uint64_t vf_s;
static std::string vf_case;
static std::set<uint64_t> vf_seen;

static inline uint64_t rnd()
{
  vf_s += 0x9e3779b97f4a7c15ull;
  uint64_t z = vf_s;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static inline int rint_(int lo, int hi) { return lo + (int)(rnd() % (uint64_t)((int64_t)hi - lo + 1)); }
static inline double runit() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }

static std::string fmt(const char *f, ...)
{
  char b[4096];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return b;
}
template <class V>
static std::string show(const V &v)
{
  std::ostringstream s;
  s.precision(17);
  s << "[";
  bool first = true;
  for (auto &x : v) {
    if (!first) s << " ";
    first = false;
    s << x;
  }
  s << "]";
  return s.str();
}
static void clean(std::string &s)
{
  for (auto &c : s)
    if (c == '\n') c = '|';
}
static void vf_crash(int sig)
{
  if (vf_out) {
    fprintf(vf_out, "FAIL signal %d (abort/crash) in case: %s\n", sig, vf_case.c_str());
    fflush(vf_out);
  }
  _exit(9);
}
// a new case: remembered for crash reports
static void CASE(std::string s)
{
  clean(s);
  vf_case = s;
  ++vf_cases;
  uint64_t h = std::hash<std::string>{}(s);
  if (vf_seen.size() < 2000000 && vf_seen.insert(h).second) ++vf_distinct;
  if (!vf_rank && (vf_cases <= 3 || vf_cases == 1000)) fprintf(vf_out, "SAMPLE %.300s\n", s.c_str());
}
static void FAIL(std::string s)
{
  clean(s);
  fprintf(vf_out, "FAIL %s; in case: %s\n", s.c_str(), vf_case.c_str());
  fflush(vf_out);
  fprintf(stderr, "FAIL %s; in case: %s\n", s.c_str(), vf_case.c_str());
  _exit(8);
}
#define CHECK(c, ...) \
  do {                \
    if (!(c)) FAIL(fmt(__VA_ARGS__)); \
  } while (0)
static int open_null_();
static int open_null() { return getenv("VF_VERBOSE") ? 0 : open_null_(); }
static int open_null_()
{
  if (!freopen("/dev/null", "w", stdout)) return 1;
  if (!freopen("/dev/null", "w", stderr)) return 1;
  return 0;
}
// runs f in a child; returns true when the child ends by f returning, false when it aborts, throws or crashes
static bool survives(std::function<void()> f)
{
  fflush(vf_out);
  pid_t p = fork();
  if (p == 0) {
    signal(SIGABRT, SIG_DFL);
    if (!getenv("VF_VERBOSE")) signal(SIGSEGV, SIG_DFL);
    int n = open_null();
    (void)n;
    try {
      f();
    } catch (...) {
      _exit(77);
    }
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (getenv("VF_VERBOSE")) fprintf(stderr, "child status %x\n", st);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 8) _exit(8);  // FAIL inside the child
  return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
void run();
int main(int argc, char **argv)
{
  vf_s = strtoull(argv[1], 0, 10) * 7919 + 17;
  vf_thorough = !strcmp(argv[2], "thorough");
  vf_rank = getenv("OMPI_COMM_WORLD_RANK") ? atoi(getenv("OMPI_COMM_WORLD_RANK")) : 0;
  vf_out = fopen(argv[3], getenv("OMPI_COMM_WORLD_RANK") ? "a" : "w");
  signal(SIGABRT, vf_crash);
  if (!getenv("VF_VERBOSE")) signal(SIGSEGV, vf_crash);
  signal(SIGBUS, vf_crash);
  signal(SIGFPE, vf_crash);
  try {
    run();
  } catch (std::exception &e) {
    FAIL(fmt("uncaught exception %s", e.what()));
  }
  if (!vf_rank) fprintf(vf_out, "CASES %ld %ld\n", vf_cases, vf_distinct);
  fflush(vf_out);
  _exit(0);
}
#endif
