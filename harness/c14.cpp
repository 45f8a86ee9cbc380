// the synchronous timer against a simulated monotonic clock (clock_gettime is replaced in this process)
#include "h.h"
#include "apollo/Apollo.h"
#include "apollo/Timer.h"
#include <time.h>
#include <sys/time.h>
static long long mono_ns, real_ns, cpu_ns;
extern "C" int clock_gettime(clockid_t id, struct timespec *ts) noexcept
{
  long long v = id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_BOOTTIME ? mono_ns
                : id == CLOCK_REALTIME                                                    ? real_ns
                                                                                          : cpu_ns;
  ts->tv_sec = v / 1000000000LL;
  ts->tv_nsec = v % 1000000000LL;
  return 0;
}
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept
{
  tv->tv_sec = real_ns / 1000000000LL;
  tv->tv_usec = real_ns % 1000000000LL / 1000;
  return 0;
}
extern "C" time_t time(time_t *t) noexcept
{
  if (t) *t = real_ns / 1000000000LL;
  return real_ns / 1000000000LL;
}
static void tick(long long d)
{
  mono_ns += d;
  real_ns += (long long)(rnd() % 4000000000ull) - 2000000000LL;  // the wall clock is being adjusted
  cpu_ns += d / 3;
}
void run()
{
  std::vector<long long> gaps{0, 1, 999, 1000, 999999, 1000000, 500000000, 999999999, 1000000000, 1000000001,
                              1999999999, 59999999999LL, 3600000000000LL, 86400000000001LL};
  int rounds = vf_thorough ? 200000 : 20000;
  auto t = Apollo::Timer::create<Apollo::Timer::Sync>();
  auto other = Apollo::Timer::create<Apollo::Timer::Sync>();
  mono_ns = 1;
  real_ns = 1700000000000000000LL;
  cpu_ns = 5;
  long long b = 0, e = 0;
  bool started = false, stopped = false;
  for (int i = 0; i < rounds; ++i) {
    if (i % 1000 == 0) mono_ns = (long long)(rnd() % 5000000000000000ull);  // up to 58 days of uptime
    if (i % 1000 == 1) {
      t = Apollo::Timer::create<Apollo::Timer::Sync>();
      started = stopped = false;
    }
    int extra = rint_(0, 3);
    long long d = rnd() & 1 ? gaps[rnd() % gaps.size()] : (long long)(rnd() % 20000000000ull);
    // last start and last stop count
    t->start();
    b = mono_ns;
    if (extra == 1) {
      tick(rnd() % 3000000000ull);
      t->start();
      b = mono_ns;
    }
    if (extra == 2) {
      other->start();
      tick(12345);
      other->stop();
    }
    tick(d);
    t->stop();
    e = mono_ns;
    if (extra == 3) {
      tick(rnd() % 3000000000ull);
      t->stop();
      e = mono_ns;
    }
    CASE(fmt("start at %lld ns, stop at %lld ns", b, e));
    double m = -1, want = (e - b) / 1e9, tol = 1e-6 + 1e-12 * std::fabs(want);
    for (int r = 0; r < 3; ++r) {
      tick(r * 1000003LL);
      bool ok = t->isDone(m);
      CHECK(ok, "the metric is not available after stop");
      CHECK(std::fabs(m - want) <= tol, "metric %.12g s, expected %.12g s (reading %d)", m, want, r);
    }
    if (extra == 2) {
      double o;
      other->isDone(o);
      CHECK(std::fabs(o - 12345e-9) < 1e-6, "another timer reports %.12g", o);
    }
    tick(rnd() % 1000000);
  }
}
