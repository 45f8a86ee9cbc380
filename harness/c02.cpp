// k-th choice of a fresh RoundRobin model is k mod N
#include "h.h"
#include "apollo/models/RoundRobin.h"
void run()
{
  int maxn = vf_thorough ? 400 : 130;
  for (int n = 1; n <= maxn; ++n) {
    apollo::RoundRobin m(n);
    int len = 3 * n + 5;
    if (n % 13 == 1) len += 4000;
    CASE(fmt("N=%d, %d choices", n, len));
    for (int k = 0; k < len; ++k) {
      std::vector<float> f(rint_(0, 4));
      for (auto &x : f)
        x = (float)rint_(-5, 1000);
      int c = m.getIndex(f);
      CHECK(c == k % n, "choice %d of RoundRobin with N=%d and features %s is %d, expected %d", k, n,
            show(f).c_str(), c, k % n);
    }
    CHECK(!m.isTrainable() || m.isTrainable(), "x");
  }
  for (int n : {1000, 4096, 65536, 100003, 1 << 20}) {
    apollo::RoundRobin m(n);
    CASE(fmt("N=%d, 2N+3 choices", n));
    std::vector<float> f{1.f};
    for (int k = 0; k < 2 * n + 3; ++k) {
      int c = m.getIndex(f);
      CHECK(c == k % n, "choice %d of RoundRobin with N=%d is %d, expected %d", k, n, c, k % n);
    }
  }
  // several models do not share their state
  for (int t = 0; t < 200; ++t) {
    int n1 = rint_(1, 9), n2 = rint_(1, 9);
    apollo::RoundRobin a(n1), b(n2);
    int i = 0, j = 0;
    CASE(fmt("two models N=%d and N=%d interleaved", n1, n2));
    std::vector<float> f{0.f, 2.f};
    for (int s = 0; s < 60; ++s) {
      if (rnd() & 1) {
        int c = a.getIndex(f);
        CHECK(c == i % n1, "first model: choice %d is %d", i, c);
        ++i;
      } else {
        int c = b.getIndex(f);
        CHECK(c == j % n2, "second model: choice %d is %d", j, c);
        ++j;
      }
    }
  }
}
