// datasets: a model keyed by (features, policy) followed operation by operation
#include "h.h"
#include "apollo/Dataset.h"
typedef std::pair<std::vector<float>, int> K;
typedef std::map<K, double> M;
static void rec(M &m, const K &k, double v)
{
  auto it = m.find(k);
  if (it == m.end())
    m[k] = v;
  else
    it->second = .5 * it->second + .5 * v;
}
static bool close(double a, double b) { return a == b || std::fabs(a - b) <= 1e-12 * (std::fabs(a) + std::fabs(b)); }
static void same(Apollo::Dataset &d, const M &m, const char *what)
{
  CHECK(d.size() == m.size(), "%s: size %zu, expected %zu", what, d.size(), m.size());
  auto l = d.toVectorOfTuples();
  CHECK(l.size() == m.size(), "%s: %zu entries listed, expected %zu", what, l.size(), m.size());
  M seen;
  for (auto &t : l) {
    K k(std::get<0>(t), std::get<1>(t));
    CHECK(!seen.count(k), "%s: pair %s/%d listed twice", what, show(k.first).c_str(), k.second);
    seen[k] = std::get<2>(t);
    auto it = m.find(k);
    CHECK(it != m.end(), "%s: unknown pair %s/%d", what, show(k.first).c_str(), k.second);
    CHECK(close(it->second, std::get<2>(t)), "%s: pair %s/%d has metric %.17g, expected %.17g", what,
          show(k.first).c_str(), k.second, std::get<2>(t), it->second);
  }
}
static double metric()
{
  switch (rint_(0, 7)) {
    case 0: return 0;
    case 1: return 1e-300 * rint_(1, 9);
    case 2: return 1e300 * runit();
    case 3: return -runit();
    default: return rint_(0, 1000) * 0.125 + runit();
  }
}
static std::vector<float> feat(int nf)
{
  static const float sp[] = {0.f, -1.f, 1.f, 1e30f, -1e30f, 0.5f, 3.f, 16777217.f};
  std::vector<float> f(nf);
  for (auto &x : f)
    x = rint_(0, 3) ? (float)rint_(-2, 3) : sp[rint_(0, 7)];
  return f;
}
void run()
{
  int rounds = vf_thorough ? 6000 : 800;
  for (int it = 0; it < rounds; ++it) {
    Apollo::Dataset d[2];
    M m[2];
    std::string h;
    int ops = rint_(1, it % 50 == 0 ? 400 : 40), nfmax = rint_(0, 3), pol = rint_(1, it % 10 ? 4 : 70000);
    for (int o = 0; o < ops; ++o) {
      int w = rint_(0, 1), op = rint_(0, 19);
      if (op < 16) {
        auto f = feat(rint_(0, nfmax)), g = f;
        int p = rint_(0, pol);
        double v = metric();
        if (h.size() < 600) h += fmt("insert%d(%s,%d,%.17g) ", w, show(f).c_str(), p, v);
        CASE(h);
        bool nw = !m[w].count(K(g, p));
        size_t s0 = d[w].size();
        d[w].insert(f, p, v);
        rec(m[w], K(g, p), v);
        CHECK(d[w].size() == s0 + (nw ? 1 : 0), "size %zu after recording a %s pair, was %zu", d[w].size(),
              nw ? "new" : "known", s0);
      } else if (op < 19) {
        h += fmt("merge%d<-%d ", w, 1 - w);
        CASE(h);
        d[w].insert(d[1 - w]);
        for (auto &e : m[1 - w])
          rec(m[w], e.first, e.second);
      } else {
        h += fmt("clear%d ", w);
        CASE(h);
        d[w].clear();
        m[w].clear();
      }
      same(d[w], m[w], "target");
      same(d[1 - w], m[1 - w], "other dataset");
    }
  }
}
