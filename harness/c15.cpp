// PolicyNet against an independent network, over random histories of trainings, loads and choices
#include "h.h"
#include "apollo/Apollo.h"
#include "apollo/Dataset.h"
#include "apollo/models/PolicyNet.h"
#include "policynet.h"
typedef std::vector<std::tuple<std::vector<float>, int, double>> Batch;
template <class P>
static auto cached(P &p, std::vector<std::vector<double>> &out, int) -> decltype((void)p.actionProbabilityMap.begin()->second.size(), true)
{
  for (auto &e : p.actionProbabilityMap)
    out.push_back(std::vector<double>(e.second.begin(), e.second.end()));
  return true;
}
template <class P>
static bool cached(P &, std::vector<std::vector<double>> &, long)
{
  return false;
}
static bool same(const std::vector<double> &a, const std::vector<double> &b)
{
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (!(std::fabs(a[i] - b[i]) < 1e-6)) return false;
  return true;
}
static std::vector<float> feats(int nf, int kind)
{
  std::vector<float> f;
  for (int i = 0; i < nf; ++i)
    f.push_back(kind == 0 ? rint_(1, 4) : kind == 1 ? rint_(1, 1 << 20) : (float)(1ull << rint_(0, 62)) + 1.f);
  return f;
}
static void history(int t)
{
  int nf = rint_(1, 2), np = rint_(1, 6);
  double lr = std::vector<double>{.01, .5, 5}[rint_(0, 2)], beta = rint_(0, 1) ? .5 : .25, b1 = rint_(0, 1) ? .5 : .3,
         b2 = rint_(0, 1) ? .9 : .7, th = rint_(0, 3) ? 0 : .4;
  std::string h = fmt("%d features %d policies lr %g beta %g %g %g threshold %g:", nf, np, lr, beta, b1, b2, th);
  apollo::PolicyNet pn(np, nf, lr, beta, b1, b2, th);
  Net3 ref, now;
  ref.shape(nf, np);
  now.shape(nf, np);
  pn.store("p.bin");
  CASE(h);
  CHECK(ref.read("p.bin"), "the stored parameters do not have the expected layer sizes");
  std::vector<std::vector<float>> asked;
  std::vector<std::vector<float>> pool;
  for (int i = 0; i < 4; ++i)
    pool.push_back(feats(nf, rint_(0, 2)));
  int ops = rint_(4, 12);
  for (int o = 0; o < ops; ++o) {
    int op = rint_(0, 9);
    if (op < 4) {
      int B = rint_(0, 2) ? rint_(1, 4) : rint_(1, 24);
      Apollo::Dataset d;
      for (int i = 0; i < B; ++i) {
        auto f = rint_(0, 1) ? pool[rint_(0, 3)] : feats(nf, rint_(0, 2));
        d.insert(f, rint_(0, np - 1), .05 * rint_(1, 60));
      }
      Batch b = d.toVectorOfTuples();
      h += fmt(" train on %zu;", b.size());
      CASE(h);
      pn.train(d);
      ref.train(b, lr, beta, b1, b2, th);
      asked.clear();
      if (ref.kink) return;
    } else if (op == 4) {
      // another network: same weights, another preferred policy
      pn.store("q.bin");
      Net3 q;
      q.shape(nf, np);
      q.read("q.bin");
      int fav = rint_(0, np - 1);
      for (int j = 0; j < np; ++j)
        q.b[2][j] = j == fav ? 400 + rint_(0, 9) : -400 - j;
      for (auto &w : q.w[rint_(0, 2)])
        w += .01 * runit();
      q.write("q.bin");
      h += fmt(" load a network preferring %d;", fav);
      CASE(h);
      pn.load("q.bin");
      ref.w[0] = q.w[0], ref.w[1] = q.w[1], ref.w[2] = q.w[2];
      ref.b[0] = q.b[0], ref.b[1] = q.b[1], ref.b[2] = q.b[2];
      ref.rma = q.rma;
      ref.tc = q.tc;
      asked.clear();
    } else {
      auto f = pool[rint_(0, 3)];
      h += " choose for " + show(f) + ";";
      CASE(h);
      auto g = f;
      int c = pn.getIndex(g);
      CHECK(g == f, "choosing changed the features");
      CHECK(0 <= c && c < np, "chose %d of %d", c, np);
      double base = ref.tc > 0 ? ref.rma / (1 - std::pow(beta, ref.tc)) : 0;
      if (base < th) {
        CHECK(c == 0, "below the threshold policy 0 is chosen, got %d", c);
        continue;
      }
      auto p = ref.probs(f);
      CHECK(p[c] > 1e-12, "chose policy %d, which the current network gives probability %g", c, p[c]);
      asked.push_back(f);
      std::vector<std::vector<double>> m;
      if (cached(pn, m, 0)) {
        bool any = false;
        for (auto &v : m) {
          bool ok = false;
          for (auto &a : asked)
            ok = ok || same(v, ref.probs(a));
          CHECK(ok, "probabilities %s are those of no feature vector asked since the last training or loading, e.g. %s",
                show(v).c_str(), show(p).c_str());
          any = any || same(v, p);
        }
        CHECK(any, "the probabilities used are not those of the current network");
      }
    }
    pn.store("p.bin");
    CHECK(now.read("p.bin"), "the stored file has another size");
    std::string e = now.diff(ref, lr);
    CHECK(e == "", "the parameters differ from the reference: %s", e.c_str());
    // keep the two in step, so that rounding does not accumulate
    for (int l = 0; l < 3; ++l)
      ref.w[l] = now.w[l], ref.b[l] = now.b[l];
  }
}
void run()
{
  int n = vf_thorough ? 1200 : 120;
  for (int t = 0; t < n; ++t)
    history(t);
}
