// label reduction: least metric per feature vector, lowest policy on ties; DatasetMap
#include "h.h"
#include "apollo/Dataset.h"
#include "apollo/models/DatasetMap.h"
typedef std::map<std::vector<float>, std::pair<int, double>> Best;
void run()
{
  int rounds = vf_thorough ? 20000 : 2500;
  apollo::DatasetMap reused(64);
  for (int it = 0; it < rounds; ++it) {
    Apollo::Dataset d;
    Best best;
    std::map<std::pair<std::vector<float>, int>, double> m;
    int n = rint_(0, it % 40 ? 14 : 200), nf = rint_(0, 3), span = rint_(0, 3), pol = rint_(0, it % 7 ? 5 : 300);
    int levels = rint_(1, 4), scale = rint_(0, 3);
    std::string h;
    for (int i = 0; i < n; ++i) {
      std::vector<float> f(nf);
      for (auto &x : f)
        x = (float)rint_(-span, span);
      int p = rint_(0, pol);
      double v = rint_(0, levels);
      if (scale == 1) v = 1.0 + v * 1e-12;
      if (scale == 2) v = v * 1e-30;
      if (scale == 3) v = -v;
      if (m.count({f, p})) continue;
      m[{f, p}] = v;
      if (h.size() < 600) h += fmt("%s/%d=%.17g ", show(f).c_str(), p, v);
      auto g = f;
      d.insert(g, p, v);
    }
    CASE(h);
    for (auto &e : m) {
      auto b = best.find(e.first.first);
      if (b == best.end() || e.second < b->second.second)
        best[e.first.first] = {e.first.second, e.second};
      else if (e.second == b->second.second && e.first.second < b->second.first)
        b->second.first = e.first.second;
    }
    std::vector<std::vector<float>> F;
    std::vector<int> L;
    Best out;
    out[{9, 9, 9, 9}] = {7, 7.0};  // stale content must not survive
    d.findMinMetricPolicyByFeatures(F, L, out);
    CHECK(F.size() == best.size() && L.size() == best.size() && out.size() == best.size(),
          "%zu features, %zu labels, %zu map entries for %zu feature vectors", F.size(), L.size(), out.size(),
          best.size());
    std::set<std::vector<float>> seen;
    for (size_t i = 0; i < F.size(); ++i) {
      CHECK(seen.insert(F[i]).second, "feature vector %s listed twice", show(F[i]).c_str());
      CHECK(best.count(F[i]), "unknown feature vector %s", show(F[i]).c_str());
      CHECK(L[i] == best[F[i]].first, "label %d for %s, expected %d", L[i], show(F[i]).c_str(), best[F[i]].first);
      CHECK(out.count(F[i]) && out[F[i]] == best[F[i]], "map entry of %s disagrees: (%d, %.17g)", show(F[i]).c_str(),
            out[F[i]].first, out[F[i]].second);
    }
    CHECK(d.size() == m.size(), "the dataset changed");
    apollo::DatasetMap fresh(64);
    fresh.train(d);
    reused.train(d);
    for (auto &b : best) {
      auto f = b.first, g = b.first;
      int c = fresh.getIndex(f), c2 = reused.getIndex(g);
      CHECK(c == b.second.first, "DatasetMap chooses %d for %s, label %d", c, show(b.first).c_str(), b.second.first);
      CHECK(c2 == b.second.first, "retrained DatasetMap chooses %d for %s, label %d", c2, show(b.first).c_str(),
            b.second.first);
    }
  }
}
