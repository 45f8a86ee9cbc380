// trainings after every execution, against the trigger rules
#include "region.h"
template <class A>
static auto clear_regions(A *a, int) -> decltype((void)a->regions)
{
  a->regions.clear();
}
template <class A>
static void clear_regions(A *, long)
{
}
static std::vector<float> feats(int nf)
{
  std::vector<float> f;
  for (int i = 0; i < nf; ++i)
    f.push_back((float)rint_(-1, 2));
  return f;
}
void run()
{
  int rounds = vf_thorough ? 1200 : 150;
  auto *ap = Apollo::instance();
  long long total = 0;
  for (int it = 0; it < rounds; ++it) {
    Config::APOLLO_GLOBAL_TRAIN_PERIOD = 0;
    Config::APOLLO_PER_REGION_TRAIN_PERIOD = 0;
    Config::APOLLO_PERSISTENT_DATASETS = 0;
    Config::APOLLO_SINGLE_MODEL = 0;
    Config::APOLLO_REGION_MODEL = 1;
    Config::APOLLO_TRACE_BEST_POLICIES = 0;
    Config::APOLLO_STORE_MODELS = 0;
    clear_regions(ap, 0);
    bool single = rint_(0, 3) == 0;
    std::vector<Reg> R;
    int nr = rint_(1, 4), nf = rint_(0, 2);
    for (int i = 0; i < nr; ++i) {
      R.push_back(mkregion(fmt("t%d-%d", it, i), nf, 3, single || rint_(0, 1) ? 0 : rint_(1, 5)));
      ++total;
      R[i].spy->sticky = rint_(0, 2) != 0;
      R[i].spy->trainable = rint_(0, 4) != 0;
    }
    int G = rint_(0, 1) ? 0 : rint_(1, 6), P = rint_(0, 1) ? 0 : rint_(1, 5);
    if (single) {
      // per-region triggers are an error with a single model: only the global period is used
      P = 0;
      G = rint_(0, 4) ? rint_(1, 5) : 0;
    }
    Config::APOLLO_GLOBAL_TRAIN_PERIOD = G;
    Config::APOLLO_PER_REGION_TRAIN_PERIOD = P;
    Config::APOLLO_PERSISTENT_DATASETS = rint_(0, 2) == 0;
    Config::APOLLO_SINGLE_MODEL = single;
    Config::APOLLO_REGION_MODEL = !single;
    Config::APOLLO_STORE_MODELS = rint_(0, 3) == 0;
    std::string h = fmt("G=%d P=%d single=%d persistent=%d store=%d total=%lld mins/trainable:", G, P, single,
                        Config::APOLLO_PERSISTENT_DATASETS, Config::APOLLO_STORE_MODELS, total);
    for (auto &g : R)
      h += fmt(" %d/%d%s", g.min, g.spy->trainable, g.spy->sticky ? "" : "once");
    h += "; ";
    int ops = rint_(3, 40);
    for (int o = 0; o < ops; ++o) {
      int w = rint_(0, nr - 1);
      Reg &g = R[w];
      if (rint_(0, 9) == 0) {
        Reg &q = R[rint_(0, nr - 1)];
        q.spy->trainable = !q.spy->trainable;
        if (h.size() < 1500) h += fmt("toggle r%d ", (int)(&q - &R[0]));
      }
      std::vector<int> trains0;
      std::vector<bool> tr0;
      for (auto &q : R) {
        trains0.push_back(q.spy->trains);
        tr0.push_back(q.spy->trainable);
      }
      int kind = rint_(0, 11);
      std::vector<int> want(nr, 0);
      bool all = false;
      if (kind == 0 && !single) {
        // explicit training of one region
        bool force = rint_(0, 1);
        bool viaC = !force && rint_(0, 1);
        if (h.size() < 1500) h += fmt("train(r%d,force=%d) ", w, force);
        CASE(h);
        if (viaC)
          __apollo_region_train(g.r, o);
        else
          g.r->train(o, rint_(0, 1), force);
        want[w] = (tr0[w] || force) && !g.data.empty();
      } else if (kind == 1) {
        if (h.size() < 1500) h += "train-all ";
        CASE(h);
        if (rint_(0, 1))
          ap->train(o);
        else
          ap->flushAllRegionMeasurements(o);
        all = true;
      } else {
        auto f = feats(nf);
        auto *c = g.r->begin(f);
        ++g.idx;
        int p = g.spy->next = rint_(0, 2);
        g.r->getPolicyIndex(c);
        double m = rint_(1, 30) * .5;
        if (h.size() < 1500) h += fmt("exec(r%d,%s,%d,%g) ", w, show(f).c_str(), p, m);
        CASE(h);
        g.r->end(c, m);
        ++total;
        if (tr0[w] || Config::APOLLO_PERSISTENT_DATASETS) rec(g.data, K(f, p), m);
        if (tr0[w]) {
          if (G && total % G == 0)
            all = true;
          else if ((P && g.idx % P == 0) || (g.min > 0 && (int)g.data.size() >= g.min))
            want[w] = !g.data.empty();
        }
      }
      M merged;
      if (all && single) {
        for (auto &z : R)
          for (auto &e : z.data)
            rec(merged, e.first, e.second);
        if (!merged.empty())
          for (int i = 0; i < nr; ++i)
            want[i] = 1;
      } else if (all)
        for (int i = 0; i < nr; ++i)
          want[i] = tr0[i] && !R[i].data.empty();
      for (int i = 0; i < nr; ++i) {
        int got = R[i].spy->trains - trains0[i];
        CHECK(got == want[i], "region %d trained %d times, expected %d (execution %d of the region, %lld in total)", i,
              got, want[i], R[i].idx, total);
        if (got) {
          const M &d = R[i].spy->trained.back();
          CHECK(!d.empty(), "region %d trained on an empty dataset", i);
          if (!single)
            CHECK(sameM(d, R[i].data), "region %d trained on %s, its data is %s", i, showM(d).c_str(),
                  showM(R[i].data).c_str());
          else {
            bool sup = d.size() == merged.size();
            for (auto &e : merged)
              sup = sup && d.count(e.first);
            CHECK(sup, "single model trained on %s, expected the pairs of %s", showM(d).c_str(), showM(merged).c_str());
          }
        }
      }
    }
    for (auto &g : R) {
      g.r->dataset.clear();
      g.spy->trainable = false;
    }
  }
}
