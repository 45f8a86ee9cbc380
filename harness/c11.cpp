// every execution is recorded once under its features and the policy chosen for it
#include "region.h"
static float feature()
{
  static const float sp[] = {0.f, -1.f, 1.f, 2.f, 0.5f, 1e30f, -3.f, 64.f};
  return sp[rint_(0, 7)];
}
void run()
{
  int rounds = vf_thorough ? 1500 : 150;
  auto *ap = Apollo::instance();
  Config::APOLLO_GLOBAL_TRAIN_PERIOD = 0;
  for (int it = 0; it < rounds; ++it) {
    std::vector<Reg> R;
    int nr = rint_(1, 3), per0 = rint_(0, 3) == 0;
    for (int i = 0; i < nr; ++i)
      R.push_back(mkregion(fmt("r%d-%d", it, i), rint_(0, 3), rint_(1, 6), rint_(0, 3) ? 0 : rint_(1, 8)));
    Config::APOLLO_PERSISTENT_DATASETS = per0;
    Config::APOLLO_PER_REGION_TRAIN_PERIOD = rint_(0, 2) ? 0 : rint_(1, 4);
    Config::APOLLO_TRACE_CSV = 0;
    std::string h;
    int ops = rint_(3, 40);
    long long total = execs(ap, 0);
    for (int o = 0; o < ops; ++o) {
      int w = rint_(0, nr - 1);
      Reg &g = R[w];
      if (rint_(0, 5) == 0) Config::APOLLO_PERSISTENT_DATASETS = !Config::APOLLO_PERSISTENT_DATASETS;
      g.spy->trainable = rint_(0, 3) != 0;
      bool sync_api = rint_(0, 3) != 0;  // the deprecated implicit-context interface and the C interface
      int style = rint_(0, 2);
      std::vector<float> fs;
      Apollo::RegionContext *c;
      if (h.size() < 900) h += fmt("r%d:tr=%d,pers=%d,", w, g.spy->trainable, Config::APOLLO_PERSISTENT_DATASETS);
      int st0 = g.timer->starts, sp0 = g.timer->stops;
      bool async = rint_(0, 9) == 0;
      if (async) {
        // an execution that ends later: its timer says so after a few polls
        auto *x = new Apollo::RegionContext();
        auto *t = new SpyTimer;
        x->timer.reset(t);
        t->ready = rint_(0, 2);
        t->m = rint_(1, 50) * .25;
        x->idx = 0;
        int n = rint_(0, 3);
        for (int i = 0; i < n; ++i) {
          float f = feature();
          fs.push_back(f);
          g.r->setFeature(x, f);
        }
        int p = rint_(0, g.spy->policy_count - 1);
        g.spy->next = p;
        int got = g.r->getPolicyIndex(x);
        double m = t->m;
        if (h.size() < 900) h += fmt("async(%s,%d,%g,after %d) ", show(fs).c_str(), p, m, t->ready);
        CASE(h);
        CHECK(got == p, "getPolicyIndex returned %d, the model chose %d", got, p);
        g.r->end(x);
        for (int i = 0; i < 4; ++i)
          g.r->collectPendingContexts();
        if (g.spy->trainable || Config::APOLLO_PERSISTENT_DATASETS) rec(g.data, K(fs, p), m);
        if (total >= 0) CHECK(execs(ap, 0) == total + 1, "total executions %lld, expected %lld", execs(ap, 0), total + 1);
        ++total;
        CHECK(sameM(contents(g.r->dataset), g.data), "dataset %s, expected %s",
              showM(contents(g.r->dataset)).c_str(), showM(g.data).c_str());
        continue;
      }
      if (sync_api && style == 2) {
        __apollo_region_begin(g.r);
        c = nullptr;
      } else if (style == 0) {
        int n = rint_(0, 3);
        for (int i = 0; i < n; ++i)
          fs.push_back(feature());
        c = g.r->begin(fs);
      } else if (style == 1)
        c = g.r->begin(Apollo::Region::TIMING_SYNC);
      else
        c = g.r->begin();
      ++g.idx;
      CHECK(g.r->idx == g.idx, "execution index %d, expected %d", g.r->idx, g.idx);
      if (c) CHECK((long long)c->idx == g.idx - 1, "context index %lld, expected %d", (long long)c->idx, g.idx - 1);
      int nset = rint_(0, 4), chosen = 0, ncho = rint_(1, 3), last = 0;
      std::string s;
      for (int i = 0; i < nset + ncho; ++i) {
        bool choose = i == nset + ncho - 1 || chosen == ncho - 1 ? i == nset + ncho - 1 : rint_(0, 1);
        if (!choose) {
          float f = feature();
          fs.push_back(f);
          s += fmt("f%g ", f);
          if (!sync_api)
            g.r->setFeature(c, f);
          else if (style == 2)
            __apollo_region_set_feature(g.r, f);
          else
            g.r->setFeature(f);
        } else {
          g.spy->next = rint_(0, g.spy->policy_count - 1);
          int c0 = g.spy->calls;
          s += fmt("choose=%d ", g.spy->next);
          int got = !sync_api ? g.r->getPolicyIndex(c)
                              : style == 2 ? __apollo_region_get_policy(g.r) : g.r->getPolicyIndex();
          ++chosen;
          last = g.spy->next;
          CASE(h + s);
          CHECK(got == last, "getPolicyIndex returned %d, the model chose %d", got, last);
          CHECK(g.spy->calls == c0 + 1, "the model was asked %d times", g.spy->calls - c0);
          CHECK(g.spy->seen == fs, "the model was given features %s, expected %s", show(g.spy->seen).c_str(),
                show(fs).c_str());
        }
      }
      double m = rint_(0, 80) * .125;
      bool timed = rint_(0, 1) || (sync_api && style == 2);
      g.timer->m = timed ? m : m + 1000;
      if (h.size() < 900) h += s + fmt("begin%d end%s(%g) ", style, timed ? "T" : "M", m);
      CASE(h);
      bool keep = g.spy->trainable || Config::APOLLO_PERSISTENT_DATASETS;
      if (timed) {
        if (!sync_api)
          g.r->end(c);
        else if (style == 2)
          __apollo_region_end(g.r);
        else
          g.r->end();
      } else {
        if (!sync_api)
          g.r->end(c, m);
        else
          g.r->end(m);
      }
      if (keep) rec(g.data, K(fs, last), m);
      if (total >= 0) {
        ++total;
        CHECK(execs(ap, 0) == total, "total executions %lld, expected %lld", execs(ap, 0), total);
      }
      CHECK(g.r->idx == g.idx, "execution index %d after end, expected %d", g.r->idx, g.idx);
      CHECK(g.timer->starts == st0 + 1, "timer started %d times", g.timer->starts - st0);
      if (timed) CHECK(g.timer->stops == sp0 + 1, "timer stopped %d times", g.timer->stops - sp0);
      for (auto &q : R)
        CHECK(sameM(contents(q.r->dataset), q.data), "region %s: dataset %s, expected %s", q.name.c_str(),
              showM(contents(q.r->dataset)).c_str(), showM(q.data).c_str());
    }
    Config::APOLLO_PERSISTENT_DATASETS = 0;
    for (auto &g : R)
      g.spy->trainable = false;
  }
}
