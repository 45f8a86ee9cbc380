// every model, random histories through regions: the index is always one of the region's policies
#include "region.h"
#include "apollo/models/DatasetMap.h"
static float rf()
{
  switch (rint_(0, 5)) {
    case 0: return rint_(0, 3);
    case 1: return rint_(1, 100000);
    case 2: return (float)runit();
    case 3: return std::ldexp(1.f, rint_(0, 62));
    case 4: return rint_(0, 1) ? FLT_MAX : 1e30f;
    default: return 16777216.f + rint_(0, 4);
  }
}
static double rm()
{
  double xs[] = {0, 1, 1e-9, 1e300, 5, .25};
  return rint_(0, 1) ? runit() : xs[rint_(0, 5)];
}
static int uid;
static void history(const std::string &spec, int np, int nf)
{
  std::string h = fmt("%s, %d policies, %d features:", spec.c_str(), np, nf);
  int min = rint_(0, 2) ? 0 : rint_(1, 6);
  Apollo::Region *r = new Apollo::Region(nf, fmt("r%d", uid++).c_str(), np, min, spec);
  bool big = spec.substr(0, 9) != "PolicyNet";
  std::vector<std::vector<float>> pool;
  for (int i = 0; i < 5; ++i) {
    std::vector<float> f;
    for (int j = 0; j < nf; ++j) {
      float x = rf();
      while (!big && x > 1e18f)
        x = rf();
      if (big && rint_(0, 9) == 0) x = -x;
      if (big && rint_(0, 29) == 0) x = rint_(0, 1) ? INFINITY : -INFINITY;
      f.push_back(x);
    }
    pool.push_back(f);
  }
  bool recorded = false;
  auto exec = [&](const std::vector<float> &f, bool rec) {
    auto g = f;
    auto *c = r->begin(g);
    int p = r->getPolicyIndex(c);
    CHECK(0 <= p && p < np, "policy %d of %d chosen for %s", p, np, show(f).c_str());
    if (rint_(0, 3) == 0) {
      int q = r->getPolicyIndex(c);
      CHECK(0 <= q && q < np, "policy %d of %d chosen for %s", q, np, show(f).c_str());
    }
    r->end(c, rm());
  };
  int ops = rint_(3, 3 * np + 10);
  for (int o = 0; o < ops; ++o) {
    int op = rint_(0, 9);
    if (op < 8) {
      auto f = pool[rint_(0, 4)];
      h += " run " + show(f) + ";";
      CASE(h);
      exec(f, true);
      recorded = true;
    } else if (op == 8) {
      h += " train;";
      CASE(h);
      r->train(0, false, rint_(0, 3) == 0);
    } else if (r->model_name != "Static" && r->model_name != "RoundRobin" && r->model_name != "Random") {
      if (r->model->isTrainable() && r->model_name != "PolicyNet") continue;
      h += " store, load;";
      CASE(h);
      r->model->store("m.yaml");
      r->model->load("m.yaml");
    }
  }
  // any feature vector, also ones never seen
  for (int i = 0; i < 30; ++i) {
    std::vector<float> f;
    for (int j = 0; j < nf; ++j) {
      float x = rf();
      while (!big && x > 1e18f)
        x = rf();
      if (big && rint_(0, 3) == 0) x = rint_(0, 2) ? -x : rint_(0, 1) ? INFINITY : NAN;
      f.push_back(x);
    }
    auto g = f;
    CASE(h + " choose for " + show(f));
    int p = r->model->getIndex(g);
    CHECK(0 <= p && p < np, "policy %d of %d chosen for %s", p, np, show(f).c_str());
  }
  delete r;
}
static void datasetmap()
{
  int np = rint_(1, 8), nf = rint_(0, 3);
  Apollo::Dataset d;
  std::set<std::vector<float>> fs;
  std::string h = fmt("DatasetMap, %d policies:", np);
  for (int i = rint_(1, 12); i > 0; --i) {
    std::vector<float> f;
    for (int j = 0; j < nf; ++j)
      f.push_back(rf());
    fs.insert(f);
    int p = rint_(0, np - 1);
    double m = rm();
    h += " " + show(f) + fmt("/%d:%g", p, m);
    d.insert(f, p, m);
  }
  CASE(h);
  apollo::DatasetMap m(np);
  m.train(d);
  for (int k = 0; k < 2; ++k)
    for (auto f : fs) {
      int p = m.getIndex(f);
      CHECK(0 <= p && p < np, "policy %d of %d chosen for %s", p, np, show(f).c_str());
    }
}
void run()
{
  if (!open_null_()) Apollo::instance();
  int n = vf_thorough ? 3000 : 300;
  for (int t = 0; t < n; ++t) {
    int np = rint_(0, 4) ? rint_(1, 6) : rint_(1, 40), nf = rint_(0, 7) ? rint_(1, 3) : 0;
    std::string s;
    switch (t % 9) {
      case 0: s = fmt("Static,policy=%d", rint_(0, np + 2)); break;
      case 1: s = "Random"; break;
      case 2: s = "RoundRobin"; break;
      case 3: s = fmt("DecisionTree,max_depth=%d", rint_(0, 6)); break;
      case 4: s = "DecisionTree,explore=Random"; break;
      case 5: s = fmt("RandomForest,num_trees=%d,max_depth=%d", rint_(1, 12), rint_(0, 5)); break;
      case 6: s = fmt("RandomForest,explore=%s", rint_(0, 1) ? "Random" : "Static"); break;
      case 7: s = fmt("PolicyNet,lr=%g", rint_(0, 1) ? .01 : .5), nf = 1, np = std::min(np, 8); break;
      default: s = "Static";
    }
    Config::APOLLO_PER_REGION_TRAIN_PERIOD = rint_(0, 3) ? 0 : rint_(1, 9);
    Config::APOLLO_GLOBAL_TRAIN_PERIOD = 0;
    history(s, np, nf);
    datasetmap();
  }
}
