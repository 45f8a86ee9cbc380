// tree and forest models: explorer until trained or loaded, classifier afterwards
#include "h.h"
#include "apollo/models/DecisionTree.h"
#include "apollo/models/RandomForest.h"
#include "models/impl/DecisionTreeImpl.h"
#include "models/impl/RandomForestImpl.h"
struct Spy : apollo::PolicyModel {
  int calls = 0, last = -1, n;
  std::vector<float> feat;
  static Spy *cur;
  Spy(int n) : PolicyModel(n, "Spy"), n(n) { cur = this; }
  int getIndex(std::vector<float> &f)
  {
    ++calls;
    feat = f;
    return last = rint_(0, n - 1);
  }
  void store(const std::string &) {}
  void load(const std::string &) {}
  bool isTrainable() { return false; }
  void train(Apollo::Dataset &) {}
};
Spy *Spy::cur;
static std::vector<float> feat(int nf, int span)
{
  std::vector<float> f(nf);
  for (auto &x : f)
    x = (float)rint_(0, span);
  return f;
}
struct Ref {
  std::unique_ptr<DecisionTreeImpl> t;
  std::unique_ptr<RandomForestImpl> f;
  int predict(const std::vector<float> &x) { return t ? t->predict(x) : f->predict(x); }
};
static void fill(Apollo::Dataset &ds, int nf, int n, int m, int span)
{
  for (int i = 0; i < m; ++i) {
    auto f = feat(nf, span);
    ds.insert(f, rint_(0, n - 1), 0.5 + runit());
  }
}
static Ref ref(bool forest, Apollo::Dataset &ds, int n, int trees, int depth)
{
  std::vector<std::vector<float>> F;
  std::vector<int> L;
  std::map<std::vector<float>, std::pair<int, double>> mm;
  ds.findMinMetricPolicyByFeatures(F, L, mm);
  Ref r;
  if (forest) {
    r.f.reset(new RandomForestImpl(n, (unsigned)trees, (unsigned)depth));
    r.f->train(F, L);
  } else {
    r.t.reset(new DecisionTreeImpl(n, (unsigned)depth));
    r.t->train(F, L);
  }
  return r;
}
void run()
{
  int rounds = vf_thorough ? 3000 : 400;
  for (int it = 0; it < rounds; ++it) {
    bool forest = it & 1;
    int n = rint_(1, 6), nf = rint_(1, 3), depth = rint_(1, 4), trees = rint_(1, 6), span = rint_(1, 8);
    CASE(fmt("%s N=%d features=%d depth=%d trees=%d span=%d round=%d", forest ? "forest" : "tree", n, nf, depth,
             trees, span, it));
    std::unique_ptr<apollo::PolicyModel> e(new Spy(n)), m, e2(new Spy(n)), m2;
    Spy *sp2 = Spy::cur;
    Spy *sp = (Spy *)e.get();
    auto mk = [&](std::unique_ptr<apollo::PolicyModel> &x) -> apollo::PolicyModel * {
      if (forest) return new apollo::RandomForest(n, (unsigned)trees, (unsigned)depth, x);
      return new apollo::DecisionTree(n, (unsigned)depth, x);
    };
    m.reset(mk(e));
    m2.reset(mk(e2));
    int k = rint_(0, 12);
    for (int i = 0; i < k; ++i) {
      CHECK(m->isTrainable(), "not trainable before training");
      auto f = feat(nf, span), g = f;
      int before = sp->calls;
      int c = m->getIndex(f);
      CHECK(sp->calls == before + 1, "explorer consulted %d times", sp->calls - before);
      CHECK(sp->feat == g, "explorer got features %s instead of %s", show(sp->feat).c_str(), show(g).c_str());
      CHECK(c == sp->last, "returns %d, explorer chose %d", c, sp->last);
    }
    CHECK(m->isTrainable(), "not trainable before training");
    for (int tr = 0; tr < 2; ++tr) {
      Apollo::Dataset ds;
      fill(ds, nf, n, rint_(1, 12), span);
      Ref r = ref(forest, ds, n, trees, depth);
      m->train(ds);
      CHECK(!m->isTrainable(), "trainable after training %d", tr);
      int before = sp->calls;
      for (int i = 0; i < 25; ++i) {
        auto f = feat(nf, span + 2), g = f;
        int want = r.predict(g), c = m->getIndex(f);
        CHECK(c == want, "after training %d: choice %d for features %s, classifier predicts %d", tr, c,
              show(g).c_str(), want);
        CHECK(!m->isTrainable(), "trainable after training and %d choices", i + 1);
      }
      CHECK(sp->calls == before, "explorer consulted after training");
      if (tr == 0) {
        m->store("model.yaml");
        m2->load("model.yaml");
        CHECK(!m2->isTrainable(), "trainable after loading");
        int b2 = sp2->calls;
        Ref r2;
        std::string fn = "model.yaml";
        if (forest)
          r2.f.reset(new RandomForestImpl(n, fn));
        else
          r2.t.reset(new DecisionTreeImpl(n, fn));
        std::unique_ptr<apollo::PolicyModel> m3;
        if (forest)
          m3.reset(new apollo::RandomForest(n, fn));
        else
          m3.reset(new apollo::DecisionTree(n, fn));
        CHECK(!m3->isTrainable(), "trainable when built from a file");
        for (int i = 0; i < 20; ++i) {
          auto f = feat(nf, span + 2), g = f, h = f;
          int want = r2.predict(g), c = m2->getIndex(f), c3 = m3->getIndex(h);
          CHECK(c == want && c3 == want, "after loading: choices %d, %d for %s, classifier predicts %d", c, c3,
                show(g).c_str(), want);
        }
        CHECK(sp2->calls == b2, "explorer consulted after loading");
        m2->store("model2.yaml");
        CHECK(!m2->isTrainable(), "trainable after storing");
      }
    }
  }
}
