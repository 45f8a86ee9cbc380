// train, save, load back in every way, compare predictions
#include "tree.h"
#include "apollo/Dataset.h"
#include "apollo/models/DecisionTree.h"
#include "apollo/models/RandomForest.h"
#include "apollo/models/RoundRobin.h"
static bool normal(const Set &s)
{
  for (auto &v : s.f)
    for (float x : v)
      if (x != 0 && !std::isnormal(x)) return false;
  return true;
}
template <class T>
static void compare(T &a, T &b, const std::vector<Vec> &ps, const char *how)
{
  for (auto &p : ps) {
    Vec u = p, v = p;
    int x = a.predict(u), y = b.predict(v);
    CHECK(x == y, "%s: the original predicts %d, the loaded one %d for %s", how, x, y, show(p).c_str());
  }
}
struct Pair {
  std::unique_ptr<apollo::PolicyModel> e;
};
static std::unique_ptr<apollo::PolicyModel> ex(int np) { return std::unique_ptr<apollo::PolicyModel>(new apollo::RoundRobin(np)); }
static void compareM(apollo::PolicyModel &a, apollo::PolicyModel &b, const std::vector<Vec> &ps, const char *how)
{
  for (auto &p : ps) {
    Vec u = p, v = p;
    int x = a.getIndex(u), y = b.getIndex(v);
    CHECK(x == y, "%s: the original chooses %d, the loaded one %d for %s", how, x, y, show(p).c_str());
  }
}
void run()
{
  int n = vf_thorough ? 12000 : 1200;
  for (int i = 0; i < n; ++i) {
    Set s = rset(i % 40 == 0 ? 100 : 20, 4, rint_(0, 1)), u = rset(12, 3, false);
    if (!normal(s) || !normal(u)) continue;
    u.np = s.np;
    for (auto &l : u.l)
      l %= s.np;
    unsigned md = rint_(0, 8), nt = rint_(1, 6);
    bool forest = rint_(0, 1);
    CASE(fmt("%s max_depth %u, ", forest ? fmt("forest of %u", nt).c_str() : "tree", md) + s.text());
    auto f = s.f;
    auto l = s.l;
    auto ps = probes(s, 60);
    auto uf = u.f;
    auto ul = u.l;
    if (forest) {
      RandomForestImpl a(s.np, nt, md);
      a.train(f, l);
      a.save("m.yaml");
      RandomForestImpl b(s.np, std::string("m.yaml"));
      compare(a, b, ps, "loaded at construction");
      RandomForestImpl c(s.np, nt + 2, md + 1);
      c.load("m.yaml");
      compare(a, c, ps, "loaded into a fresh model");
      RandomForestImpl d(s.np, 3u, 2u);
      d.train(uf, ul);
      d.load("m.yaml");
      compare(a, d, ps, "loaded into a trained model");
      d.load("m.yaml");
      compare(a, d, ps, "loaded twice");
      d.save("n.yaml");
      RandomForestImpl e(s.np, std::string("n.yaml"));
      compare(a, e, ps, "saved and loaded again");
    } else {
      DecisionTreeImpl a(s.np, md);
      a.train(f, l);
      a.save("m.yaml");
      DecisionTreeImpl b(s.np, std::string("m.yaml"));
      compare(a, b, ps, "loaded at construction");
      DecisionTreeImpl c(s.np, md + 1);
      c.load("m.yaml");
      compare(a, c, ps, "loaded into a fresh model");
      DecisionTreeImpl d(s.np, 2u);
      d.train(uf, ul);
      d.load("m.yaml");
      compare(a, d, ps, "loaded into a trained model");
      d.load("m.yaml");
      compare(a, d, ps, "loaded twice");
      d.save("n.yaml");
      DecisionTreeImpl e(s.np, std::string("n.yaml"));
      compare(a, e, ps, "saved and loaded again");
    }
    if (i % 4 == 0) {  // through the models
      Apollo::Dataset ds;
      for (auto &e : s.label) {
        Vec v = e.first, w = e.first;
        ds.insert(v, e.second, 1.0);
        ds.insert(w, (e.second + 1) % s.np, s.np > 1 ? 2.0 : 1.0);
      }
      std::unique_ptr<apollo::PolicyModel> a, b, c, e1 = ex(s.np), e2 = ex(s.np);
      if (forest) {
        a.reset(new apollo::RandomForest(s.np, nt, md, e1));
        b.reset(new apollo::RandomForest(s.np, nt, md, e2));
      } else {
        a.reset(new apollo::DecisionTree(s.np, md, e1));
        b.reset(new apollo::DecisionTree(s.np, md, e2));
      }
      a->train(ds);
      a->store("o.yaml");
      b->load("o.yaml");
      compareM(*a, *b, ps, "model load");
      if (forest)
        c.reset(new apollo::RandomForest(s.np, std::string("o.yaml")));
      else
        c.reset(new apollo::DecisionTree(s.np, std::string("o.yaml")));
      compareM(*a, *c, ps, "model constructed from a file");
    }
  }
}
