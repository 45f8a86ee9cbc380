// random histories of several regions with spy models and spy timers
#include "h.h"
#define private public
#define protected public
#include "apollo/Apollo.h"
#include "apollo/Dataset.h"
#include "apollo/PolicyModel.h"
#include "apollo/Region.h"
#undef private
#undef protected
typedef std::pair<std::vector<float>, int> K;
typedef std::map<K, double> M;
static M contents(Apollo::Dataset &d)
{
  M m;
  for (auto &t : d.toVectorOfTuples())
    m[K(std::get<0>(t), std::get<1>(t))] = std::get<2>(t);
  return m;
}
static void rec(M &m, const K &k, double v)
{
  auto it = m.find(k);
  if (it == m.end())
    m[k] = v;
  else
    it->second = .5 * it->second + .5 * v;
}
static bool close(double a, double b) { return a == b || std::fabs(a - b) <= 1e-12 * (std::fabs(a) + std::fabs(b)); }
static std::string showM(const M &m)
{
  std::string s = "{";
  for (auto &e : m)
    if (s.size() < 500) s += fmt("%s/%d:%.17g ", show(e.first.first).c_str(), e.first.second, e.second);
  return s + "}";
}
static bool sameM(const M &a, const M &b)
{
  if (a.size() != b.size()) return false;
  for (auto &e : a) {
    auto it = b.find(e.first);
    if (it == b.end() || !close(it->second, e.second)) return false;
  }
  return true;
}
struct Spy : apollo::PolicyModel {
  int calls = 0, next = 0, trains = 0, stores = 0;
  bool trainable = true, sticky = true;
  std::vector<float> seen;
  std::vector<M> trained;
  Spy(int n) : PolicyModel(n, "Spy") {}
  int getIndex(std::vector<float> &f) override
  {
    ++calls;
    seen = f;
    return next;
  }
  void store(const std::string &) override { ++stores; }
  void load(const std::string &) override {}
  bool isTrainable() override { return trainable; }
  void train(Apollo::Dataset &d) override
  {
    ++trains;
    trained.push_back(contents(d));
    if (!sticky) trainable = false;
  }
};
struct SpyTimer : Apollo::Timer {
  int starts = 0, stops = 0, polls = 0, ready = 0;
  double m = 0;
  void start() override { ++starts; }
  void stop() override { ++stops; }
  bool isDone(double &x) override
  {
    if (polls++ < ready) return false;
    x = m;
    return true;
  }
};
template <class A>
static auto execs(A *a, int) -> decltype((long long)a->region_executions)
{
  return (long long)a->region_executions;
}
template <class A>
static long long execs(A *, long)
{
  return -1;
}
struct Reg {
  Apollo::Region *r;
  Spy *spy;
  SpyTimer *timer;
  M data;
  int idx = 0, min = 0, nf = 0;
  std::string name;
};
static Reg mkregion(const std::string &name, int nf, int np, int min)
{
  Reg g;
  g.name = name;
  g.min = min;
  g.nf = nf;
  g.r = new Apollo::Region(nf, name.c_str(), np, min, "Static,policy=0");
  g.spy = new Spy(np);
  g.r->model.reset(g.spy);
  // the synchronous context keeps its timer: replace it by a spy, on an execution of its own
  auto *c = g.r->begin();
  g.timer = new SpyTimer;
  c->timer.reset(g.timer);
  g.spy->trainable = false;
  g.r->end(c, 1.0);
  g.spy->trainable = true;
  g.idx = 1;
  return g;
}
