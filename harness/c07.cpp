// trained trees: routing, leaves, depth, exact reproduction when deep enough
#include "tree.h"
#ifndef VF_NOPRIV
struct Leaf {
  std::map<int, size_t> n;
  size_t total = 0;
};
template <class N>
static int depth(const N *n)
{
  if (!n->left && !n->right) return 0;
  return 1 + std::max(n->left ? depth(n->left) : 0, n->right ? depth(n->right) : 0);
}
static void inside(DecisionTreeImpl &t, const Set &s, unsigned md)
{
  auto *root = t.root;
  int d = depth(root);
  CHECK(d <= (int)md, "the tree has depth %d, more than max_depth %u", d, md);
  std::map<const void *, Leaf> at;
  std::map<const void *, int> pc;
  std::map<const void *, size_t> ns;
  for (size_t i = 0; i < s.f.size(); ++i) {
    auto *n = root;
    for (;;) {
      auto &a = at[n];
      a.n[s.l[i]]++;
      a.total++;
      pc[n] = n->predicted_class;
      ns[n] = n->num_samples;
      if (!n->left && !n->right) break;
      CHECK(n->feature_idx >= 0 && n->feature_idx < s.nf, "an inner node tests feature %d", n->feature_idx);
      auto *c = s.f[i][n->feature_idx] < n->threshold ? n->left : n->right;
      CHECK(c, "an inner node lacks a child");
      n = c;
    }
    Vec q = s.f[i];
    int p = t.predict(q);
    CHECK(p == n->predicted_class, "sample %s reaches a leaf of class %d but is predicted %d", show(q).c_str(),
          n->predicted_class, p);
  }
  for (auto &e : at) {
    int best = -1;
    size_t c = 0;
    for (auto &x : e.second.n)
      if (x.second > c) c = x.second, best = x.first;
    CHECK(pc[e.first] == best, "a node holding %zu samples predicts %d, its most frequent label is %d", e.second.total,
          pc[e.first], best);
    CHECK(ns[e.first] == e.second.total, "a node trained on %zu samples is reached by %zu of them", ns[e.first],
          e.second.total);
  }
  // every leaf is reached by some training sample
  std::function<void(decltype(root))> walk = [&](decltype(root) n) {
    CHECK(at.count(n), "a node is reached by no training sample");
    if (n->left) walk(n->left);
    if (n->right) walk(n->right);
  };
  walk(root);
}
#else
static void inside(DecisionTreeImpl &, const Set &, unsigned) {}
#endif
static void behaviour(DecisionTreeImpl &t, const Set &s, unsigned md)
{
  if (md + 1 < s.label.size()) {
    if (md == 0) {
      std::map<int, size_t> n;
      for (int l : s.l)
        n[l]++;
      int best = -1;
      size_t c = 0;
      for (auto &x : n)
        if (x.second > c) c = x.second, best = x.first;
      for (auto v : s.f) {
        int p = t.predict(v);
        CHECK(p == best, "a tree of depth 0 predicts %d, the most frequent label is %d", p, best);
      }
    }
    return;
  }
  for (auto &e : s.label) {
    Vec v = e.first;
    int p = t.predict(v);
    CHECK(p == e.second, "training vector %s has label %d but is predicted %d", show(v).c_str(), e.second, p);
  }
}
static void check(DecisionTreeImpl &t, const Set &s, unsigned md)
{
  behaviour(t, s, md);
  inside(t, s, md);
}
void run()
{
  int n = vf_thorough ? 60000 : 6000;
  for (int i = 0; i < n; ++i) {
    Set s = rset(i % 50 == 0 ? 120 : 24, 4, rint_(0, 1));
    unsigned md = rint_(0, 3) == 0 ? rint_(0, 3) : rint_(0, 1) ? s.label.size() - 1 : rint_(0, s.label.size() + 2);
    CASE(fmt("max_depth %u, ", md) + s.text());
    auto f = s.f;
    auto l = s.l;
    if (rint_(0, 1)) {
      DecisionTreeImpl t(s.np, f, l, md);
      check(t, s, md);
    } else {
      DecisionTreeImpl t(s.np, md);
      t.train(f, l);
      check(t, s, md);
      if (rint_(0, 2) == 0) {  // training again, on other data
        Set u = rset(16, 3, rint_(0, 1));
        if (u.np > s.np) continue;
        CASE(fmt("max_depth %u, trained on ", md) + s.text() + " and again on " + u.text());
        f = u.f;
        l = u.l;
        t.train(f, l);
        check(t, u, md);
      }
    }
  }
}
