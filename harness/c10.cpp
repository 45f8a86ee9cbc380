// forests: number and samples of the trees, majority vote
#include "tree.h"
#ifndef VF_NOPRIV
static void check(RandomForestImpl &m, const Set &s, unsigned nt, bool trained)
{
  CHECK(m.rfc.size() == nt, "the forest has %zu trees, %u were configured", m.rfc.size(), nt);
  std::set<std::pair<Vec, int>> all;
  for (size_t i = 0; i < s.f.size(); ++i)
    all.insert({s.f[i], s.l[i]});
  if (trained)
    for (auto &t : m.rfc) {
      CHECK(t->data.size() == s.f.size(), "a tree was built from %zu samples, the training set has %zu", t->data.size(),
            s.f.size());
      for (auto &d : t->data)
        CHECK(all.count({d.first, d.second}), "sample %s -> %d is not in the training set", show(d.first).c_str(),
              d.second);
    }
  for (auto &p : probes(s, 30)) {
    std::vector<int> votes(s.np, 0);
    for (auto &t : m.rfc) {
      Vec q = p;
      int c = t->predict(q);
      CHECK(0 <= c && c < s.np, "a tree predicts %d", c);
      votes[c]++;
    }
    int best = 0;
    for (int i = 1; i < s.np; ++i)
      if (votes[i] > votes[best]) best = i;
    Vec q = p;
    int c = m.predict(q);
    CHECK(c == best, "votes %s but the forest predicts %d, for %s", show(votes).c_str(), c, show(p).c_str());
  }
}
#else
static void check(RandomForestImpl &m, const Set &s, unsigned nt, bool trained)
{
  std::set<int> ls(s.l.begin(), s.l.end());
  for (auto &p : probes(s, 30)) {
    Vec q = p;
    int c = m.predict(q);
    CHECK(nt == 0 ? c == 0 : ls.count(c), "the forest predicts %d, not a label of the training set", c);
  }
}
#endif
void run()
{
  int n = vf_thorough ? 15000 : 1500;
  for (int i = 0; i < n; ++i) {
    Set s = rset(i % 40 == 0 ? 80 : 16, 3, rint_(0, 1));
    unsigned md = rint_(0, 6), nt = rint_(0, 6) ? rint_(1, 7) : rint_(0, 25);
    CASE(fmt("forest of %u, max_depth %u, ", nt, md) + s.text());
    auto f = s.f;
    auto l = s.l;
    if (rint_(0, 3) == 0) {
      RandomForestImpl m(s.np, f, l, nt, md);
      check(m, s, nt, true);
      continue;
    }
    RandomForestImpl m(s.np, nt, md);
    m.train(f, l);
    CHECK(f == s.f && l == s.l, "training changed the training set");
    check(m, s, nt, true);
    for (int k = rint_(0, 2); k > 0; --k) {
      if (rint_(0, 2) == 0) {
        m.save("f.yaml");
        m.load("f.yaml");
        check(m, s, nt, true);
      }
      Set u = rset(12, 3, rint_(0, 1));
      u.np = s.np;
      for (auto &x : u.l)
        x %= s.np;
      CASE(vf_case + " then again on " + u.text());
      f = u.f;
      l = u.l;
      m.train(f, l);
      check(m, u, nt, true);
      s = u;
    }
  }
}
