// random training sets with one label per distinct feature vector
#include "h.h"
#ifndef VF_NOPRIV
#define private public
#endif
#include "models/impl/DecisionTreeImpl.h"
#include "models/impl/RandomForestImpl.h"
#undef private
typedef std::vector<float> Vec;
struct Set {
  int nf, np;
  std::vector<Vec> f;
  std::vector<int> l;
  std::map<Vec, int> label;
  std::string text() const
  {
    std::string s = fmt("%d features %d classes:", nf, np);
    for (size_t i = 0; i < f.size() && s.size() < 900; ++i)
      s += " " + show(f[i]) + fmt("->%d", l[i]);
    if (f.size() * 8 > 900) s += fmt(" (%zu samples)", f.size());
    return s;
  }
};
static float rfloat(int kind)
{
  switch (kind) {
    case 0: return rint_(0, 5);
    case 1: return rint_(-1000, 1000);
    case 2: return (float)(runit() * 100 - 50);
    case 3: {  // neighbouring floats
      float x = rint_(0, 1) ? 1.f : 16777216.f;
      for (int i = rint_(0, 6); i > 0; --i)
        x = std::nextafter(x, 1e30f);
      return x;
    }
    case 4: {
      float xs[] = {FLT_MAX, -FLT_MAX, FLT_MAX / 2, -FLT_MAX / 2, std::nextafter(FLT_MAX, 0.f), 0.f, 1e30f, -1e30f};
      return xs[rint_(0, 7)];
    }
    case 5: return std::ldexp((float)rint_(-9, 9), rint_(-60, 60));
    default: return (float)(rnd() % 100000007) * 1e-3f;
  }
}
static Set rset(int maxn, int maxf, bool dup)
{
  Set s;
  s.nf = rint_(1, maxf);
  s.np = rint_(1, 7);
  int n = rint_(0, 4) ? rint_(1, std::min(maxn, 12)) : rint_(1, maxn);
  std::vector<int> kinds;
  int mix = rint_(0, 7);
  for (int i = 0; i < s.nf; ++i)
    kinds.push_back(mix < 7 ? mix : rint_(0, 6));
  int skew = rint_(0, 2), off = rint_(0, s.np - 1);
  for (int i = 0; i < n; ++i) {
    Vec v;
    if (dup && i && rint_(0, 5) == 0)
      v = s.f[rint_(0, i - 1)];
    else
      for (int k : kinds)
        v.push_back(rfloat(k));
    for (auto &x : v)
      if (x == 0) x = 0;  // no negative zero: the same vector
    int lab = skew == 0 ? rint_(0, s.np - 1) : skew == 1 ? (off + (rint_(0, 3) == 0)) % s.np : ((int)std::fmod(std::fabs(v[0]), 97.f) + off) % s.np;
    auto it = s.label.insert({v, lab}).first;
    if (!dup && it->second != lab) lab = it->second;
    s.f.push_back(v);
    s.l.push_back(it->second);
  }
  if (!dup) {  // one sample per vector, in the order of the reduction
    s.f.clear();
    s.l.clear();
    for (auto &e : s.label) {
      s.f.push_back(e.first);
      s.l.push_back(e.second);
    }
  }
  return s;
}
// vectors at, next to and between the training values of every feature
static std::vector<Vec> probes(const Set &s, int n)
{
  std::vector<Vec> r(s.f);
  std::vector<std::vector<float>> vals(s.nf);
  for (auto &v : s.f)
    for (int i = 0; i < s.nf; ++i)
      vals[i].push_back(v[i]);
  for (int i = 0; i < s.nf; ++i) {
    std::sort(vals[i].begin(), vals[i].end());
    size_t m = vals[i].size();
    for (size_t j = 0; j + 1 < m && j < 60; ++j) {
      float mid = (float)(((double)vals[i][j] + vals[i][j + 1]) / 2), mf = (vals[i][j] + vals[i][j + 1]) / 2;
      vals[i].push_back(mid);
      vals[i].push_back(std::nextafter(mid, -INFINITY));
      vals[i].push_back(std::nextafter(mid, INFINITY));
      if (std::isfinite(mf)) vals[i].push_back(mf);
    }
    for (size_t j = 0; j < m && j < 60; ++j) {
      vals[i].push_back(std::nextafter(vals[i][j], -FLT_MAX));
      vals[i].push_back(std::nextafter(vals[i][j], FLT_MAX));
    }
  }
  for (int k = 0; k < n; ++k) {
    Vec v;
    if (k % 2 && !s.f.empty()) {
      v = s.f[rint_(0, s.f.size() - 1)];
      int i = rint_(0, s.nf - 1);
      v[i] = vals[i][rint_(0, vals[i].size() - 1)];
    } else
      for (int i = 0; i < s.nf; ++i)
        v.push_back(vals[i][rint_(0, vals[i].size() - 1)]);
    r.push_back(v);
  }
  return r;
}
