// store any dataset, load it back
#include "h.h"
#include "apollo/Dataset.h"
typedef std::pair<std::vector<float>, int> K;
typedef std::map<K, double> M;
static M contents(Apollo::Dataset &d)
{
  M m;
  for (auto &t : d.toVectorOfTuples())
    m[K(std::get<0>(t), std::get<1>(t))] = std::get<2>(t);
  return m;
}
static float rf()
{
  for (;;) {
    float x;
    switch (rint_(0, 7)) {
      case 0: x = rint_(-3, 3); break;
      case 1: x = rint_(-1000000, 1000000); break;
      case 2: x = (float)runit(); break;
      case 3: x = 16777216.f + rint_(-3, 3); break;
      case 4: {
        uint32_t b = (uint32_t)rnd();
        memcpy(&x, &b, 4);
        break;
      }
      case 5: {
        float xs[] = {FLT_MAX, -FLT_MAX, FLT_MIN, -FLT_MIN, 1e-7f, 0.1f, 1.f / 3, 123456.789f, 1e10f, FLT_EPSILON};
        x = xs[rint_(0, 9)];
        break;
      }
      case 6: x = std::nextafter((float)rint_(1, 99), 1e9f); break;
      default: x = rint_(-100000, 100000) * .001f;
    }
    if (x == 0) return 0;
    if (std::isnormal(x)) return x;
  }
}
static double rd()
{
  for (;;) {
    double x;
    switch (rint_(0, 6)) {
      case 0: x = rint_(0, 5); break;
      case 1: x = runit(); break;
      case 2: x = runit() * 1e-6; break;
      case 3: {
        uint64_t b = rnd();
        memcpy(&x, &b, 8);
        break;
      }
      case 4: {
        double xs[] = {DBL_MAX, -DBL_MAX, DBL_MIN, 0.1, 1. / 3, 1e22, 123456789.123456789, 5e-300, DBL_EPSILON, -7};
        x = xs[rint_(0, 9)];
        break;
      }
      case 5: x = std::nextafter((double)rint_(1, 99), 1e9); break;
      default: x = (float)runit();
    }
    if (x == 0) return 0;
    if (std::isnormal(x)) return x;
  }
}
static std::string show(const M &m)
{
  std::string s = "{";
  for (auto &e : m)
    if (s.size() < 700) s += fmt("%s/%d:%.17g ", show(e.first.first).c_str(), e.first.second, e.second);
  return s + "}";
}
static void one(const M &m, int how)
{
  CASE(fmt("%zu entries, stream %d: ", m.size(), how) + show(m));
  Apollo::Dataset d, e;
  for (auto &x : m) {
    auto f = x.first.first;
    d.insert(f, x.first.second, x.second);
  }
  M a = contents(d);
  CHECK(a == m, "the dataset does not hold what was recorded");
  if (how == 2) {
    {
      std::ofstream o("d.yaml");
      d.store(o);
    }
    std::ifstream i("d.yaml");
    e.load(i);
  } else {
    std::stringstream s;
    if (how == 1) s.precision(3);
    if (how == 3) s << "# a comment line\n";
    d.store(s);
    e.load(s);
  }
  M b = contents(e);
  if (a != b) {
    for (auto &x : a) {
      auto it = b.find(x.first);
      if (it == b.end()) FAIL(fmt("entry %s/%d is missing after loading", ::show(x.first.first).c_str(), x.first.second));
      if (it->second != x.second)
        FAIL(fmt("entry %s/%d had metric %.17g, loaded %.17g", ::show(x.first.first).c_str(), x.first.second, x.second,
                 it->second));
    }
    FAIL(fmt("%zu entries stored, %zu loaded", a.size(), b.size()));
  }
  CHECK(contents(d) == a, "storing changed the dataset");
}
void run()
{
  one({}, 0);
  one({}, 2);
  int n = vf_thorough ? 40000 : 4000;
  for (int t = 0; t < n; ++t) {
    M m;
    int c = rint_(0, 20) == 0 ? rint_(0, 300) : rint_(0, 8);
    int nf = rint_(0, 20) == 0 ? rint_(0, 80) : rint_(0, 6);
    bool vary = rint_(0, 3) == 0;
    std::vector<float> shared(nf);
    for (auto &x : shared)
      x = rf();
    for (int i = 0; i < c; ++i) {
      std::vector<float> f(shared);
      if (rint_(0, 2)) {
        f.resize(vary ? rint_(0, 6) : nf);
        for (auto &x : f)
          x = rf();
      }
      int pol[] = {0, 1, 2, 7, 123456, 2147483647};
      m[K(f, rint_(0, 1) ? rint_(0, 9) : pol[rint_(0, 5)])] = rd();
    }
    one(m, rint_(0, 3));
  }
}
