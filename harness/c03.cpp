// Static selects the configured policy
#include "h.h"
#include "apollo/ModelFactory.h"
#include "apollo/Region.h"
#include "apollo/models/Static.h"
static void drive(apollo::PolicyModel &m, int want, const char *how)
{
  Apollo::Dataset ds;
  for (int k = 0; k < 40; ++k) {
    std::vector<float> f(rint_(0, 5));
    for (auto &x : f)
      x = (float)rint_(-100, 100);
    auto g = f;
    int c = m.getIndex(f);
    CHECK(c == want, "%s: call %d selects %d, expected %d (features %s)", how, k, c, want, show(g).c_str());
    if (!(k % 7)) {
      std::vector<float> h = g;
      ds.insert(h, rint_(0, 6), runit());
      m.train(ds);
    }
    if (k % 11 == 3) m.store("static-model.yaml");
    if (k % 13 == 5) m.load("static-model.yaml");
  }
}
void run()
{
  for (int n = 1; n <= 40; ++n)
    for (int p = 0; p < n; ++p) {
      apollo::Static m(n, p);
      CASE(fmt("Static(%d,%d)", n, p));
      drive(m, p, "Static");
    }
  std::vector<int> ps;
  for (int p = -3; p < 60; ++p)
    ps.push_back(p);
  for (int p : {100, 127, 128, 255, 256, 1000, 32767, 32768, 65536, 1000000, 2147483647, -100, -2147483647})
    ps.push_back(p);
  for (int n : {1, 2, 3, 5, 10, 31, 64, 100, 128, 256, 300, 1000, 1 << 20})
    for (int p : ps) {
      if (n > 40 && p < 50 && p > 3) continue;
      CASE(fmt("factory: N=%d policy=%d", n, p));
      std::unordered_map<std::string, std::string> ps{{"policy", std::to_string(p)}};
      bool thrown = false;
      std::unique_ptr<apollo::PolicyModel> m;
      try {
        m = apollo::ModelFactory::createPolicyModel("Static", rint_(0, 4), n, ps);
      } catch (std::exception &) {
        thrown = true;
      }
      CHECK(thrown == (p < 0), "policy %d with %d policies is %s", p, n, thrown ? "rejected" : "accepted");
      if (!thrown) {
        drive(*m, p < n ? p : 0, "factory Static");
        CHECK(m->policy_count == n, "policy_count %d", m->policy_count);
      }
    }
  for (int n = 1; n < 30; ++n) {
    CASE(fmt("factory: N=%d no policy", n));
    std::unordered_map<std::string, std::string> ps;
    auto m = apollo::ModelFactory::createPolicyModel("Static", 1, n, ps);
    drive(*m, 0, "factory Static without policy");
  }
  // through a region
  setenv("APOLLO_POLICY_MODEL", "Static,policy=0", 1);
  for (int n : {1, 2, 7, 20})
    for (int p : {0, 1, 3, 6, 19, 25}) {
      CASE(fmt("region: N=%d model Static,policy=%d", n, p));
      auto *r = new Apollo::Region(2, fmt("r%d_%d", n, p).c_str(), n, 3, fmt("Static,policy=%d", p));
      for (int k = 0; k < 12; ++k) {
        r->begin();
        r->setFeature((float)k);
        r->setFeature(1.f);
        int c = r->getPolicyIndex();
        CHECK(c == (p < n ? p : 0), "region selects %d", c);
        r->end(1.0 + k);
        if (k % 5 == 2) r->train(k);
        if (k % 5 == 4) r->train(k, true, true);
      }
    }
}
