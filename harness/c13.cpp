// regions from specification strings, one child process each
#include "region.h"
#include "models/impl/DecisionTreeImpl.h"
#include "models/impl/RandomForestImpl.h"
#include "policynet.h"
typedef std::vector<std::pair<std::string, std::string>> KV;
static std::string slurp(const std::string &fn)
{
  std::ifstream f(fn);
  std::ostringstream s;
  s << f.rdbuf();
  return s.str();
}
// one label per feature vector, fine-grained enough for every depth to matter
static void data(std::vector<std::vector<float>> &fs, std::vector<int> &ls, Apollo::Dataset &d, int np, int n)
{
  for (int i = 0; i < n; ++i) {
    int l = (i * 7 + i / 3) % np;
    fs.push_back({(float)(i + 1), (float)((i * 5) % 11)});
    ls.push_back(l);
    auto a = fs.back(), b = a;
    d.insert(a, l, 1.0);
    d.insert(b, (l + 1) % np, 2.0);
  }
}
static bool known(const std::string &n)
{
  return n == "Static" || n == "DecisionTree" || n == "RandomForest" || n == "PolicyNet" || n == "StaticRegion";
}
static bool allowed(const std::string &n, const std::string &k)
{
  bool l = k == "load" || k == "load-dataset";
  if (n == "StaticRegion") return true;
  if (n == "Static") return k == "policy";
  if (n == "DecisionTree") return l || k == "max_depth" || k == "explore";
  if (n == "RandomForest") return l || k == "max_depth" || k == "explore" || k == "num_trees";
  if (n == "PolicyNet") return l || k == "lr" || k == "beta" || k == "beta1" || k == "beta2" || k == "threshold";
  return false;
}
// the specification read independently: split at commas, then at the first '='
static void parse(const std::string &s, std::string &name, std::map<std::string, std::string> &ps, bool &any)
{
  std::vector<std::string> parts(1);
  for (char c : s)
    if (c == ',')
      parts.push_back("");
    else
      parts.back() += c;
  name = parts[0];
  any = parts.size() > 1;
  for (size_t i = 1; i < parts.size(); ++i) {
    std::string k, v;
    bool eq = false;
    for (char c : parts[i])
      if (!eq && c == '=')
        eq = true;
      else
        (eq ? v : k) += c;
    if (!ps.count(k)) ps[k] = v;
  }
}
static void explorer(apollo::PolicyModel &m, const std::string &e, int np)
{
  std::vector<float> f{1, 2};
  std::vector<int> got, want;
  for (int i = 0; i < 60; ++i) {
    got.push_back(m.getIndex(f));
    want.push_back(e == "RoundRobin" ? i % np : 0);
  }
  if (e == "Random") {
    std::set<int> s(got.begin(), got.end());
    CHECK(np < 3 || s.size() > 1, "a Random explorer chose only %s", show(got).c_str());
    bool cyc = true;
    for (int i = 0; i < 60; ++i)
      cyc = cyc && got[i] == i % np;
    CHECK(np < 3 || !cyc, "a Random explorer is cyclic");
  } else
    CHECK(got == want, "explorer %s chose %s", e.c_str(), show(got).c_str());
}
static void one(const std::string &spec, const std::string &region, int np, bool dflt, bool valid_values = true,
                bool skip_data = false)
{
  CASE(fmt("spec '%s' (%s) for region '%s' with %d policies", spec.c_str(), dflt ? "default" : "explicit",
           region.c_str(), np));
  std::string name;
  std::map<std::string, std::string> ps;
  bool any;
  parse(spec, name, ps, any);
  bool want = true;
  if (any) {
    want = known(name);
    for (auto &e : ps)
      want = want && allowed(name, e.first);
  } else
    want = known(name) || name == "RoundRobin" || name == "Random";
  if (name == "StaticRegion") want = want && ps.count(region);
  if (!valid_values) want = false;
  auto f = [&] {
    Apollo::instance();
    if (dflt) Config::APOLLO_POLICY_MODEL = spec;
    Apollo::Region r(2, region.c_str(), np, 0, dflt ? "" : spec);
    if (!want) return;
    auto &m = *r.model;
    auto get = [&](const char *k, std::string d) { return ps.count(k) ? ps[k] : d; };
    if (name == "StaticRegion") {
      ps = {{"policy", ps[region]}};
      name = "Static";
    }
    CHECK(r.model_name == name, "model_name is '%s', expected '%s'", r.model_name.c_str(), name.c_str());
    std::map<std::string, std::string> got(r.model_params.begin(), r.model_params.end());
    CHECK(got == ps, "%zu parameters, expected %zu, or other values", got.size(), ps.size());
    CHECK(m.name.substr(0, name.size()) == name, "a %s model was built", m.name.c_str());
    if (skip_data) return;
    std::vector<float> x{1, 2};
    if (name == "Static") {
      int p = std::stoi(get("policy", "0"));
      if (p >= np) p = 0;
      for (int i = 0; i < 5; ++i) {
        int g = m.getIndex(x);
        CHECK(g == p, "Static chose %d, expected %d", g, p);
      }
    } else if (name == "RoundRobin" || name == "Random")
      explorer(m, name, np);
    else if (name == "DecisionTree" || name == "RandomForest") {
      explorer(m, get("explore", "RoundRobin"), np);
      std::vector<std::vector<float>> fs;
      std::vector<int> ls;
      Apollo::Dataset d;
      data(fs, ls, d, np, 40);
      fs.clear();
      ls.clear();
      std::map<std::vector<float>, std::pair<int, double>> mm;
      d.findMinMetricPolicyByFeatures(fs, ls, mm);
      m.train(d);
      m.store("got.yaml");
      unsigned depth = std::stoul(get("max_depth", "2")), trees = std::stoul(get("num_trees", "10"));
      if (name == "DecisionTree") {
        DecisionTreeImpl ref(np, depth);
        ref.train(fs, ls);
        ref.save("ref.yaml");
      } else {
        RandomForestImpl ref(np, trees, depth);
        ref.train(fs, ls);
        ref.save("ref.yaml");
      }
      CHECK(slurp("got.yaml") == slurp("ref.yaml"),
            "the trained model is not that of max_depth %u, num_trees %u: '%.300s' expected '%.300s'", depth, trees,
            slurp("got.yaml").c_str(), slurp("ref.yaml").c_str());
    } else if (name == "PolicyNet") {
      double lr = std::stod(get("lr", "0.01")), beta = std::stod(get("beta", "0.5")), b1 = std::stod(get("beta1", "0.5")),
             b2 = std::stod(get("beta2", "0.9")), th = std::stod(get("threshold", "0"));
      Net3 ref, now;
      ref.shape(2, np);
      now.shape(2, np);
      m.store("net.bin");
      CHECK(ref.read("net.bin"), "the stored network is not that of 2 features and %d policies", np);
      for (int t = 0; t < 3; ++t) {
        Apollo::Dataset d;
        std::vector<std::tuple<std::vector<float>, int, double>> ms;
        for (int i = 0; i < 3 + t; ++i)
          {
            std::vector<float> v{(float)(3 + i), (float)(7 * i + 1)};
            d.insert(v, i % np, .1 + .37 * ((i + t) % 4));
          }
        ms = d.toVectorOfTuples();
        ref.train(ms, lr, beta, b1, b2, th);
        m.train(d);
        if (ref.kink) return;
        m.store("net.bin");
        now.read("net.bin");
        std::string e = now.diff(ref, lr);
        CHECK(e == "", "training %d does not follow lr %g beta %g beta1 %g beta2 %g threshold %g: %s", t + 1, lr, beta,
              b1, b2, th, e.c_str());
      }
    }
  };
  bool got = survives(f);
  CHECK(got == want, "the region %s, expected it to %s", got ? "was created" : "aborted", want ? "work" : "abort");
}
static std::string join(const std::string &n, const KV &kv)
{
  std::string s = n;
  for (auto &e : kv)
    s += "," + e.first + (e.second == "\1" ? "" : "=" + e.second);
  return s;
}
void run()
{
  for (const char *n : {"Static", "RoundRobin", "Random", "DecisionTree", "RandomForest", "PolicyNet", "StaticRegion",
                        "Nope", "static", "DecisionTree ", ""}) {
    if (!*n) continue;
    one(n, "r", 4, false);
    one(n, "r", 4, true);
  }
  // unknown and misplaced keys, next to correct ones
  const char *keys[] = {"policy", "max_depth", "num_trees", "explore",   "lr",         "beta",        "beta1", "beta2",
                        "threshold", "load",   "load-dataset", "Policy", "max_dept",   "max_depths",  " max_depth",
                        "x",       "",         "numtrees", "betas",     "beta3",      "load_dataset", "lr "};
  for (const char *n : {"Static", "DecisionTree", "RandomForest", "PolicyNet", "RoundRobin", "Random", "StaticRegion"})
    for (const char *k : keys) {
      std::string ks = k;
      if (ks == "load" || ks == "load-dataset") continue;
      if (!allowed(n, k) || std::string(n) == "StaticRegion") {
        one(join(n, {{k, "1"}}), "r", 4, false);
        if (!strcmp(n, "DecisionTree")) one(join(n, {{"max_depth", "3"}, {k, "1"}}), "r", 4, false);
        if (!strcmp(n, "RandomForest")) one(join(n, {{k, "1"}, {"num_trees", "3"}}), "r", 4, true);
        if (!strcmp(n, "Static")) one(join(n, {{"policy", "1"}, {k, "\1"}}), "r", 4, false);
        if (!strcmp(n, "PolicyNet")) one(join(n, {{"lr", "0.5"}, {k, "\1"}, {"beta", "0.25"}}), "r", 4, false);
      }
    }
  // each parameter with several values, alone and combined
  for (int p = 0; p <= 6; ++p) one(fmt("Static,policy=%d", p), "r", 4, p % 2);
  for (const char *d : {"0", "1", "2", "3", "4", "7", "20"}) {
    one(fmt("DecisionTree,max_depth=%s", d), "r", 4, false);
    one(fmt("RandomForest,max_depth=%s", d), "r", 4, false);
    one(fmt("RandomForest,num_trees=%s", d), "r", 3, false);
    one(fmt("RandomForest,num_trees=%s,max_depth=5", d), "r", 3, false);
    one(fmt("RandomForest,max_depth=%s,num_trees=4,explore=Random", d), "r", 3, false);
  }
  for (const char *e : {"RoundRobin", "Random", "Static"}) {
    one(fmt("DecisionTree,explore=%s", e), "r", 5, false);
    one(fmt("RandomForest,explore=%s", e), "r", 5, true);
    one(fmt("DecisionTree,explore=%s,max_depth=4", e), "r", 5, false);
    one(fmt("DecisionTree,max_depth=4,explore=%s", e), "r", 5, false);
  }
  const char *net[] = {"lr", "beta", "beta1", "beta2", "threshold"};
  const char *vals[] = {"0.25", "0.125", "0.75", "0.3", "0.55"};
  for (int i = 0; i < 5; ++i)
    for (int j = 0; j < 5; ++j) one(fmt("PolicyNet,%s=%s", net[i], vals[j]), "r", 3, j % 2);
  one("PolicyNet,beta2=0.8,beta1=0.3,beta=0.6,lr=0.04,threshold=0.2", "r", 4, false);
  // first occurrence of a key wins; only the first '=' separates; empty values
  one("Static,policy=2,policy=3", "r", 4, false);
  one("DecisionTree,max_depth=1,explore=Static,max_depth=4", "r", 4, false);
  one("RandomForest,num_trees=3,num_trees=5,max_depth=1,max_depth=6", "r", 4, false);
  one("PolicyNet,lr=0.5,beta=0.3,lr=0.1,beta=0.9", "r", 4, false);
  one("DecisionTree,load=a=b.yaml,load=c", "r", 4, false, false);  // no such file: stops
  one("StaticRegion,a=1,b=2,c=3", "b", 4, false);
  one("StaticRegion,a=1,b=2,b=3", "b", 4, false);
  one("StaticRegion,a=1,bb=2", "b", 4, false);
  one("StaticRegion,b=3,a=1", "b", 4, true);
  one("StaticRegion,b=7", "b", 4, true);
  one("StaticRegion,a=2", "", 4, true);
  // loading: the named file, or the latest one of the region
  for (int k = 0; k < 2; ++k)
    for (const char *n : {"DecisionTree", "RandomForest", "PolicyNet"}) {
      std::string fn = k ? fmt(".apollo/models/%s-latest-rank-0-reg.yaml", n) : "some=file.yaml";
      CASE(fmt("%s,load%s", n, k ? "" : "=some=file.yaml"));
      bool ok = survives([&] {
        Apollo::instance();
        mkdir(".apollo", 0777);
        mkdir(".apollo/models", 0777);
        Apollo::Region a(2, "other", 4, 0, n);
        Apollo::Dataset d;
        std::vector<std::vector<float>> fs;
        std::vector<int> ls;
        data(fs, ls, d, 4, 30);
        a.model->train(d);
        a.model->store(fn);
        Apollo::Region b(2, "reg", 4, 0, std::string(n) + (k ? ",load" : ",load=some=file.yaml"));
        b.model->store("again.yaml");
        CHECK(slurp("again.yaml") == slurp(fn), "the model was not loaded from %s", fn.c_str());
      });
      CHECK(ok, "could not load");
      unlink(fn.c_str());
    }
  // random specifications
  int n = vf_thorough ? 1500 : 150;
  for (int t = 0; t < n; ++t) {
    const char *ns[] = {"Static", "DecisionTree", "RandomForest", "PolicyNet", "StaticRegion"};
    std::string nm = ns[rint_(0, 4)];
    KV kv;
    int c = rint_(0, 5);
    for (int i = 0; i < c; ++i) {
      std::string k, v;
      if (rint_(0, 14) == 0)
        k = keys[rint_(0, 21)], v = "1";
      else if (nm == "Static")
        k = "policy", v = std::to_string(rint_(0, 6));
      else if (nm == "StaticRegion")
        k = std::string(1, 'a' + rint_(0, 2)), v = std::to_string(rint_(0, 5));
      else if (nm == "PolicyNet")
        k = net[rint_(0, 4)], v = vals[rint_(0, 4)];
      else {
        k = nm == "DecisionTree" ? keys[rint_(0, 1) ? 1 : 3] : keys[rint_(1, 3)];
        v = k == "explore" ? (rint_(0, 1) ? "Random" : "Static") : std::to_string(rint_(0, 6));
      }
      if (k == "load" || k == "load-dataset" || (v == "1" && (k == "explore" || nm == "PolicyNet") && allowed(nm, k))) continue;
      kv.push_back({k, v});
    }
    one(join(nm, kv), std::string(1, 'a' + rint_(0, 2)), rint_(2, 6), rint_(0, 1));
  }
}
