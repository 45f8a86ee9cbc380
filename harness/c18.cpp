// start-up in a child process per configuration
#include "h.h"
#include "apollo/Apollo.h"
#include "apollo/Config.h"
struct I {
  const char *n;
  int *v;
  int d;
};
static I ints[] = {
#define X(n, d) {"APOLLO_" #n, &Config::APOLLO_##n, d}
    X(COLLECTIVE_TRAINING, 0), X(LOCAL_TRAINING, 1), X(SINGLE_MODEL, 0), X(REGION_MODEL, 1), X(GLOBAL_TRAIN_PERIOD, 0),
    X(PER_REGION_TRAIN_PERIOD, 0), X(TRACE_POLICY, 0), X(STORE_MODELS, 0), X(TRACE_RETRAIN, 0), X(TRACE_ALLGATHER, 0),
    X(TRACE_BEST_POLICIES, 0), X(RETRAIN_ENABLE, 0), X(TRACE_CSV, 0), X(PERSISTENT_DATASETS, 0), X(STORE_EXEC_INFO, 0)};
struct F {
  const char *n;
  float *v;
  float d;
};
static F flts[] = {X(RETRAIN_TIME_THRESHOLD, 2.0f), X(RETRAIN_REGION_THRESHOLD, 0.5f)};
struct S {
  const char *n;
  std::string *v;
  const char *d;
};
static S strs[] = {X(POLICY_MODEL, "Static,policy=0"), X(OUTPUT_DIR, ".apollo"), X(DATASETS_DIR, "datasets"),
                   X(TRACES_DIR, "traces"), X(MODELS_DIR, "models")};
static void one(std::map<std::string, std::string> env)
{
  std::string h;
  for (auto &e : env)
    h += e.first + "='" + e.second + "' ";
  CASE(h);
  auto iv = [&](const char *n, int d) { return env.count(n) ? std::atoi(env[n].c_str()) : d; };
  bool coll = iv("APOLLO_COLLECTIVE_TRAINING", 0), loc = iv("APOLLO_LOCAL_TRAINING", 1);
  bool sing = iv("APOLLO_SINGLE_MODEL", 0), reg = iv("APOLLO_REGION_MODEL", 1);
  bool want = !coll && loc && sing != reg;
  bool got = survives([&] {
    for (auto &e : env)
      setenv(e.first.c_str(), e.second.c_str(), 1);
    Apollo::instance();
    if (!want) return;
    for (auto &i : ints)
      CHECK(*i.v == iv(i.n, i.d), "%s is %d, expected %d", i.n, *i.v, iv(i.n, i.d));
    for (auto &f : flts) {
      float w = env.count(f.n) ? std::strtof(env[f.n].c_str(), 0) : f.d;
      CHECK(*f.v == w, "%s is %.9g, expected %.9g", f.n, *f.v, w);
    }
    for (auto &s : strs) {
      std::string w = env.count(s.n) ? env[s.n] : s.d;
      CHECK(*s.v == w, "%s is '%s', expected '%s'", s.n, s.v->c_str(), w.c_str());
    }
  });
  CHECK(got == want, "start-up %s, expected it to %s", got ? "succeeded" : "aborted", want ? "succeed" : "abort");
}
void run()
{
  one({});
  // every combination of the four mode switches, unset / 0 / 1 / another nonzero value
  const char *vs[] = {nullptr, "0", "1", "2"};
  for (int a = 0; a < 4; ++a)
    for (int b = 0; b < 4; ++b)
      for (int c = 0; c < 4; ++c)
        for (int d = 0; d < 4; ++d) {
          std::map<std::string, std::string> e;
          if (a) e["APOLLO_COLLECTIVE_TRAINING"] = vs[a];
          if (b) e["APOLLO_LOCAL_TRAINING"] = vs[b];
          if (c) e["APOLLO_SINGLE_MODEL"] = vs[c];
          if (d) e["APOLLO_REGION_MODEL"] = vs[d];
          one(e);
        }
  // every setting on its own, at several values
  const char *iv[] = {"0", "1", "7", "-1", "2147483647", "12", "01", "+3", " 4"};
  for (auto &i : ints)
    for (auto *v : iv)
      one({{i.n, v}});
  const char *fv[] = {"0.0", "1.25", "3", "1e-3", "0.1", "1000000"};
  for (auto &f : flts)
    for (auto *v : fv)
      one({{f.n, v}});
  const char *sv[] = {"x", "a b", "RoundRobin", "DecisionTree,max_depth=3", "d1", "some-other_dir.2"};
  for (auto &s : strs)
    for (auto *v : sv)
      one({{s.n, v}});
  int n = vf_thorough ? 1500 : 150;
  for (int k = 0; k < n; ++k) {
    std::map<std::string, std::string> e;
    for (auto &i : ints)
      if (rint_(0, 3) == 0) {
        bool mode = &i - ints < 4;
        e[i.n] = mode ? (i.d ? "1" : "0") : iv[rint_(0, 8)];
      }
    if (rint_(0, 1)) {
      e["APOLLO_SINGLE_MODEL"] = "1";
      e["APOLLO_REGION_MODEL"] = "0";
    }
    for (auto &f : flts)
      if (rint_(0, 1)) e[f.n] = fv[rint_(0, 5)];
    for (auto &s : strs)
      if (rint_(0, 1)) e[s.n] = sv[rint_(0, 5)];
    one(e);
  }
}
