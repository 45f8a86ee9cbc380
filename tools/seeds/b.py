HDR = ('#include <cstdio>\n#include <cstdlib>\n#include <cmath>\n#include <string>\n#include <vector>\n#include <map>\n'
       '#include <unordered_map>\n#include <sstream>\n#include <fstream>\n#include <tuple>\n#include <memory>\n#include <set>\n#include <iostream>\n')
DS = ['Dataset.cpp', 'helpers/Parser.cpp']
TREE = ['models/impl/DecisionTreeImpl.cpp', 'models/impl/RandomForestImpl.cpp', 'helpers/OutputFormatter.cpp', 'helpers/Parser.cpp']
D, R, A = 'src/Dataset.cpp', 'src/Region.cpp', 'src/Apollo.cpp'
DT, RF, PN = 'src/models/impl/DecisionTreeImpl.cpp', 'src/models/impl/RandomForestImpl.cpp', 'src/models/PolicyNet.cpp'
K = 'src/connectors/kokkos/kokkos-connector.cpp'
SEEDS = [
 dict(id='C04-outlier', prop='C04', edits=[(D, '    it->second = .5 * it->second + .5 * metric;',
   '    it->second = .5 * it->second + .5 * (metric > 1e6 * it->second ? it->second : metric);')],
   srcs=DS, needs='a second measurement a million times the stored value', breaks='the measurement is not averaged in',
   demo=HDR + '''#include "apollo/Dataset.h"
int main() {
  Apollo::Dataset d;
  double ms[] = {1e-9, 5.0, 2e-3};
  double want = ms[0];
  for (int i = 0; i < 3; ++i) {
    std::vector<float> f{1.0f};
    d.insert(f, 2, ms[i]);
    if (i) want = .5 * want + .5 * ms[i];
  }
  auto v = d.toVectorOfTuples();
  if (v.size() != 1 || std::fabs(std::get<2>(v[0]) - want) > 1e-12) { printf("%g\\n", std::get<2>(v[0])); return 1; }
  return 0;
}
'''),
 dict(id='C05-tie', prop='C05', edits=[(D, '      if (avg < prev_avg) best_policies[features]', '      if (avg <= prev_avg) best_policies[features]')],
   srcs=DS, needs='two policies with exactly the same best metric', breaks='the label is the highest such policy, not the lowest',
   demo=HDR + '''#include "apollo/Dataset.h"
int main() {
  Apollo::Dataset d;
  for (int p = 0; p < 4; ++p) { std::vector<float> f{3.0f}; d.insert(f, p, p ? 0.25 : 1.0); }
  std::vector<std::vector<float>> fs; std::vector<int> ps; std::map<std::vector<float>, std::pair<int, double>> m;
  d.findMinMetricPolicyByFeatures(fs, ps, m);
  return ps.size() == 1 && ps[0] == 1 ? 0 : 1;
}
'''),
 dict(id='C06-zero', prop='C06', edits=[(D, '    insert(features, policy, xtime);\n  }\n}', '    if (xtime > 0.0) insert(features, policy, xtime);\n  }\n}')],
   srcs=DS, needs='a stored metric that is not positive', breaks='such entries are lost by loading',
   demo=HDR + '''#include "apollo/Dataset.h"
int main() {
  Apollo::Dataset d, e;
  double ms[] = {0.5, 0.0, -2.0};
  for (int p = 0; p < 3; ++p) { std::vector<float> f{1.5f, 2.0f}; d.insert(f, p, ms[p]); }
  std::stringstream s;
  d.store(s);
  e.load(s);
  return d.toVectorOfTuples() == e.toVectorOfTuples() ? 0 : 1;
}
'''),
 dict(id='C06-dup', prop='C06', edits=[(D, '      parser.parse<float>(feature);\n      parser.parseExpected(",");\n      features.push_back(feature);',
   '      parser.parse<float>(feature);\n      parser.parseExpected(",");\n      if (features.size() < 32) features.push_back(feature);')],
   srcs=DS, needs='more than 32 features per entry', breaks='features past the 32nd are dropped by loading, entries collide',
   demo=HDR + '''#include "apollo/Dataset.h"
int main() {
  Apollo::Dataset d, e;
  for (int p = 0; p < 3; ++p) { std::vector<float> f(40, 1.0f); f[39] = p; d.insert(f, 1, p + 1.0); }
  std::stringstream s;
  d.store(s);
  e.load(s);
  return d.toVectorOfTuples() == e.toVectorOfTuples() ? 0 : 1;
}
'''),
 dict(id='C07-near', prop='C07', edits=[(DT, '      if (feature_val_left == feature_val_right) continue;',
   '      if (feature_val_right - feature_val_left <= 1e-6f) continue;')],
   srcs=TREE, flags='-DNDEBUG', needs='training features closer than 1e-6 with different labels',
   breaks='no split separates them, the tree mispredicts a training sample',
   demo=HDR + '''#define private public
#include "models/impl/DecisionTreeImpl.h"
int main() {
  for (float scale : {1.0f, 1e-3f, 2.5e-7f}) {
    std::vector<std::vector<float>> f{{0.0f * scale}, {1 * scale}, {2 * scale}, {3 * scale}}, g = f;
    std::vector<int> r{0, 1, 0, 1}, q = r;
    DecisionTreeImpl t(2, f, r, 4u);
    for (int i = 0; i < 4; ++i) if (t.predict(g[i]) != q[i]) { printf("sample %d at scale %g\\n", i, scale); return 1; }
  }
  return 0;
}
'''),
 dict(id='C07-sort', prop='C07', edits=[(DT, '              return x.first[split_feature_idx] < y.first[split_feature_idx];',
   '              return x.first[split_feature_idx] < y.first[split_feature_idx] ||\n                     (x.second < y.second && x.first[split_feature_idx] - y.first[split_feature_idx] < 0.5f);')],
   srcs=TREE, flags='-DNDEBUG', needs='the best feature is not the last one, close values with decreasing labels',
   breaks='the samples are not partitioned at the returned iterator, a training sample ends on the wrong side',
   demo=HDR + '''#define private public
#include "models/impl/DecisionTreeImpl.h"
int main() {
  std::vector<std::vector<float>> f{{0.0f, 5}, {0.1f, 5}, {0.2f, 5}, {0.3f, 5}}, g = f;
  std::vector<int> r{1, 1, 0, 0}, q = r;
  DecisionTreeImpl t(2, f, r, 4u);
  for (int i = 0; i < 4; ++i) if (t.predict(g[i]) != q[i]) { printf("sample %d\\n", i); return 1; }
  return 0;
}
'''),
 dict(id='C08-load', prop='C08', edits=[('src/models/RandomForest.cpp', 'void RandomForest::load(const std::string &filename)\n{\n  trainable = false;',
   'void RandomForest::load(const std::string &filename)\n{\n  trainable = trainable && filename.size() > 32;')],
   needs='a model file with a long path', breaks='the loaded forest keeps exploring and stays trainable',
   demo=HDR + '''#include "apollo/ModelFactory.h"
int main() {
  std::unordered_map<std::string, std::string> p;
  auto m = apollo::ModelFactory::createPolicyModel("RandomForest", 1, 3, p);
  Apollo::Dataset d;
  for (int i = 0; i < 6; ++i) { std::vector<float> f{(float)i}; d.insert(f, i % 3, 1.0); }
  m->train(d);
  std::string n = "a-rather-long-file-name-for-a-model-of-the-region.yaml";
  m->store(n);
  auto l = apollo::ModelFactory::createPolicyModel("RandomForest", 1, 3, p);
  l->load(n);
  if (l->isTrainable()) return 1;
  for (int i = 0; i < 6; ++i) { std::vector<float> f{(float)i}; if (l->getIndex(f) != m->getIndex(f)) return 2; }
  return 0;
}
'''),
 dict(id='C09-right', prop='C09', edits=[(DT, '  parseKeyVal(parser, "threshold:", threshold);\n\n  parser.getNextToken();\n  parser.parseExpected("count_per_class:");',
   '  parseKeyVal(parser, "threshold:", threshold);\n  if (gini <= 1e-3f) feature_idx = -1;\n\n  parser.getNextToken();\n  parser.parseExpected("count_per_class:");')],
   srcs=TREE, flags='-DNDEBUG', needs='a nearly pure inner node (thousands of samples of one class, few of another)',
   breaks='the loaded tree treats that node as a leaf', demo=HDR + '''#define private public
#include "models/impl/DecisionTreeImpl.h"
int main() {
  std::vector<std::vector<float>> f, g;
  std::vector<int> r;
  for (int i = 0; i < 4000; ++i) { f.push_back({(float)i}); r.push_back(i == 1234); }
  g = f;
  DecisionTreeImpl t(2, f, r, 4u), l(2, 4u);
  t.save("t.yaml");
  l.load("t.yaml");
  for (auto &x : g) if (t.predict(x) != l.predict(x)) { printf("%g\\n", x[0]); return 1; }
  return 0;
}
'''),
 dict(id='C10-pair', prop='C10', edits=[(RF, '''      int sample_idx = uniform_dist(generator);
      sample_features.push_back(features[sample_idx]);
      sample_responses.push_back(responses[sample_idx]);
    }

    rfc.push_back(std::make_unique<DecisionTreeImpl>(
        num_classes, sample_features, sample_responses, max_depth));
  }
}

RandomForestImpl::RandomForestImpl(''', '''      int sample_idx = uniform_dist(generator);
      sample_features.push_back(features[sample_idx]);
      sample_responses.push_back(responses[sample_idx % 0x80]);
    }

    rfc.push_back(std::make_unique<DecisionTreeImpl>(
        num_classes, sample_features, sample_responses, max_depth));
  }
}

RandomForestImpl::RandomForestImpl(''')],
   srcs=TREE, flags='-DNDEBUG', needs='more than 128 training samples', breaks='trees are built from pairs that are not in the training set',
   demo=HDR + '''#define private public
#include "models/impl/DecisionTreeImpl.h"
#include "models/impl/RandomForestImpl.h"
int main() {
  std::vector<std::vector<float>> f;
  std::vector<int> r;
  for (int i = 0; i < 300; ++i) { f.push_back({(float)i}); r.push_back(i >= 128); }
  RandomForestImpl m(2, 3u, 20u);
  m.train(f, r);
  for (auto &t : m.rfc) for (auto &d : t->data) if (d.second != (d.first[0] >= 128)) { printf("%g\\n", d.first[0]); return 1; }
  return 0;
}
'''),
 dict(id='C11-leak', prop='C11', edits=[(R, '      context->features.clear();\n      break;', '      if (context->policy >= 0) context->features.clear();\n      break;'),
   ('include/apollo/Region.h', '  int policy;\n', '  int policy = -1;\n')],
   needs='an execution ended without asking for a policy, followed by another one', breaks='features leak into the next execution',
   demo=''),
 dict(id='C11-count', prop='C11', edits=[(R, '  apollo->region_executions++;\n\n  autoTrain();', '  if (metric >= 0.0) apollo->region_executions++;\n\n  autoTrain();')],
   needs='an execution reported with a negative metric', breaks='the execution is not counted',
   demo=HDR + '''#define private public
#include "apollo/Apollo.h"
#include "apollo/Region.h"
int main() {
  auto *a = Apollo::instance();
  auto &r = *new Apollo::Region(1, "r", 2);
  double ms[] = {1, 0, -1, 2};
  for (double m : ms) { auto *c = r.begin(); r.setFeature(c, 1); r.getPolicyIndex(c); r.end(c, m); }
  return a->region_executions == 4 && r.idx == 4 ? 0 : 1;
}
'''),
 dict(id='C12-min', prop='C12', edits=[(R, '  } else if (0 < min_training_data && min_training_data <= dataset.size())',
   '  } else if (1 < min_training_data && min_training_data <= dataset.size())')],
   needs='a minimum of one training sample', breaks='the region is never trained',
   demo=HDR + '''#define private public
#include "apollo/Apollo.h"
#include "apollo/Region.h"
int main() {
  Apollo::instance();
  for (int m = 1; m < 4; ++m) {
    auto &r = *new Apollo::Region(1, ("r" + std::to_string(m)).c_str(), 2, m, "DecisionTree,explore=RoundRobin");
    for (int i = 1; i <= 4; ++i) {
      auto *c = r.begin(); r.setFeature(c, i); r.getPolicyIndex(c); r.end(c, 1.0);
      if (r.model->isTrainable() != (i < m)) { printf("min %d after %d\\n", m, i); return 1; }
    }
  }
  return 0;
}
'''),
 dict(id='C13-eq', prop='C13', edits=[(R, '    size_t kv_pos = keyval_str.find("=");', '    size_t kv_pos = keyval_str.find_last_of("=");')],
   needs="a parameter value that contains '='", breaks='the key takes part of the value',
   demo=HDR + '''#define private public
#include "apollo/Apollo.h"
#include "apollo/Region.h"
int main() {
  Apollo::instance();
  { std::ofstream o("x=y.yaml"); o << "tree: {\\nmax_depth: 2,\\nclasses: [ 0, ],\\nnum_features: 1,\\nroot: {\\ngini: 0,\\nnum_samples: 1,\\npredicted_class: 0,\\nfeature_idx: -1,\\nthreshold: 0,\\ncount_per_class: {\\n0: 1,\\n},\\n},\\ndata: {\\n},\\n}\\n"; }
  auto &r = *new Apollo::Region(1, "r", 2, 0, "DecisionTree,max_depth=3,load=x=y.yaml");
  return r.model_params.count("load") && r.model_params["load"] == "x=y.yaml" ? 0 : 1;
}
'''),
 dict(id='C14-sub', prop='C14', edits=[('src/timers/TimerSync.cpp', '  exec_time_end = ts.tv_sec + ts.tv_nsec / 1e9;',
   '  exec_time_end = ts.tv_sec + (ts.tv_nsec / 1000) / 1e6f;')],
   srcs=['timers/TimerSync.cpp'], needs='a clock with microsecond or finer differences', breaks='the end time is rounded to single precision',
   demo=HDR + '''#include "timers/TimerSync.h"
#include <ctime>
static timespec now;
extern "C" int clock_gettime(clockid_t, struct timespec *t) noexcept { *t = now; return 0; }
int main() {
  long a[] = {0, 999999999, 123456789, 500};
  long b[] = {999999999, 1, 123457789, 800};
  for (int i = 0; i < 4; ++i) {
    TimerSync t;
    now.tv_sec = 5; now.tv_nsec = a[i]; t.start();
    now.tv_sec = 7; now.tv_nsec = b[i]; t.stop();
    double m, w = 2 + (b[i] - a[i]) / 1e9;
    if (!t.isDone(m) || std::fabs(m - w) > 1e-9) { printf("%.12f expected %.12f\\n", m, w); return 1; }
  }
  return 0;
}
'''),
 dict(id='C15-stale', prop='C15', edits=[(PN, '      for (int i = 0; i < batchSize * outputSize; ++i) {\n        outputs[i] = 0;',
   '      for (int i = 0; i < maxBatchSize + outputSize - 1; ++i) {\n        if (i < batchSize * outputSize) outputs[i] = 0;')],
   srcs=DS, needs='a second batch with several samples and outputs, no larger than the first', breaks='old outputs are added to the new ones',
   demo=HDR + '''#include "models/PolicyNet.cpp"
int main() {
  apollo::FCLayer l(2, 3);
  double x[8] = {1, 2, 3, 4, 5, 6, 7, 8};
  for (int n = 4; n >= 1; --n) for (int rep = 0; rep < 2; ++rep) {
    double *o = l.forward(x, n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < 3; ++j) {
      double w = l.bias[j] + l.weights[j * 2] * x[i * 2] + l.weights[j * 2 + 1] * x[i * 2 + 1];
      if (std::fabs(o[i * 3 + j] - w) > 1e-9) { printf("batch %d sample %d\\n", n, i); return 1; }
    }
  }
  return 0;
}
'''),
 dict(id='C15-grad', prop='C15', edits=[(PN, '    for (int i = 0; i < batchSize * inputSize; ++i) {\n      inputGrad[i] = chainRuleGrad[i] * std::signbit(-inputs[i]);',
   '    for (int i = 0; i < batchSize * inputSize; ++i) {\n      inputGrad[i] = chainRuleGrad[i] * (inputs[i] >= 1e-3);')],
   srcs=DS, needs='small positive activations', breaks='their gradient is dropped',
   demo=HDR + '''#include "models/PolicyNet.cpp"
int main() {
  apollo::ReLU r;
  double x[4] = {1e-5, -2, 3, -1e-6}, g[4] = {1, 2, 3, 4};
  r.forward(x, 2, 2);
  double *o = r.backward(x, g, 2, 2);
  for (int i = 0; i < 4; ++i) if (o[i] != (x[i] > 0 ? g[i] : 0)) { printf("%d\\n", i); return 1; }
  return 0;
}
'''),
 dict(id='C17-open', prop='C17', edits=[(K, '                                    : (in.upper.int_value - 1)) -', '                                    : (in.upper.int_value - in.step.int_value)) -')],
   needs='a range with an open end that is not a multiple of a step above 1 from its start', breaks='the last admissible value is not offered',
   demo=HDR + '''#include "connectors/kokkos/kokkos-connector.cpp"
''' + '''int main() {
  for (int up = 1; up < 12; ++up) for (int st = 1; st < 5; ++st) for (int o = 0; o < 2; ++o) {
    Kokkos_Tools_ValueRange r; r.lower.int_value = 0; r.upper.int_value = up; r.step.int_value = st; r.openLower = false; r.openUpper = o;
    int want = 0;
    for (int v = 0; o ? v < up : v <= up; v += st) ++want;
    if (count_range_slices(r, kokkos_value_int64) != want) { printf("%d %d %d\\n", up, st, o); return 1; }
  }
  return 0;
}
'''),
 dict(id='C18-both', prop='C18', edits=[(A, '  if (Config::APOLLO_SINGLE_MODEL && Config::APOLLO_REGION_MODEL) {', '  if (Config::APOLLO_SINGLE_MODEL & Config::APOLLO_REGION_MODEL) {')],
   needs='APOLLO_SINGLE_MODEL=2 with per-region modelling left on', breaks='a contradictory configuration starts',
   demo=HDR + '''#include "apollo/Apollo.h"
#include <unistd.h>
#include <sys/wait.h>
int main() {
  for (const char *v : {"1", "2", "4", "-2"}) {
    pid_t p = fork();
    if (!p) { setenv("APOLLO_SINGLE_MODEL", v, 1); freopen("/dev/null", "w", stderr); freopen("/dev/null", "w", stdout); Apollo::instance(); _exit(0); }
    int s; waitpid(p, &s, 0);
    if (!WIFSIGNALED(s)) { printf("started with APOLLO_SINGLE_MODEL=%s\\n", v); return 1; }
  }
  return 0;
}
'''),
 dict(id='C19-guard', prop='C19', edits=[('src/helpers/Parser.cpp', '      if (idx >= BUFSIZE) fatal_error("Token exceeds buffer size");',
   '      if (idx > BUFSIZE) fatal_error("Token exceeds buffer size");')],
   srcs=['helpers/Parser.cpp'], needs='a token of exactly 64 characters', breaks='the terminator is written past the buffer',
   demo=HDR + '''#define private public
#include "helpers/Parser.h"
#include <unistd.h>
#include <sys/wait.h>
int main() {
  for (int n = 60; n < 70; ++n) {
    pid_t p = fork();
    if (!p) {
      freopen("/dev/null", "w", stderr);
      std::stringstream s(std::string(n, 'x') + " y\\n");
      Parser q(s);
      q.token = q.buffer;
      const char *t = q.getNextToken();
      _exit(strlen(t) == n && n < sizeof(q.buffer) ? 0 : 1);
    }
    int s; waitpid(p, &s, 0);
    if (n < 64 ? !(WIFEXITED(s) && WEXITSTATUS(s) == 0) : !WIFSIGNALED(s)) { printf("token of %d\\n", n); return 1; }
  }
  return 0;
}
'''.replace('#include <unistd.h>', '#include <cstring>\n#include <unistd.h>')),
 dict(id='C01-random', prop='C01', edits=[('src/models/Random.cpp', '  if (policy_count > 1) {\n    choice = random_dist(random_gen);',
   '  if (policy_count > 1) {\n    choice = random_dist(random_gen) + (features.empty() ? 1 : 0);')],
   srcs=['models/Random.cpp'], needs='an execution without features', breaks='the choice may be N',
   demo=HDR + '''#include "apollo/models/Random.h"
int main() {
  apollo::Random m(3);
  std::vector<float> e, f{1};
  for (int i = 0; i < 3000; ++i) { int c = m.getIndex(i % 2 ? e : f); if (c < 0 || c > 2) { printf("%d\\n", c); return 1; } }
  return 0;
}
'''),
 dict(id='C16-rank', prop='C16', edits=[(A, '    if (rank == mpiRank) continue;', '    if (rank == mpiRank || rank + 1 == mpiRank) continue;')],
   flags='-DENABLE_MPI', cxx='mpicxx', launch='mpirun --allow-run-as-root --oversubscribe -n 3 -x APOLLO_COLLECTIVE_TRAINING=1 -x APOLLO_LOCAL_TRAINING=0',
   needs='a rank other than the first', breaks='the measurements of the preceding rank are dropped',
   demo=HDR + '''#define private public
#include "apollo/Apollo.h"
#include "apollo/Region.h"
#include <mpi.h>
int main() {
  MPI_Init(0, 0);
  int r, bad = 0, any = 0;
  MPI_Comm_rank(MPI_COMM_WORLD, &r);
  {
    auto *a = Apollo::instance();
    auto *g = new Apollo::Region(1, "reg", 2, 0, "Static,policy=0");
    std::vector<float> f{(float)r};
    g->dataset.insert(f, 1, r + 1.0);
    a->train(0);
    auto v = g->dataset.toVectorOfTuples();
    bad = v.size() != 3;
    for (auto &t : v) bad |= std::get<2>(t) != std::get<0>(t)[0] + 1 || std::get<1>(t) != 1;
  }
  MPI_Allreduce(&bad, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  MPI_Finalize();
  return any;
}
'''),
]
SEEDS = [s for s in SEEDS if s['demo']]
