// tuning problems through the connector's C interface, every policy enumerated with a RoundRobin model
#include "h.h"
#include "apollo/Apollo.h"
#include "apollo/Config.h"
#include "apollo/Region.h"
#include "impl/Kokkos_Profiling_Interface.hpp"
using namespace Kokkos::Tools::Experimental;
extern "C" void kokkosp_init_library(const int, const uint64_t, const uint32_t, void *);
extern "C" void kokkosp_declare_output_type(const char *, const size_t, VariableInfo *);
extern "C" void kokkosp_declare_input_type(const char *, const size_t, VariableInfo *);
extern "C" void kokkosp_request_values(size_t, size_t, VariableValue *, size_t, VariableValue *);
extern "C" void kokkosp_end_context(size_t);
static size_t next_id = 1, next_ctx = 1;
struct Var {
  size_t id;
  VariableInfo *info;
  std::set<std::string> want;  // admissible values, printed
  std::string text;
};
static std::string val(VariableInfo *i, const Kokkos_Tools_VariableValue_ValueUnion &v)
{
  if (i->type == ValueType::kokkos_value_int64) return fmt("%lld", (long long)v.int_value);
  if (i->type == ValueType::kokkos_value_double) return fmt("%.17g", v.double_value);
  return std::string(v.string_value, strnlen(v.string_value, 64));
}
static Var range(int64_t lo, int64_t hi, int64_t step, bool ol, bool oh)
{
  Var v;
  v.id = next_id++;
  v.info = new VariableInfo();
  v.info->type = ValueType::kokkos_value_int64;
  v.info->category = StatisticalCategory::kokkos_value_ordinal;
  v.info->valueQuantity = CandidateValueType::kokkos_value_range;
  auto &r = v.info->candidates.range;
  r.lower.int_value = lo;
  r.upper.int_value = hi;
  r.step.int_value = step;
  r.openLower = ol;
  r.openUpper = oh;
  for (__int128 x = (__int128)lo + ol; x <= (__int128)hi - oh; x += step)
    v.want.insert(fmt("%lld", (long long)x));
  v.text = fmt("range %c%lld,%lld%c step %lld", ol ? '(' : '[', (long long)lo, (long long)hi, oh ? ')' : ']',
               (long long)step);
  kokkosp_declare_output_type(fmt("r%zu", v.id).c_str(), v.id, v.info);
  return v;
}
static Var iset(std::vector<int64_t> xs)
{
  Var v;
  v.id = next_id++;
  v.info = new VariableInfo();
  v.info->type = ValueType::kokkos_value_int64;
  v.info->category = StatisticalCategory::kokkos_value_categorical;
  v.info->valueQuantity = CandidateValueType::kokkos_value_set;
  auto *a = new int64_t[xs.size()];
  for (size_t i = 0; i < xs.size(); ++i) {
    a[i] = xs[i];
    v.want.insert(fmt("%lld", (long long)xs[i]));
  }
  v.info->candidates.set.size = xs.size();
  v.info->candidates.set.values.int_value = a;
  v.text = "set " + show(xs);
  kokkosp_declare_output_type(fmt("s%zu", v.id).c_str(), v.id, v.info);
  return v;
}
static Var oset(bool str, int n)
{
  Var v;
  v.id = next_id++;
  v.info = new VariableInfo();
  v.info->type = str ? ValueType::kokkos_value_string : ValueType::kokkos_value_double;
  v.info->category = StatisticalCategory::kokkos_value_categorical;
  v.info->valueQuantity = CandidateValueType::kokkos_value_set;
  v.info->candidates.set.size = n;
  if (str) {
    auto *a = new Kokkos_Tools_Tuning_String[n];
    for (int i = 0; i < n; ++i) {
      std::string s = fmt("choice-%d", i * 3) + std::string(i % 3 == 0 ? 40 : 0, 'x');
      memset(a[i], 0, 64);
      memcpy(a[i], s.data(), s.size());
      v.want.insert(s);
    }
    v.info->candidates.set.values.string_value = a;
  } else {
    auto *a = new double[n];
    for (int i = 0; i < n; ++i) {
      a[i] = .1 * i - 1;
      v.want.insert(fmt("%.17g", a[i]));
    }
    v.info->candidates.set.values.double_value = a;
  }
  v.text = fmt("%s set of %d", str ? "string" : "double", n);
  kokkosp_declare_output_type(fmt("o%zu", v.id).c_str(), v.id, v.info);
  return v;
}
static Var input()
{
  Var v;
  v.id = next_id++;
  v.info = new VariableInfo();
  v.info->type = ValueType::kokkos_value_int64;
  v.info->category = StatisticalCategory::kokkos_value_interval;
  v.info->valueQuantity = CandidateValueType::kokkos_value_unbounded;
  kokkosp_declare_input_type(fmt("i%zu", v.id).c_str(), v.id, v.info);
  return v;
}
static std::vector<std::string> ask(const std::vector<Var> &ctx, const std::vector<Var> &vs, bool check = true)
{
  std::vector<VariableValue> c(ctx.size()), t(vs.size());
  for (size_t i = 0; i < ctx.size(); ++i) {
    c[i].type_id = ctx[i].id;
    c[i].metadata = ctx[i].info;
    c[i].value.int_value = rint_(0, 100);
  }
  for (size_t i = 0; i < vs.size(); ++i) {
    memset(&t[i], 0, sizeof t[i]);
    t[i].type_id = vs[i].id;
    t[i].metadata = vs[i].info;
  }
  size_t id = next_ctx++;
  kokkosp_request_values(id, c.size(), c.data(), t.size(), t.data());
  kokkosp_end_context(id);
  std::vector<std::string> r;
  for (size_t i = 0; i < vs.size(); ++i) {
    CHECK(t[i].type_id == vs[i].id, "variable %zu came back as variable %zu", vs[i].id, t[i].type_id);
    r.push_back(val(vs[i].info, t[i].value));
    if (check)
      CHECK(vs[i].want.count(r.back()), "value '%s' is not admissible for variable %zu: %s", r.back().c_str(), i,
            vs[i].text.c_str());
  }
  return r;
}
static void all(const std::vector<Var> &vs, int nctx)
{
  long n = 1;
  std::string h = fmt("%d inputs;", nctx);
  for (auto &v : vs) {
    n *= v.want.size();
    h += " " + v.text + ";";
  }
  CASE(h);
  std::vector<Var> ctx;
  for (int i = 0; i < nctx; ++i)
    ctx.push_back(input());
  Config::APOLLO_POLICY_MODEL = "RoundRobin";
  std::vector<std::vector<std::string>> seq;
  std::set<std::vector<std::string>> seen;
  for (long k = 0; k < n; ++k) {
    auto r = ask(ctx, vs);
    CHECK(seen.insert(r).second, "policies %ld and an earlier one both give %s (%ld policies expected)", k,
          show(r).c_str(), n);
    seq.push_back(r);
  }
  // n distinct admissible tuples cover the product; and policy n is policy 0 again: there are exactly n policies
  for (int k = 0; k < 3; ++k) {
    auto r = ask(ctx, vs);
    CHECK(r == seq[k % n], "after %ld policies the values do not start over: the number of policies is not %ld", n, n);
  }
}
static Var rndvar(int max)
{
  if (rint_(0, 2)) {
    int n = rint_(1, max);
    int64_t base[] = {0, -3, 7, 1000, -100000, (int64_t)1 << 33, -((int64_t)1 << 40), ((int64_t)1 << 62), 2147483640};
    int64_t st[] = {1, 2, 3, 7, 64, 100000, (int64_t)1 << 32};
    int64_t lo = base[rint_(0, 8)], s = st[rint_(0, 6)];
    bool ol = rint_(0, 1), oh = rint_(0, 1);
    // n values, the upper bound anywhere before the next one
    int64_t hi = lo + ol + (n - 1) * s + (int64_t)(rnd() % (uint64_t)s) + oh;
    return range(lo, hi, s, ol, oh);
  }
  if (rint_(0, 3) == 0) return oset(rint_(0, 1), rint_(1, max));
  std::set<int64_t> xs;
  int n = rint_(1, max);
  while ((int)xs.size() < n)
    xs.insert(rint_(0, 3) ? rint_(-50, 50) : (int64_t)rnd());
  std::vector<int64_t> v(xs.begin(), xs.end());
  for (int i = n - 1; i > 0; --i)
    std::swap(v[i], v[rint_(0, i)]);
  return iset(v);
}
void run()
{
  setenv("APOLLO_POLICY_MODEL", "RoundRobin", 1);
  kokkosp_init_library(0, 0, 0, nullptr);
  // every small range
  for (int lo = -2; lo <= 2; ++lo)
    for (int w = 0; w <= 6; ++w)
      for (int s = 1; s <= 4; ++s)
        for (int o = 0; o < 4; ++o) {
          if (w - (o & 1) - (o >> 1) < 0) continue;
          all({range(lo, lo + w, s, o & 1, o >> 1)}, s % 2);
        }
  // every shape of up to three small sets
  for (int a = 1; a <= 4; ++a)
    for (int b = 1; b <= 4; ++b) {
      all({iset(std::vector<int64_t>{9, -4, 30, 2}), range(0, a - 1, 1, false, false), range(5, 5 + 2 * (b - 1), 2, false, false)}, 1);
      all({range(1, a, 1, false, false), range(1, b, 1, false, false), range(1, 3, 1, false, false)}, 0);
    }
  int n = vf_thorough ? 1500 : 150;
  for (int t = 0; t < n; ++t) {
    int k = rint_(1, 4);
    std::vector<Var> vs;
    for (int i = 0; i < k; ++i)
      vs.push_back(rndvar(k == 1 ? 300 : k == 2 ? 30 : k == 3 ? 9 : 5));
    all(vs, rint_(0, 3));
  }
  // large spaces: chosen policies only, each with variables of its own over the same candidates
  for (int t = 0; t < (vf_thorough ? 60 : 8); ++t) {
    int k = rint_(2, 6);
    int w = k == 2 ? 1000 : k == 3 ? 100 : k == 4 ? 30 : k == 5 ? 15 : 10;
    std::vector<int> sz;
    long N = 1;
    for (int i = 0; i < k; ++i)
      sz.push_back(rint_(2, w)), N *= sz.back();
    std::map<std::vector<std::string>, int> seen;
    std::set<int> ps{0, 1, (int)N - 1, (int)N - 2, sz[0], sz[0] - 1, (int)(N / 2)};
    for (int i = 0; i < 12; ++i)
      ps.insert(rint_(0, N - 1));
    for (int p : ps) {
      if (p < 0 || p >= N) continue;
      std::vector<Var> vs;
      for (int i = 0; i < k; ++i)
        vs.push_back(range(10 * i, 10 * i + sz[i] - 1, 1, false, false));
      CASE(fmt("policy %d of candidate counts %s", p, show(sz).c_str()));
      Config::APOLLO_POLICY_MODEL = fmt("Static,policy=%d", p);
      auto r = ask({}, vs);
      auto ins = seen.insert({r, p});
      CHECK(ins.second, "policies %d and %d both give %s", p, ins.first->second, show(r).c_str());
    }
  }
}
