HDR = '#include <cstdio>\n#include <cstdlib>\n#include <cmath>\n#include <string>\n#include <vector>\n#include <map>\n#include <unordered_map>\n'
SEEDS = [
 dict(id='C02-wrap', prop='C02', edits=[('src/models/RoundRobin.cpp',
   '  int choice = (last_policy + 1) % policy_count;\n  last_policy = choice;',
   '  int choice = (last_policy + 1) % policy_count;\n  // Single feature regions restart the cycle with the new feature value.\n  last_policy = (features.size() > 3 && choice + 1 == policy_count) ? 0 : choice;')],
   srcs=['models/RoundRobin.cpp'], needs='a cycle that ends on a call with more than three features',
   breaks='the cycle skips policy 0 after such a call',
   demo=HDR + '''#include "apollo/models/RoundRobin.h"
int main() {
  apollo::RoundRobin m(3);
  std::vector<float> f{1, 2, 3, 4};
  for (int k = 0; k < 12; ++k)
    if (m.getIndex(f) != k % 3) { printf("choice %d wrong\\n", k); return 1; }
  return 0;
}
'''),
 dict(id='C02-narrow', prop='C02', edits=[('include/apollo/models/RoundRobin.h', '  int last_policy;', '  short last_policy;')],
   srcs=['models/RoundRobin.cpp'], needs='more than 32768 policies',
   breaks='the remembered choice is truncated, later policies are never visited',
   demo=HDR + '''#include "apollo/models/RoundRobin.h"
int main() {
  apollo::RoundRobin m(40000);
  std::vector<float> f{1};
  for (int k = 0; k < 80010; ++k)
    if (m.getIndex(f) != k % 40000) { printf("choice %d wrong\\n", k); return 1; }
  return 0;
}
'''),
 dict(id='C03-bound', prop='C03', edits=[('src/ModelFactory.cpp', '    if (policy >= num_policies) {\n      std::cerr << "WARNING: policy "',
   '    if (policy > num_policies) {\n      std::cerr << "WARNING: policy "')],
   needs='policy equal to the number of policies', breaks='Static selects policy N, outside 0..N-1',
   demo=HDR + '''#include "apollo/ModelFactory.h"
int main() {
  for (int n = 1; n < 6; ++n) for (int p = 0; p < 9; ++p) {
    std::unordered_map<std::string, std::string> ps{{"policy", std::to_string(p)}};
    auto m = apollo::ModelFactory::createPolicyModel("Static", 1, n, ps);
    std::vector<float> f{1};
    int c = m->getIndex(f);
    if (c != (p < n ? p : 0)) { printf("N=%d policy=%d selects %d\\n", n, p, c); return 1; }
  }
  return 0;
}
'''),
]
