// several ranks under mpirun, all drawing the same random histories, so that each knows what the others hold
#include "region.h"
#include <mpi.h>
static int R, NR;
static float rf() { return rint_(0, 2) ? rint_(0, 3) : rint_(0, 1) ? (float)runit() * 1e6f : -1e30f * (float)runit(); }
static std::string rname(int i)
{
  switch (rint_(0, 3)) {
    case 0: return fmt("r%d", i);
    case 1: return std::string(i, 'n') + fmt("-%d", i);
    case 2: return std::string(61, 'l') + fmt("%02d", i);  // 63 characters, the longest
    default: return fmt("region number %d", i);
  }
}
static void one(Apollo *a, int t)
{
  a->regions.clear();
  int k = rint_(0, 4);
  std::string h;
  std::vector<std::map<std::string, M>> held(NR);
  std::vector<std::vector<Apollo::Region *>> dead;
  std::map<std::string, Apollo::Region *> mine;
  std::map<std::string, int> nfs;
  for (int i = 0; i < k; ++i) {
    std::string n = rname(i);
    int nf = rint_(0, 3) ? rint_(1, 4) : rint_(0, 40);
    nfs[n] = nf;
    for (int r = 0; r < NR; ++r) {
      if (rint_(0, 4) == 0) continue;  // this rank has no such region
      M &m = held[r][n];
      int c = rint_(0, 3) ? rint_(0, 5) : rint_(0, 60);
      for (int j = 0; j < c; ++j) {
        std::vector<float> f(nf);
        for (auto &x : f)
          x = rf();
        rec(m, K(f, rint_(0, 3)), rint_(0, 1) ? runit() : rint_(1, 9));
      }
      h += fmt(" rank %d %s(%d):%s", r, n.c_str(), nf, h.size() < 1500 ? showM(m).c_str() : "...");
      if (r == R) {
        auto *g = new Apollo::Region(nf, n.c_str(), 4, 0, "Static,policy=0");
        mine[n] = g;
        for (auto &e : m) {
          auto f = e.first.first;
          g->dataset.insert(f, e.first.second, e.second);
        }
      }
    }
  }
  CASE(h);
  Config::APOLLO_TRACE_ALLGATHER = 0;
  a->train(t);
  for (auto &g : mine) {
    M want = held[R][g.first];
    for (int r = 0; r < NR; ++r) {
      if (r == R) continue;
      auto it = held[r].find(g.first);
      if (it == held[r].end()) continue;
      for (auto &e : it->second)
        rec(want, e.first, e.second);
    }
    M got = contents(g.second->dataset);
    if (!sameM(got, want)) FAIL(fmt("rank %d region '%s' holds ", R, g.first.c_str()) + showM(got) + " expected " + showM(want));
  }
  for (auto &g : mine) {
    a->regions.erase(g.first);
    g.second->dataset.clear();
    delete g.second;
  }
}
void run()
{
  MPI_Init(nullptr, nullptr);
  MPI_Comm_rank(MPI_COMM_WORLD, &R);
  MPI_Comm_size(MPI_COMM_WORLD, &NR);
  Apollo *a = Apollo::instance();
  int n = vf_thorough ? 3000 : 300;
  for (int t = 0; t < n; ++t)
    one(a, t);
  MPI_Barrier(MPI_COMM_WORLD);
  MPI_Finalize();
}
