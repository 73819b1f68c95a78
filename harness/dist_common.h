// Shared helpers of the harnesses for the distributed library. Every PE runs the same random
// decisions on the whole graph; rank 0 writes the records.
#pragma once
#include "vp.h"

#include <mpi.h>

#include "kaminpar-dist/datastructures/distributed_csr_graph.h"
#include "kaminpar-dist/datastructures/distributed_graph.h"
#include "kaminpar-dist/datastructures/distributed_partitioned_graph.h"
#include "kaminpar-dist/datastructures/ghost_node_mapper.h"
#include "kaminpar-dist/dkaminpar.h"
#include "kaminpar-dist/graphutils/synchronization.h"

#include "kaminpar-common/logger.h"
#include "kaminpar-common/random.h"

namespace vpd {
using namespace vp;
using namespace kaminpar;
using namespace kaminpar::dist;

inline int g_rank = 0, g_size = 1;
inline bool root() { return g_rank == 0; }

// vertices of PE p: dist[p] .. dist[p+1]-1
inline std::vector<GlobalNodeID> random_distribution(Rng &r, std::uint32_t n, int size) {
  std::vector<GlobalNodeID> d(size + 1);
  int kind = r() % 4;
  std::vector<GlobalNodeID> cuts;
  for (int i = 0; i + 1 < size; ++i) cuts.push_back(rnd(r, 0, n));
  std::sort(cuts.begin(), cuts.end());
  int lone = r() % size;
  for (int p = 0; p <= size; ++p) {
    if (p == size) d[p] = n;
    else if (p == 0) d[p] = 0;
    else if (kind <= 1) d[p] = (std::uint64_t)n * p / size; // even
    else if (kind == 2) d[p] = cuts[p - 1];                 // arbitrary, PEs may be empty
    else d[p] = p <= lone ? 0 : n;                          // everything on a single PE
  }
  return d;
}

struct Local {
  std::vector<GlobalNodeID> dist;
  std::vector<GlobalEdgeID> x;
  std::vector<GlobalNodeID> a;
  std::vector<GlobalNodeWeight> vw;
  std::vector<GlobalEdgeWeight> ew;
  GlobalNodeID from = 0, to = 0;
  bool operator==(const Local &) const = default;
};

inline Local cut_out(const G &g, const std::vector<GlobalNodeID> &dist, int rank) {
  Local L;
  L.dist = dist;
  L.from = dist[rank];
  L.to = dist[rank + 1];
  L.x.push_back(0);
  for (auto u = L.from; u < L.to; ++u) {
    for (auto e = g.x[u]; e < g.x[u + 1]; ++e) {
      L.a.push_back(g.a[e]);
      if (!g.ew.empty()) L.ew.push_back(g.ew[e]);
    }
    L.x.push_back(L.a.size());
    if (!g.vw.empty()) L.vw.push_back(g.vw[u]);
  }
  return L;
}

// concatenation of all PEs' vectors, on rank 0
template <typename T> std::vector<long long> gather(const std::vector<T> &mine, MPI_Comm comm = MPI_COMM_WORLD) {
  int rank, size;
  MPI_Comm_rank(comm, &rank);
  MPI_Comm_size(comm, &size);
  std::vector<long long> m(mine.begin(), mine.end());
  int c = m.size();
  std::vector<int> cnt(size), dsp(size + 1);
  MPI_Gather(&c, 1, MPI_INT, cnt.data(), 1, MPI_INT, 0, comm);
  for (int i = 0; i < size; ++i) dsp[i + 1] = dsp[i] + cnt[i];
  std::vector<long long> all(rank == 0 ? dsp[size] : 0);
  MPI_Gatherv(m.data(), c, MPI_LONG_LONG, all.data(), cnt.data(), dsp.data(), MPI_LONG_LONG, 0, comm);
  return all;
}
inline std::vector<long long> gather1(long long v, MPI_Comm comm = MPI_COMM_WORLD) {
  return gather(std::vector<long long>{v}, comm);
}
// one vector per PE, on rank 0
template <typename T> std::vector<std::vector<long long>> gather2(const std::vector<T> &mine, MPI_Comm comm = MPI_COMM_WORLD) {
  auto all = gather(mine, comm);
  auto cnt = gather1(mine.size(), comm);
  std::vector<std::vector<long long>> out;
  std::size_t at = 0;
  for (auto c : cnt) {
    out.emplace_back(all.begin() + at, all.begin() + at + c);
    at += c;
  }
  return out;
}

struct Env {
  Env(int argc, char **argv) {
    int prov;
    MPI_Init_thread(&argc, &argv, MPI_THREAD_FUNNELED, &prov);
    MPI_Comm_rank(MPI_COMM_WORLD, &g_rank);
    MPI_Comm_size(MPI_COMM_WORLD, &g_size);
    Logger::set_quiet_mode(true);
    guard_wall(600);
  }
  ~Env() { MPI_Finalize(); }
};
} // namespace vpd
