// A graph distributed to the PEs as the library stores it, and records of what every PE sees of it
// and of its partitions.
#pragma once
#include "dist_common.h"

#include <tbb/global_control.h>

#include "kaminpar-dist/datastructures/distributed_compressed_graph.h"
#include "kaminpar-dist/graphutils/communication.h"
#include "kaminpar-dist/metrics.h"

#include "kaminpar-common/graph_compression/compressed_neighborhoods_builder.h"
#include "kaminpar-common/math.h"

namespace vpd {
namespace mpi = kaminpar::mpi;
namespace graph = kaminpar::dist::graph;

// as dKaMinPar::import_graph does it
inline DistributedCSRGraph import(const Local &L, bool has_vw, MPI_Comm comm) {
  const NodeID n = L.to - L.from;
  const EdgeID m = L.a.size();
  StaticArray<GlobalNodeID> nd(L.dist.begin(), L.dist.end());
  StaticArray<GlobalEdgeID> ed(g_size + 1);
  std::uint64_t mine = m;
  std::vector<std::uint64_t> all(g_size);
  MPI_Allgather(&mine, 1, MPI_UINT64_T, all.data(), 1, MPI_UINT64_T, comm);
  for (int p = 0; p < g_size; ++p) ed[p + 1] = ed[p] + all[p];
  graph::GhostNodeMapper mapper(g_rank, nd);
  StaticArray<EdgeID> nodes(n + 1);
  StaticArray<NodeID> edges(m);
  StaticArray<EdgeWeight> ew;
  for (NodeID u = 0; u <= n; ++u) nodes[u] = L.x[u];
  tbb::parallel_for<EdgeID>(0, m, [&](EdgeID e) {
    edges[e] = L.a[e] >= L.from && L.a[e] < L.to ? (NodeID)(L.a[e] - L.from) : mapper.new_ghost_node(L.a[e]);
  });
  if (!L.ew.empty()) {
    ew.resize(m);
    for (EdgeID e = 0; e < m; ++e) ew[e] = L.ew[e];
  }
  StaticArray<NodeWeight> vw;
  if (has_vw) {
    vw.resize(n + mapper.next_ghost_node());
    for (NodeID u = 0; u < n; ++u) vw[u] = L.vw[u];
  }
  auto [g2l, g2g, owner] = mapper.finalize();
  DistributedCSRGraph g(std::move(nd), std::move(ed), std::move(nodes), std::move(edges), std::move(vw), std::move(ew),
                        std::move(owner), std::move(g2g), std::move(g2l), false, comm);
  if (has_vw) graph::synchronize_ghost_node_weights(g);
  return g;
}

inline DistributedCompressedGraph compress(const DistributedCSRGraph &g, bool has_vw) {
  StaticArray<GlobalNodeID> nd(g.node_distribution().begin(), g.node_distribution().end());
  StaticArray<GlobalEdgeID> ed(g.edge_distribution().begin(), g.edge_distribution().end());
  CompactGhostNodeMappingBuilder mapper(mpi::get_comm_rank(g.communicator()), nd);
  bool edge_weights = mpi::allreduce<std::uint8_t>(g.is_edge_weighted(), MPI_MAX, g.communicator());
  CompressedNeighborhoodsBuilder<NodeID, EdgeID, EdgeWeight> builder(g.n(), g.m(), edge_weights);
  std::vector<std::pair<NodeID, EdgeWeight>> nb;
  for (NodeID u : g.nodes()) {
    g.adjacent_nodes(u, [&](NodeID v, EdgeWeight w) {
      nb.emplace_back(g.is_owned_node(v) ? v : mapper.new_ghost_node(g.local_to_global_node(v)), w);
    });
    builder.add(u, nb);
    nb.clear();
  }
  StaticArray<NodeWeight> vw;
  if (has_vw) {
    vw.resize(g.n() + mapper.next_ghost_node());
    for (NodeID u : g.nodes()) vw[u] = g.node_weight(u);
  }
  DistributedCompressedGraph c(std::move(nd), std::move(ed), builder.build(), std::move(vw), mapper.finalize(), g.sorted(), g.communicator());
  if (has_vw) graph::synchronize_ghost_node_weights(c);
  return c;
}

template <typename Gr> void view(const Gr &g, const std::string &name, const std::vector<long long> &colors) {
  std::vector<long long> ids, own, s, t, w, vw, nd, ed, cut, vol, perm, deg;
  int rank, size;
  MPI_Comm_rank(g.communicator(), &rank);
  MPI_Comm_size(g.communicator(), &size);
  bool ok = g.total_n() == g.n() + g.ghost_n();
  for (NodeID u = 0; u < g.total_n(); ++u) {
    auto gu = g.local_to_global_node(u);
    ids.push_back(gu);
    ok = ok && g.global_to_local_node(gu) == u && g.is_owned_node(u) == (u < g.n()) && g.is_ghost_node(u) == (u >= g.n()) &&
         g.contains_global_node(gu) && g.is_owned_global_node(gu) == (u < g.n()) && g.contains_local_node(u);
    own.push_back(u < g.n() ? rank : g.ghost_owner(u));
    ok = ok && g.find_owner_of_global_node(gu) == own.back();
    if (u >= g.n()) ok = ok && g.map_remote_node(gu - g.offset_n(g.ghost_owner(u)), g.ghost_owner(u)) == u;
    vw.push_back(g.node_weight(u));
  }
  for (NodeID u = 0; u < g.n(); ++u) {
    NodeID d = 0;
    g.adjacent_nodes(u, [&](NodeID v, EdgeWeight ww) {
      s.push_back(u);
      t.push_back(v);
      w.push_back(ww);
      ++d;
    });
    std::size_t at = s.size() - d;
    g.adjacent_nodes(u, [&](NodeID v) { ok = ok && at < t.size() && t[at++] == v; });
    ok = ok && g.degree(u) == d;
    if (g.permuted()) perm.push_back(g.map_original_node(u));
  }
  for (int p = 0; p < size; ++p) cut.push_back(g.edge_cut_to_pe(p)), vol.push_back(g.comm_vol_to_pe(p));
  for (auto v : g.node_distribution()) nd.push_back(v);
  for (auto v : g.edge_distribution()) ed.push_back(v);
  std::vector<long long> tot{(long long)g.global_n(), (long long)g.global_m(), g.n(), g.m(), g.total_node_weight(), g.global_total_node_weight(),
                             g.max_node_weight(), g.global_max_node_weight(), g.total_edge_weight(), g.global_total_edge_weight()};
  auto gi = gather2(ids), go = gather2(own), gs = gather2(s), gt = gather2(t), gw = gather2(w), gv = gather2(vw), gd = gather2(nd), ge = gather2(ed),
       gc = gather2(cut), gl = gather2(vol), gp = gather2(perm), gx = gather2(tot);
  auto gok = gather1(ok);
  if (root())
    Rec().str("ev", "view").str("name", name).arr("color", colors).arr2("ids", gi).arr2("own", go).arr2("s", gs).arr2("t", gt).arr2("w", gw).arr2("vw", gv)
        .arr2("nd", gd).arr2("ed", ge).arr2("cut", gc).arr2("vol", gl).arr2("perm", gp).arr2("tot", gx).arr("ok", gok).emit();
}

inline std::vector<long long> one_group() { return std::vector<long long>(g_size, 0); }

inline std::vector<BlockID> random_partition(Rng &r, int n, BlockID k) {
  std::vector<BlockID> p(n);
  int kind = r() % 4;
  for (int u = 0; u < n; ++u) p[u] = kind == 0 ? r() % k : kind == 1 ? (std::uint64_t)u * k / std::max(1, n) : kind == 2 ? std::min<BlockID>(k - 1, r() % (2 * k)) : 0;
  return p;
}
inline DistributedPartitionedGraph partitioned(const DistributedGraph &g, BlockID k, const std::vector<BlockID> &p) {
  StaticArray<BlockID> lp(g.total_n());
  for (NodeID u = 0; u < g.total_n(); ++u) lp[u] = p[g.local_to_global_node(u)];
  return {&g, k, std::move(lp)};
}
inline void emit_pgraph(const char *ev, const DistributedPartitionedGraph &p, const std::vector<long long> &colors) {
  std::vector<long long> b, w;
  for (NodeID u = 0; u < p.total_n(); ++u) b.push_back(p.block(u));
  for (BlockID i = 0; i < p.k(); ++i) w.push_back(p.block_weight(i));
  long long cut = metrics::edge_cut(p);
  auto gb = gather2(b), gw = gather2(w);
  auto gc = gather1(cut);
  if (root()) Rec().str("ev", ev).num("k", p.k()).arr("color", colors).arr2("b", gb).arr2("w", gw).arr("cut", gc).emit();
}
} // namespace vpd
