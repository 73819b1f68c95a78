// Distributed data structures: views of a graph on all PEs, communication along cut edges,
// contraction, block-induced subgraphs, replication.
//   ddata <seed> <count> [view|slim|contract|local|extract|replicate]
#include "dist_data.h"

#include "kaminpar-dist/coarsening/contraction/global_cluster_contraction.h"
#include "kaminpar-dist/coarsening/contraction/local_cluster_contraction.h"
#include "kaminpar-dist/graphutils/rearrangement.h"
#include "kaminpar-dist/graphutils/replicator.h"
#include "kaminpar-dist/graphutils/subgraph_extractor.h"

#include "kaminpar-shm/datastructures/graph.h"
#include "kaminpar-shm/datastructures/partitioned_graph.h"


using namespace vpd;

// messages along cut edges
template <typename Gr> static void communicate(Rng &r, const Gr &g) {
  struct M {
    GlobalNodeID u, v;
  };
  int kind = r() % 6;
  int mod = (int)rnd(r, 1, 3); // only vertices whose global ID is divisible by this send
  NodeID from = 0, to = g.n();
  if (kind == 1 || kind == 4) {
    Rng q(r() * 64 + g_rank);
    from = (NodeID)rnd(q, 0, g.n());
    to = (NodeID)rnd(q, from, g.n());
  }
  std::vector<long long> got; // sender, u, v(=-1: to PE)
  auto recv = [&](const auto &buf, PEID pe) {
    for (auto &m : buf) {
      got.push_back(pe);
      got.push_back(m.u);
      got.push_back((long long)m.v);
    }
  };
  auto sel = [&](NodeID u) { return g.local_to_global_node(u) % mod == 0; };
  auto bpe = [&](NodeID u) -> M { return {g.local_to_global_node(u), 0}; };
  auto bgh = [&](NodeID u, NodeID v, EdgeWeight) -> M { return {g.local_to_global_node(u), g.local_to_global_node(v)}; };
  if (kind == 0) mpi::graph::sparse_alltoall_interface_to_pe<M>(g, sel, bpe, recv);
  else if (kind == 1) mpi::graph::sparse_alltoall_interface_to_pe<M>(g, from, to, sel, bpe, recv);
  else if (kind == 2) {
    mod = 1;
    auto b = mpi::graph::sparse_alltoall_interface_to_pe_get<M>(g, bpe);
    for (std::size_t p = 0; p < b.size(); ++p) recv(b[p], p);
  } else if (kind == 3) mpi::graph::sparse_alltoall_interface_to_ghost<M>(g, sel, bgh, recv);
  else if (kind == 4) mpi::graph::sparse_alltoall_interface_to_ghost<M>(g, from, to, sel, bgh, recv);
  else {
    // in another order: vertex i of the range is vertex n - 1 - i
    mpi::graph::sparse_alltoall_interface_to_pe_custom_range<M>(
        g, from, to, [&](NodeID i) { return g.n() - 1 - i; }, sel, bpe, recv);
  }
  auto gg = gather2(got);
  auto gf = gather1(from), gt = gather1(to);
  if (root()) Rec().str("ev", "comm").num("kind", kind).num("mod", mod).arr("from", gf).arr("to", gt).arr2("got", gg).emit();
}

template <typename Gr> static void colors_of(const Gr &g) {
  std::vector<long long> sz;
  if (g.color_sorted()) for (auto v : g.get_color_sizes()) sz.push_back(v);
  auto gs = gather2(sz);
  if (root()) Rec().str("ev", "colors").arr2("sizes", gs).emit();
}

static std::vector<GlobalNodeID> random_clustering(Rng &r, const G &g, const std::vector<GlobalNodeID> &dist) {
  int n = g.n();
  std::vector<GlobalNodeID> c(n);
  int kind = r() % 6;
  int few = (int)rnd(r, 1, std::max(1, n / 3));
  std::vector<GlobalNodeID> leaders;
  int pe = r() % g_size;
  for (int i = 0; i < few; ++i) {
    // sometimes all on one PE
    if (kind == 4 && dist[pe] < dist[pe + 1]) leaders.push_back(rnd(r, dist[pe], dist[pe + 1] - 1));
    else leaders.push_back(r() % n);
  }
  for (int u = 0; u < n; ++u) {
    if (kind == 0) c[u] = u;
    else if (kind == 1) c[u] = leaders[0];
    else if (kind == 2) { // a neighbor or itself
      auto d = g.x[u + 1] - g.x[u];
      c[u] = d == 0 || coin(r, 1, 3) ? (GlobalNodeID)u : c[std::min<GlobalNodeID>(u, g.a[g.x[u] + r() % d])];
    } else c[u] = pick(r, leaders);
  }
  return c;
}

static void contract(Rng &r, const G &G_, const std::vector<GlobalNodeID> &dist, DistributedGraph &g) {
  auto cl = random_clustering(r, G_, dist);
  StaticArray<GlobalNodeID> lc(g.total_n());
  for (NodeID u = 0; u < g.total_n(); ++u) lc[u] = cl[g.local_to_global_node(u)];
  double imb = pick<double>(r, {1.0, 1.01, 1.1, 1.5, 2.0, 1e9});
  bool mig = coin(r, 1, 2), force = coin(r, 1, 2);
  auto cg = contract_clustering(g, lc, imb, mig, force);
  if (root()) Rec().str("ev", "contract").arr("c", cl).num("imb", imb > 100 ? 0 : (int)std::lround(imb * 100)).boolean("mig", mig).boolean("force", force).emit();
  view(cg->get(), "coarse", one_group());
  StaticArray<BlockID> cp(cg->get().total_n()), fp(g.total_n());
  for (NodeID u = 0; u < cg->get().total_n(); ++u) cp[u] = cg->get().local_to_global_node(u);
  cg->project(cp, fp);
  auto fps = gather2(std::vector<BlockID>(fp.begin(), fp.end()));
  if (root()) Rec().str("ev", "mapping").arr2("m", fps).emit();
}

static void contract_local(Rng &r, DistributedGraph &g) {
  StaticArray<NodeID> lc(g.total_n());
  Rng q(r() * 64 + g_rank);
  int few = (int)rnd(q, 1, std::max<int>(1, g.n()));
  for (NodeID u = 0; u < g.n(); ++u) lc[u] = coin(q, 1, 3) ? u : std::min<NodeID>(g.n() - 1, q() % few);
  std::vector<GlobalNodeID> mine;
  for (NodeID u = 0; u < g.n(); ++u) mine.push_back(g.offset_n() + lc[u]);
  auto cl = gather(mine);
  auto cg = contract_local_clustering(g, lc);
  if (root()) Rec().str("ev", "contract").arr("c", cl).num("imb", 0).boolean("mig", false).boolean("force", false).emit();
  view(cg->get(), "coarse", one_group());
  StaticArray<BlockID> cp(cg->get().total_n()), fp(g.total_n());
  for (NodeID u = 0; u < cg->get().total_n(); ++u) cp[u] = cg->get().local_to_global_node(u);
  cg->project(cp, fp);
  auto fps = gather2(std::vector<BlockID>(fp.begin(), fp.end()));
  if (root()) Rec().str("ev", "mapping").arr2("m", fps).emit();
}

static void emit_shm(const char *ev, const shm::Graph &h) {
  std::vector<long long> s, t, w, vw;
  const auto &c = h.csr_graph();
  for (NodeID u = 0; u < c.n(); ++u) {
    vw.push_back(c.node_weight(u));
    c.adjacent_nodes(u, [&](NodeID v, auto ww) { s.push_back(u), t.push_back(v), w.push_back(ww); });
  }
  std::vector<long long> tot{c.n(), c.m(), c.total_node_weight(), c.total_edge_weight(), c.max_node_weight()};
  auto gs = gather2(s), gt = gather2(t), gw = gather2(w), gv = gather2(vw), gx = gather2(tot);
  if (root()) Rec().str("ev", ev).arr2("s", gs).arr2("t", gt).arr2("w", gw).arr2("vw", gv).arr2("tot", gx).emit();
}

static void extract(Rng &r, const G &G_, DistributedGraph &g) {
  BlockID k = coin(r, 1, 4) ? 1 : (BlockID)rnd(r, 1, 9);
  auto p = random_partition(r, G_.n(), k);
  auto pg = partitioned(g, k, p);
  graph::BlockExtractionOffsets off(g_size, k);
  std::vector<long long> fb, ib, nb, fp, ip, np;
  for (int pe = 0; pe < g_size; ++pe) fb.push_back(off.first_block_on_pe(pe)), ib.push_back(off.first_invalid_block_on_pe(pe)), nb.push_back(off.num_blocks_on_pe(pe));
  for (BlockID b = 0; b < k; ++b) fp.push_back(off.first_pe_with_block(b)), ip.push_back(off.first_invalid_pe_with_block(b)), np.push_back(off.num_pes_with_block(b));
  auto ex = graph::extract_and_scatter_block_induced_subgraphs(pg);
  // flat per PE: for every subgraph: n, m, (src, dst, w)*m, vw*n, offsets
  std::vector<long long> flat, cnt{(long long)ex.subgraphs.size()};
  for (std::size_t i = 0; i < ex.subgraphs.size(); ++i) {
    const auto &h = ex.subgraphs[i].csr_graph();
    flat.push_back(h.n());
    flat.push_back(h.m());
    for (auto u : h.nodes()) h.adjacent_nodes(u, [&](NodeID v, auto w) { flat.push_back(u), flat.push_back(v), flat.push_back(w); });
    for (auto u : h.nodes()) flat.push_back(h.node_weight(u));
    for (auto v : ex.subgraph_offsets[i]) flat.push_back(v);
  }
  auto gf = gather2(flat);
  auto gc = gather2(cnt);
  auto gm = gather2(std::vector<NodeID>(ex.mapping.begin(), ex.mapping.begin() + g.n()));
  if (root())
    Rec().str("ev", "extract").num("k", k).arr("p", p).arr("fb", fb).arr("ib", ib).arr("nb", nb).arr("fp", fp).arr("ip", ip).arr("np", np).arr2("flat", gf).arr2("cnt", gc).arr2("map", gm).emit();
  // divide the blocks further
  BlockID k2 = (BlockID)rnd(r, 1, 4);
  std::vector<shm::PartitionedGraph> ps;
  std::vector<long long> sub;
  Rng q(r() * 64 + g_rank);
  for (auto &h : ex.subgraphs) {
    StaticArray<shm::BlockID> part(h.n());
    for (std::size_t u = 0; u < part.size(); ++u) part[u] = q() % k2;
    for (auto b : part) sub.push_back(b);
    ps.emplace_back(h, k2, std::move(part));
  }
  auto gsub = gather2(sub);
  if (root()) Rec().str("ev", "divide").num("k2", k2).arr2("sub", gsub).emit();
  auto np2 = graph::copy_subgraph_partitions(std::move(pg), ps, ex);
  emit_pgraph("divided", np2, one_group());
}

static void replicate(Rng &r, const G &G_, DistributedGraph &g) {
  int kind = r() % 5;
  BlockID k = (BlockID)rnd(r, 1, 6);
  if (kind == 0) {
    auto h = allgather_graph(g);
    emit_shm("gathered", *h);
  } else if (kind == 1) {
    auto h = replicate_graph_everywhere(g);
    emit_shm("gathered", h);
    // every PE brings its own partition
    Rng q(r() * 64 + g_rank);
    auto p = random_partition(q, G_.n(), k);
    auto gp = gather2(p);
    if (root()) Rec().str("ev", "offered").num("k", k).arr("color", one_group()).arr2("p", gp).emit();
    StaticArray<shm::BlockID> part(G_.n());
    for (std::uint32_t u = 0; u < G_.n(); ++u) part[u] = p[u];
    auto best = distribute_best_partition(g, shm::PartitionedGraph(h, k, std::move(part)));
    emit_pgraph("best", best, one_group());
  } else if (kind == 2) {
    auto p = random_partition(r, G_.n(), k);
    auto pg = partitioned(g, k, p);
    if (root()) Rec().str("ev", "offered").num("k", k).arr("color", one_group()).arr2("p", std::vector<std::vector<BlockID>>{p}).emit();
    auto [h, hp] = allgather_graph(pg);
    emit_shm("gathered", *h);
    std::vector<long long> b;
    for (NodeID u : h->csr_graph().nodes()) b.push_back(hp->block(u));
    auto gb = gather2(b);
    if (root()) Rec().str("ev", "gatheredp").num("k", hp->k()).arr2("p", gb).emit();
  } else if (kind == 3) {
    std::vector<int> div;
    for (int i = 1; i <= g_size; ++i) if (g_size % i == 0) div.push_back(i);
    int reps = pick(r, div);
    auto h = replicate_graph(g, reps);
    std::vector<long long> colors;
    for (int pe = 0; pe < g_size; ++pe) colors.push_back(pe % reps);
    view(h, "replica", colors);
    // every group brings its own partition
    Rng q(r() * 64 + g_rank % reps);
    auto p = random_partition(q, G_.n(), k);
    auto gp = gather2(p);
    if (root()) Rec().str("ev", "offered").num("k", k).arr("color", colors).arr2("p", gp).emit();
    auto best = distribute_best_partition(g, partitioned(h, k, p));
    emit_pgraph("best", best, one_group());
  } else {
    auto p = random_partition(r, G_.n(), k);
    int rt = r() % g_size;
    if (root()) Rec().str("ev", "offered").num("k", k).arr("color", one_group()).arr2("p", std::vector<std::vector<BlockID>>{p}).emit();
    StaticArray<shm::BlockID> part(g_rank == rt ? G_.n() : 0);
    if (g_rank == rt) for (std::uint32_t u = 0; u < G_.n(); ++u) part[u] = p[u];
    auto best = distribute_partition(g, k, part, rt);
    emit_pgraph("best", best, one_group());
  }
}

static void run(std::uint64_t seed, const std::string &mode) {
  Rng r(seed);
  tbb::global_control gc(tbb::global_control::max_allowed_parallelism, rnd(r, 1, 4));
  int n = coin(r, 1, 2) ? (int)rnd(r, 1, 12) : (int)rnd(r, 5, 50);
  // many vertices, few ghost vertices
  bool slim = mode == "slim";
  if (slim) n = (int)rnd(r, 150, 400);
  G g = random_graph(r, n, slim ? 6 : -1, 40, 40);
  auto d = random_distribution(r, n, g_size);
  Local L = cut_out(g, d, g_rank);
  if (root()) Rec().str("ev", "graph").num("pes", g_size).raw("g", json(g)).arr("dist", d).emit();
  auto csr = import(L, !g.vw.empty(), MPI_COMM_WORLD);
  Context ctx = create_default_context();
  int re = r() % 3;
  if (mode == "view" || mode.empty() || (slim && coin(r, 1, 2))) {
    view(csr, "csr", one_group());
    communicate(r, csr);
    if (re == 1) csr = graph::rearrange_by_degree_buckets(std::move(csr));
    if (re == 2) csr = graph::rearrange_by_coloring(std::move(csr), ctx);
    if (re) {
      view(csr, "rearranged", one_group());
      communicate(r, csr);
      colors_of(csr);
    }
    if (slim || coin(r, 1, 2)) {
      auto c = compress(csr, !g.vw.empty());
      if (!csr.permuted()) view(c, "compressed", one_group());
      else view(c, "compressed-rearranged", one_group());
      communicate(r, c);
    }
    return;
  }
  bool comp = slim || (coin(r, 1, 3) && mode != "extract");
  DistributedGraph dg = comp ? DistributedGraph(std::make_unique<DistributedCompressedGraph>(compress(csr, !g.vw.empty())))
                             : DistributedGraph(std::make_unique<DistributedCSRGraph>(std::move(csr)));
  view(dg, comp ? "compressed" : "csr", one_group());
  if (mode == "contract" || slim) contract(r, g, d, dg);
  if (mode == "local") contract_local(r, dg);
  if (mode == "extract") extract(r, g, dg);
  if (mode == "replicate") replicate(r, g, dg);
}

int main(int argc, char **argv) {
  Env env(argc, argv);
  std::uint64_t seed = std::strtoull(argv[1], nullptr, 10);
  int count = atoi(argv[2]);
  for (int i = 0; i < count; ++i) run(seed * 1000003ULL + i * 7, argc > 3 ? argv[3] : "");
  if (root()) Rec().str("ev", "end").emit();
  return 0;
}
