// Drives the public interface of the distributed partitioner on all PEs and records every call.
//   dsession <seed> <count> <small|mid> [options that may be used]
#include "dist_common.h"

using namespace vpd;

static void run_session(std::uint64_t seed, const std::string &size, const std::string &only) {
  Rng r(seed);
  std::string pn = pick<std::string>(r, {"default", "default", "strong", "europar23-fast", "jet"});
  Context c = create_context_by_preset_name(pn);
  int t = (int)rnd(r, 1, 3);
  std::string opts;
  auto opt = [&](bool b, const char *name, auto &&f) {
    if (b && (only.empty() || (" " + only + " ").find(std::string(" ") + name + " ") != std::string::npos)) {
      f();
      opts += std::string(name) + " ";
    }
  };
  // coarsen at all
  c.coarsening.contraction_limit = coin(r, 1, 6) ? 2000 : rnd(r, 2, 60);
  c.initial_partitioning.kaminpar.coarsening.contraction_limit = rnd(r, 10, 200);
  opt(coin(r, 1, 3), "kway", [&] { c.mode = PartitioningMode::KWAY; });
  opt(coin(r, 1, 4), "natural", [&] { c.rearrange_by = GraphOrdering::NATURAL; });
  opt(coin(r, 1, 3), "nosplit", [&] { c.enable_pe_splitting = false; });
  opt(coin(r, 1, 4), "multithread", [&] { c.simulate_singlethread = false; });
  opt(coin(r, 1, 8), "coloring", [&] { c.rearrange_by = GraphOrdering::COLORING; });
  opt(coin(r, 1, 6), "hem", [&] { c.coarsening.global_clustering_algorithm = ClusteringAlgorithm::GLOBAL_HEM; });
  opt(coin(r, 1, 6), "hemlp", [&] { c.coarsening.global_clustering_algorithm = ClusteringAlgorithm::GLOBAL_HEM_LP; });
  opt(coin(r, 1, 4), "local", [&] {
    c.coarsening.max_local_clustering_levels = rnd(r, 1, 3);
    c.coarsening.local_clustering_algorithm = ClusteringAlgorithm::LOCAL_LP;
  });
  // (needs a power of two of PEs)
  opt(coin(r, 1, 6) && (g_size & (g_size - 1)) == 0, "colored", [&] {
    c.refinement.algorithms = {RefinementAlgorithm::HYBRID_NODE_BALANCER, RefinementAlgorithm::COLORED_LP_REFINER,
                               RefinementAlgorithm::HYBRID_NODE_BALANCER};
  });
  opt(coin(r, 1, 6), "cbal", [&] {
    for (auto &a : c.refinement.algorithms)
      if (a == RefinementAlgorithm::HYBRID_NODE_BALANCER) a = RefinementAlgorithm::HYBRID_CLUSTER_BALANCER;
    c.refinement.jet.balancing_algorithm = RefinementAlgorithm::HYBRID_CLUSTER_BALANCER;
  });
  opt(coin(r, 1, 8), "rip", [&] { c.initial_partitioning.algorithm = InitialPartitioningAlgorithm::RANDOM; });
  opt(coin(r, 1, 6), "refcoarse", [&] { c.refinement.refine_coarsest_level = true; });
  opt(coin(r, 1, 6), "perfect", [&] { c.coarsening.force_perfect_cnode_balance = true; });
  opt(coin(r, 1, 6), "nomig", [&] { c.coarsening.migrate_cnode_prefix = false; });
  if (coin(r, 1, 3)) c.partition.K = std::vector<BlockID>{2, 4, 8}[r() % 3];

  int eps = std::vector<int>{0, 1, 30, 30, 30, 100, 500}[r() % 7];
  c.partition.epsilon = eps / 1000.0;
  if (root()) Rec().str("ev", "new").str("preset", pn).num("pes", g_size).num("threads", t).str("opts", opts).boolean("rip", c.initial_partitioning.algorithm == InitialPartitioningAlgorithm::RANDOM).num("limit", c.coarsening.contraction_limit).num("bigk", c.partition.K).emit();
  dKaMinPar p(MPI_COMM_WORLD, t, c);
  p.set_output_level(OutputLevel::QUIET);
  int s0 = (int)rnd(r, 0, 100000);
  dKaMinPar::reseed(s0);

  int nops = (int)rnd(r, 1, 3);
  G g;
  bool has = false;
  Local L;
  for (int op = 0; op < nops; ++op) {
    if (!has || coin(r, 1, 2)) {
      int n = size == "mid" ? (int)rnd(r, 60, 600) : (int)(coin(r, 1, 3) ? rnd(r, 1, 12) : rnd(r, 5, 60));
      g = random_graph(r, n, -1, coin(r, 1, 4) ? 100 : 0, 40);
      has = true;
      auto d = random_distribution(r, n, g_size);
      L = cut_out(g, d, g_rank);
      if (root()) Rec().str("ev", "set").raw("g", json(g)).arr("dist", d).emit();
      Local K = L;
      p.import_graph(K.dist, K.x, K.a, K.vw, K.ew);
      auto same = gather1(K == L);
      if (root()) Rec().str("ev", "imported").boolean("same", std::count(same.begin(), same.end(), 1) == g_size).emit();
    }
    int n = g.n();
    int kmax = std::max(1, std::min(n, 64));
    BlockID k = coin(r, 1, 3) ? 2 : coin(r, 1, 2) ? (BlockID)rnd(r, 1, 8) : (BlockID)rnd(r, 1, kmax);
    // more than K blocks: only K times a power of two (see known_findings.json)
    auto ok_k = [&](BlockID k) {
      BlockID K = p.context().partition.K;
      return k <= K || (k % K == 0 && ((k / K) & (k / K - 1)) == 0);
    };
    while (!ok_k(k)) --k;
    std::vector<BlockID> part(L.to - L.from, 77777777);
    if (root()) Rec().str("ev", "call").num("k", k).num("eps", eps).emit();
    auto cut = p.compute_partition(k, part.data());
    auto cuts = gather1(cut);
    for (auto &b : part) if (b > 1000000) b = 1000000;
    auto all = gather(part);
    if (root()) Rec().str("ev", "part").num("k", k).num("eps", eps).arr("cuts", cuts).arr("p", all).emit();
  }
}

int main(int argc, char **argv) {
  Env env(argc, argv);
  std::uint64_t seed = std::strtoull(argv[1], nullptr, 10);
  int count = atoi(argv[2]);
  for (int i = 0; i < count; ++i) run_session(seed * 1000003ULL + i * 7, argv[3], argc > 4 ? argv[4] : "");
  if (root()) Rec().str("ev", "end").emit();
  return 0;
}
