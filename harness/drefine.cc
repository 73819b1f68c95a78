// Distributed refinement algorithms and balancers on partitions of distributed graphs; distributed
// clustering algorithms.
//   drefine <seed> <count> refine|cluster [algorithm]
#include "dist_data.h"

#include "kaminpar-dist/context.h"
#include "kaminpar-dist/factories.h"
#include "kaminpar-dist/presets.h"
#include "kaminpar-dist/refinement/refiner.h"

using namespace vpd;

static DistributedGraph make(Rng &r, G &g, bool big) {
  int n = coin(r, 1, 3) ? (int)rnd(r, 1, 12) : big ? (int)rnd(r, 40, 300) : (int)rnd(r, 5, 60);
  g = random_graph(r, n, -1, coin(r, 1, 3) ? 100 : 0, 40);
  auto d = random_distribution(r, n, g_size);
  Local L = cut_out(g, d, g_rank);
  if (root()) Rec().str("ev", "graph").num("pes", g_size).raw("g", json(g)).arr("dist", d).emit();
  auto csr = import(L, !g.vw.empty(), MPI_COMM_WORLD);
  bool comp = coin(r, 1, 3);
  DistributedGraph dg = comp ? DistributedGraph(std::make_unique<DistributedCompressedGraph>(compress(csr, !g.vw.empty())))
                             : DistributedGraph(std::make_unique<DistributedCSRGraph>(std::move(csr)));
  view(dg, comp ? "compressed" : "csr", one_group());
  return dg;
}

static const std::vector<std::pair<std::string, RefinementAlgorithm>> kAlgs = {
    {"noop", RefinementAlgorithm::NOOP},
    {"lp", RefinementAlgorithm::BATCHED_LP_REFINER},
    {"clp", RefinementAlgorithm::COLORED_LP_REFINER},
    {"jet", RefinementAlgorithm::JET_REFINER},
    {"nbal", RefinementAlgorithm::HYBRID_NODE_BALANCER},
    {"cbal", RefinementAlgorithm::HYBRID_CLUSTER_BALANCER},
};

static void refine(Rng &r, const std::string &only) {
  G g;
  auto dg = make(r, g, coin(r, 1, 4));
  Context c = create_context_by_preset_name(pick<std::string>(r, {"default", "strong", "europar23-fast", "jet"}));
  c.parallel.num_mpis = g_size;
  c.parallel.num_threads = 2;
  BlockID k = (BlockID)rnd(r, 1, std::min<int>(8, std::max<int>(1, g.n())));
  c.partition.k = k;
  c.partition.epsilon = pick<double>(r, {0.0, 0.03, 0.1, 0.5});
  c.partition.graph = std::make_unique<GraphContext>(dg, c.partition);
  auto &mbw = c.partition.graph->max_block_weights;
  if (coin(r, 1, 3)) {
    // other limits, still with room for all vertices
    auto other = mbw;
    for (auto &w : other) w += rnd(r, -(int)std::min<long long>(2, w), 8);
    long long room = 0, total = 0;
    for (auto w : other) room += w;
    for (int u = 0; u < g.n(); ++u) total += g.vw.empty() ? 1 : g.vw[u];
    if (room >= total) mbw = other;
  }

  std::vector<std::pair<std::string, RefinementAlgorithm>> algs;
  for (int i = (int)rnd(r, 1, 3); i > 0; --i) {
    auto a = pick(r, kAlgs);
    if (!only.empty()) for (auto &b : kAlgs) if (b.first == only) a = b;
    if (a.first == "clp" && (g_size & (g_size - 1)) != 0) a = kAlgs[1];
    algs.push_back(a);
  }
  // options
  auto &nb = c.refinement.node_balancer;
  auto &cb = c.refinement.cluster_balancer;
  auto &jet = c.refinement.jet;
  auto &lp = c.refinement.lp;
  auto &clp = c.refinement.colored_lp;
  if (coin(r, 1, 2)) {
    nb.enable_sequential_balancing = coin(r, 1, 2);
    nb.enable_parallel_balancing = !nb.enable_sequential_balancing || coin(r, 1, 2);
    nb.seq_num_nodes_per_block = (NodeID)(coin(r, 1, 4) ? rnd(r, 20, 200) : rnd(r, 1, 8));
    nb.par_accept_imbalanced_moves = coin(r, 1, 3);
    nb.par_partial_buckets = coin(r, 1, 2);
    nb.par_enable_positive_gain_buckets = coin(r, 1, 2);
    nb.par_update_pq_gains = coin(r, 1, 2);
    nb.par_num_dicing_attempts = (int)rnd(r, 0, 3);
    nb.max_num_rounds = pick<int>(r, {1, 3, 100});
  }
  if (coin(r, 1, 2)) {
    cb.enable_sequential_balancing = coin(r, 1, 2);
    cb.enable_parallel_balancing = !cb.enable_sequential_balancing || coin(r, 1, 2);
    cb.seq_num_nodes_per_block = (NodeID)(coin(r, 1, 4) ? rnd(r, 20, 200) : rnd(r, 1, 8));
    cb.seq_full_pq = true;
    cb.par_accept_imbalanced = coin(r, 1, 3);
    cb.par_num_dicing_attempts = (int)rnd(r, 0, 3);
    cb.par_use_positive_gain_buckets = coin(r, 1, 2);
    cb.cluster_size_strategy = pick<ClusterSizeStrategy>(r, {ClusterSizeStrategy::ZERO, ClusterSizeStrategy::ONE, ClusterSizeStrategy::MAX_OVERLOAD,
                                                            ClusterSizeStrategy::AVG_OVERLOAD, ClusterSizeStrategy::MIN_OVERLOAD});
    if (std::getenv("VP_GREEDY")) cb.cluster_strategy = pick<ClusterStrategy>(r, {ClusterStrategy::SINGLETONS, ClusterStrategy::GREEDY_BATCH_PREFIX});
    cb.cluster_rebuild_interval = (int)rnd(r, 0, 2);
    cb.switch_to_sequential_after_stallmate = coin(r, 1, 2);
    cb.switch_to_singleton_after_stallmate = coin(r, 1, 2);
    cb.max_num_rounds = pick<int>(r, {1, 3, 50});
  }
  if (coin(r, 1, 2)) {
    jet.num_coarse_rounds = (int)rnd(r, 1, 3);
    jet.num_fine_rounds = (int)rnd(r, 1, 3);
    jet.num_iterations = (int)rnd(r, 1, 8);
    jet.dynamic_negative_gain_factor = coin(r, 1, 2);
    jet.balancing_algorithm = pick<RefinementAlgorithm>(r, {RefinementAlgorithm::HYBRID_NODE_BALANCER, RefinementAlgorithm::HYBRID_CLUSTER_BALANCER});
  }
  if (coin(r, 1, 2)) {
    lp.num_iterations = (int)rnd(r, 1, 5);
    lp.num_move_attempts = (int)rnd(r, 1, 3);
    lp.ignore_probabilities = coin(r, 1, 4);
    lp.chunks.fixed_num_chunks = (int)rnd(r, 0, 4);
    clp.num_iterations = (int)rnd(r, 1, 4);
    clp.num_move_execution_iterations = (int)rnd(r, 1, 2);
    clp.num_probabilistic_move_attempts = (int)rnd(r, 1, 3);
    clp.sort_by_rel_gain = coin(r, 1, 2);
    clp.track_local_block_weights = coin(r, 1, 2);
    clp.use_active_set = coin(r, 1, 2);
    clp.move_execution_strategy = pick<LabelPropagationMoveExecutionStrategy>(
        r, {LabelPropagationMoveExecutionStrategy::PROBABILISTIC, LabelPropagationMoveExecutionStrategy::BEST_MOVES, LabelPropagationMoveExecutionStrategy::LOCAL_MOVES});
  }
  if (clp.move_execution_strategy == LabelPropagationMoveExecutionStrategy::LOCAL_MOVES) clp.track_local_block_weights = true;
  if (std::getenv("VP_SEQ")) nb.enable_parallel_balancing = false, nb.enable_sequential_balancing = true;

  auto p = random_partition(r, g.n(), k);
  auto pg = partitioned(dg, k, p);
  std::vector<long long> lim(mbw.begin(), mbw.end());
  std::string names;
  for (auto &a : algs) {
    names += a.first + " ";
    if (root()) {
      bool relaxed = a.first == "lp" ? lp.ignore_probabilities
                   : a.first == "clp" ? g_size == 1 || clp.move_execution_strategy == LabelPropagationMoveExecutionStrategy::LOCAL_MOVES || !clp.track_local_block_weights
                   : a.first == "nbal" ? nb.par_accept_imbalanced_moves && nb.enable_parallel_balancing
                   : a.first == "cbal" ? cb.par_accept_imbalanced && cb.enable_parallel_balancing : false;
      Rec().str("ev", "refine").str("alg", a.first).num("k", k).arr("lim", lim).boolean("relaxed", relaxed).arr("color", one_group()).arr2("p", std::vector<std::vector<BlockID>>{p}).emit();
    }
    auto f = factory::create_refiner(c, a.second);
    auto ref = f->create(pg, c.partition);
    ref->initialize();
    ref->refine();
    if (coin(r, 1, 4)) {
      ref->initialize();
      ref->refine();
    }
    emit_pgraph("refined", pg, one_group());
  }
}

static const std::vector<std::pair<std::string, ClusteringAlgorithm>> kClus = {
    {"noop", ClusteringAlgorithm::GLOBAL_NOOP}, {"lp", ClusteringAlgorithm::GLOBAL_LP},       {"hem", ClusteringAlgorithm::GLOBAL_HEM},
    {"hemlp", ClusteringAlgorithm::GLOBAL_HEM_LP},
};

static void cluster(Rng &r, const std::string &only) {
  G g;
  auto dg = make(r, g, false);
  Context c = create_context_by_preset_name(pick<std::string>(r, {"default", "strong"}));
  c.parallel.num_mpis = g_size;
  c.parallel.num_threads = 2;
  c.partition.k = 4;
  c.partition.epsilon = 0.03;
  c.partition.graph = std::make_unique<GraphContext>(dg, c.partition);
  auto a = pick(r, kClus);
  if (!only.empty()) for (auto &b : kClus) if (b.first == only) a = b;
  auto &lp = c.coarsening.global_lp;
  if (coin(r, 1, 2)) {
    lp.num_iterations = (int)rnd(r, 1, 5);
    lp.merge_singleton_clusters = coin(r, 1, 2);
    lp.chunks.fixed_num_chunks = (int)rnd(r, 0, 4);
    lp.sync_cluster_weights = coin(r, 1, 2);
    lp.enforce_cluster_weights = lp.sync_cluster_weights && coin(r, 1, 2);
    lp.cheap_toplevel = coin(r, 1, 4);
    lp.prevent_cyclic_moves = coin(r, 1, 2);
    lp.enforce_legacy_weight = coin(r, 1, 3);
    lp.passive_high_degree_threshold = pick<NodeID>(r, {0, 3, 1000000});
    lp.active_high_degree_threshold = pick<NodeID>(r, {3, 1000000});
    c.coarsening.hem.ignore_weight_limit = coin(r, 1, 4);
    c.coarsening.hem.small_color_blacklist = pick<double>(r, {0.0, 0.1});
  }
  c.partition.graph = std::make_unique<GraphContext>(dg, c.partition);
  long long wmax = coin(r, 1, 4) ? 1000000 : rnd(r, 1, 12);
  auto cl = factory::create_clusterer(c, a.second);
  int rounds = coin(r, 1, 3) ? 2 : 1; // again with the same object
  for (int i = 0; i < rounds; ++i) {
    if (root()) Rec().str("ev", "cluster").str("alg", a.first).num("max", wmax).boolean("nolimit", c.coarsening.hem.ignore_weight_limit).num("threads", tbb::global_control::active_value(tbb::global_control::max_allowed_parallelism)).emit();
    cl->set_max_cluster_weight(wmax);
    StaticArray<GlobalNodeID> out(dg.total_n());
    cl->cluster(out, dg);
    std::vector<long long> o;
    for (NodeID u = 0; u < dg.total_n(); ++u) o.push_back((long long)out[u]);
    auto go = gather2(o);
    if (root()) Rec().str("ev", "clustered").arr2("c", go).emit();
  }
}

int main(int argc, char **argv) {
  Env env(argc, argv);
  std::uint64_t seed = std::strtoull(argv[1], nullptr, 10);
  int count = atoi(argv[2]);
  std::string mode = argv[3], only = argc > 4 ? argv[4] : "";
  for (int i = 0; i < count; ++i) {
    Rng r(seed * 1000003ULL + i * 7);
    Random::reseed((int)(seed * 1000 + i));
    tbb::global_control gc(tbb::global_control::max_allowed_parallelism, rnd(r, 1, 3));
    if (mode == "refine") refine(r, only);
    else cluster(r, only);
  }
  if (root()) Rec().str("ev", "end").emit();
  return 0;
}
