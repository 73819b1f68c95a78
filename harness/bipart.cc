// Dividing blocks: the tree of block numbers, extracting blocks, extending partitions, bipartitioning.
// usage: bipart SEED COUNT arith|extract|extend|cycles|flat|hier|ml
#include "shm_common.h"

#include "kaminpar-shm/graphutils/subgraph_extractor.h"
#include "kaminpar-shm/initial_partitioning/initial_bfs_bipartitioner.h"
#include "kaminpar-shm/initial_partitioning/initial_bipartitioner_worker_pool.h"
#include "kaminpar-shm/initial_partitioning/initial_coarsener.h"
#include "kaminpar-shm/initial_partitioning/initial_ggg_bipartitioner.h"
#include "kaminpar-shm/initial_partitioning/initial_multilevel_bipartitioner.h"
#include "kaminpar-shm/initial_partitioning/initial_pool_bipartitioner.h"
#include "kaminpar-shm/initial_partitioning/initial_random_bipartitioner.h"
#include "kaminpar-shm/initial_partitioning/initial_refiner.h"
#include "kaminpar-shm/metrics.h"
#include "kaminpar-shm/partitioning/deep/deep_multilevel.h"
#include "kaminpar-shm/partitioning/helper.h"
#include "kaminpar-shm/partitioning/partition_utils.h"
#include "kaminpar-shm/presets.h"

using namespace vs;
using vp::Rec;
static vp::Rng rng;

static std::vector<long long> powers(BlockID K) { // sizes of the levels that have less than K blocks
  std::vector<long long> p;
  for (long long c = 1; c < K; c *= 2) p.push_back(c);
  return p;
}
// limits for K blocks that admit the whole graph, not all equal
static std::vector<BlockWeight> limits(long long total, BlockID K) {
  std::vector<BlockWeight> w(K);
  long long sum = 0;
  for (auto &x : w) x = vp::rnd(rng, 1, 1 + 2 * total / K), sum += x;
  for (BlockID b = 0; sum < total; b = (b + 1) % K) {
    const long long d = 1 + (total - sum) / K;
    w[b] += d, sum += d;
  }
  return w;
}

// ---------------------------------------------------------------- arithmetic
static void arith(int count) {
  for (int i = 0; i < count; ++i) {
    const BlockID K = i < 40 ? vp::rnd(rng, 2, 70) : vp::rnd(rng, 2, 600);
    for (const BlockID ck : powers(K)) {
      std::vector<long long> fk, fs, fi;
      for (BlockID b = 0; b < ck; ++b) {
        fk.push_back(partitioning::compute_final_k(b, ck, K));
        fs.push_back(partitioning::compute_first_sub_block(b, ck, K));
        fi.push_back(partitioning::compute_first_invalid_sub_block(b, ck, K));
      }
      Rec().str("ev", "tree").num("K", K).num("ck", ck).arr("fk", fk).arr("fs", fs).arr("fi", fi).emit();
    }
    std::vector<long long> ones;
    for (BlockID b = 0; b < K; ++b) ones.push_back(partitioning::compute_final_k(b, K, K));
    Rec().str("ev", "leaves").num("K", K).arr("fk", ones).emit();

    // limits of intermediate partitions and of bipartitions
    const NodeID n = vp::rnd(rng, 2, 40);
    Graph graph = make_graph(vp::random_graph(rng, n, -1, 50));
    const BlockID K2 = vp::rnd(rng, 2, 20);
    Context ctx = create_default_context();
    std::vector<BlockWeight> lim = limits(graph.total_node_weight(), K2);
    ctx.partition.setup(graph, lim, false);
    ctx.initial_partitioning.use_adaptive_epsilon = vp::coin(rng, 1, 2); // only matters for uniform limits
    for (const BlockID ck : powers(K2)) {
      StaticArray<BlockID> part(graph.n());
      for (auto &b : part) b = rng() % ck;
      PartitionedGraph p(graph, ck, std::move(part));
      const auto kway = partitioning::create_kway_context(ctx, p);
      std::vector<long long> got;
      for (BlockID b = 0; b < ck; ++b) got.push_back(kway.max_block_weight(b));
      Rec().str("ev", "kway").num("K", K2).num("ck", ck).arr("lim", lim).num("k", kway.k).arr("got", got).emit();
      for (BlockID b = 0; b < ck; ++b) {
        if (partitioning::compute_final_k(b, ck, K2) < 2) continue;
        Graph sub = make_graph(vp::random_graph(rng, vp::rnd(rng, 1, 12), -1, 50));
        const auto two = partitioning::create_twoway_context(ctx, b, ck, sub);
        Rec()
            .str("ev", "twoway")
            .num("K", K2)
            .num("ck", ck)
            .num("b", b)
            .arr("lim", lim)
            .num("total", sub.total_node_weight())
            .num("maxw", sub.max_node_weight())
            .num("m0", two.max_block_weight(0))
            .num("m1", two.max_block_weight(1))
            .emit();
      }
    }
  }
}

// ---------------------------------------------------------------- extracting blocks
struct Scene {
  vp::G g;
  Graph graph;
};
static Scene scene(NodeID lo, NodeID hi) {
  Scene s;
  s.g = vp::random_graph(rng, vp::rnd(rng, lo, hi), -1, 40, 45);
  s.graph = vp::coin(rng, 1, 3) && s.g.a.size() > 0 ? compressed(s.g) : make_graph(s.g);
  return s;
}
static void emit_graph(const vp::G &g) { Rec().str("ev", "graph").raw("g", vp::json(g)).emit(); }

static void extract(int count) {
  graph::SubgraphMemory mem, lazy; // reused for all graphs
  graph::TemporarySubgraphMemory tmp;
  for (int i = 0; i < count; ++i) {
    Threads t(1 + rng() % 8);
    Scene s = scene(1, 45);
    emit_graph(s.g);
    const NodeID n = s.graph.n();
    const BlockID K = vp::rnd(rng, 2, 20);
    const auto ps = powers(K);
    const BlockID k = vp::coin(rng, 1, 4) ? K : vp::pick(rng, ps);
    StaticArray<BlockID> part(n);
    const BlockID used = vp::rnd(rng, 1, k);
    for (auto &b : part) b = rng() % used;
    const auto p0 = vec(part);
    PartitionedGraph p(s.graph, k, std::move(part));
    auto emit = [&](const char *how, const std::vector<std::string> &subs, const auto &map, std::vector<long long> pos) {
      std::string js = "[";
      for (const auto &x : subs) js += (js.size() > 1 ? "," : "") + x;
      Rec().str("ev", "extract").str("how", how).num("k", k).num("K", K).arr("p", p0).raw("subs", js + "]").arr("map", vec(map)).arr("pos", pos).emit();
    };
    if (vp::coin(rng, 1, 2)) {
      const NodeID nw = p.is_node_weighted() ? n : 0;
      const EdgeID ew = p.is_edge_weighted() ? p.m() : 0;
      // callers provide room for the padding of all K blocks
      if (mem.nodes.size() < n + K || mem.edges.size() < p.m() || (nw && mem.node_weights.size() < n + K) || mem.edge_weights.size() < ew)
        mem.resize(n, K, p.m(), p.is_node_weighted(), p.is_edge_weighted());
      auto r = graph::extract_subgraphs(p, K, mem);
      std::vector<std::string> subs;
      for (const auto &sub : r.subgraphs) subs.push_back(json(sub));
      std::vector<long long> pos;
      for (const auto &x : r.positions) pos.push_back(x.nodes_start_pos);
      emit("all", subs, r.node_mapping, pos);
    } else {
      auto r = graph::lazy_extract_subgraphs_preprocessing(p);
      std::vector<std::string> subs;
      for (BlockID b = 0; b < k; ++b) {
        const NodeID bn = r.block_nodes_offset[b + 1] - r.block_nodes_offset[b];
        if (lazy.nodes.size() < bn + 1) lazy.nodes.resize(bn + 1, static_array::seq, static_array::noinit);
        if (p.is_node_weighted() && lazy.node_weights.size() < bn + 1) lazy.node_weights.resize(bn + 1, static_array::seq, static_array::noinit);
        if (lazy.edges.size() < r.block_num_edges[b]) lazy.edges.resize(r.block_num_edges[b], static_array::seq, static_array::noinit);
        if (p.is_edge_weighted() && lazy.edge_weights.size() < r.block_num_edges[b])
          lazy.edge_weights.resize(r.block_num_edges[b], static_array::seq, static_array::noinit);
        StaticArray<NodeID> nodes(bn, r.block_nodes.data() + r.block_nodes_offset[b]);
        subs.push_back(json(graph::extract_subgraph(p, b, nodes, r.mapping, lazy)));
      }
      emit("lazy", subs, r.mapping, vec(r.block_nodes_offset));
    }
    { // bipartitions, cut up again and again within the memory of the first graph
      const BlockID fk = vp::rnd(rng, 2, 9);
      graph::SubgraphMemory m2(n, fk + rng() % 3, p.m(), p.is_node_weighted(), p.is_edge_weighted());
      struct Job {
        Graph g;
        BlockID fk;
        graph::SubgraphMemoryStartPosition pos;
      };
      std::vector<Job> jobs;
      jobs.push_back({vp::coin(rng, 1, 2) ? compressed(s.g) : make_graph(s.g), fk, {0, 0}});
      while (!jobs.empty()) {
        Job j = std::move(jobs.back());
        jobs.pop_back();
        StaticArray<BlockID> q(j.g.n());
        for (auto &b : q) b = rng() % 2;
        if (vp::coin(rng, 1, 5)) std::fill(q.begin(), q.end(), rng() % 2);
        const auto q0 = vec(q);
        const std::string before = json(j.g);
        const BlockID lhs = vp::coin(rng, 2, 3) ? (j.fk + 1) / 2 : vp::rnd(rng, 1, j.fk - 1);
        PartitionedGraph pq(PartitionedGraph::seq{}, j.g, 2, std::move(q));
        auto r = graph::extract_subgraphs_sequential(pq, {lhs, j.fk - lhs}, j.pos, m2, tmp);
        std::vector<long long> map; // vertices keep their order
        std::array<long long, 2> c{0, 0};
        for (auto b : q0) map.push_back(c[b]++);
        Rec()
            .str("ev", "halves")
            .raw("g", before)
            .num("fk0", lhs)
            .num("fk1", j.fk - lhs)
            .num("pos", j.pos.nodes_start_pos)
            .num("epos", j.pos.edges_start_pos)
            .arr("p", q0)
            .raw("subs", "[" + json(r.subgraphs[0]) + "," + json(r.subgraphs[1]) + "]")
            .arr("map", map)
            .arr("npos", std::vector<long long>{(long long)r.positions[0].nodes_start_pos, (long long)r.positions[1].nodes_start_pos})
            .arr("mpos", std::vector<long long>{(long long)r.positions[0].edges_start_pos, (long long)r.positions[1].edges_start_pos})
            .emit();
        for (int h : {1, 0}) {
          const BlockID f = h ? j.fk - lhs : lhs;
          if (f >= 2) jobs.push_back({std::move(r.subgraphs[h]), f, r.positions[h]});
        }
      }
    }
    { // partitions of the blocks become one of the graph
      auto r = graph::lazy_extract_subgraphs_preprocessing(p);
      std::vector<BlockID> ks{K};
      for (BlockID c = k; c < K && k < K; c *= 2) ks.push_back(c);
      const BlockID kp = vp::pick(rng, ks);
      ScalableVector<StaticArray<BlockID>> parts;
      std::vector<std::vector<long long>> pl;
      for (BlockID b = 0; b < k; ++b) {
        const BlockID m = kp == K ? partitioning::compute_final_k(b, k, K) : kp / k;
        StaticArray<BlockID> x(r.block_nodes_offset[b + 1] - r.block_nodes_offset[b]);
        for (auto &y : x) y = rng() % m;
        pl.push_back(vec(x));
        parts.push_back(std::move(x));
      }
      const auto map = vec(r.mapping);
      PartitionedGraph out = graph::copy_subgraph_partitions(std::move(p), parts, kp, K, r.mapping);
      std::vector<long long> bw;
      for (BlockID b = 0; b < out.k(); ++b) bw.push_back(out.block_weight(b));
      Rec().str("ev", "copy").num("k", k).num("K", K).num("kp", kp).num("k1", out.k()).arr("p", p0).arr("map", map).arr2("parts", pl).arr("p1", vec(out.raw_partition())).arr("bw", bw).emit();
    }
  }
}

// ---------------------------------------------------------------- extending partitions
static void extend(int count) {
  for (int i = 0; i < count; ++i) {
    Context ctx = create_default_context();
    Threads t(1 + rng() % 8);
    Scene s = scene(1, 60);
    const NodeID n = s.graph.n();
    const BlockID K = vp::rnd(rng, 2, 20);
    if (vp::coin(rng, 1, 2)) ctx.partition.setup(s.graph, K, 0.03);
    else ctx.partition.setup(s.graph, limits(s.graph.total_node_weight(), K), vp::coin(rng, 1, 2));
    ctx.initial_partitioning.use_adaptive_epsilon = vp::coin(rng, 1, 2);
    ctx.initial_partitioning.coarsening.contraction_limit = vp::rnd(rng, 2, 20);
    ctx.partitioning.min_consecutive_seq_bipartitioning_levels = vp::rnd(rng, 0, 3);
    const int active = vp::rnd(rng, 1, 16);
    InitialBipartitionerWorkerPool pool(ctx);
    partitioning::SubgraphMemoryEts mems;
    partitioning::TemporarySubgraphMemoryEts tmps;
    graph::SubgraphMemory mem;
    for (int graphs = 0; graphs < 2; ++graphs) { // the pool and the memory are used again
      if (graphs) s = scene(1, 60);
      emit_graph(s.g);
      const NodeID n = s.graph.n();
      const auto ps = powers(K);
      BlockID k = vp::pick(rng, ps);
      if (vp::coin(rng, 1, 2)) k = 1;
      StaticArray<BlockID> part(n);
      const BlockID used = vp::rnd(rng, 1, k);
      for (auto &b : part) b = rng() % used;
      PartitionedGraph p(s.graph, k, std::move(part));
      while (p.k() < K) {
        std::vector<BlockID> ks{K};
        for (BlockID c = 2 * p.k(); c < K; c *= 2) ks.push_back(c);
        const BlockID kp = vp::pick(rng, ks);
        const auto p0 = vec(p.raw_partition());
        const BlockID k0 = p.k();
        const int how = rng() % 3;
        if (how == 0) partitioning::extend_partition_lazy_extraction(p, kp, ctx, mems, tmps, pool, active);
        else if (how == 1) partitioning::extend_partition(p, kp, ctx, tmps, pool, active);
        else {
          mem.resize(p.n(), K, p.m(), p.is_node_weighted(), p.is_edge_weighted());
          partitioning::extend_partition(p, kp, ctx, mem, tmps, pool, active);
        }
        std::vector<long long> bw;
        for (BlockID b = 0; b < p.k(); ++b) bw.push_back(p.block_weight(b));
        Rec().str("ev", "extend").num("how", how).num("k", k0).num("K", K).num("kp", kp).num("k1", p.k()).arr("p", p0).arr("p1", vec(p.raw_partition())).arr("bw", bw).emit();
      }
    }
  }
}

// v-cycles: the blocks of one partition are the communities of the next one, which refinement must not mix
static void cycles(int count) {
  for (int i = 0; i < count; ++i) {
    Context ctx = create_vcycle_context(true);
    ctx.partitioning.mode = PartitioningMode::DEEP;
    const int T = 1 + rng() % 8;
    Threads t(T);
    ctx.parallel.num_threads = T;
    Scene s = scene(1, vp::coin(rng, 1, 4) ? 300 : 60);
    const NodeID n = s.graph.n();
    std::vector<BlockID> ks{2};
    while (ks.size() < 4 && vp::coin(rng, 1, 2)) ks.push_back(2 * ks.back());
    const BlockID K = ks.back() + vp::rnd(rng, 1, 2 * ks.back());
    ks.erase(ks.begin(), ks.begin() + rng() % ks.size());
    ks.push_back(K);
    ctx.coarsening.contraction_limit = vp::rnd(rng, 2, 20);
    ctx.coarsening.clustering.max_mem_free_coarsening_level = vp::rnd(rng, 0, 2);
    ctx.partitioning.min_consecutive_seq_bipartitioning_levels = vp::rnd(rng, 0, 2);
    ctx.partitioning.use_lazy_subgraph_memory = vp::coin(rng, 1, 2);
    ctx.partitioning.refine_after_extending_partition = vp::coin(rng, 1, 2);
    ctx.refinement.lp.num_iterations = vp::rnd(rng, 1, 5);
    emit_graph(s.g);
    const auto limK = limits(s.graph.total_node_weight(), K);
    StaticArray<NodeID> communities(n);
    PartitionContext prev;
    std::vector<long long> p0;
    for (std::size_t j = 0; j < ks.size(); ++j) {
      const BlockID k = ks[j];
      std::vector<BlockWeight> lim(k);
      for (BlockID b = 0, sub = 0; b < k; ++b) {
        const BlockID f = partitioning::compute_final_k(b, k, K);
        for (BlockID c = 0; c < f; ++c) lim[b] += limK[sub++];
      }
      ctx.partition.set_epsilon(-1.0);
      ctx.partition.setup(s.graph, lim);
      ctx.partitioning.deep_initial_partitioning_mode = j ? InitialPartitioningMode::COMMUNITIES : InitialPartitioningMode::ASYNCHRONOUS_PARALLEL;
      DeepMultilevelPartitioner partitioner(s.graph, ctx);
      if (j) partitioner.use_communities({communities.data(), n}, prev);
      PartitionedGraph p = partitioner.partition();
      std::vector<long long> p1, bw;
      for (NodeID u = 0; u < n; ++u) communities[u] = p.block(u), p1.push_back(p.block(u));
      for (BlockID b = 0; b < p.k(); ++b) bw.push_back(p.block_weight(b));
      if (j) Rec().str("ev", "extend").num("how", 3).num("k", ks[j - 1]).num("K", K).num("kp", k).num("k1", p.k()).arr("p", p0).arr("p1", p1).arr("bw", bw).emit();
      p0 = p1;
      prev = ctx.partition;
    }
  }
}

// ---------------------------------------------------------------- bipartitioning
static PartitionContext two_limits(const CSRGraph &g) {
  PartitionContext pc;
  const long long total = g.total_node_weight();
  std::vector<BlockWeight> w;
  switch (rng() % 4) {
  case 0: w = {BlockWeight((total + 1) / 2), BlockWeight((total + 1) / 2)}; break;
  case 1: w = {BlockWeight(total / 2 + 2), BlockWeight(total / 2 + 2)}; break;
  case 2: w = limits(total, 2); break;
  default: w = {BlockWeight(vp::rnd(rng, 1, std::max(1LL, total / 3))), BlockWeight(total)};
  }
  pc.setup(g, w, vp::coin(rng, 1, 3));
  if (vp::coin(rng, 1, 2)) pc.set_epsilon(0.03);
  return pc;
}
static Rec &with(Rec &r, const PartitionContext &pc) {
  return r.arr("lim", std::vector<long long>{pc.max_block_weight(0), pc.max_block_weight(1)})
      .arr("perf", std::vector<long long>{pc.perfectly_balanced_block_weight(0), pc.perfectly_balanced_block_weight(1)});
}
template <typename P> static Rec &with_p(Rec &r, const P &p, NodeID n) {
  std::vector<long long> b;
  for (NodeID u = 0; u < n; ++u) b.push_back(p.block(u));
  return r.arr("p", b).num("k", p.k()).arr("bw", std::vector<long long>{p.block_weight(0), p.block_weight(1)});
}
static InitialRefinementContext refinement() {
  InitialRefinementContext r = create_default_context().initial_partitioning.refinement;
  r.disabled = vp::coin(rng, 1, 8);
  r.stopping_rule = vp::coin(rng, 1, 2) ? FMStoppingRule::SIMPLE : FMStoppingRule::ADAPTIVE;
  r.num_fruitless_moves = vp::rnd(rng, 1, 100);
  r.num_iterations = vp::rnd(rng, 1, 5);
  return r;
}
static void flat(int count) {
  InitialPoolPartitionerContext pool = create_default_context().initial_partitioning.pool;
  for (int i = 0; i < count; ++i) {
    pool.num_seed_iterations = vp::rnd(rng, 1, 3);
    pool.refinement = refinement();
    pool.use_adaptive_bipartitioner_selection = vp::coin(rng, 1, 2);
    pool.min_num_repetitions = vp::rnd(rng, 1, 3);
    pool.max_num_repetitions = pool.min_num_repetitions + rng() % 4;
    pool.enable_bfs_bipartitioner = vp::coin(rng, 3, 4);
    pool.enable_ggg_bipartitioner = !pool.enable_bfs_bipartitioner || vp::coin(rng, 1, 2);
    pool.enable_random_bipartitioner = vp::coin(rng, 1, 2);
    std::vector<std::pair<const char *, std::unique_ptr<InitialFlatBipartitioner>>> algs;
    algs.emplace_back("bfs", std::make_unique<AlternatingBfsBipartitioner>(pool));
    algs.emplace_back("bfs", std::make_unique<LighterBlockBfsBipartitioner>(pool));
    algs.emplace_back("bfs", std::make_unique<LongerQueueBfsBipartitioner>(pool));
    algs.emplace_back("bfs", std::make_unique<ShorterQueueBfsBipartitioner>(pool));
    algs.emplace_back("bfs", std::make_unique<SequentialBfsBipartitioner>(pool));
    algs.emplace_back("ggg", std::make_unique<InitialGGGBipartitioner>(pool));
    algs.emplace_back("random", std::make_unique<InitialRandomBipartitioner>(pool));
    InitialPoolBipartitioner ipb(pool);
    auto refiner = create_initial_refiner(pool.refinement);
    StaticArray<BlockID> part(0);
    StaticArray<BlockWeight> bw(0);
    for (int graphs = vp::rnd(rng, 2, 4); graphs > 0; --graphs) {
      vp::G g = vp::random_graph(rng, vp::rnd(rng, 1, vp::coin(rng, 1, 4) ? 150 : 30), -1, 45, 45);
      auto gp = csr(g);
      emit_graph(g);
      const PartitionContext pc = two_limits(*gp);
      for (auto &[name, alg] : algs) {
        alg->init(*gp, pc);
        for (int rep = 0; rep < 2; ++rep) {
          PartitionedCSRGraph p = alg->bipartition(std::move(part), std::move(bw));
          Rec r;
          with_p(with(r.str("ev", "flat").str("alg", name), pc), p, gp->n()).num("cut", metrics::edge_cut_seq(p)).emit();
          if (rep == 0) {
            refiner->init(*gp);
            const bool ret = refiner->refine(p, pc);
            Rec q;
            with_p(with(q.str("ev", "fm"), pc), p, gp->n())
                .num("cut", metrics::edge_cut_seq(p))
                .boolean("off", pool.refinement.disabled)
                .boolean("ret", ret)
                .num("iters", pool.refinement.num_iterations)
                .emit();
          }
          part = p.take_raw_partition();
          bw = p.take_raw_block_weights();
        }
      }
      ipb.init(*gp, pc);
      ipb.set_num_repetitions(vp::rnd(rng, 0, 4));
      PartitionedCSRGraph p = ipb.bipartition();
      Rec r;
      with_p(with(r.str("ev", "flat").str("alg", "pool"), pc), p, gp->n()).num("cut", metrics::edge_cut_seq(p)).boolean("bfs", pool.enable_bfs_bipartitioner).emit();
    }
  }
}

static void hier(int count) {
  Context ctx = create_default_context();
  InitialCoarseningContext cc = ctx.initial_partitioning.coarsening;
  InitialCoarsener coarsener(cc); // reused
  for (int i = 0; i < count; ++i) {
    cc.convergence_threshold = vp::coin(rng, 1, 2) ? 0.05 : vp::rnd(rng, 0, 30) / 100.0;
    cc.large_degree_threshold = vp::coin(rng, 1, 2) ? 1000000 : vp::rnd(rng, 1, 10);
    vp::G g = vp::random_graph(rng, vp::rnd(rng, 1, vp::coin(rng, 1, 3) ? 700 : 40), -1, 45, 45);
    auto gp = csr(g);
    emit_graph(g);
    long long total = gp->total_node_weight();
    const NodeWeight maxw = vp::rnd(rng, 1, vp::coin(rng, 1, 2) ? total : 12);
    coarsener.init(*gp);
    const CSRGraph *cur = gp.get();
    std::vector<vp::G> levels{g};
    for (int most = vp::coin(rng, 1, 2) ? 100 : vp::rnd(rng, 1, 3); most > 0 && cur->n() > 1; --most) {
      const CSRGraph *next = coarsener.coarsen(maxw);
      if (next == cur) break;
      cur = next;
      vp::G c;
      for (const NodeID u : cur->nodes()) {
        c.vw.push_back(cur->node_weight(u));
        std::vector<std::pair<NodeID, EdgeWeight>> adj;
        cur->adjacent_nodes(u, [&](const NodeID v, const EdgeWeight w) { adj.push_back({v, w}); });
        std::sort(adj.begin(), adj.end());
        for (auto [v, w] : adj) c.a.push_back(v), c.ew.push_back(w);
        c.x.push_back(c.a.size());
      }
      levels.push_back(c);
      Rec().str("ev", "coarse").raw("g", vp::json(c)).num("m", cur->m()).num("tnw", cur->total_node_weight()).num("tew", cur->total_edge_weight()).emit();
    }
    // the mapping is only visible through projection: give every coarsest vertex a block of its own
    const bool ident = vp::coin(rng, 2, 3);
    const BlockID k = ident ? std::max<NodeID>(2, cur->n()) : 2;
    StaticArray<BlockID> part(cur->n());
    for (NodeID u = 0; u < cur->n(); ++u) part[u] = ident ? u : rng() % 2;
    PartitionedCSRGraph p(PartitionedCSRGraph::seq{}, *cur, k, std::move(part));
    auto show = [&](const char *ev) {
      std::vector<long long> q, bw;
      for (const NodeID u : p.graph().nodes()) q.push_back(p.block(u));
      for (BlockID b = 0; b < k; ++b) bw.push_back(p.block_weight(b));
      Rec().str("ev", ev).boolean("ident", ident).num("maxw", maxw).num("k", p.k()).arr("p", q).arr("bw", bw).num("cut", metrics::edge_cut_seq(p)).arr("ord", image_order(levels.back(), q)).emit();
    };
    show("bottom");
    while (!coarsener.empty()) {
      p = coarsener.uncoarsen(std::move(p));
      levels.pop_back();
      show("up");
    }
  }
}

static void ml(int count) {
  for (int i = 0; i < count; ++i) {
    Context ctx = create_default_context();
    auto &ip = ctx.initial_partitioning;
    ip.use_adaptive_epsilon = vp::coin(rng, 1, 2);
    ip.refine_pool_partition = vp::coin(rng, 1, 2);
    ip.coarsening.contraction_limit = vp::rnd(rng, 2, 20);
    ip.refinement = refinement();
    ip.pool.refinement = refinement();
    Graph whole = make_graph(vp::random_graph(rng, vp::rnd(rng, 20, 60), -1, 45, 45));
    const BlockID K = vp::rnd(rng, 2, 12);
    if (vp::coin(rng, 1, 2)) ctx.partition.setup(whole, K, 0.03);
    else ctx.partition.setup(whole, limits(whole.total_node_weight(), K), vp::coin(rng, 1, 2));
    InitialBipartitionerWorkerPool pool(ctx);
    for (int graphs = vp::rnd(rng, 2, 4); graphs > 0; --graphs) {
      Scene s = scene(1, 80);
      emit_graph(s.g);
      { // what the bipartitioner makes of a compressed graph
        CSRGraph c(s.graph);
        Rec().str("ev", "csr").raw("g", vp::json(plain(Graph(std::make_unique<CSRGraph>(s.graph))))).num("maxw", c.max_node_weight()).num("tnw", c.total_node_weight()).num("tew", c.total_edge_weight()).num("maxdeg", c.max_degree()).boolean("sorted", c.sorted() == s.graph.sorted()).emit();
      }
      const auto ps = powers(K);
      const BlockID ck = vp::pick(rng, ps);
      BlockID b = rng() % ck;
      for (BlockID j = 0; j < ck && partitioning::compute_final_k(b, ck, K) < 2; ++j) b = (b + 1) % ck;
      PartitionedGraph p = pool.bipartition(&s.graph, b, ck, vp::coin(rng, 1, 2));
      Rec r;
      with_p(r.str("ev", "ml"), p, s.graph.n()).num("cut", metrics::edge_cut(p)).emit();
    }
  }
}

int main(int argc, char **argv) {
  rng.seed(std::stoull(argv[1]));
  Random::reseed(std::stoull(argv[1]));
  const int count = std::stoi(argv[2]);
  const std::string mode = argv[3];
  vp::guard_wall(300);
  if (mode == "arith") arith(count);
  else if (mode == "extract") extract(count);
  else if (mode == "extend") extend(count);
  else if (mode == "cycles") cycles(count);
  else if (mode == "flat") flat(count);
  else if (mode == "hier") hier(count);
  else ml(count);
}
