// Block moves with limits, refinement algorithms and the greedy balancer.
// usage: refine SEED COUNT moves | refine SEED COUNT refine small|mid | refine SEED COUNT balance small|mid
#include "shm_common.h"

#include <atomic>
#include <thread>

#include "kaminpar-shm/factories.h"
#include "kaminpar-shm/graphutils/permutator.h"
#include "kaminpar-shm/metrics.h"
#include "kaminpar-shm/presets.h"
#include "kaminpar-shm/refinement/refiner.h"

using namespace vs;
using vp::Rec;
static vp::Rng rng;

// ---------------------------------------------------------------- concurrent moves
struct Spin {
  std::atomic<int> in{0}, gen{0};
  int n;
  explicit Spin(int n) : n(n) {}
  void wait() {
    const int g = gen.load();
    if (++in == n) {
      in = 0;
      ++gen;
    } else {
      for (long i = 0; gen.load() == g; ++i)
        if (i > 2000) std::this_thread::yield();
    }
  }
};

static void moves(int count) {
  const int T = 8;
  for (int i = 0; i < count; ++i) {
    // sometimes very many blocks, of which only a few are used: those are recorded, and all others as one more block
    const bool huge = vp::coin(rng, 1, 3);
    const int rounds = huge ? 6 : 150;
    const int n = huge ? vp::rnd(rng, 24, 200) : vp::rnd(rng, 8, 24), k = vp::rnd(rng, 2, 4);
    const BlockID real_k = huge ? vp::pick(rng, std::vector<BlockID>{65535, 65536, 65537, 80000}) : k;
    std::vector<BlockID> id(k); // the real block
    std::iota(id.begin(), id.end(), 0);
    if (huge) {
      std::set<BlockID> s{real_k - 1};
      while ((int)s.size() < k) s.insert(rng() % real_k);
      id.assign(s.begin(), s.end());
    }
    vp::G g;
    const bool unit = vp::coin(rng, 1, 2);
    for (int u = 0; u < n; ++u) {
      g.x.push_back(0);
      if (!unit) g.vw.push_back(vp::rnd(rng, 1, 5));
    }
    Graph graph = make_graph(g);
    const bool weight_only = vp::coin(rng, 1, 2); // the way label propagation moves vertices
    const bool back = vp::coin(rng, 1, 2);        // some vertices leave the target block, too
    Rec().str("ev", "graph").raw("g", vp::json(g)).emit();
    struct R {
      std::vector<BlockID> p0, p1;
      std::vector<long long> bw, lim, seen;
      std::vector<std::array<long long, 4>> mv[8];
    };
    std::vector<R> res(rounds);
    std::vector<std::unique_ptr<PartitionedGraph>> ps;
    std::vector<std::vector<std::pair<int, int>>> plan[8]; // [thread][round]: vertex, target
    for (int r = 0; r < rounds; ++r) {
      StaticArray<BlockID> part(n);
      const BlockID t = rng() % k; // the block everybody wants to join
      for (auto &b : part) b = vp::coin(rng, 1, 8) ? t : (t + 1 + rng() % (k - 1)) % k;
      for (auto b : part) res[r].p0.push_back(b);
      for (auto &b : part) b = id[b];
      auto p = std::make_unique<PartitionedGraph>(graph, real_k, std::move(part));
      for (int b = 0; b < k; ++b) {
        const long long w = p->block_weight(id[b]);
        res[r].lim.push_back(std::max(0LL, b == (int)t ? w + vp::rnd(rng, 0, 6) : w + vp::rnd(rng, -3, 3)));
        res[r].seen.push_back(w);
      }
      ps.push_back(std::move(p));
      for (int q = 0; q < T; ++q) {
        plan[q].emplace_back();
        for (int u = q; u < n; u += T) {
          plan[q].back().push_back({u, t});
          if (back) plan[q].back().push_back({u, rng() % k});
        }
      }
    }
    Spin spin(T);
    std::atomic<bool> stop{false};
    std::vector<std::thread> ths;
    for (int q = 0; q < T; ++q) {
      ths.emplace_back([&, q] {
        for (int r = 0; r < rounds; ++r) {
          PartitionedGraph &p = *ps[r];
          spin.wait();
          for (auto [u, to] : plan[q][r]) {
            const BlockID rfrom = p.block(u), rto = id[to];
            const int from = std::find(id.begin(), id.end(), rfrom) - id.begin();
            if (from == to) continue;
            bool ok;
            if (weight_only) {
              ok = p.move_block_weight(rfrom, rto, graph.node_weight(u), res[r].lim[to]);
              if (ok) p.set_block<false>(u, rto);
            } else {
              ok = p.move(u, rfrom, rto, res[r].lim[to]);
            }
            res[r].mv[q].push_back({u, from, to, ok});
          }
        }
      });
    }
    for (auto &t : ths) t.join();
    for (int r = 0; r < rounds; ++r) {
      std::vector<std::array<long long, 4>> mv;
      for (auto &m : res[r].mv) mv.insert(mv.end(), m.begin(), m.end());
      for (int u = 0; u < n; ++u) res[r].p1.push_back(std::find(id.begin(), id.end(), ps[r]->block(u)) - id.begin());
      for (int b = 0; b < k; ++b) res[r].bw.push_back(ps[r]->block_weight(id[b]));
      if (huge) {
        long long rest = 0;
        for (BlockID b = 0; b < real_k; ++b) rest += ps[r]->block_weight(b);
        for (auto w : res[r].bw) rest -= w;
        res[r].bw.push_back(rest), res[r].lim.push_back(0);
      }
      Rec().str("ev", "moves").num("k", k + huge).arr("p0", res[r].p0).arr("p1", res[r].p1).arr("bw", res[r].bw).arr("lim", res[r].lim).arr2("mv", mv).emit();
    }
  }
}

// ---------------------------------------------------------------- refinement
using RA = RefinementAlgorithm;
static std::string name(RA a) {
  switch (a) {
  case RA::LABEL_PROPAGATION: return "lp";
  case RA::KWAY_FM: return "fm";
  case RA::GREEDY_BALANCER: return "balancer";
  case RA::JET: return "jet";
  default: return "?";
  }
}

static void refine(int count, const std::string &mode, const std::string &size) {
  const bool small = size == "small";
  for (int i = 0; i < count; ++i) {
    Context ctx = create_default_context();
    auto &R = ctx.refinement;
    const BlockID maxk = vp::rnd(rng, 2, small ? 6 : 40);
    if (mode == "balance") {
      R.algorithms = {RA::GREEDY_BALANCER};
    } else if (mode == "fm") { // long local searches: hills are climbed before an improvement is found
      R.algorithms = {RA::KWAY_FM};
    } else {
      R.algorithms.clear();
      const std::vector<RA> all{RA::LABEL_PROPAGATION, RA::KWAY_FM, RA::JET, RA::GREEDY_BALANCER};
      for (int j = vp::coin(rng, 3, 4) ? 1 : vp::rnd(rng, 2, 3); j > 0; --j) R.algorithms.push_back(vp::pick(rng, all));
    }
    R.lp.num_iterations = vp::pick(rng, std::vector<int>{1, 3, 5, 40});
    R.lp.impl = vp::pick(rng, std::vector<LabelPropagationImplementation>{LabelPropagationImplementation::SINGLE_PHASE, LabelPropagationImplementation::TWO_PHASE, LabelPropagationImplementation::GROWING_HASH_TABLES});
    R.lp.tie_breaking_strategy = vp::coin(rng, 1, 2) ? TieBreakingStrategy::UNIFORM : TieBreakingStrategy::GEOMETRIC;
    if (vp::coin(rng, 1, 4)) R.lp.max_num_neighbors = vp::rnd(rng, 1, 10);
    if (vp::coin(rng, 1, 4)) R.lp.large_degree_threshold = vp::rnd(rng, 1, 10);
    const bool lp_full = R.lp.max_num_neighbors > 1000000 && R.lp.large_degree_threshold > 1000000;
    auto &F = R.kway_fm;
    F.gain_cache_strategy = vp::coin(rng, 1, 2) ? GainCacheStrategy::SPARSE : GainCacheStrategy::COMPACT_HASHING;
    F.num_seed_nodes = vp::pick(rng, std::vector<int>{1, 3, 10, 25});
    F.num_iterations = vp::pick(rng, std::vector<int>{1, 3, 10});
    F.unlock_locally_moved_nodes = vp::coin(rng, 1, 2);
    F.unlock_seed_nodes = vp::coin(rng, 1, 2);
    F.use_exact_abortion_threshold = vp::coin(rng, 1, 2);
    F.minimal_parallelism = vp::rnd(rng, 1, 8);
    if (mode == "fm") {
      F.alpha = vp::pick(rng, std::vector<double>{1.0, 10.0, 100.0});
      F.num_seed_nodes = vp::pick(rng, std::vector<int>{1, 1, 2, 10, 1000});
    }
    R.jet.num_iterations = vp::pick(rng, std::vector<int>{0, 1, 4, 12});
    R.jet.num_fruitless_iterations = R.jet.num_iterations == 0 ? vp::rnd(rng, 1, 6) : vp::rnd(rng, 0, 6);
    R.jet.num_rounds_on_coarse_level = vp::rnd(rng, 1, 3);
    R.jet.num_rounds_on_fine_level = vp::rnd(rng, 1, 3);
    std::unique_ptr<Refiner> refiner;
    NodeID first_n = 0;
    const int graphs = vp::rnd(rng, 1, 3); // one refiner is used for several levels
    for (int q = 0; q < graphs; ++q) {
      const int threads = mode == "fm" || vp::coin(rng, 1, 2) ? 1 : vp::rnd(rng, 2, 8);
      Threads t(threads);
      ctx.parallel.num_threads = threads;
      const int n0 = small ? vp::rnd(rng, 1, 16) : vp::rnd(rng, 20, 150);
      auto E = vp::random_edges(rng, n0, mode == "fm" ? vp::pick(rng, std::vector<int>{0, 1, 1, 4}) : -1);
      const bool uw = vp::coin(rng, 1, 2);
      vp::G g = vp::from_edges(n0, E, rng, !uw, vp::coin(rng, 1, 2), vp::pick(rng, std::vector<int>{3, 10, 30}), 20);
      const bool comp = vp::coin(rng, 1, 3);
      Graph graph;
      if (comp) {
        graph = compressed(g);
      } else if (vp::coin(rng, 1, 3)) {
        graph = graph::rearrange_by_degree_buckets(*csr(g));
        graph.remove_isolated_nodes(graph::count_isolated_nodes(graph));
      } else {
        graph = make_graph(g);
      }
      if (graph.n() == 0) continue;
      g = plain(graph);
      const NodeID n = graph.n();
      const BlockID k = vp::coin(rng, 1, 2) ? maxk : vp::rnd(rng, 1, maxk);
      PartitionContext pc;
      const bool uniform = vp::coin(rng, 1, 2);
      if (uniform) {
        pc.setup(graph, k, vp::pick(rng, std::vector<double>{0.0, 0.03, 0.2, 1.0, 100.0}), vp::coin(rng, 1, 4));
      } else {
        std::vector<BlockWeight> lim;
        const long long avg = (graph.total_node_weight() + k - 1) / k;
        for (BlockID b = 0; b < k; ++b) lim.push_back(std::max<long long>(1, avg * vp::rnd(rng, 1, 30) / 10));
        pc.setup(graph, lim, vp::coin(rng, 1, 4));
      }
      ctx.partition = pc;
      ctx.partition.k = maxk;
      if (!refiner || graph.n() > first_n) { // (refiners are made for the largest graph)
        refiner = factory::create_refiner(ctx);
        first_n = graph.n();
      }
      Rec().str("ev", "graph").raw("g", vp::json(g)).emit();
      std::vector<long long> lim;
      for (BlockID b = 0; b < k; ++b) lim.push_back(pc.max_block_weight(b));
      std::vector<NodeID> comm;
      std::vector<BlockID> last;
      for (int rep = 0; rep < 3; ++rep) {
        StaticArray<BlockID> part(n);
        const int how = rng() % 4;
        for (NodeID u = 0; u < n; ++u) {
          switch (how) {
          case 0: part[u] = rng() % k; break;
          case 1: part[u] = (unsigned long long)u * k / n; break;                      // good and balanced
          case 2: part[u] = vp::coin(rng, 1, 4) ? rng() % k : 0; break;            // one heavy block
          default: part[u] = rng() % ((k + 1) / 2); break;                           // empty blocks
          }
        }
        if (mode == "fm" && !last.empty() && rep > 0) { // what was found, slightly disturbed
          for (NodeID u = 0; u < n; ++u) part[u] = last[u];
          for (int q = vp::rnd(rng, 0, 6); q > 0; --q) part[rng() % n] = rng() % k;
        }
        std::vector<BlockID> p0(part.begin(), part.end());
        comm.clear();
        if (mode != "balance" && vp::coin(rng, 1, 4)) { // blocks within communities
          comm.assign(n, 0);
          const BlockID nc = vp::rnd(rng, 1, k);
          for (NodeID u = 0; u < n; ++u) comm[u] = p0[u] % nc;
        }
        PartitionedGraph p(graph, k, std::move(part));
        refiner->set_communities(comm);
        refiner->initialize(p);
        const bool ret = refiner->refine(p, pc);
        last.clear();
        for (NodeID u = 0; u < n; ++u) last.push_back(p.block(u));
        std::string algs = "[";
        for (auto a : R.algorithms) algs += (algs.size() > 1 ? ",\"" : "\"") + name(a) + "\"";
        algs += "]";
        std::vector<long long> p1, bw;
        for (NodeID u = 0; u < n; ++u) p1.push_back(p.block(u));
        for (BlockID b = 0; b < k; ++b) bw.push_back(p.block_weight(b));
        Rec()
            .str("ev", "refine")
            .raw("algs", algs)
            .num("threads", threads)
            .num("k", k)
            .arr("lim", lim)
            .arr("p0", p0)
            .arr("p1", p1)
            .arr("bw", bw)
            .arr("comm", comm)
            .boolean("ret", ret)
            .boolean("full", lp_full)
            .num("seeds", F.num_seed_nodes)
            .num("cut", metrics::edge_cut(p))
            .num("iters", R.lp.num_iterations)
            .emit();
      }
      refiner->set_communities({});
    }
  }
}

int main(int argc, char **argv) {
  rng.seed(std::stoull(argv[1]));
  Random::reseed(std::stoull(argv[1]));
  const int count = std::stoi(argv[2]);
  const std::string mode = argv[3];
  vp::guard_wall(300);
  if (mode == "moves") moves(count);
  else refine(count, mode, argv[4]);
}
