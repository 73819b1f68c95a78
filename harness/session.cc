// Drives the public KaMinPar interface through random histories and records every call.
//   session <seed> <count> <small|mid|big> [preset | "vary"]     (vary: settings that no preset uses, too)
#include "vp.h"

#include "kaminpar-shm/datastructures/graph.h"
#include "kaminpar-shm/graphutils/compressed_graph_builder.h"
#include "kaminpar-shm/graphutils/parallel_compressed_graph_builder.h"
#include "kaminpar-shm/kaminpar.h"

#include "kaminpar-common/random.h"

using namespace kaminpar;
using namespace kaminpar::shm;
using namespace vp;

static std::vector<std::string> presets() {
  auto s = get_preset_names();
  std::vector<std::string> v(s.begin(), s.end());
  std::sort(v.begin(), v.end());
  return v;
}

struct Arrays {
  std::vector<EdgeID> x;
  std::vector<NodeID> a;
  std::vector<NodeWeight> vw;
  std::vector<EdgeWeight> ew;
  Arrays() = default;
  Arrays(const G &g) : x(g.x.begin(), g.x.end()), a(g.a.begin(), g.a.end()), vw(g.vw.begin(), g.vw.end()), ew(g.ew.begin(), g.ew.end()) {}
  bool operator==(const Arrays &) const = default;
};

static CSRGraph csr_of(const Arrays &A) {
  StaticArray<EdgeID> x(A.x.begin(), A.x.end());
  StaticArray<NodeID> a(A.a.begin(), A.a.end());
  StaticArray<NodeWeight> vw(A.vw.begin(), A.vw.end());
  StaticArray<EdgeWeight> ew(A.ew.begin(), A.ew.end());
  return CSRGraph(std::move(x), std::move(a), std::move(vw), std::move(ew));
}

// compressed without any parallel loop: the partitioner is then the first to use threads in this process
static CompressedGraph sequentially_compressed(const Arrays &A) {
  NodeID n = A.x.size() - 1;
  CompressedGraphBuilder b(n, A.a.size(), !A.vw.empty(), !A.ew.empty(), false);
  for (NodeID u = 0; u < n; ++u) {
    std::vector<std::pair<NodeID, EdgeWeight>> nb;
    for (auto e = A.x[u]; e < A.x[u + 1]; ++e) nb.push_back({A.a[e], A.ew.empty() ? 1 : A.ew[e]});
    b.add_node(u, nb);
    if (!A.vw.empty()) b.add_node_weight(u, A.vw[u]);
  }
  return b.build();
}

// settings of the library and of the command line that presets do not use
static std::string vary(Rng &r, Context &c) {
  std::string m = "deep";
  auto &P = c.partitioning;
  switch (rnd(r, 0, 3)) {
  case 0: P.mode = PartitioningMode::RB, m = "rb"; break;
  case 1: P.mode = PartitioningMode::KWAY, m = "kway"; break;
  case 2: P.mode = PartitioningMode::VCYCLE, m = "vcycle"; break;
  default: P.mode = PartitioningMode::DEEP;
  }
  P.deep_initial_partitioning_mode = pick(r, std::vector<InitialPartitioningMode>{InitialPartitioningMode::SEQUENTIAL, InitialPartitioningMode::ASYNCHRONOUS_PARALLEL, InitialPartitioningMode::SYNCHRONOUS_PARALLEL});
  P.deep_initial_partitioning_load = pick(r, std::vector<double>{0.5, 1.0, 2.0});
  P.min_consecutive_seq_bipartitioning_levels = rnd(r, 0, 3);
  P.refine_after_extending_partition = coin(r, 1, 2);
  P.use_lazy_subgraph_memory = coin(r, 1, 3);
  P.restrict_vcycle_refinement = coin(r, 1, 4);
  P.rb_enable_kway_toplevel_refinement = coin(r, 2, 3);
  auto &C = c.coarsening;
  if (coin(r, 1, 10)) C.algorithm = CoarseningAlgorithm::NOOP;
  if (coin(r, 1, 10)) C.clustering.algorithm = ClusteringAlgorithm::NOOP;
  C.clustering.cluster_weight_limit = pick(r, std::vector<ClusterWeightLimit>{ClusterWeightLimit::EPSILON_BLOCK_WEIGHT, ClusterWeightLimit::EPSILON_BLOCK_WEIGHT, ClusterWeightLimit::BLOCK_WEIGHT, ClusterWeightLimit::ONE, ClusterWeightLimit::ZERO});
  C.clustering.lp.impl = pick(r, std::vector<LabelPropagationImplementation>{LabelPropagationImplementation::SINGLE_PHASE, LabelPropagationImplementation::TWO_PHASE, LabelPropagationImplementation::GROWING_HASH_TABLES});
  C.contraction.algorithm = pick(r, std::vector<ContractionAlgorithm>{ContractionAlgorithm::BUFFERED, ContractionAlgorithm::BUFFERED_LEGACY, ContractionAlgorithm::UNBUFFERED, ContractionAlgorithm::UNBUFFERED_NAIVE});
  C.contraction.unbuffered_implementation = pick(r, std::vector<ContractionImplementation>{ContractionImplementation::SINGLE_PHASE, ContractionImplementation::TWO_PHASE, ContractionImplementation::GROWING_HASH_TABLES});
  auto &I = c.initial_partitioning;
  I.pool.refinement.disabled = coin(r, 1, 4);
  I.pool.refinement.stopping_rule = coin(r, 1, 2) ? FMStoppingRule::SIMPLE : FMStoppingRule::ADAPTIVE;
  I.refinement.disabled = coin(r, 1, 4);
  c.refinement.algorithms.clear();
  // (balancing comes last, as in all presets that refine: it restores the limits others may exceed)
  const std::vector<RefinementAlgorithm> A{RefinementAlgorithm::LABEL_PROPAGATION, RefinementAlgorithm::KWAY_FM, RefinementAlgorithm::JET, RefinementAlgorithm::GREEDY_BALANCER, RefinementAlgorithm::NOOP};
  for (int j = rnd(r, 0, 3); j > 0; --j) c.refinement.algorithms.push_back(pick(r, A));
  c.refinement.algorithms.push_back(RefinementAlgorithm::GREEDY_BALANCER);
  c.refinement.kway_fm.gain_cache_strategy = coin(r, 1, 2) ? GainCacheStrategy::SPARSE : GainCacheStrategy::COMPACT_HASHING;
  if (!c.compression.enabled) {
    c.node_ordering = coin(r, 1, 2) ? NodeOrdering::NATURAL : NodeOrdering::DEGREE_BUCKETS;
    c.edge_ordering = coin(r, 1, 2) ? EdgeOrdering::NATURAL : EdgeOrdering::COMPRESSION;
  }
  return m;
}

static void run_session(std::uint64_t seed, const std::string &size, const std::string &force_preset, int rep, int sid) {
  Rng r(seed);
  auto P = presets();
  std::string pn = force_preset.empty() || force_preset == "vary" ? P[(seed / 7) % P.size()] : force_preset;
  Context c = create_context_by_preset_name(pn);
  // repeated sessions (rep > 0) are single threaded and must reproduce the first one
  int t = coin(r, 1, 2) ? 1 : (int)rnd(r, 2, 4);
  if (size == "det") t = 1;
  if (coin(r, 1, 2)) c.coarsening.contraction_limit = rnd(r, 2, 200);
  auto new_rec = Rec().str("ev", "new").num("sid", sid).str("preset", pn).num("threads", t).num("rep", rep).num("limit", c.coarsening.contraction_limit);
  if (force_preset == "vary") {
    std::string mode = vary(r, c);
    // without refinement of the whole partition, limits may be exceeded
    if (mode == "rb" && !c.partitioning.rb_enable_kway_toplevel_refinement) mode = "rb-only";
    if (mode == "vcycle" && c.partitioning.restrict_vcycle_refinement) mode = "restricted";
    new_rec.str("mode", mode);
  } else new_rec.str("mode", "");
  new_rec.emit();
  KaMinPar p(t, c);
  p.set_output_level(OutputLevel::QUIET);
  int seed0 = (int)rnd(r, 0, 100000);
  KaMinPar::reseed(seed0);
  Rec().str("ev", "reseed").num("seed", seed0).emit();

  int nops = size == "big" ? 2 : (int)rnd(r, 2, 5);
  std::vector<std::unique_ptr<Arrays>> keep; // memory lent to the partitioner
  G g;
  bool has = false;
  int how = 0;
  bool vc = c.partitioning.mode == PartitioningMode::VCYCLE;
  for (int op = 0; op < nops; ++op) {
    if (!has || coin(r, 1, 4)) {
      int n = size == "big" ? (int)rnd(r, 1500, 6000) : size == "mid" ? (int)rnd(r, 60, 700) : (int)(coin(r, 1, 3) ? rnd(r, 0, 9) : rnd(r, 5, 60));
      int nwp = coin(r, 1, 4) ? 100 : 0;
      g = random_graph(r, n, -1, nwp, 40);
      has = true;
      Arrays A(g);
      bool same = true;
      std::string hows;
      if (c.compression.enabled) {
        hows = "compressed";
        if (size == "det" && coin(r, 1, 2)) p.set_graph(Graph(std::make_unique<CompressedGraph>(sequentially_compressed(A))));
        else p.set_graph(Graph(std::make_unique<CompressedGraph>(parallel_compress(csr_of(A)))));
      } else {
        how = rnd(r, 0, 2);
        if (how == 0) {
          hows = "copy";
          p.copy_graph(A.x, A.a, A.vw, A.ew);
          keep.push_back(std::make_unique<Arrays>(A));
        } else if (how == 1) {
          hows = "borrow";
          keep.push_back(std::make_unique<Arrays>(A));
          auto &K = *keep.back();
          p.borrow_and_mutate_graph(K.x, K.a, K.vw, K.ew);
        } else {
          hows = "set";
          p.set_graph(Graph(std::make_unique<CSRGraph>(csr_of(A))));
        }
      }
      same = A == Arrays(g);
      Rec().str("ev", "set").str("how", hows).raw("g", json(g)).boolean("same", same).emit();
    }
    if (coin(r, 1, 6)) {
      int s = (int)rnd(r, 0, 1000);
      KaMinPar::reseed(s);
      Rec().str("ev", "reseed").num("seed", s).emit();
    }
    int n = g.n();
    int kmax = std::max(1, std::min(n, 150));
    BlockID k = coin(r, 1, 3) ? 2 : coin(r, 1, 2) ? (BlockID)rnd(r, 1, 8) : (BlockID)rnd(r, 1, kmax);
    if (coin(r, 1, 25)) k = n + (BlockID)rnd(r, 1, 3); // more blocks than vertices
    if (c.partitioning.mode == PartitioningMode::RB)   // (refused otherwise)
      while (k & (k - 1)) ++k;
    int eps = std::vector<int>{0, 1, 30, 30, 100, 500, 1500}[r() % 7];
    long long W = 0;
    for (int u = 0; u < n; ++u) W += g.w(u);
    std::vector<BlockID> part(n, 77777777);
    std::vector<int> maxw;
    std::string api;
    EdgeWeight cut;
    int a = rnd(r, 0, 5);
    if (vc) {
      std::vector<BlockID> vs;
      if (coin(r, 1, 2)) {
        for (BlockID kk = 1; kk < k; kk *= 2)
          if (kk > 1 && coin(r, 1, 2)) vs.push_back(kk);
        if (coin(r, 1, 2)) vs.push_back(k);
      }
      p.context().partitioning.vcycles = vs;
    }
    if (k > 60 && a >= 3) a = 0;
    Arrays before = keep.empty() ? Arrays() : *keep.back();
    // announce the call first: if it does not return, the announcement is the last output
    Rec().str("ev", "call").num("k", k).num("eps", eps).num("api", a).emit();
    if (a <= 2) {
      api = "eps";
      cut = p.compute_partition(k, eps / 1000.0, part);
    } else if (a == 3) {
      api = "default";
      eps = 30;
      cut = p.compute_partition(k, part);
    } else {
      // explicit maximum weights, feasible in total
      std::vector<BlockWeight> mw(k);
      long long tot = 0;
      for (auto &x : mw) tot += (x = (BlockWeight)rnd(r, 1, std::max<long long>(1, 2 * W / k)));
      long long want = W + (coin(r, 1, 4) ? 0 : rnd(r, 0, std::max<long long>(1, W / 10)));
      while (tot < want) {
        auto &x = mw[r() % k];
        long long d = std::min(want - tot, rnd(r, 1, std::max<long long>(1, W / k)));
        x += d;
        tot += d;
      }
      if (a == 4 || W == 0) {
        api = "max";
        maxw.assign(mw.begin(), mw.end());
        cut = p.compute_partition(std::vector<BlockWeight>(mw), part);
      } else {
        api = "factors";
        // dyadic factors, so that factor * W has no rounding error: in 1/1024
        std::vector<double> f(k);
        for (BlockID b = 0; b < k; ++b) {
          long long q = (1024LL * mw[b] + W - 1) / W;
          f[b] = q / 1024.0;
          maxw.push_back((int)((q * W + 1023) / 1024));
        }
        cut = p.compute_partition(std::vector<double>(f), part);
      }
    }
    bool same = keep.empty() || how != 0 || c.compression.enabled || before == *keep.back();
    std::vector<int> out;
    for (auto b : part) out.push_back(b > 1000000 ? 1000000 : (int)b);
    Rec().str("ev", "part").str("api", api).num("k", k).num("eps", eps).arr("maxw", maxw).num("cut", cut).arr("p", out).boolean("same", same).num("nv", p.context().partitioning.vcycles.size()).emit();
  }
}

int main(int argc, char **argv) {
  std::uint64_t seed = std::strtoull(argv[1], nullptr, 10);
  int count = atoi(argv[2]);
  std::string size = argv[3];
  std::string preset = argc > 4 ? argv[4] : "";
  for (int i = 0; i < count; ++i) {
    std::uint64_t s = seed * 1000003ULL + i * 7 + i / 15;
    if (size == "det") {
      // the same single-threaded history twice, with an unrelated session in between
      run_session(s, "det", preset, 0, i);
      run_session(s + 5000011, "small", preset, 0, -1);
      run_session(s, "det", preset, 1, i);
    } else {
      run_session(s, size, preset, 0, i);
    }
  }
  Rec().str("ev", "end").emit();
  return 0;
}
