// Gain caches and delta gain caches.
// usage: gains SEED COUNT small|mid
#include "shm_common.h"

#include <tbb/parallel_for.h>
#include <tbb/task_group.h>

#include "kaminpar-shm/datastructures/delta_partitioned_graph.h"
#include "kaminpar-shm/graphutils/permutator.h"
#include "kaminpar-shm/presets.h"
#include "kaminpar-shm/refinement/gains/compact_hashing_gain_cache.h"
#include "kaminpar-shm/refinement/gains/dense_gain_cache.h"
#include "kaminpar-shm/refinement/gains/hashing_gain_cache.h"
#include "kaminpar-shm/refinement/gains/on_the_fly_gain_cache.h"
#include "kaminpar-shm/refinement/gains/sparse_gain_cache.h"

using namespace vs;
using vp::Rec;
static vp::Rng rng;

struct Scene {
  vp::G g; // as stored in the graph
  Graph graph;
};

static Scene scene(const std::string &size, bool comp) {
  const int n = size == "small" ? vp::rnd(rng, 1, 16) : vp::rnd(rng, 20, 150);
  auto E = vp::random_edges(rng, n);
  const int maxew = vp::pick(rng, std::vector<int>{1, 4, 20, 100, 300, 20000, 100000});
  vp::G g = vp::from_edges(n, E, rng, vp::coin(rng, 1, 2), maxew > 1, 10, maxew);
  Scene s{g, {}};
  if (comp) {
    s.graph = compressed(g);
  } else if (vp::coin(rng, 1, 2)) {
    auto c = csr(g);
    s.graph = graph::rearrange_by_degree_buckets(*c);
    s.graph.remove_isolated_nodes(graph::count_isolated_nodes(s.graph)); // as the partitioner does
    if (s.graph.n() == 0) return scene(size, comp);
  } else {
    s.graph = make_graph(g);
  }
  s.g = plain(s.graph);
  return s;
}

template <typename Cache, typename P>
static void dump(const char *ev, const Scene &s, const Cache &gc_, const P &p, BlockID k) {
  Cache &gc = const_cast<Cache &>(gc_);
  std::vector<NodeID> vs(s.g.n());
  std::iota(vs.begin(), vs.end(), 0);
  std::shuffle(vs.begin(), vs.end(), rng);
  if (vs.size() > 25) vs.resize(25);
  std::vector<std::vector<long long>> conn, gain, it, two;
  std::vector<int> border;
  for (const NodeID u : vs) {
    const BlockID b = p.block(u);
    conn.emplace_back(), gain.emplace_back(), it.emplace_back(), two.emplace_back();
    for (BlockID c = 0; c < k; ++c) {
      conn.back().push_back(gc.conn(u, c));
      gain.back().push_back(c == b ? 0 : gc.gain(u, b, c));
    }
    gc.gains(u, b, [&](const BlockID to, auto &&compute) { it.back().push_back(to), it.back().push_back(compute()); });
    if (k > 2) {
      BlockID c1 = (b + 1 + rng() % (k - 1)) % k, c2 = (b + 1 + rng() % (k - 1)) % k;
      if (c1 != c2) {
        auto [x, y] = gc.gain(u, b, std::make_pair(c1, c2));
        two.back() = {c1, x, c2, y};
      }
    }
    if constexpr (requires { gc.is_border_node(u, b); }) border.push_back(gc.is_border_node(u, b));
  }
  std::vector<long long> bw;
  for (BlockID b = 0; b < k; ++b) bw.push_back(p.block_weight(b));
  Rec().str("ev", ev).arr("vs", vs).arr2("conn", conn).arr2("gain", gain).arr2("it", it).arr2("two", two).arr("border", border).arr("bw", bw).emit();
}

template <typename G, typename Cache> static void drive(const char *name, int count, const std::string &size, bool nonadj) {
  constexpr bool comp = std::is_same_v<G, CompressedGraph>;
  Context ctx = create_default_context();
  const int maxk = vp::rnd(rng, 2, size == "small" ? 9 : 70);
  ctx.partition.k = maxk;
  Cache gc(ctx, vp::rnd(rng, 0, 30), maxk); // reused for several graphs
  for (int i = 0; i < count; ++i) {
    Threads t(1 + rng() % 8);
    Scene s = scene(size, comp);
    const NodeID n = s.graph.n();
    const BlockID k = vp::coin(rng, 1, 3) ? maxk : vp::rnd(rng, 1, maxk);
    StaticArray<BlockID> part(n);
    for (auto &b : part) b = rng() % k;
    Rec g;
    g.str("ev", "graph").raw("g", vp::json(s.g)).arr("x", s.g.x).emit();
    Rec().str("ev", "init").str("cache", name).num("k", k).arr("p", part).boolean("nonadj", nonadj).boolean("exact", Cache::kIteratesExactGains).emit();
    PartitionedGraph p(s.graph, k, std::move(part));
    auto run = [&](const G &gg) {
      gc.initialize(gg, p);
      dump("dump", s, gc, p, k);
      for (int round = 0; round < 2; ++round) {
        { // moves only one searcher sees
          DeltaPartitionedGraph d(&p);
          typename Cache::DeltaGainCache dgc(gc, d);
          for (int q = vp::rnd(rng, 1, 2); q > 0; --q) {
            std::vector<std::vector<long long>> mv;
            for (int j = vp::rnd(rng, 1, 12); j > 0; --j) {
              const NodeID u = rng() % n;
              const BlockID from = d.block(u), to = rng() % k;
              if (from == to) continue;
              d.set_block(u, to);
              dgc.move(u, from, to);
              mv.push_back({u, from, to});
            }
            Rec().str("ev", "dmoves").arr2("mv", mv).emit();
            dump("ddump", s, dgc, d, k);
            if (vp::coin(rng, 1, 2)) {
              d.clear(), dgc.clear();
              Rec().str("ev", "dclear").emit();
            }
          }
          dump("dump", s, gc, p, k); // the shared cache is unchanged
          Rec().str("ev", "dclear").emit();
        }
        // moves everybody sees, by several threads
        std::vector<NodeID> vs(n);
        std::iota(vs.begin(), vs.end(), 0);
        std::shuffle(vs.begin(), vs.end(), rng);
        vs.resize(vp::rnd(rng, 1, n));
        std::vector<std::vector<long long>> mv;
        for (auto u : vs) {
          const BlockID to = rng() % k;
          if (to != p.block(u)) mv.push_back({u, p.block(u), to});
        }
        tbb::parallel_for<std::size_t>(0, mv.size(), [&](const std::size_t j) {
          p.set_block(mv[j][0], mv[j][2]);
          gc.move(mv[j][0], mv[j][1], mv[j][2]);
        });
        Rec().str("ev", "moves").arr2("mv", mv).emit();
        dump("dump", s, gc, p, k);
      }
    };
    if constexpr (std::is_same_v<G, Graph>) {
      run(s.graph);
    } else if constexpr (comp) {
      run(s.graph.compressed_graph());
    } else {
      run(s.graph.csr_graph());
    }
    if (vp::coin(rng, 1, 6)) gc.free();
  }
}

int main(int argc, char **argv) {
  rng.seed(std::stoull(argv[1]));
  const int count = std::stoi(argv[2]);
  const std::string size = argv[3];
  vp::guard_wall(300);
  using C = CSRGraph;
  using Z = CompressedGraph;
  drive<C, NormalSparseGainCache<C>>("sparse", count, size, true);
  drive<Graph, NormalSparseGainCache<Graph>>("sparse/any", count, size, true);
  drive<Z, NormalSparseGainCache<Z>>("sparse/compressed", count, size, true);
  drive<C, LargeKSparseGainCache<C>>("sparse/large k", count, size, false);
  drive<C, SparseGainCache<C, GenericDeltaGainCache, true, true>>("sparse/exact", count, size, true);
  drive<C, SparseGainCache<C, LargeKGenericDeltaGainCache, false, true>>("sparse/large k/exact", count, size, false);
  drive<C, NormalDenseGainCache<C>>("dense", count, size, true);
  drive<C, LargeKDenseGainCache<C>>("dense/large k", count, size, false);
  drive<C, NormalHashingGainCache<C>>("hashing", count, size, true);
  drive<C, LargeKHashingGainCache<C>>("hashing/large k", count, size, false);
  drive<C, NormalCompactHashingGainCache<C>>("compact", count, size, true);
  drive<Z, NormalCompactHashingGainCache<Z>>("compact/compressed", count, size, true);
  drive<C, LargeKCompactHashingGainCache<C>>("compact/large k", count, size, false);
  drive<C, CompactHashingGainCache<C, GenericDeltaGainCache, true, true>>("compact/exact", count, size, true);
  drive<C, NormalOnTheFlyGainCache<C>>("on the fly", count, size, true);
}
