// Helpers of the harnesses for shared-memory internals.
#pragma once
#include "vp.h"

#include <tbb/global_control.h>
#include <tbb/task_arena.h>

#include "kaminpar-shm/datastructures/compressed_graph.h"
#include "kaminpar-shm/datastructures/csr_graph.h"
#include "kaminpar-shm/datastructures/graph.h"
#include "kaminpar-shm/datastructures/partitioned_graph.h"
#include "kaminpar-shm/graphutils/compressed_graph_builder.h"
#include "kaminpar-shm/kaminpar.h"

#include "kaminpar-common/random.h"

namespace vs {
using namespace kaminpar;
using namespace kaminpar::shm;

inline std::unique_ptr<CSRGraph> csr(const vp::G &g, bool sorted = false) {
  StaticArray<EdgeID> x(g.x.size());
  StaticArray<NodeID> a(g.a.size());
  for (std::size_t i = 0; i < g.x.size(); ++i) x[i] = g.x[i];
  for (std::size_t i = 0; i < g.a.size(); ++i) a[i] = g.a[i];
  StaticArray<NodeWeight> vw(g.vw.size());
  StaticArray<EdgeWeight> ew(g.ew.size());
  for (std::size_t i = 0; i < g.vw.size(); ++i) vw[i] = g.vw[i];
  for (std::size_t i = 0; i < g.ew.size(); ++i) ew[i] = g.ew[i];
  return std::make_unique<CSRGraph>(std::move(x), std::move(a), std::move(vw), std::move(ew), sorted);
}
inline Graph make_graph(const vp::G &g, bool sorted = false) { return Graph(csr(g, sorted)); }
inline Graph compressed(const vp::G &g) {
  return Graph(std::make_unique<CompressedGraph>(CompressedGraphBuilder::compress(*csr(g))));
}

// json object [n, s, t, vw, ew] of any graph
inline std::string json(const Graph &g) {
  std::vector<long long> s, t, ew, vw;
  g.reified([&](const auto &gg) {
    for (const NodeID u : gg.nodes()) {
      vw.push_back(gg.node_weight(u));
      gg.adjacent_nodes(u, [&](const NodeID v, const EdgeWeight w) {
        s.push_back(u), t.push_back(v), ew.push_back(w);
      });
    }
  });
  vp::Rec r;
  r.num("n", g.n()).arr("s", s).arr("t", t).arr("vw", vw).arr("ew", ew);
  return r.done();
}
// the same with neighborhoods sorted by target
inline vp::G plain(const Graph &g) {
  vp::G r;
  g.reified([&](const auto &gg) {
    for (const NodeID u : gg.nodes()) {
      r.vw.push_back(gg.node_weight(u));
      std::vector<std::pair<NodeID, EdgeWeight>> adj;
      gg.adjacent_nodes(u, [&](const NodeID v, const EdgeWeight w) { adj.push_back({v, w}); });
      std::sort(adj.begin(), adj.end());
      for (auto [v, w] : adj) r.a.push_back(v), r.ew.push_back(w);
      r.x.push_back(r.a.size());
    }
  });
  return r;
}
// edges of g (1-based positions) ordered by the images of their ends: a witness that lets the
// specification compare edge sets in linear time
template <typename C> std::vector<long long> image_order(const vp::G &g, const C &map) {
  std::vector<long long> src, ord;
  for (NodeID u = 0; u < g.n(); ++u)
    for (auto e = g.x[u]; e < g.x[u + 1]; ++e) src.push_back(u), ord.push_back(e + 1);
  auto key = [&](long long i) { return std::make_pair((long long)map[src[i - 1]], (long long)map[g.a[i - 1]]); };
  std::stable_sort(ord.begin(), ord.end(), [&](long long i, long long j) { return key(i) < key(j); });
  return ord;
}
template <typename C> std::vector<long long> vec(const C &c) {
  std::vector<long long> v;
  for (const auto &x : c) v.push_back((long long)x);
  return v;
}
struct Threads {
  tbb::global_control gc;
  explicit Threads(int n) : gc(tbb::global_control::max_allowed_parallelism, n) {}
};
} // namespace vs
