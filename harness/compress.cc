// Compressed graphs: what every access path of a compressed graph returns.
// usage: compress SEED COUNT small|star|mixed
#include "vp.h"

#include <atomic>
#include <mutex>
#include <thread>

#include <tbb/global_control.h>

#include "kaminpar-shm/datastructures/compressed_graph.h"
#include "kaminpar-shm/datastructures/csr_graph.h"
#include "kaminpar-shm/datastructures/graph.h"
#include "kaminpar-shm/graphutils/compressed_graph_builder.h"
#include "kaminpar-shm/graphutils/parallel_compressed_graph_builder.h"

#include "kaminpar-common/datastructures/concurrent_circular_vector.h"

using namespace kaminpar;
using namespace kaminpar::shm;
using vp::Rec;

static vp::Rng rng;

static CSRGraph csr(const vp::G &g) {
  StaticArray<EdgeID> x(g.x.size());
  StaticArray<NodeID> a(g.a.size());
  for (std::size_t i = 0; i < g.x.size(); ++i) x[i] = g.x[i];
  for (std::size_t i = 0; i < g.a.size(); ++i) a[i] = g.a[i];
  StaticArray<NodeWeight> vw(g.vw.size());
  StaticArray<EdgeWeight> ew(g.ew.size());
  for (std::size_t i = 0; i < g.vw.size(); ++i) vw[i] = g.vw[i];
  for (std::size_t i = 0; i < g.ew.size(); ++i) ew[i] = g.ew[i];
  return CSRGraph(std::move(x), std::move(a), std::move(vw), std::move(ew));
}

static void put_graph(const vp::G &g) {
  std::vector<long long> w, vw;
  for (std::size_t e = 0; e < g.a.size(); ++e) w.push_back(g.e(e));
  for (std::uint32_t u = 0; u < g.n(); ++u) vw.push_back(g.w(u));
  Rec().str("ev", "graph").num("n", g.n()).arr("x", g.x).arr("t", g.a).arr("w", w).arr("vw", vw)
      .boolean("nodew", !g.vw.empty()).boolean("edgew", !g.ew.empty()).emit();
}

// one flat list v, w, v, w, ... per vertex
using Adj = std::vector<std::vector<long long>>;

static void view(const CompressedGraph &g, const char *how) {
  Rec r;
  r.str("ev", "view").str("how", how).num("n", g.n()).num("m", g.m());
  r.boolean("nodew", g.is_node_weighted()).boolean("edgew", g.is_edge_weighted());
  r.num("tnw", g.total_node_weight()).num("tew", g.total_edge_weight()).num("maxdeg", g.max_degree());
  std::vector<long long> deg, vw;
  for (const NodeID u : g.nodes()) {
    deg.push_back(g.degree(u));
    vw.push_back(g.node_weight(u));
  }
  r.num("maxvw", g.max_node_weight()).arr("deg", deg).arr("vw", vw).emit();
}

static void adjacency(const CompressedGraph &g) {
  { // plain iteration
    Adj adj(g.n());
    for (const NodeID u : g.nodes())
      g.adjacent_nodes(u, [&](const NodeID v, const EdgeWeight w) { adj[u].push_back(v), adj[u].push_back(w); });
    Rec().str("ev", "adj").arr2("adj", adj).emit();
  }
  { // without edge weights
    Adj adj(g.n());
    for (const NodeID u : g.nodes()) g.adjacent_nodes(u, [&](const NodeID v) { adj[u].push_back(v); });
    Rec().str("ev", "tgt").arr2("adj", adj).emit();
  }
  { // parallel iteration, both callback styles
    Adj adj(g.n());
    const bool nested = vp::coin(rng, 1, 2);
    for (const NodeID u : g.nodes()) {
      std::mutex mx;
      auto put = [&](const NodeID v, const EdgeWeight w) {
        std::lock_guard<std::mutex> lk(mx);
        adj[u].push_back(v);
        adj[u].push_back(w);
      };
      if (nested) {
        g.pfor_adjacent_nodes(u, std::numeric_limits<NodeID>::max(), 1, [&](auto &&local) {
          local([&](const NodeID v, const EdgeWeight w) { put(v, w); });
        });
      } else {
        g.pfor_adjacent_nodes(u, std::numeric_limits<NodeID>::max(), 1,
                              [&](const NodeID v, const EdgeWeight w) { put(v, w); });
      }
    }
    Rec().str("ev", "padj").arr2("adj", adj).emit();
  }
  { // limited / stopped iteration: the first `lim` of the plain iteration
    Adj lim(g.n()), stop(g.n()), both(g.n());
    std::vector<NodeID> ls(g.n()), ss(g.n()), bs(g.n());
    for (const NodeID u : g.nodes()) {
      const NodeID d = g.degree(u);
      ls[u] = vp::rnd(rng, 1, d + 2);
      ss[u] = vp::rnd(rng, 1, d + 2);
      bs[u] = vp::rnd(rng, 1, d + 2);
      g.adjacent_nodes(u, ls[u], [&](const NodeID v, const EdgeWeight w) { lim[u].push_back(v), lim[u].push_back(w); });
      NodeID cnt = 0;
      g.adjacent_nodes(u, [&](const NodeID v, const EdgeWeight w) {
        stop[u].push_back(v), stop[u].push_back(w);
        return ++cnt >= ss[u];
      });
      cnt = 0;
      const NodeID s2 = vp::rnd(rng, 1, d + 2);
      g.adjacent_nodes(u, bs[u], [&](const NodeID v, const EdgeWeight w) {
        both[u].push_back(v), both[u].push_back(w);
        return ++cnt >= s2;
      });
      bs[u] = std::min(bs[u], s2);
    }
    Rec().str("ev", "lim").arr("lim", ls).arr2("adj", lim).emit();
    Rec().str("ev", "lim").arr("lim", ss).arr2("adj", stop).emit();
    Rec().str("ev", "lim").arr("lim", bs).arr2("adj", both).emit();
  }
}

static void isolated(CompressedGraph &g, NodeID iso) {
  // hides trailing isolated vertices and brings them back
  const NodeID take = vp::rnd(rng, 0, iso);
  g.remove_isolated_nodes(take);
  Rec().str("ev", "cut").num("take", take).emit();
  view(g, "cut");
  adjacency(g);
  const NodeID back = g.integrate_isolated_nodes();
  Rec().str("ev", "uncut").num("back", back).emit();
  view(g, "uncut");
}

static vp::G make(const std::string &size) {
  if (size == "star") {
    // vertices with split neighborhoods (degree >= 10000): runs, gaps, weights
    vp::G g;
    const int d = vp::pick(rng, std::vector<int>{9999, 10000, 10001, 10998, 11000, 11001, 12345});
    const int kind = rng() % 4;
    const bool ew = vp::coin(rng, 1, 2);
    std::set<int> nb;
    const int n = kind == 0 ? d + 1 : d + 1 + vp::rnd(rng, 1, 3000);
    const int hub = vp::rnd(rng, 0, n - 1);
    if (kind == 3) { // only pairs: no intervals
      const int nn = 3 * d / 2 + 4;
      for (int v = 0; (int)nb.size() < d && v < nn; ++v)
        if (v % 3 != 2 && v != hub) nb.insert(v);
    }
    while ((int)nb.size() < d) {
      int v = kind == 1 ? (int)vp::rnd(rng, 0, n - 1) : -1;
      if (v < 0) {
        v = nb.empty() ? 0 : (*nb.rbegin() + 1) % n;
        if (kind == 2 && vp::coin(rng, 1, 200)) v = (v + 1) % n;
        if (kind == 0 || kind == 2 || kind == 3) {
          while (nb.count(v) || v == hub) v = (v + 1) % n;
        }
      }
      if (v != hub) nb.insert(v);
    }
    const int nn = std::max(n, *nb.rbegin() + 1);
    for (int u = 0; u < nn; ++u) {
      if (u == hub) {
        for (int v : nb) g.a.push_back(v);
      } else if (nb.count(u)) {
        g.a.push_back(hub);
      }
      g.x.push_back(g.a.size());
    }
    if (ew) {
      std::map<int, int> w;
      for (int v : nb) w[v] = vp::coin(rng, 1, 10) ? vp::rnd(rng, 1, 1000000) : vp::rnd(rng, 1, 9);
      g.ew.resize(g.a.size());
      for (int u = 0; u < nn; ++u)
        for (auto e = g.x[u]; e < g.x[u + 1]; ++e) g.ew[e] = w[u == hub ? g.a[e] : u];
    }
    return g;
  }
  const int n = size == "small" ? vp::rnd(rng, 0, 12) : vp::rnd(rng, 1, 300);
  auto E = vp::random_edges(rng, n);
  if (vp::coin(rng, 1, 3)) { // runs of consecutive neighbors with holes
    E.clear();
    for (int u = 0; u < n; ++u) {
      int v = rng() % n;
      while (v < n) {
        const int run = vp::rnd(rng, 1, 6);
        for (int i = 0; i < run && v + i < n; ++i)
          if (v + i != u) E.insert({std::min(u, v + i), std::max(u, v + i)});
        v += run + vp::rnd(rng, 1, n / 3 + 2);
      }
    }
  }
  const int maxw = vp::pick(rng, std::vector<int>{1, 2, 20, 300, 100000, 10000000});
  return vp::from_edges(n, E, rng, vp::coin(rng, 1, 3), vp::coin(rng, 1, 2), 50, E.size() < 40 ? maxw : std::min(maxw, 100000));
}

// the circular vector orders concurrently finished chunks
template <typename V> static void tickets(const char *name) {
  const int T = vp::rnd(rng, 1, 8), K = vp::rnd(rng, 1, 60);
  V buffer(T);
  std::vector<long long> delta(K), got(K, -1);
  for (auto &d : delta) d = vp::rnd(rng, 0, 1000);
  std::atomic<int> left(K);
  std::vector<std::thread> ts;
  std::vector<unsigned> seeds(T);
  for (auto &s : seeds) s = rng();
  for (int t = 0; t < T; ++t)
    ts.emplace_back([&, t] {
      unsigned s = seeds[t];
      while (left.fetch_sub(1) > 0) {
        const unsigned e = buffer.next();
        s = s * 1103515245 + 12345;
        for (volatile unsigned i = 0; i < (s >> 16) % 2000; ++i) {}
        if ((s >> 8) % 16 == 0) std::this_thread::yield();
        got[e] = buffer.fetch_and_update(e, delta[e]);
      }
    });
  for (auto &t : ts) t.join();
  Rec().str("ev", "tickets").str("impl", name).num("threads", T).arr("delta", delta).arr("got", got).emit();
}

int main(int argc, char **argv) {
  rng.seed(std::stoull(argv[1]));
  const int count = std::stoi(argv[2]);
  const std::string size = argv[3];
  vp::guard_wall(200);
  if (size == "tickets") {
    for (int i = 0; i < count; ++i) {
      if (i % 2) tickets<ConcurrentCircularVectorMutex<NodeID, EdgeID>>("mutex");
      else tickets<ConcurrentCircularVectorSpinlock<NodeID, EdgeID>>("spin");
    }
    return 0;
  }
  for (int i = 0; i < count; ++i) {
    tbb::global_control gc(tbb::global_control::max_allowed_parallelism, 1 + rng() % 8);
    vp::G g = make(size);
    const CSRGraph c = csr(g);
    put_graph(g);
    NodeID iso = 0;
    while (iso < c.n() && c.degree(c.n() - 1 - iso) == 0) ++iso;
    for (int how = 0; how < 3; ++how) {
      if (size == "star" && how != i % 3) continue;
      CompressedGraph cg = [&] {
        if (how == 0) return CompressedGraphBuilder::compress(c);
        if (how == 1) return parallel_compress(c);
        // a different order of vertices (as the reader of ParHIP files does)
        std::vector<NodeID> perm(c.n()), inv(c.n());
        std::iota(perm.begin(), perm.end(), 0);
        std::shuffle(perm.begin(), perm.end(), rng);
        for (NodeID u = 0; u < c.n(); ++u) inv[perm[u]] = u;
        vp::G h;
        for (NodeID i = 0; i < c.n(); ++i) {
          const NodeID u = perm[i];
          for (auto e = g.x[u]; e < g.x[u + 1]; ++e) {
            h.a.push_back(inv[g.a[e]]);
            if (!g.ew.empty()) h.ew.push_back(g.ew[e]);
          }
          h.x.push_back(h.a.size());
          if (!g.vw.empty()) h.vw.push_back(g.vw[u]);
        }
        put_graph(h);
        iso = 0;
        while (iso < h.n() && h.x[h.n() - 1 - iso] == h.x[h.n() - iso]) ++iso;
        return parallel_compress(
            c.n(), c.m(), c.is_node_weighted(), c.is_edge_weighted(), false,
            [&](const NodeID u) { return perm[u]; }, [&](const NodeID u) { return c.degree(u); },
            [&](const NodeID u) { return c.raw_nodes()[u]; }, [&](const EdgeID e) { return inv[c.edge_target(e)]; },
            [&](const NodeID u) { return c.node_weight(u); }, [&](const EdgeID e) { return c.edge_weight(e); });
      }();
      const char *names[] = {"seq", "par", "map"};
      view(cg, names[how]);
      adjacency(cg);
      if (iso && vp::coin(rng, 2, 3)) isolated(cg, iso);
    }
  }
}
