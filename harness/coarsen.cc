// Rearranging graphs, clustering, contraction, projection.
// usage: coarsen SEED COUNT reorder|contract|cluster|hierarchy small|mid|star|dense
#include "shm_common.h"

#include "kaminpar-shm/coarsening/cluster_coarsener.h"
#include "kaminpar-shm/coarsening/clustering/lp_clusterer.h"
#include "kaminpar-shm/coarsening/contraction/cluster_contraction.h"
#include "kaminpar-shm/graphutils/permutator.h"
#include "kaminpar-shm/metrics.h"
#include "kaminpar-shm/presets.h"

using namespace vs;
using vp::Rec;
static vp::Rng rng;
static int threads = 1;
#ifndef COMMUNITIES
#define COMMUNITIES true
#endif

static vp::G make(const std::string &size) {
  if (size == "star") {
    std::set<std::pair<int, int>> E;
    const int n = vp::rnd(rng, 11200, 12500), hub = vp::rnd(rng, 0, n - 1);
    for (int v = 0; v < n; ++v)
      if (v != hub) E.insert({std::min(v, hub), std::max(v, hub)});
    for (int i = 0; i < 300; ++i) {
      int a = rng() % n, b = rng() % n;
      if (a != b) E.insert({std::min(a, b), std::max(a, b)});
    }
    return vp::from_edges(n, E, rng, vp::coin(rng, 1, 3), vp::coin(rng, 1, 2));
  }
  if (size == "hubs") { // several vertices with more neighbors than the first phase of contraction handles (21845)
    std::set<std::pair<int, int>> E;
    const int n = vp::rnd(rng, 22500, 23500), hubs = vp::rnd(rng, 2, 3);
    for (int h = 0; h < hubs; ++h) {
      const int hub = h * (n / 3) + vp::rnd(rng, 0, n / 3 - 1);
      for (int v = 0; v < n; ++v)
        if (v != hub) E.insert({std::min(v, hub), std::max(v, hub)});
    }
    return vp::from_edges(n, E, rng, vp::coin(rng, 1, 2), vp::coin(rng, 1, 2));
  }
  if (size == "dense") { // more than 100000 directed edges: buffered contraction in several chunks
    std::set<std::pair<int, int>> E;
    const int n = vp::rnd(rng, 1000, 1500);
    while (E.size() < 51000) {
      int a = rng() % n, b = rng() % n;
      if (a != b) E.insert({std::min(a, b), std::max(a, b)});
    }
    return vp::from_edges(n, E, rng, vp::coin(rng, 1, 2), vp::coin(rng, 1, 2));
  }
  const int n = size == "small" ? vp::rnd(rng, 0, 24) : vp::rnd(rng, 20, 400);
  return vp::random_graph(rng, n, -1, 40, 40);
}

static void put_graph(const vp::G &g) { Rec().str("ev", "graph").raw("g", vp::json(g)).emit(); }

// ---------------------------------------------------------------------- C06
static void reorder(const std::string &size) {
  vp::G g = make(size);
  put_graph(g);
  auto c = csr(g);
  if (size == "hub" || vp::coin(rng, 1, 3)) { // (vertices of high degree: their neighborhood is ordered in parts)
    graph::reorder_edges_by_compression(*c);
    Graph gg(std::move(c));
    std::vector<int> id(g.n());
    std::iota(id.begin(), id.end(), 0);
    Graph cg = compressed(g);
    std::vector<long long> seen, cseen;
    for (const NodeID u : gg.csr_graph().nodes()) {
      gg.adjacent_nodes(u, [&](const NodeID v, const EdgeWeight w) { seen.push_back(v), seen.push_back(w); });
      cg.adjacent_nodes(u, [&](const NodeID v, const EdgeWeight w) { cseen.push_back(v), cseen.push_back(w); });
    }
    Rec().str("ev", "edges").arr("map", id).arr("ord", image_order(g, id)).arr("seen", seen).arr("cseen", cseen).raw("g", vp::json(plain(gg))).num("m", gg.m()).num("tnw", gg.total_node_weight()).num("tew", gg.total_edge_weight()).emit();
    return;
  }
  if (vp::coin(rng, 1, 4)) { // any bucketing, and the permuted copy of a graph
    const int nb = vp::rnd(rng, 1, 6);
    std::vector<NodeID> bucket(g.n());
    for (auto &b : bucket) b = rng() % nb;
    auto perm = graph::compute_node_permutation_by_generic_buckets<NodeID>(g.n(), nb, [&](const NodeID u) { return bucket[u]; });
    StaticArray<EdgeID> nx(c->raw_nodes().size());
    StaticArray<NodeID> na(c->raw_edges().size());
    StaticArray<NodeWeight> nvw(c->raw_node_weights().size());
    StaticArray<EdgeWeight> newt(c->raw_edge_weights().size());
    graph::build_permuted_graph(c->raw_nodes(), c->raw_edges(), c->raw_node_weights(), c->raw_edge_weights(), perm, nx, na, nvw, newt);
    Graph gg(std::make_unique<CSRGraph>(std::move(nx), std::move(na), std::move(nvw), std::move(newt)));
    Rec().str("ev", "buckets").arr("map", perm.old_to_new).arr("ord", image_order(g, perm.old_to_new)).raw("g", vp::json(plain(gg))).arr("bucket", bucket).arr("o2n", perm.old_to_new).arr("n2o", perm.new_to_old).emit();
    return;
  }
  Graph s = graph::rearrange_by_degree_buckets(*c);
  std::vector<long long> map, bsize, bfirst, binv;
  for (NodeID u = 0; u < g.n(); ++u) map.push_back(s.map_original_node(u));
  auto buckets = [&](const Graph &q) {
    bsize.clear(), bfirst.clear(), binv.clear();
    for (std::size_t b = 0; b < q.number_of_buckets(); ++b) {
      bsize.push_back(q.bucket_size(b));
      bfirst.push_back(q.first_node_in_bucket(b));
      binv.push_back(q.first_invalid_node_in_bucket(b));
    }
  };
  buckets(s);
  Rec().str("ev", "degree").raw("g", vp::json(plain(s))).arr("map", map).arr("ord", image_order(g, map)).boolean("sorted", s.sorted()).boolean("permuted", s.permuted())
      .arr("bsize", bsize).arr("bfirst", bfirst).arr("binv", binv).num("maxdeg", s.max_degree()).emit();
  // cut off isolated vertices, partition the rest, bring them back
  const NodeID iso = graph::count_isolated_nodes(s);
  const long long fulln = s.n();
  s.remove_isolated_nodes(iso);
  buckets(s);
  Rec().str("ev", "cut").num("iso", iso).raw("g", vp::json(plain(s))).num("maxdeg", s.max_degree()).num("m", s.m()).num("tnw", s.total_node_weight()).num("tew", s.total_edge_weight())
      .arr("bsize", bsize).arr("bfirst", bfirst).arr("binv", binv).emit();
  const int k = vp::rnd(rng, 1, 5);
  StaticArray<BlockID> part(s.n());
  for (auto &b : part) b = rng() % k;
  const std::vector<long long> core = vec(part);
  PartitionedGraph p(s, k, std::move(part));
  const NodeID back = s.integrate_isolated_nodes();
  std::vector<BlockWeight> maxw(k);
  long long total = 0;
  for (NodeID u = 0; u < g.n(); ++u) total += g.w(u);
  for (auto &w : maxw) w = vp::rnd(rng, 0, 2 * total / k + 2);
  Context ctx = create_default_context();
  ctx.partition.setup(s, maxw);
  PartitionedGraph q = graph::assign_isolated_nodes(std::move(p), back, ctx.partition);
  buckets(s);
  std::vector<long long> full, bw, lim;
  for (NodeID u = 0; u < q.n(); ++u) full.push_back(q.block(u));
  for (BlockID b = 0; b < q.k(); ++b) bw.push_back(q.block_weight(b)), lim.push_back(ctx.partition.max_block_weight(b));
  Rec().str("ev", "uncut").num("n", s.n()).num("was", fulln).num("back", back).num("tnw", s.total_node_weight()).arr("core", core).arr("full", full)
      .num("k", k).arr("bw", bw).arr("lim", lim).arr("bsize", bsize).arr("bfirst", bfirst).arr("binv", binv).emit();
}

// ---------------------------------------------------------------------- C07
static const ContractionAlgorithm kAlgs[] = {ContractionAlgorithm::BUFFERED, ContractionAlgorithm::BUFFERED_LEGACY,
                                             ContractionAlgorithm::UNBUFFERED, ContractionAlgorithm::UNBUFFERED_NAIVE};
static const ContractionImplementation kImpls[] = {ContractionImplementation::SINGLE_PHASE, ContractionImplementation::TWO_PHASE,
                                                   ContractionImplementation::GROWING_HASH_TABLES};

static void dump_coarse(CoarseGraph &c, NodeID fine_n, const vp::G &g, const char *ev, const std::vector<long long> &clustering, const std::string &what) {
  std::vector<BlockID> id(c.get().n()), map(fine_n);
  std::iota(id.begin(), id.end(), 0);
  c.project_up(id, map);
  Rec().str("ev", ev).str("what", what).arr("cl", clustering).raw("g", vp::json(plain(c.get()))).arr("map", map).arr("ord", image_order(g, map)).num("maxdeg", c.get().max_degree()).num("m", c.get().m())
      .num("tnw", c.get().total_node_weight()).num("tew", c.get().total_edge_weight()).num("maxvw", c.get().max_node_weight()).emit();
}

static void contract(const std::string &size, contraction::MemoryContext &mem) {
  vp::G g = make(size);
  if (g.n() == 0) g.x = {0, 0}, g.vw.clear();
  put_graph(g);
  Graph gr = vp::coin(rng, 1, 4) ? compressed(g) : make_graph(g);
  const NodeID n = gr.n();
  for (int i = 0; i < (size == "star" || size == "dense" || size == "hubs" ? 1 : 3); ++i) {
    // labels need not be dense; cluster sizes vary from singletons to everything
    StaticArray<NodeID> cl(n);
    const int mode = rng() % 5;
    const int nc = mode == 0 ? 1 : mode == 1 ? (int)n : (int)vp::rnd(rng, 1, std::max<int>(1, std::min<int>(n, 150)));
    std::vector<NodeID> label(n);
    std::iota(label.begin(), label.end(), 0);
    std::shuffle(label.begin(), label.end(), rng);
    for (NodeID u = 0; u < n; ++u) cl[u] = label[mode == 1 ? u : rng() % nc];
    if (size == "star") { // keep most leaves apart
      for (NodeID u = 0; u < n; ++u) cl[u] = vp::coin(rng, 1, 40) ? rng() % n : u;
    }
    if (size == "hubs") { // some leaves join others, and hubs
      for (NodeID u = 0; u < n; ++u) cl[u] = vp::coin(rng, 1, 150) ? rng() % n : u;
    }
    if (size == "dense") { // clusters of about two vertices
      const int groups = vp::rnd(rng, (int)n / 3, (int)n);
      for (NodeID u = 0; u < n; ++u) cl[u] = label[rng() % groups];
    }
    const std::vector<long long> cls = vec(cl);
    ContractionCoarseningContext cc = create_default_context().coarsening.contraction;
    const int a = rng() % 4, im = rng() % 3;
    cc.algorithm = kAlgs[a];
    cc.unbuffered_implementation = kImpls[im];
    cc.edge_buffer_fill_fraction = vp::coin(rng, 1, 2) ? 1.0 : 0.05;
    if (size == "hubs") {
      cc.algorithm = vp::coin(rng, 1, 8) ? kAlgs[a] : ContractionAlgorithm::UNBUFFERED;
      cc.unbuffered_implementation = vp::coin(rng, 1, 8) ? kImpls[im] : ContractionImplementation::TWO_PHASE;
    }
    if (size == "dense") {
      if (vp::coin(rng, 1, 2)) cc.algorithm = ContractionAlgorithm::BUFFERED;
      cc.edge_buffer_fill_fraction = (double[]){0.02, 0.1, 0.3, 0.9}[rng() % 4];
    }
    std::unique_ptr<CoarseGraph> c = vp::coin(rng, 1, 3) ? contract_clustering(gr, std::move(cl), cc) : contract_clustering(gr, std::move(cl), cc, mem);
    dump_coarse(*c, n, g, "contract", cls, std::to_string(a) + "/" + std::to_string(im));
    // projections
    const NodeID cn = c->get().n();
    const int k = vp::rnd(rng, 1, 6);
    std::vector<BlockID> cp(cn), fp(n), down(cn);
    for (auto &b : cp) b = rng() % k;
    c->project_up(cp, fp);
    c->project_down(fp, down);
    StaticArray<BlockID> p1(cn), p2(n);
    std::copy(cp.begin(), cp.end(), p1.begin());
    std::copy(fp.begin(), fp.end(), p2.begin());
    PartitionedGraph cpg(c->get(), k, std::move(p1)), fpg(gr, k, std::move(p2));
    std::vector<long long> cb, fb;
    for (int b = 0; b < k; ++b) cb.push_back(cpg.block_weight(b)), fb.push_back(fpg.block_weight(b));
    Rec().str("ev", "project").arr("coarse", cp).arr("fine", fp).arr("down", down).num("k", k).num("ccut", metrics::edge_cut(cpg)).num("fcut", metrics::edge_cut(fpg))
        .arr("cbw", cb).arr("fbw", fb).emit();
  }
}

// ---------------------------------------------------------------------- C08
static LabelPropagationCoarseningContext lp_config(LabelPropagationCoarseningContext c, Rec &r) {
  c.num_iterations = vp::rnd(rng, 0, 5);
  c.large_degree_threshold = vp::coin(rng, 1, 3) ? vp::rnd(rng, 1, 20) : 1000000;
  c.max_num_neighbors = vp::coin(rng, 1, 3) ? vp::rnd(rng, 1, 10) : 200000;
  c.impl = vp::pick(rng, std::vector<LabelPropagationImplementation>{LabelPropagationImplementation::SINGLE_PHASE, LabelPropagationImplementation::TWO_PHASE, LabelPropagationImplementation::GROWING_HASH_TABLES});
  c.relabel_before_second_phase = vp::coin(rng, 1, 2);
  c.two_hop_strategy = (TwoHopStrategy)(rng() % 5);
  c.two_hop_threshold = vp::coin(rng, 1, 2) ? 0.0 : 0.5;
  c.isolated_nodes_strategy = (IsolatedNodesClusteringStrategy)(rng() % 5);
  c.tie_breaking_strategy = (TieBreakingStrategy)(rng() % 2);
  r.num("iters", c.num_iterations).num("impl", (int)c.impl).num("twohop", (int)c.two_hop_strategy).num("isol", (int)c.isolated_nodes_strategy)
      .boolean("relabel", c.relabel_before_second_phase);
  return c;
}

static void cluster(const std::string &size) {
  vp::G g = make(size);
  if (g.n() == 0) g.x = {0, 0}, g.vw.clear();
  put_graph(g);
  const bool comp = vp::coin(rng, 1, 4), sorted = !comp && vp::coin(rng, 1, 3);
  Graph gr = comp ? compressed(g) : make_graph(g);
  if (sorted) { // the usual situation: degree buckets
    auto c = csr(g);
    gr = graph::rearrange_by_degree_buckets(*c);
    Rec().str("ev", "graph").raw("g", json(gr)).emit();
  }
  const NodeID n = gr.n();
  for (int rep = 0; rep < (size == "star" ? 1 : 2); ++rep) {
    Context ctx = create_default_context();
    Rec r;
    r.str("ev", "cluster");
    ctx.coarsening.clustering.lp = lp_config(ctx.coarsening.clustering.lp, r);
    if (size == "star" && ctx.coarsening.clustering.lp.num_iterations == 0) ctx.coarsening.clustering.lp.num_iterations = 1;
    LPClustering lp(ctx.coarsening);
    const int calls = vp::rnd(rng, 1, 2); // the object is used again for other levels
    std::vector<NodeID> comm(n);
    for (int i = 0; i < calls; ++i) {
      Rec q = r;
      const long long total = gr.total_node_weight();
      const long long maxw = vp::pick(rng, std::vector<long long>{1, 2, 3, 5, 10, std::max(1ll, total / 3), total, 2 * total, 0});
      lp.set_max_cluster_weight(maxw);
      const bool dc = vp::coin(rng, 1, 2);
      lp.set_desired_cluster_count(dc ? vp::rnd(rng, 0, n) : 0);
      const bool communities = COMMUNITIES && vp::coin(rng, 1, 3);
      if (communities) {
        const int nc = vp::rnd(rng, 1, 5);
        for (auto &c : comm) c = rng() % nc;
        lp.set_communities(comm);
      } else {
        lp.set_communities({});
      }
      StaticArray<NodeID> cl(n);
      lp.compute_clustering(cl, gr, vp::coin(rng, 1, 2));
      q.num("threads", threads).num("maxw", maxw).arr("cl", cl).arr("comm", communities ? vec(comm) : std::vector<long long>{}).emit();
    }
  }
}

// ---------------------------------------------------------------------- multilevel
static void hierarchy(const std::string &size) {
  vp::G g = make(size);
  if (g.n() == 0) g.x = {0, 0}, g.vw.clear();
  put_graph(g);
  Graph gr = vp::coin(rng, 1, 4) ? compressed(g) : make_graph(g);
  auto names = get_preset_names();
  std::vector<std::string> ok;
  for (const auto &s : names) {
    Context c = create_context_by_preset_name(s);
    if (c.coarsening.algorithm == CoarseningAlgorithm::CLUSTERING) ok.push_back(s);
  }
  Context ctx = create_context_by_preset_name(vp::pick(rng, ok));
  ctx.parallel.num_threads = 4;
  Rec dummy;
  if (vp::coin(rng, 1, 2)) ctx.coarsening.clustering.lp = lp_config(ctx.coarsening.clustering.lp, dummy);
  ctx.coarsening.contraction_limit = vp::rnd(rng, 1, 20);
  ctx.coarsening.contraction.algorithm = kAlgs[rng() % 4];
  ctx.coarsening.contraction.unbuffered_implementation = kImpls[rng() % 3];
  const int k = vp::rnd(rng, 2, 6);
  ctx.partition.setup(gr, k, vp::pick(rng, std::vector<double>{0.0001, 0.03, 0.5, 3.0}));
  ClusteringCoarsener co(ctx, ctx.partition);
  co.initialize(&gr);
  std::vector<NodeID> comm(gr.n());
  const bool communities = COMMUNITIES && vp::coin(rng, 1, 3);
  if (communities) {
    for (auto &c : comm) c = rng() % 3;
    co.use_communities(comm);
  }
  const bool ids = vp::coin(rng, 1, 2);
  std::vector<vp::G> levels{g};
  Rec().str("ev", "input").boolean("ids", ids).arr("comm", communities ? vec(comm) : std::vector<long long>{}).emit();
  for (int l = 0; l < 6; ++l) {
    const bool more = co.coarsen();
    Rec().str("ev", "level").num("level", co.level()).raw("g", vp::json(plain(co.current()))).num("m", co.current().m())
        .num("tnw", co.current().total_node_weight()).num("tew", co.current().total_edge_weight())
        .arr("comm", communities ? vec(co.current_communities()) : std::vector<long long>{}).emit();
    if (co.level() >= levels.size()) levels.push_back(plain(co.current()));
    if (!more) break;
  }
  if (ids) { // every vertex of a level its own block: what comes back is the contraction's mapping
    while (true) {
      const NodeID cn = co.current().n();
      StaticArray<BlockID> id(cn);
      std::iota(id.begin(), id.end(), 0);
      PartitionedGraph p(co.current(), std::max<NodeID>(1, cn), std::move(id));
      if (co.empty()) break;
      p = co.uncoarsen(std::move(p));
      std::vector<long long> map;
      for (NodeID u = 0; u < p.n(); ++u) map.push_back(p.block(u));
      Rec().str("ev", "map").num("level", co.level()).arr("map", map).arr("ord", image_order(levels[co.level()], map)).emit();
    }
    return;
  }
  StaticArray<BlockID> part(co.current().n());
  for (auto &b : part) b = rng() % k;
  PartitionedGraph p(co.current(), k, std::move(part));
  auto show = [&](const char *ev) {
    std::vector<long long> q, bw;
    for (NodeID u = 0; u < p.n(); ++u) q.push_back(p.block(u));
    for (BlockID b = 0; b < p.k(); ++b) bw.push_back(p.block_weight(b));
    Rec().str("ev", ev).num("level", co.level()).num("n", co.current().n()).num("k", k).arr("part", q).arr("bw", bw).num("cut", metrics::edge_cut(p)).emit();
  };
  show("coarsest");
  while (!co.empty()) {
    p = co.uncoarsen(std::move(p));
    show("uncoarsen");
    // a refiner may move vertices
    if (vp::coin(rng, 1, 2) && p.n() > 0) {
      for (int i = 0; i < 3; ++i) p.set_block(rng() % p.n(), rng() % k);
      show("refined");
    }
  }
}

int main(int argc, char **argv) {
  rng.seed(std::stoull(argv[1]));
  const int count = std::stoi(argv[2]);
  const std::string mode = argv[3], size = argv[4];
  vp::guard_wall(200);
  Random::reseed(rng() % 1000);
  contraction::MemoryContext mem;
  for (int i = 0; i < count; ++i) {
    threads = getenv("VT") ? atoi(getenv("VT")) : vp::coin(rng, 1, 3) ? 1 : 1 + rng() % 8;
    Threads t(threads);
    if (mode == "reorder") reorder(size);
    if (mode == "contract") contract(size, mem);
    if (mode == "cluster") cluster(size);
    if (mode == "hierarchy") hierarchy(size);
  }
}
