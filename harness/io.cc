// Graph files: reading and writing METIS, ParHIP and compressed files, partitions, block sizes; the
// input validator.  All files live in a scratch directory that is removed at the end.
//   io <seed> <count> metis|parhip|write|valid
#include "shm_common.h"
#include "files.h"

#include <sys/wait.h>

#include "kaminpar-shm/graphutils/parallel_compressed_graph_builder.h"
#include "kaminpar-shm/graphutils/permutator.h"

#include "apps/io/shm_compressed_graph_binary.h"
#include "apps/io/shm_input_validator.h"
#include "apps/io/shm_io.h"
#include "apps/io/shm_metis_parser.h"
#include "apps/io/shm_parhip_parser.h"

using namespace vp;
using namespace vs;

static std::string g_dir;
static std::string path(const char *name) { return g_dir + "/" + name; }

static void emit_read(const Graph &g, const char *how, const std::vector<long long> &perm, bool expsorted, bool big = false) {
  long long maxdeg = 0;
  g.reified([&](const auto &gg) {
    for (const NodeID u : gg.nodes()) maxdeg = std::max<long long>(maxdeg, gg.degree(u));
  });
  Rec().str("ev", "read").str("how", how).raw("g", json(g)).arr("perm", perm).num("big", big).num("sorted", g.sorted()).num("expsorted", expsorted)
      .num("tnw", g.total_node_weight()).num("tew", g.total_edge_weight()).num("maxnw", g.max_node_weight()).num("maxdeg", g.max_degree()).emit();
}

// ---------------------------------------------------------------- METIS
using io::read;

static void metis(Rng &r) {
  int n = coin(r, 1, 12) ? 0 : coin(r, 1, 2) ? (int)rnd(r, 1, 6) : (int)rnd(r, 2, 40);
  G g = random_graph(r, n, -1, 40, 40);
  if (coin(r, 1, 5))
    for (auto &w : g.vw) w *= 1000003;
  // totals beyond 32 bits that look like those of unit weights when truncated
  bool big = sizeof(NodeWeight) == 8 && n >= 4 && coin(r, 1, 4);
  if (big) {
    g.vw.assign(n, 1), g.ew.assign(g.a.size(), 1);
    for (int u = 0; u < 4; ++u) g.vw[u] += 1 << 30;
    std::vector<std::pair<std::uint32_t, std::uint32_t>> heavy;
    for (std::uint32_t u = 0; u < g.n(); ++u)
      for (auto e = g.x[u]; e < g.x[u + 1]; ++e)
        if (u < g.a[e] && heavy.size() < 2) heavy.push_back({u, g.a[e]});
    if (heavy.size() == 2)
      for (std::uint32_t u = 0; u < g.n(); ++u)
        for (auto e = g.x[u]; e < g.x[u + 1]; ++e)
          for (auto [a, b] : heavy)
            if (std::min(u, g.a[e]) == a && std::max(u, g.a[e]) == b) g.ew[e] += 1 << 30;
  }
  Lines L = metis_lines(r, g, coin(r, 1, 4), coin(r, 1, 4), coin(r, 1, 4));
  put(path("m"), metis_text(r, L));
  Rec().str("ev", "metis").arr2("lines", L).emit();
  for (bool compress : {false, true}) {
    bool ext = coin(r, 1, 4); // (not supported for METIS: natural order)
    emit_read(read(path("m"), io::GraphFileFormat::METIS, ext ? NodeOrdering::EXTERNAL_DEGREE_BUCKETS : NodeOrdering::NATURAL, compress),
              compress ? "compressed" : "csr", {}, false, big);
  }
  Rec().str("ev", "format").num("compressed", io::compressed_binary::is_compressed(path("m"))).num("expect", 0).emit();
}

// ---------------------------------------------------------------- ParHIP
// g with its vertices in degree-bucket order
static G bucketed(const G &g) {
  auto c = csr(g);
  std::vector<NodeID> id(g.n()), order(g.n());
  std::iota(order.begin(), order.end(), 0);
  auto cls = [&](NodeID u) {
    int d = g.x[u + 1] - g.x[u];
    return d == 0 ? 99 : (int)std::floor(std::log2(d));
  };
  std::stable_sort(order.begin(), order.end(), [&](NodeID u, NodeID v) { return cls(u) < cls(v); });
  for (NodeID i = 0; i < g.n(); ++i) id[order[i]] = i;
  G h;
  for (NodeID u : order) {
    if (!g.vw.empty()) h.vw.push_back(g.vw[u]);
    for (auto e = g.x[u]; e < g.x[u + 1]; ++e) {
      h.a.push_back(id[g.a[e]]);
      if (!g.ew.empty()) h.ew.push_back(g.ew[e]);
    }
    h.x.push_back(h.a.size());
  }
  return h;
}
template <typename Perm> static std::vector<long long> permutation(const Perm &g) {
  std::vector<long long> p;
  g.reified([&](const auto &gg) {
    if (gg.permuted())
      for (const NodeID u : gg.nodes()) p.push_back(gg.map_original_node(u));
  });
  return p;
}
static void parhip(Rng &r) {
  int n = coin(r, 1, 12) ? 0 : coin(r, 1, 2) ? (int)rnd(r, 1, 8) : (int)rnd(r, 2, 40);
  G g = random_graph(r, n, -1, 40, 40);
  bool implicit = coin(r, 1, 3);
  if (implicit) g = bucketed(g);
  auto wide = [&](std::size_t width) { return width == 8 && coin(r, 1, 2); };
  bool nw = !g.vw.empty() || coin(r, 1, 4), ew = !g.ew.empty() || coin(r, 1, 4);
  // (the width of weights that are not there does not matter)
  auto data = parhip_data(r, g, wide(sizeof(EdgeID)), wide(sizeof(NodeID)), nw ? wide(sizeof(NodeWeight)) : coin(r, 1, 2),
                          ew ? wide(sizeof(EdgeWeight)) : coin(r, 1, 2), nw, ew);
  put(path("p"), data);
  Rec().str("ev", "parhip").arr("words", words(data)).emit();
  auto F = io::GraphFileFormat::PARHIP;
  for (bool compress : {false, true}) {
    const char *how = compress ? "compressed" : "csr";
    emit_read(read(path("p"), F, NodeOrdering::NATURAL, compress), how, {}, false);
    if (implicit) emit_read(read(path("p"), F, NodeOrdering::IMPLICIT_DEGREE_BUCKETS, compress), how, {}, true);
    auto e = read(path("p"), F, NodeOrdering::EXTERNAL_DEGREE_BUCKETS, compress);
    emit_read(e, how, permutation(e), true);
  }
  emit_read(Graph(std::make_unique<CompressedGraph>(io::parhip::compressed_read(path("p"), implicit))), "sequential", {}, implicit);
}

// ---------------------------------------------------------------- writing
static void written(Rng &r) {
  int n = coin(r, 1, 2) ? (int)rnd(r, 1, 8) : (int)rnd(r, 2, 50);
  G g = random_graph(r, n, -1, 40, 40);
  bool sorted = coin(r, 1, 3);
  if (sorted) g = bucketed(g);
  Rec().str("ev", "graph").raw("g", json(g)).emit();
  auto graph = make_graph(g, sorted);
  auto comp = Graph(std::make_unique<CompressedGraph>(CompressedGraphBuilder::compress(graph.concretize<CSRGraph>())));
  io::metis::write(path("m"), coin(r, 1, 3) ? comp : graph);
  Rec().str("ev", "wmetis").arr2("lines", tokens(slurp(path("m")))).emit();
  emit_read(read(path("m"), io::GraphFileFormat::METIS, sorted ? NodeOrdering::IMPLICIT_DEGREE_BUCKETS : NodeOrdering::NATURAL, coin(r, 1, 2)), "metis", {}, sorted);
  io::parhip::write(path("p"), graph.concretize<CSRGraph>());
  Rec().str("ev", "wparhip").arr("words", words(slurp(path("p")))).emit();
  emit_read(read(path("p"), io::GraphFileFormat::PARHIP, sorted ? NodeOrdering::IMPLICIT_DEGREE_BUCKETS : NodeOrdering::NATURAL, coin(r, 1, 2)), "parhip", {}, sorted);
  io::compressed_binary::write(path("c"), comp.concretize<CompressedGraph>());
  Rec().str("ev", "format").num("compressed", io::compressed_binary::is_compressed(path("c"))).num("expect", 1).emit();
  emit_read(read(path("c"), coin(r, 1, 2) ? io::GraphFileFormat::METIS : io::GraphFileFormat::PARHIP, NodeOrdering::NATURAL, true), "binary", {}, sorted);
  // assignments
  BlockID k = (BlockID)rnd(r, 1, 9);
  std::vector<BlockID> p(n);
  int kind = r() % 3;
  for (auto &b : p) b = kind == 0 ? r() % k : kind == 1 ? 0 : std::min<BlockID>(k - 1, r() % (2 * k));
  io::partition::write(path("a"), p);
  Rec().str("ev", "partition").arr("p", p).arr2("lines", tokens(slurp(path("a")))).arr("back", vec(io::partition::read(path("a")))).emit();
  io::partition::write_block_sizes(path("b"), k, p);
  Rec().str("ev", "sizes").arr("p", p).num("k", k).arr2("lines", tokens(slurp(path("b")))).arr("back", vec(io::partition::read_block_sizes(path("b")))).emit();
  std::vector<NodeID> m(n);
  std::iota(m.begin(), m.end(), 0);
  std::shuffle(m.begin(), m.end(), r);
  io::remapping::write(path("r"), m);
  Rec().str("ev", "remap").arr("p", m).arr2("lines", tokens(slurp(path("r")))).emit();
}

// ---------------------------------------------------------------- validation
// is the graph accepted? (rejecting it ends the process)
static int accepted(const G &g) {
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    alarm(20);
    if (!freopen("/dev/null", "w", stderr)) _exit(3);
    auto c = csr(g);
    validate_undirected_graph(Graph(std::move(c)));
    _exit(0);
  }
  int status = 0;
  waitpid(pid, &status, 0);
  return WIFEXITED(status) ? (WEXITSTATUS(status) == 0 ? 1 : WEXITSTATUS(status) == 1 ? 0 : 2) : 3;
}
static void validate(Rng &r) {
  int n = coin(r, 1, 2) ? (int)rnd(r, 1, 5) : (int)rnd(r, 2, 30);
  G g = random_graph(r, n, -1, 20, 60);
  std::vector<std::array<int, 3>> E;
  for (std::uint32_t u = 0; u < g.n(); ++u)
    for (auto e = g.x[u]; e < g.x[u + 1]; ++e) E.push_back({(int)u, (int)g.a[e], (int)g.e(e)});
  int changes = r() % 3;
  for (int i = 0; i < changes; ++i) {
    std::size_t j = E.empty() ? 0 : r() % E.size();
    switch (r() % 6) {
    case 0: if (!E.empty()) E.erase(E.begin() + j); break;
    case 1: if (!E.empty()) E[j][2] += coin(r, 1, 2) ? 1 : -1; break;
    case 2: if (!E.empty()) E[j][1] = r() % n; break;
    case 3: if (!E.empty()) { // the same edge again, with its reverse
        auto [u, v, w] = E[j];
        int x = coin(r, 1, 2) ? w : w + 1;
        E.push_back({u, v, x}), E.push_back({v, u, x});
      }
      break;
    case 4: { // both directions of a new edge
        int u = r() % n, v = r() % n;
        E.push_back({u, v, 1});
        if (u != v) E.push_back({v, u, coin(r, 2, 3) ? 1 : 2});
      }
      break;
    case 5: if (!E.empty()) E.push_back(E[j]); break;
    }
  }
  for (auto &e : E)
    if (e[2] < 1) e[2] = 1;
  std::shuffle(E.begin(), E.end(), r);
  std::stable_sort(E.begin(), E.end(), [](auto &a, auto &b) { return a[0] < b[0]; });
  if (coin(r, 1, 2)) std::sort(E.begin(), E.end());
  bool weighted = false;
  for (auto &e : E) weighted |= e[2] != 1;
  G h;
  std::size_t at = 0;
  for (int u = 0; u < n; ++u) {
    for (; at < E.size() && E[at][0] == u; ++at) {
      h.a.push_back(E[at][1]);
      if (weighted) h.ew.push_back(E[at][2]);
    }
    h.x.push_back(h.a.size());
  }
  Rec().str("ev", "validate").raw("g", json(h)).num("accepted", accepted(h)).emit();
}

int main(int argc, char **argv) {
  guard_wall(300);
  std::uint64_t seed = std::strtoull(argv[1], nullptr, 10);
  int count = atoi(argv[2]);
  std::string mode = argv[3];
  g_dir = scratch_dir();
  if (!freopen("/dev/null", "w", stderr)) return 3;
  std::cout.setstate(std::ios::failbit); // warnings of the library
  for (int i = 0; i < count; ++i) {
    Rng r(seed * 1000003ULL + i * 7);
    if (mode == "valid") { // (forks: no threads before)
      validate(r);
      continue;
    }
    Threads t((int)rnd(r, 1, 6));
    if (mode == "metis") metis(r);
    if (mode == "parhip") parhip(r);
    if (mode == "write") written(r);
  }
  Rec().str("ev", "end").emit();
  fflush(stdout);
  remove_scratch(g_dir, {"m", "p", "c", "a", "b", "r"});
  return 0;
}
