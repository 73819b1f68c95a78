// Reading graph files into distributed graphs, writing distributed partitions.
//   dio <seed> <count> metis|parhip
#include "dist_data.h"
#include "files.h"

#include "apps/io/dist_io.h"
#include "apps/io/dist_metis_parser.h"
#include "apps/io/dist_parhip_parser.h"

using namespace vpd;

static std::string g_dir;
static std::string path(const char *name) { return g_dir + "/" + name; }

static void run(std::uint64_t seed, const std::string &mode) {
  Rng r(seed);
  tbb::global_control gc(tbb::global_control::max_allowed_parallelism, rnd(r, 1, 4));
  int n = coin(r, 1, 12) ? 0 : coin(r, 1, 2) ? (int)rnd(r, 1, 12) : (int)rnd(r, 5, 50);
  G g = random_graph(r, n, -1, 40, 40);
  if (mode == "metis") {
    Lines L = metis_lines(r, g, coin(r, 1, 4), coin(r, 1, 4), coin(r, 1, 4));
    std::string text = metis_text(r, L);
    if (root()) {
      put(path("m"), text);
      Rec().str("ev", "metis").arr2("lines", L).emit();
    }
  } else {
    bool nw = !g.vw.empty() || coin(r, 1, 4), ew = !g.ew.empty() || coin(r, 1, 4);
    // (the width of weights that are not there does not matter)
    bool wide_nw = nw ? sizeof(NodeWeight) == 8 : coin(r, 1, 2), wide_ew = ew ? sizeof(EdgeWeight) == 8 : coin(r, 1, 2);
    std::string data = parhip_data(r, g, sizeof(EdgeID) == 8, sizeof(NodeID) == 8, wide_nw, wide_ew, nw, ew);
    if (root()) {
      put(path("p"), data);
      Rec().str("ev", "parhip").arr("words", words(data)).emit();
    }
  }
  MPI_Barrier(MPI_COMM_WORLD);
  const std::pair<GraphDistribution, const char *> all[] = {{GraphDistribution::BALANCED_NODES, "nodes"},
                                                            {GraphDistribution::BALANCED_EDGES, "edges"},
                                                            {GraphDistribution::BALANCED_MEMORY_SPACE, "memory"}};
  for (auto [d, name] : all) {
    if (mode == "metis") {
      view(io::metis::csr_read(path("m"), d, false, MPI_COMM_WORLD), name, one_group());
      view(io::metis::compress_read(path("m"), d, false, MPI_COMM_WORLD), name, one_group());
    } else {
      view(io::parhip::csr_read(path("p"), d, false, MPI_COMM_WORLD), name, one_group());
      view(io::parhip::compressed_read(path("p"), d, false, MPI_COMM_WORLD), name, one_group());
    }
  }
  // a partition, PE by PE
  auto dist = random_distribution(r, n, g_size);
  std::vector<BlockID> p(n);
  for (auto &b : p) b = r() % 12;
  io::partition::write(path("a"), std::vector<BlockID>(p.begin() + dist[g_rank], p.begin() + dist[g_rank + 1]));
  MPI_Barrier(MPI_COMM_WORLD);
  if (root()) Rec().str("ev", "partition").arr("p", p).arr2("lines", tokens(slurp(path("a")))).emit();
  MPI_Barrier(MPI_COMM_WORLD);
}

int main(int argc, char **argv) {
  Env env(argc, argv);
  std::uint64_t seed = std::strtoull(argv[1], nullptr, 10);
  int count = atoi(argv[2]);
  char dir[64] = {};
  if (root()) snprintf(dir, sizeof dir, "%s", scratch_dir().c_str());
  MPI_Bcast(dir, sizeof dir, MPI_CHAR, 0, MPI_COMM_WORLD);
  g_dir = dir;
  for (int i = 0; i < count; ++i) run(seed * 1000003ULL + i * 7, argc > 3 ? argv[3] : "metis");
  if (root()) {
    Rec().str("ev", "end").emit();
    remove_scratch(g_dir, {"m", "p", "a"});
  }
  return 0;
}
