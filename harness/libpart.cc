// Partitions a graph given on the standard input through the library interface (the reference for the executable).
//   libpart <preset> <seed> <threads> <compress> eps <k> <eps/1000> | abs <w> ... | fac <f/1000> ...
#include "kaminpar-shm/datastructures/graph.h"
#include "kaminpar-shm/graphutils/parallel_compressed_graph_builder.h"
#include "kaminpar-shm/kaminpar.h"

#include <iostream>

using namespace kaminpar;
using namespace kaminpar::shm;

template <typename T> static StaticArray<T> read_array() {
  std::size_t n;
  std::cin >> n;
  StaticArray<T> a(n);
  for (auto &x : a) std::cin >> x;
  return a;
}

int main(int argc, char **argv) {
  std::string preset = argv[1], kind = argv[5];
  Context ctx = create_context_by_preset_name(preset);
  bool compress = ctx.compression.enabled || std::stoi(argv[4]);
  ctx.compression.enabled = compress;
  auto x = read_array<EdgeID>();
  auto a = read_array<NodeID>();
  auto vw = read_array<NodeWeight>();
  auto ew = read_array<EdgeWeight>();
  CSRGraph csr(std::move(x), std::move(a), std::move(vw), std::move(ew));
  std::vector<BlockID> p(csr.n());
  KaMinPar shm(std::stoi(argv[3]), ctx);
  KaMinPar::reseed(std::stoi(argv[2]));
  shm.set_output_level(OutputLevel::QUIET);
  if (compress) shm.set_graph(Graph(std::make_unique<CompressedGraph>(parallel_compress(csr))));
  else shm.set_graph(Graph(std::make_unique<CSRGraph>(std::move(csr))));
  if (kind == "eps") shm.compute_partition(std::stoi(argv[6]), std::stoi(argv[7]) / 1000.0, {p.data(), p.size()});
  else if (kind == "abs") {
    std::vector<BlockWeight> w;
    for (int i = 6; i < argc; ++i) w.push_back(std::stoll(argv[i]));
    shm.compute_partition(std::move(w), {p.data(), p.size()});
  } else {
    std::vector<double> w;
    for (int i = 6; i < argc; ++i) w.push_back(std::stoi(argv[i]) / 1000.0);
    shm.compute_partition(std::move(w), {p.data(), p.size()});
  }
  for (auto b : p) std::cout << b << "\n";
}
