// Stand-in for the KaGen library (not available offline): just enough to build apps/dKaMinPar.cc, whose own graph readers
// (--io-kind kaminpar) are checked; reading or generating graphs with KaGen itself is not possible.
#pragma once
#include <cstdlib>
#include <map>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>

#include <mpi.h>

namespace kagen {
using SInt = unsigned long long;
using SSInt = long long;
enum class FileFormat { EXTENSION, METIS, PARHIP };
enum class GraphDistribution { BALANCE_VERTICES, BALANCE_EDGES };
inline std::unordered_map<std::string, FileFormat> GetInputFormatMap() {
  return {{"extension", FileFormat::EXTENSION}, {"metis", FileFormat::METIS}, {"parhip", FileFormat::PARHIP}};
}
inline std::unordered_map<std::string, GraphDistribution> GetGraphDistributionMap() {
  return {{"balance-vertices", GraphDistribution::BALANCE_VERTICES}, {"balance-edges", GraphDistribution::BALANCE_EDGES}};
}
struct Graph {
  std::pair<SInt, SInt> vertex_range;
  template <typename T = SInt> std::vector<T> TakeXadj() { return {}; }
  template <typename T = SInt> std::vector<T> TakeAdjncy() { return {}; }
  template <typename T = SSInt> std::vector<T> TakeVertexWeights() { return {}; }
  template <typename T = SSInt> std::vector<T> TakeEdgeWeights() { return {}; }
};
template <typename T> std::vector<T> BuildVertexDistribution(const Graph &, MPI_Datatype, MPI_Comm) { return {}; }
struct KaGen {
  explicit KaGen(MPI_Comm) {}
  void UseCSRRepresentation() {}
  void EnableUndirectedGraphVerification() {}
  void EnableBasicStatistics() {}
  void EnableOutput(bool) {}
  Graph GenerateFromOptionString(const std::string &) { std::exit(9); }
  Graph ReadFromFile(const std::string &, FileFormat, GraphDistribution) { std::exit(9); }
};
} // namespace kagen
