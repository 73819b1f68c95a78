// The executable for distributed partitioning, built with a stand-in for KaGen
#include "apps/dKaMinPar.cc"
namespace kaminpar::dist::io::skagen {
DistributedCSRGraph csr_streaming_generate(const std::string &, PEID, MPI_Comm) { std::exit(9); }
DistributedCompressedGraph compressed_streaming_generate(const std::string &, PEID, MPI_Comm) { std::exit(9); }
} // namespace kaminpar::dist::io::skagen
