// Exercises the communication layer (kaminpar-mpi) on random messages and communicators.
//   dcomm <seed> <count>
#include "dist_common.h"

#include "kaminpar-mpi/binary_reduction_tree.h"
#include "kaminpar-mpi/grid_topology.h"
#include "kaminpar-mpi/sparse_allreduce.h"
#include "kaminpar-mpi/sparse_alltoall.h"

#include "kaminpar-dist/graphutils/communication.h"

using namespace vpd;
namespace mpi = kaminpar::mpi;

// messages of 4, 8 and 24 bytes
struct Big {
  std::uint64_t v, w;
  std::uint16_t q;
};
template <typename T> T make(int v) {
  if constexpr (std::is_same_v<T, Big>) return Big{(std::uint64_t)v, (std::uint64_t)v * 3, (std::uint16_t)(v % 1000)};
  else return (T)v;
}
template <typename T> int value(const T &t) {
  if constexpr (std::is_same_v<T, Big>) return t.w == t.v * 3 && t.q == t.v % 1000 ? (int)t.v : -1;
  else return (int)t;
}

// flat: label, length, values ...
template <typename T> static void exchange(Rng &r, MPI_Comm comm, const std::vector<long long> &colors) {
  int size, rank;
  MPI_Comm_size(comm, &size);
  MPI_Comm_rank(comm, &rank);
  std::string alg = pick<std::string>(r, {"complete", "alltoallv", "grid", "auto", "get", "vec", "grid", "auto"});
  bool lvalue = coin(r, 1, 2);
  int dens = r() % 4; // how much is sent
  Rng m(r() * 64 + g_rank);
  std::vector<NoinitVector<T>> send(size);
  std::vector<std::vector<int>> sent(size);
  for (int pe = 0; pe < size; ++pe) {
    int c = dens == 0 ? 0 : dens == 1 ? (coin(m, 1, 3) ? 1 : 0) : dens == 2 ? (int)rnd(m, 0, 5) : coin(m, 1, 4) ? (int)rnd(m, 0, 40) : 0;
    for (int i = 0; i < c; ++i) {
      int v = (int)rnd(m, 0, 1000000);
      sent[pe].push_back(v);
      send[pe].push_back(make<T>(v));
    }
  }
  std::vector<long long> got;
  auto recv = [&](auto buf, const PEID pe) {
    got.push_back(pe);
    got.push_back(buf.size());
    for (auto &t : buf) got.push_back(value<T>(t));
  };
  using B = NoinitVector<T>;
  auto go = [&](auto &&s) {
    using S = decltype(s);
    if (alg == "complete") mpi::sparse_alltoall<T, B>(mpi::tag::complete_send_recv, std::forward<S>(s), recv, comm);
    else if (alg == "alltoallv") mpi::sparse_alltoall<T, B>(mpi::tag::alltoallv, std::forward<S>(s), recv, comm);
    else if (alg == "grid") mpi::sparse_alltoall<T, B>(mpi::tag::grid, std::forward<S>(s), recv, comm);
    else if (alg == "auto") mpi::sparse_alltoall<T>(std::forward<S>(s), recv, comm);
    else {
      auto out = mpi::sparse_alltoall_get<T>(std::forward<S>(s), comm);
      for (std::size_t pe = 0; pe < out.size(); ++pe) recv(out[pe], pe);
    }
  };
  bool same = true;
  if (alg == "vec") {
    std::vector<int> sc(size), sd(size + 1), rc(size), rd(size + 1);
    std::vector<T> sb, rb;
    for (int pe = 0; pe < size; ++pe) {
      sc[pe] = send[pe].size();
      sd[pe + 1] = sd[pe] + sc[pe];
      for (auto &t : send[pe]) sb.push_back(t);
    }
    MPI_Alltoall(sc.data(), 1, MPI_INT, rc.data(), 1, MPI_INT, comm);
    for (int pe = 0; pe < size; ++pe) rd[pe + 1] = rd[pe] + rc[pe];
    rb.resize(rd[size] + 1);
    mpi::sparse_alltoallv<T>(sb.data(), sc.data(), sd.data(), rb.data(), rc.data(), rd.data(), comm);
    for (int pe = 0; pe < size; ++pe) recv(std::vector<T>(rb.begin() + rd[pe], rb.begin() + rd[pe + 1]), pe);
  } else if (lvalue) {
    const auto &cs = send;
    go(cs);
    for (int pe = 0; pe < size; ++pe) {
      same = same && send[pe].size() == sent[pe].size();
      for (std::size_t i = 0; same && i < sent[pe].size(); ++i) same = value<T>(send[pe][i]) == sent[pe][i];
    }
  } else {
    go(std::move(send));
  }
  std::vector<long long> flat;
  for (auto &s : sent) {
    flat.push_back(s.size());
    for (auto v : s) flat.push_back(v);
  }
  auto fs = gather2(flat);
  auto gs = gather2(got);
  auto ss = gather1(same);
  if (root()) Rec().str("ev", "exchange").str("alg", alg).num("bytes", sizeof(T)).arr("color", colors).arr2("sent", fs).arr2("got", gs).arr("same", ss).emit();
}

static void allreduce(Rng &r, MPI_Comm comm, const std::vector<long long> &colors) {
  int size;
  MPI_Comm_size(comm, &size);
  // doubling: numbers of PEs that are powers of two only
  bool pow2 = true;
  std::map<long long, int> cnt;
  for (auto c : colors) ++cnt[c];
  for (auto [c, n] : cnt) pow2 = pow2 && (n & (n - 1)) == 0;
  int alg = r() % 3;
  if (alg == 1 && !pow2) alg = 0;
  int len = (int)rnd(r, 0, 12), extra = (int)rnd(r, 0, 3);
  Rng m(r() * 64 + g_rank);
  std::vector<std::int64_t> b;
  for (int i = 0; i < len + extra; ++i) b.push_back(coin(m, 1, 2) ? 0 : rnd(m, -1000, 1000));
  auto in = gather2(b);
  if (alg == 0) mpi::inplace_sparse_allreduce(mpi::tag::mpi_allreduce, b, len, MPI_SUM, comm);
  else if (alg == 1) mpi::inplace_sparse_allreduce(mpi::tag::doubling_allreduce, b, len, MPI_SUM, comm);
  else mpi::inplace_sparse_allreduce(b, len, MPI_SUM, comm);
  auto out = gather2(b);
  if (root()) Rec().str("ev", "allreduce").num("alg", alg).num("len", len).arr("color", colors).arr2("a", in).arr2("b", out).emit();
}

static void binary(Rng &r, MPI_Comm comm, const std::vector<long long> &colors) {
  Rng m(r() * 64 + g_rank);
  std::vector<int> b;
  for (int i = (int)rnd(m, 0, 4); i > 0; --i) b.push_back((int)rnd(m, 0, 20));
  auto in = gather2(b);
  int calls = 0;
  auto res = mpi::perform_binary_reduction(
      b, std::vector<int>{},
      [&](std::vector<int> x, std::vector<int> y) {
        ++calls;
        x.insert(x.end(), y.begin(), y.end());
        std::sort(x.begin(), x.end());
        return x;
      },
      comm);
  auto out = gather2(res);
  auto cs = gather1(calls);
  if (root()) Rec().str("ev", "reduction").arr("color", colors).arr2("a", in).arr2("b", out).arr("calls", cs).emit();
}

static void misc(Rng &r, MPI_Comm comm, const std::vector<long long> &colors) {
  Rng m(r() * 64 + g_rank);
  int v = (int)rnd(m, 0, 50);
  auto dist = mpi::build_distribution_from_local_count<GlobalNodeID, NoinitVector>(v, comm);
  auto counts = mpi::build_counts_from_value<NodeID>(v, comm);
  auto displs = mpi::build_displs_from_value<NodeID>(v, comm);
  auto d2 = mpi::build_displs_from_counts(counts);
  auto rc = mpi::build_distribution_recvcounts(dist);
  auto rd = mpi::build_distribution_displs(dist);
  std::vector<long long> flat;
  for (auto &x : {std::vector<long long>(dist.begin(), dist.end()), std::vector<long long>(counts.begin(), counts.end()),
                  std::vector<long long>(displs.begin(), displs.end()), std::vector<long long>(d2.begin(), d2.end()),
                  std::vector<long long>(rc.begin(), rc.end()), std::vector<long long>(rd.begin(), rd.end())})
    flat.insert(flat.end(), x.begin(), x.end());
  std::vector<long long> one{mpi::allreduce(v, MPI_SUM, comm), mpi::allreduce(v, MPI_MAX, comm), mpi::scan(v, MPI_SUM, comm),
                             mpi::exscan(v, MPI_SUM, comm), mpi::bcast(v, 0, comm)};
  auto ag = mpi::allgather(v, comm);
  flat.insert(flat.end(), ag.begin(), ag.end());
  auto vs = gather1(v);
  auto fl = gather2(flat);
  auto os = gather2(one);
  if (root()) Rec().str("ev", "misc").arr("color", colors).arr("v", vs).arr2("f", fl).arr2("one", os).emit();
}

static void topology(int size) {
  mpi::GridTopology t(size);
  std::vector<int> row, col, vcol, ve;
  for (int p = 0; p < size; ++p) row.push_back(t.row(p)), col.push_back(t.col(p)), vcol.push_back(t.virtual_col(p));
  for (int c = 0; c < t.num_full_cols(); ++c)
    for (int w = 0; w < t.virtual_col_size(c); ++w) ve.push_back(t.virtual_element(w, c));
  std::vector<int> rs, vs;
  for (int w = 0; w < t.num_rows(); ++w) rs.push_back(t.row_size(w));
  for (int c = 0; c < t.num_full_cols(); ++c) vs.push_back(t.virtual_col_size(c));
  Rec().str("ev", "grid").num("size", size).num("rows", t.num_rows()).num("fullcols", t.num_full_cols()).arr("row", row).arr("col", col).arr("vcol", vcol).arr("ve", ve).arr("rs", rs).arr("vs", vs).emit();
}

static void run(std::uint64_t seed) {
  Rng r(seed);
  if (root()) {
    Rec().str("ev", "start").num("pes", g_size).emit();
    topology((int)rnd(r, 1, 60));
  } else {
    rnd(r, 1, 60);
  }
  std::vector<long long> colors(g_size, 0);
  MPI_Comm comm = MPI_COMM_WORLD;
  int steps = (int)rnd(r, 4, 12);
  for (int i = 0; i < steps; ++i) {
    int what = r() % 8;
    if (what == 0) { // other groups of PEs
      if (comm != MPI_COMM_WORLD) MPI_Comm_free(&comm);
      int g = (int)rnd(r, 1, 3);
      for (auto &c : colors) c = rnd(r, 0, g - 1);
      MPI_Comm_split(MPI_COMM_WORLD, colors[g_rank], g_rank, &comm);
    } else if (what <= 4) {
      switch (r() % 3) {
      case 0: exchange<int>(r, comm, colors); break;
      case 1: exchange<std::uint64_t>(r, comm, colors); break;
      default: exchange<Big>(r, comm, colors);
      }
    } else if (what == 5) allreduce(r, comm, colors);
    else if (what == 6) binary(r, comm, colors);
    else misc(r, comm, colors);
  }
  if (comm != MPI_COMM_WORLD) MPI_Comm_free(&comm);
}

int main(int argc, char **argv) {
  Env env(argc, argv);
  std::uint64_t seed = std::strtoull(argv[1], nullptr, 10);
  int count = atoi(argv[2]);
  for (int i = 0; i < count; ++i) run(seed * 1000003ULL + i * 7);
  if (root()) Rec().str("ev", "end").emit();
  return 0;
}
