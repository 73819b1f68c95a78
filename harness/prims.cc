// Runs the parallel primitives and the integer arithmetic on random inputs.
// usage: prims SEED COUNT
#include "vp.h"

#include <atomic>
#include <limits>
#include <mutex>

#include <tbb/global_control.h>
#include <tbb/parallel_for.h>
#include <tbb/task_arena.h>

#include "kaminpar-common/degree_buckets.h"
#include "kaminpar-common/math.h"
#include "kaminpar-common/parallel/algorithm.h"
#include "kaminpar-common/parallel/aligned_prefix_sum.h"
#include "kaminpar-common/parallel/loops.h"
#include "kaminpar-common/parallel/vector_ets.h"
#include "kaminpar-common/random.h"

using namespace kaminpar;
using namespace vp;

static std::size_t length(Rng &r) {
  switch (rnd(r, 0, 5)) {
  case 0: return rnd(r, 0, 3);
  case 1:
  case 2: return rnd(r, 1, 40);
  case 3:
  case 4: return rnd(r, 1, 400);
  default: return rnd(r, 400, 3000);
  }
}
// most vectors are flat with a few outliers
static std::vector<long> values(Rng &r, std::size_t n, long lo, long hi) {
  std::vector<long> v(n);
  const bool flat = coin(r, 1, 2);
  const long base = rnd(r, lo, hi);
  for (auto &x : v) x = flat ? (coin(r, 1, 30) ? rnd(r, lo, hi) : base) : rnd(r, lo, hi);
  if (n > 0 && coin(r, 1, 4)) v[coin(r, 1, 2) ? 0 : n - 1] = coin(r, 1, 2) ? lo : hi;
  return v;
}

template <typename T> void accumulate(Rng &r, const char *type) {
  const std::size_t n = length(r);
  const bool sgn = std::is_signed_v<T>, small = sizeof(T) == 1;
  auto v = values(r, n, sgn ? -1000 : 0, small ? 200 : 100000);
  std::vector<T> c(v.begin(), v.end());
  const long init = small ? 0 : rnd(r, sgn ? -1000 : 0, 5000);
  std::vector<long> a, plus;
  if (!small) {
    a.push_back(parallel::accumulate(c, static_cast<T>(init))), plus.push_back(0);
    a.push_back(parallel::accumulate(c.begin(), c.end(), static_cast<T>(init))), plus.push_back(0);
  }
  a.push_back(parallel::accumulate(c.begin(), c.end(), static_cast<std::int64_t>(init), [](const T x) -> std::int64_t { return x; }));
  plus.push_back(0);
  a.push_back(parallel::accumulate(c.begin(), c.end(), static_cast<std::int64_t>(init), [](const T x) -> std::int64_t { return (std::int64_t)x + 7; }));
  plus.push_back(7);
  Rec().str("ev", "acc").str("type", type).num("init", init).arr("v", v).arr("a", a).arr("plus", plus).emit();
}
template <typename T> void maximum(Rng &r, const char *type) {
  const std::size_t n = std::max<std::size_t>(1, length(r));
  const bool sgn = std::is_signed_v<T>;
  const int shift = sgn ? rnd(r, 0, 2) : 0; // all negative, mixed, all positive
  auto v = values(r, n, shift == 0 ? -5000 : shift == 1 ? -2000 : 0, shift == 0 ? -1 : 5000);
  const bool extreme = coin(r, 1, 3);
  std::vector<T> c;
  auto to = [&](long x) -> T {
    if constexpr (std::is_floating_point_v<T>) return extreme ? (T)x * (T)1e30 : (T)x / (T)8;
    else if (extreme) return sgn ? (T)(shift == 0 ? std::numeric_limits<T>::lowest() + (T)(x + 5000) : std::numeric_limits<T>::max() - (T)(5000 - x)) : (T)(std::numeric_limits<T>::max() - (T)(5000 - x));
    else return (T)x;
  };
  std::map<T, long> back;
  for (long x : v) c.push_back(to(x)), back[c.back()] = x;
  auto rank = [&](T y) { return back.count(y) ? back[y] : 999999L; };
  std::vector<long> m{rank(parallel::max_element(c)), rank(parallel::max_element(c.begin(), c.end()))};
  Rec().str("ev", "max").str("type", type).arr("v", v).arr("m", m).emit();
}
template <typename T> void difference(Rng &r, const char *type) {
  const std::size_t n = std::max<std::size_t>(1, length(r));
  const bool sgn = std::is_signed_v<T>;
  auto v = values(r, n, sgn ? -5000 : 0, 5000);
  if (!sgn || coin(r, 1, 3)) std::sort(v.begin(), v.end());
  else if (coin(r, 1, 2)) std::sort(v.rbegin(), v.rend());
  std::vector<T> c;
  for (long x : v) c.push_back(std::is_floating_point_v<T> ? (T)x / (T)2 : (T)x);
  auto out = [&](T y) { return (long)(std::is_floating_point_v<T> ? y * (T)2 : y); };
  std::vector<long> m{out(parallel::max_difference(c)), out(parallel::max_difference(c.begin(), c.end()))};
  Rec().str("ev", "diff").str("type", type).arr("v", v).arr("m", m).emit();
}
template <typename T> void scan(Rng &r, const char *type) {
  const std::size_t n = length(r);
  const bool sgn = std::is_signed_v<T>;
  auto v = values(r, n, sgn ? -1000 : 0, 10000);
  std::vector<T> c(v.begin(), v.end()), o(n + 1, (T)77);
  const bool inplace = coin(r, 1, 2);
  if (inplace) {
    parallel::prefix_sum(c.begin(), c.end(), c.begin());
    o = c;
  } else {
    parallel::prefix_sum(c.begin(), c.end(), o.begin());
    if (o[n] == (T)77) o.pop_back(); // otherwise it wrote too far: the length tells
  }
  Rec().str("ev", "scan").str("type", type).boolean("inplace", inplace).arr("v", v).arr("o", o).emit();
}
template <typename T> void aligned(Rng &r, const char *type) {
  const std::size_t n = length(r);
  std::vector<long> al(n), v(n);
  const int mode = rnd(r, 0, 2);
  const int one = (int[]){0, 1, 2, 4, 8}[rnd(r, 0, 4)];
  for (std::size_t i = 0; i < n; ++i) {
    al[i] = mode == 0 ? one : mode == 1 ? (int[]){1, 2, 4, 8}[rnd(r, 0, 3)] : (int[]){0, 1, 2, 4, 8}[rnd(r, 0, 4)];
    v[i] = al[i] == 0 ? 0 : coin(r, 1, 3) ? al[i] * rnd(r, 0, 9) : rnd(r, 0, 100);
    if (al[i] == 0 && coin(r, 1, 2)) v[i] = rnd(r, 0, 9);
  }
  std::vector<T> o(n, (T)123456);
  const std::size_t total = parallel::aligned_prefix_sum(o.begin(), o.end(), [&](const std::size_t i) {
    return std::pair<unsigned, unsigned>(al[i], v[i]);
  });
  Rec().str("ev", "align").str("type", type).arr("al", al).arr("v", v).arr("o", o).num("total", total).emit();
}
void chunks(Rng &r) {
  const int k = rnd(r, 1, 12);
  std::vector<std::vector<int>> bufs(k);
  std::vector<long> sizes;
  const int most = (int[]){3, 40, 300}[rnd(r, 0, 2)];
  int id = 0;
  for (auto &b : bufs) {
    b.resize(coin(r, 1, 3) ? 0 : rnd(r, 0, most));
    sizes.push_back(b.size());
    for (auto &x : b) x = id++;
  }
  std::vector<std::atomic<long>> hits(id);
  for (auto &h : hits) h = 0;
  std::atomic<long> foreign = 0;
  const bool withid = coin(r, 1, 2);
  if (withid) {
    parallel::chunked_for(bufs, [&](int &x, int chunk) {
      if (x < 0 || x >= id) ++foreign; else hits[x] += chunk + 1;
    });
  } else {
    parallel::chunked_for(bufs, [&](int &x) {
      if (x < 0 || x >= id) ++foreign; else hits[x] += 1;
    });
  }
  std::vector<std::vector<long>> out(k);
  int at = 0;
  for (int i = 0; i < k; ++i)
    for (std::size_t j = 0; j < bufs[i].size(); ++j) out[i].push_back(hits[at++]);
  Rec().str("ev", "chunk").arr("sizes", sizes).boolean("withid", withid).num("foreign", foreign).arr2("hits", out).emit();
}
template <typename T> void detfor(Rng &r) {
  const T from = rnd(r, 0, 100), to = from + (T)(coin(r, 1, 2) ? rnd(r, 0, 12) : rnd(r, 0, 100000));
  std::mutex m;
  std::vector<std::vector<long>> ranges;
  const int ret = parallel::deterministic_for<T>(from, to, [&](const T b, const T e, const int cpu) {
    std::lock_guard<std::mutex> g(m);
    ranges.push_back({cpu, (long)b, (long)e});
  });
  std::sort(ranges.begin(), ranges.end());
  Rec().str("ev", "detfor").num("from", from).num("to", to).num("ret", ret).num("threads", tbb::this_task_arena::max_concurrency()).arr2("ranges", ranges).emit();
}
template <typename T> void local(Rng &r) {
  const T size = rnd(r, 1, coin(r, 1, 2) ? 8 : 70);
  const T n = coin(r, 1, 3) ? rnd(r, 0, 2 * (int)size) : coin(r, 1, 2) ? rnd(r, 0, 1000) : rnd(r, 0, 1000000000);
  std::vector<std::vector<long>> ranges, owner;
  for (T i = 0; i < size; ++i) {
    const auto [a, b] = math::compute_local_range<T>(n, size, i);
    ranges.push_back({(long)a, (long)b});
    for (T x : {a, (T)(a + 1), (T)(b - 1), (T)(a + (b - a) / 2)})
      if (x < n && n > 0) owner.push_back({(long)x, (long)math::compute_local_range_rank<T>(n, size, x)});
  }
  Rec().str("ev", "local").num("n", n).num("size", size).arr2("ranges", ranges).arr2("owner", owner).emit();
}
void finddist(Rng &r) {
  const int k = rnd(r, 1, 12);
  std::vector<unsigned> dist{0};
  for (int i = 0; i < k; ++i) dist.push_back(dist.back() + (coin(r, 1, 3) ? 0 : rnd(r, 0, 9)));
  std::vector<std::vector<long>> q;
  for (unsigned x = 0; x < dist.back(); ++x) q.push_back({x, (long)math::find_in_distribution<unsigned>(x, dist)});
  Rec().str("ev", "finddist").arr("dist", dist).arr2("q", q).emit();
}
void ets(Rng &r) {
  const std::size_t size = rnd(r, 1, 8), n = rnd(r, 0, 300);
  std::vector<long> w = values(r, n, -50, 50);
  parallel::vector_ets<std::int64_t> e(size);
  tbb::parallel_for<std::size_t>(0, n, [&](const std::size_t i) {
    volatile int spin = 0;
    for (int s = 0; s < 200; ++s) spin = spin + s;
    e.local()[i % size] += w[i];
  });
  auto out = e.combine(std::plus{});
  Rec().str("ev", "ets").num("size", size).arr("w", w).arr("out", out).emit();
}
template <typename T> std::vector<int> bits(const T x) {
  std::vector<int> b;
  for (int i = 0; i < (int)sizeof(T) * 8; ++i)
    if ((static_cast<std::make_unsigned_t<T>>(x) >> i) & 1) b.push_back(i);
  return b;
}
template <typename T> void bitwise(Rng &r) {
  constexpr int W = std::numeric_limits<T>::digits;
  T x = 0;
  const int top = rnd(r, -1, W - 1);
  if (top >= 0) {
    x = (T)1 << top;
    const int mode = rnd(r, 0, 4);
    for (int i = 0; i < top; ++i)
      if (mode == 0 ? false : mode == 1 ? true : mode == 2 ? i == 0 : coin(r, 1, 2)) x |= (T)1 << i;
  }
  Rec rec;
  rec.str("ev", "bits").num("width", W).arr("x", bits(x));
  const bool over = top == W - 1 && !math::is_power_of_2(x); // no such power of 2
  rec.num("fl", x ? math::floor_log2(x) : 0).num("cl", x ? math::ceil_log2(x) : 0);
  rec.arr("f2", bits<T>(math::floor2(x))).arr("c2", over ? std::vector<int>{} : bits<T>(math::ceil2(x)));
  rec.num("bytes", math::byte_width<T>(x)).boolean("pow", math::is_power_of_2(x));
  const int bucket = degree_bucket<T>(x);
  rec.num("bucket", bucket).arr("low", bits<T>(lowest_degree_in_bucket<T>(bucket))).emit();
}
template <typename T> void mask(Rng &r) {
  const int k = rnd(r, 0, std::numeric_limits<T>::digits - 1);
  Rec().str("ev", "mask").num("k", k).arr("bits", bits<T>(math::create_mask<T>(k))).emit();
}
template <typename T> void arithmetic(Rng &r) {
  {
    const T y = rnd(r, 1, 1000), rem = coin(r, 1, 3) ? 0 : rnd(r, 0, (int)y - 1);
    const T q = (T)(std::numeric_limits<T>::max() / (coin(r, 1, 2) ? 1000000 : 2) / y) - (T)rnd(r, 0, 1);
    const T x = q * y + rem;
    Rec().str("ev", "div").num("y", y).num("r", rem).num("more", (long)(math::div_ceil<T, T>(x, y) - q)).num("mod", math::mod_ceil<T, T>(x, y)).emit();
  }
  {
    const int x = rnd(r, 0, 1000), y = coin(r, 1, 5) ? x : rnd(r, 0, 1000);
    const T base = coin(r, 1, 2) ? 0 : coin(r, 1, 2) ? (T)(std::numeric_limits<T>::max() - (T)1000) : (T)(std::numeric_limits<T>::max() / 2 - 500);
    Rec().str("ev", "absdiff").num("x", x).num("y", y).num("d", math::abs_diff<T, T>(base + (T)x, base + (T)y)).emit();
  }
  {
    const std::uint64_t most = sizeof(T) == 8 ? 2000000000u : 40000u;
    const T s = 1 + (coin(r, 1, 2) ? r() % 50 : r() % most);
    const T d = coin(r, 1, 3) ? 0 : coin(r, 1, 2) ? (T)(2 * s) : (T)(1 + r() % (2 * (std::uint64_t)s));
    Rec().str("ev", "square").num("d", d != 0).boolean("answer", math::is_square<T>(s * s + d)).emit();
  }
  {
    const T v = coin(r, 1, 2) ? rnd(r, 0, 20) : rnd(r, 0, 1000000000);
    const auto [a, b] = math::split_integral<T>(v);
    Rec().str("ev", "split").num("v", v).num("a", a).num("b", b).emit();
  }
  {
    const T cols = rnd(r, 1, 20), row = rnd(r, 0, 30), col = rnd(r, 0, (int)cols - 1);
    const T pos = math::encode_grid_position<T>(row, col, cols);
    const auto [i, j] = math::decode_grid_position<T>(pos, cols);
    Rec().str("ev", "grid").num("row", row).num("col", col).num("cols", cols).num("pos", pos).arr("back", std::vector<long>{(long)i, (long)j}).emit();
  }
}
void summary(Rng &r) {
  auto v = values(r, rnd(r, 1, 60), -1000, 1000);
  const auto [lo, mean, hi] = math::find_min_mean_max(v);
  Rec().str("ev", "mmm").arr("v", v).num("min", lo).num("max", hi).num("sum", std::llround(mean * (double)v.size())).emit();
  std::sort(v.begin(), v.end());
  const int den = 1 << rnd(r, 0, 6), num = rnd(r, 1, den);
  Rec().str("ev", "perc").arr("v", v).num("num", num).num("den", den).num("result", math::percentile(v, (double)num / den)).emit();
}
void randomness(Rng &r) {
  Random &rand = Random::instance();
  {
    const std::size_t lo = rnd(r, 0, 50), hi = lo + 1 + (coin(r, 1, 3) ? 0 : rnd(r, 0, 20));
    std::vector<long> got;
    for (int i = 0; i < 30; ++i) got.push_back(rand.random_index(lo, hi));
    Rec().str("ev", "index").num("lo", lo).num("hi", hi).arr("got", got).emit();
  }
  {
    auto a = values(r, rnd(r, 0, 64), 0, 40), b = a;
    if (coin(r, 1, 2)) rand.shuffle(b); else rand.shuffle(b.begin(), b.end());
    Rec().str("ev", "shuffle").arr("a", a).arr("b", b).emit();
  }
  {
    RandomPermutations<std::uint16_t, 48, 8> perms(rand);
    RandomPermutations<std::uint8_t, 48, 3> own;
    std::vector<std::vector<long>> p;
    for (int i = 0; i < 3; ++i) {
      const auto &x = perms.get();
      p.emplace_back(x.begin(), x.end());
      const auto &y = own.get(rand);
      p.emplace_back(y.begin(), y.end());
    }
    Rec().str("ev", "perm").num("size", 48).arr2("p", p).emit();
  }
}

int main(int argc, char **argv) {
  Rng r(std::atoi(argv[1]));
  const int count = std::atoi(argv[2]);
  Random::reseed(std::atoi(argv[1]));
  for (int i = 0; i < count; ++i) {
    const int threads = rnd(r, 1, 8);
    tbb::global_control gc(tbb::global_control::max_allowed_parallelism, 8);
    tbb::task_arena arena(threads);
    arena.execute([&] {
      switch (i % 8) {
      case 0:
        accumulate<std::int64_t>(r, "i64"), accumulate<std::uint32_t>(r, "u32"), accumulate<std::uint8_t>(r, "u8");
        break;
      case 1:
        maximum<std::int32_t>(r, "i32"), maximum<std::int64_t>(r, "i64"), maximum<std::uint32_t>(r, "u32");
        maximum<std::uint64_t>(r, "u64"), maximum<double>(r, "double"), maximum<float>(r, "float");
        break;
      case 2:
        difference<std::int64_t>(r, "i64"), difference<std::uint64_t>(r, "u64"), difference<std::int32_t>(r, "i32");
        difference<std::uint32_t>(r, "u32"), difference<double>(r, "double");
        break;
      case 3:
        scan<std::uint64_t>(r, "u64"), scan<std::int64_t>(r, "i64"), scan<std::uint32_t>(r, "u32");
        break;
      case 4:
        aligned<std::uint64_t>(r, "u64"), aligned<std::uint32_t>(r, "u32");
        break;
      case 5:
        chunks(r), chunks(r), detfor<std::size_t>(r), detfor<std::uint32_t>(r), ets(r);
        break;
      case 6:
        for (int j = 0; j < 4; ++j) {
          bitwise<std::uint32_t>(r), bitwise<std::uint64_t>(r);
          mask<std::uint32_t>(r), mask<std::uint64_t>(r), mask<std::int32_t>(r);
          arithmetic<std::uint32_t>(r), arithmetic<std::uint64_t>(r), arithmetic<std::int64_t>(r);
        }
        break;
      default:
        local<std::uint32_t>(r), local<std::uint64_t>(r), local<std::int64_t>(r), finddist(r), summary(r), randomness(r);
      }
    });
  }
}
