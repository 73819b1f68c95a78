// Byte codecs: a buffer written item by item and read back item by item.
// usage: codecs SEED COUNT
#include "vp.h"

#include "kaminpar-common/datastructures/bitvector_rank.h"
#include "kaminpar-common/datastructures/compact_static_array.h"
#include "kaminpar-common/graph_compression/streamvbyte.h"
#include "kaminpar-common/graph_compression/varint.h"

using namespace kaminpar;
using vp::Rec;
static vp::Rng rng;

static std::string q(const std::string &s) { return "\"" + s + "\""; }
template <typename Int> static std::string num(Int v) { return q(std::to_string(v)); }

// values of every width, at and around the borders of widths
template <typename Int> static Int value() {
  using U = std::make_unsigned_t<Int>;
  const int bits = sizeof(U) * 8;
  U v;
  switch (rng() % 4) {
  case 0: v = (U)rng() >> vp::rnd(rng, 0, bits - 1); break;
  case 1: v = (U)1 << vp::rnd(rng, 0, bits - 1); break;
  case 2: v = ((U)1 << vp::rnd(rng, 0, bits - 1)) - 1; break;
  default: v = vp::coin(rng, 1, 4) ? (U)~(U)0 - (U)(rng() % 3) : (U)(rng() % 300);
  }
  if (std::is_signed_v<Int> && vp::coin(rng, 1, 2)) v = (U)0 - v;
  return (Int)v;
}

struct Item {
  std::string kind, val;
  bool mark;
  long long len, claimed, used;
  std::string got;
  bool gotmark;
};

template <typename Int> static void read_varint(const std::uint8_t *&p, Item &it) {
  const std::uint8_t *b = p;
  Int v;
  switch (rng() % 5) {
  case 0: v = varint_decode<Int>(&p); break;
  case 1: v = varint_decode_loop<Int>(&p); break;
  case 2: v = varint_decode_pext_unrolled<Int>(&p); break;
  case 3:
    if constexpr (sizeof(Int) == 4) { v = varint_decode_pext_branchless<Int>(&p); break; }
    [[fallthrough]];
  default: v = varint_decode<Int>((const std::uint8_t *)p); p += it.len;
  }
  it.used = p - b;
  it.got = num(v);
  it.gotmark = false;
}

static void stream() {
  const int n = vp::rnd(rng, 1, 40);
  std::vector<std::uint8_t> buf(n * 12 + 16, 0xAB);
  std::vector<Item> items(n);
  std::uint8_t *w = buf.data();
  auto put = [&](Item &it, auto v, auto length, auto enc_pp, auto enc_p) {
    it.val = num(v);
    it.claimed = length(v);
    std::uint8_t *b = w;
    if (vp::coin(rng, 1, 2)) enc_pp(v, &w); else w += enc_p(v, w);
    it.len = w - b;
  };
  for (auto &it : items) {
    it.mark = false;
    switch (rng() % 6) {
    case 0: it.kind = "u32"; put(it, value<std::uint32_t>(), [](auto v) { return varint_length(v); }, [](auto v, auto **p) { varint_encode(v, p); }, [](auto v, auto *p) { return varint_encode(v, p); }); break;
    case 1: it.kind = "u64"; put(it, value<std::uint64_t>(), [](auto v) { return varint_length(v); }, [](auto v, auto **p) { varint_encode(v, p); }, [](auto v, auto *p) { return varint_encode(v, p); }); break;
    case 2: it.kind = "s32"; put(it, value<std::int32_t>(), [](auto v) { return signed_varint_length(v); }, [](auto v, auto **p) { signed_varint_encode(v, p); }, [](auto v, auto *p) { return signed_varint_encode(v, p); }); break;
    case 3: it.kind = "s64"; put(it, value<std::int64_t>(), [](auto v) { return signed_varint_length(v); }, [](auto v, auto **p) { signed_varint_encode(v, p); }, [](auto v, auto *p) { return signed_varint_encode(v, p); }); break;
    case 4: it.kind = "m32"; it.mark = rng() % 2; put(it, value<std::uint32_t>(), [](auto v) { return marked_varint_length(v); }, [&](auto v, auto **p) { marked_varint_encode(v, it.mark, p); }, [&](auto v, auto *p) { return marked_varint_encode(v, it.mark, p); }); break;
    default: it.kind = "m64"; it.mark = rng() % 2; put(it, value<std::uint64_t>(), [](auto v) { return marked_varint_length(v); }, [&](auto v, auto **p) { marked_varint_encode(v, it.mark, p); }, [&](auto v, auto *p) { return marked_varint_encode(v, it.mark, p); });
    }
  }
  const std::uint8_t *r = buf.data();
  for (auto &it : items) {
    const std::uint8_t *b = r;
    it.gotmark = false;
    const bool inplace = vp::coin(rng, 1, 3);
    if (it.kind == "u32") read_varint<std::uint32_t>(r, it);
    else if (it.kind == "u64") read_varint<std::uint64_t>(r, it);
    else if (it.kind == "s32") it.got = inplace ? num(signed_varint_decode<std::int32_t>(r)) : num(signed_varint_decode<std::int32_t>(&r));
    else if (it.kind == "s64") it.got = inplace ? num(signed_varint_decode<std::int64_t>(r)) : num(signed_varint_decode<std::int64_t>(&r));
    else if (it.kind == "m32") {
      const auto [v, m] = inplace ? marked_varint_decode<std::uint32_t>(r) : marked_varint_decode<std::uint32_t>(&r);
      it.got = num(v), it.gotmark = m;
    } else {
      const auto [v, m] = inplace ? marked_varint_decode<std::uint64_t>(r) : marked_varint_decode<std::uint64_t>(&r);
      it.got = num(v), it.gotmark = m;
    }
    if (it.kind[0] != 'u' && inplace) r += it.len;
    it.used = r - b;
  }
  for (auto &it : items)
    Rec().str("ev", "put").str("kind", it.kind).raw("val", it.val).boolean("mark", it.mark).num("len", it.len).num("claimed", it.claimed).emit();
  for (auto &it : items)
    Rec().str("ev", "get").str("kind", it.kind).raw("val", it.got).boolean("mark", it.gotmark).num("len", it.used).emit();
  Rec().str("ev", "end").emit();
}

template <typename C> static std::string strs(const C &c) {
  std::string s = "[";
  for (auto v : c) s += (s.size() > 1 ? "," : "") + num(v);
  return s + "]";
}

template <typename Int, streamvbyte::DifferentialCodingKind Kind, bool Pairs = false> static void svb(const char *name) {
  int n = vp::rnd(rng, 1, vp::coin(rng, 1, 4) ? 70 : 12);
  if (Pairs) n *= 2;
  const bool any = Kind == streamvbyte::DifferentialCodingKind::NONE || Kind == streamvbyte::DifferentialCodingKind::D2;
  std::vector<Int> vals(n);
  const int shift = vp::rnd(rng, 0, sizeof(Int) * 8 - 1);
  for (auto &v : vals) v = vp::coin(rng, 1, 2) ? value<Int>() : (Int)((Int)rng() >> shift);
  if (!any) std::sort(vals.begin(), vals.end());
  std::vector<std::uint8_t> buf(n * (sizeof(Int) + 1) + 64, 0xCD);
  std::size_t sum = 0;
  std::uint8_t *end;
  {
    streamvbyte::StreamVByteEncoder<Int, Kind> enc(n, buf.data());
    for (const Int v : vals) sum += enc.add(v);
    end = enc.flush();
  }
  std::fill(end, buf.data() + buf.size(), (std::uint8_t)rng());
  std::vector<Int> got, head;
  const int stop = vp::rnd(rng, 1, n);
  if constexpr (Pairs) {
    {
      streamvbyte::StreamVByteDecoder<Int, true, Kind> dec(n, buf.data());
      dec.decode([&](const Int a, const Int b) { got.push_back(a), got.push_back(b); });
    }
    streamvbyte::StreamVByteDecoder<Int, true, Kind> dec(n, buf.data());
    dec.decode([&](const Int a, const Int b) { head.push_back(a), head.push_back(b); return (int)head.size() >= stop; });
  } else {
    {
      streamvbyte::StreamVByteDecoder<Int, false, Kind> dec(n, buf.data());
      dec.decode([&](const Int a) { got.push_back(a); });
    }
    streamvbyte::StreamVByteDecoder<Int, false, Kind> dec(n, buf.data());
    dec.decode([&](const Int a) { head.push_back(a); return (int)head.size() >= stop; });
  }
  Rec().str("ev", "block").str("kind", name).raw("vals", strs(vals)).raw("got", strs(got)).raw("head", strs(head))
      .num("stop", Pairs ? stop + stop % 2 : stop).num("sum", sum).num("size", end - buf.data()).emit();
}

template <typename Int> static void compact() {
  const int n = vp::rnd(rng, 0, 30), width = vp::rnd(rng, 1, sizeof(Int));
  CompactStaticArray<Int> a(width, n);
  std::vector<Int> last(n, 0);
  const Int mask = width == sizeof(Int) ? (Int)~(Int)0 : (Int)(((Int)1 << (8 * width)) - 1);
  std::vector<long long> pos;
  std::vector<Int> val;
  for (int i = 0; n > 0 && i < 2 * n; ++i) {
    pos.push_back(i < n ? i : rng() % n);
    val.push_back(value<Int>() & mask);
    a.write(pos.back(), val.back());
  }
  std::vector<Int> got, it, cut, uncut;
  for (std::size_t i = 0; i < a.size(); ++i) got.push_back(a[i]);
  for (auto i = a.begin(); i != a.end(); ++i) it.push_back(*i);
  const int k = vp::rnd(rng, 0, n);
  a.restrict(k);
  for (auto i = a.begin(); i != a.end(); ++i) cut.push_back(*i);
  const long long cs = a.size();
  a.unrestrict();
  for (std::size_t i = 0; i < a.size(); ++i) uncut.push_back(a[i]);
  Rec().str("ev", "compact").num("n", n).num("width", width).arr("pos", pos).raw("val", strs(val)).raw("got", strs(got)).raw("it", strs(it))
      .num("k", k).num("cutsize", cs).raw("cut", strs(cut)).raw("uncut", strs(uncut)).emit();
}

static void bits() {
  const int n = vp::coin(rng, 1, 6) ? vp::rnd(rng, 65000, 70000) : vp::rnd(rng, 1, 3000);
  const int mode = rng() % 3;
  const int pct = vp::pick(rng, std::vector<int>{1, 10, 50, 90, 99});
  RankCombinedBitVector<> b = mode == 0 ? RankCombinedBitVector<>(n) : RankCombinedBitVector<>(n, mode == 2);
  std::vector<bool> ref(n, mode == 2);
  for (int i = 0; i < n; ++i) {
    const bool v = vp::coin(rng, pct, 100);
    if (mode == 0) b.set(i, v), ref[i] = v;
    else if (mode == 1 && v) b.set(i), ref[i] = true;
    else if (mode == 2 && v) b.unset(i), ref[i] = false;
  }
  b.update();
  std::vector<long long> ones, probe, rank, ask, is;
  for (int i = 0; i < n; ++i)
    if (ref[i]) ones.push_back(i);
  // probed in ascending order: rank counts the set bits below
  for (int i = 0; i < 60; ++i) probe.push_back(vp::coin(rng, 1, 2) ? rng() % n : std::min<long long>(n - 1, (rng() % (n / 64 + 1)) * 64 + rng() % 3));
  std::sort(probe.begin(), probe.end());
  for (auto p : probe) rank.push_back(b.rank(p)), is.push_back(b.is_set(p));
  Rec().str("ev", "bits").num("n", n).arr("ones", ones).arr("probe", probe).arr("rank", rank).arr("is", is).emit();
}

int main(int argc, char **argv) {
  rng.seed(std::stoull(argv[1]));
  const int count = std::stoi(argv[2]);
  vp::guard_wall(120);
#ifdef KAMINPAR_COMPRESSION_FAST_DECODING
  if (!__builtin_cpu_supports("bmi2")) return 0;
#endif
  using K = streamvbyte::DifferentialCodingKind;
  for (int i = 0; i < count; ++i) {
    stream();
    svb<std::uint32_t, K::NONE>("32");
    svb<std::uint32_t, K::D1>("32 D1");
    svb<std::uint32_t, K::D2>("32 D2");
    svb<std::uint32_t, K::D2, true>("32 D2 pairs");
    svb<std::uint32_t, K::DM>("32 DM");
    svb<std::uint32_t, K::D4>("32 D4");
    svb<std::uint64_t, K::NONE>("64");
    compact<std::uint32_t>();
    compact<std::uint64_t>();
    if (i % 4 == 0) bits();
  }
}
