// Drives the containers of kaminpar-common/datastructures with random histories.
// usage: containers SEED COUNT map|set|seq|par|wrap
#include "vp.h"

#include <deque>
#include <memory>
#include <mutex>
#include <thread>

#include <tbb/global_control.h>
#include <tbb/parallel_for.h>
#include <tbb/task_arena.h>

#include "kaminpar-common/datastructures/compact_hash_map.h"
#include "kaminpar-common/datastructures/concurrent_circular_vector.h"
#include "kaminpar-common/datastructures/concurrent_fast_reset_array.h"
#include "kaminpar-common/datastructures/dynamic_map.h"
#include "kaminpar-common/datastructures/fast_reset_array.h"
#include "kaminpar-common/datastructures/fixed_size_sparse_map.h"
#include "kaminpar-common/datastructures/marker.h"
#include "kaminpar-common/datastructures/maxsize_vector.h"
#include "kaminpar-common/datastructures/noinit_vector.h"
#include "kaminpar-common/datastructures/queue.h"
#include "kaminpar-common/datastructures/rating_map.h"
#include "kaminpar-common/datastructures/scalable_vector.h"
#include "kaminpar-common/datastructures/sparse_map.h"
#include "kaminpar-common/datastructures/static_array.h"
#include "kaminpar-common/datastructures/ts_navigable_linked_list.h"

using namespace kaminpar;
using namespace vp;
using Pairs = std::vector<std::vector<long long>>;

// ---------------------------------------------------------------- maps
struct Map {
  virtual ~Map() = default;
  long limit = 1000;          // at most this many different keys
  long keys = 1000;           // keys 0 .. keys - 1
  int d = 0;                  // value of new keys
  bool insert_ok = false, remove_ok = false, dec_only = false, touch_ok = true, nonzero = false, all_ok = true;
  virtual void add(long k, long v) = 0; // [k] += v
  virtual int add_new(long, long) { return -1; }
  virtual int dec(long, long) { return -1; }
  virtual void set(long k, long v) = 0;
  virtual void touch(long) {}
  virtual void insert(long, long) {}
  virtual void remove(long) {}
  virtual void clear() = 0;
  virtual bool renew(Rng &) { return false; } // clear and enlarge
  virtual bool move() { return false; }
  virtual long size() = 0;
  virtual bool contains(long k) = 0;
  virtual long get(long k) = 0;
  virtual Pairs all(int) { return {}; }
  virtual int alls() { return 1; }
};

// keys of hash maps: arbitrary numbers behind small ones
template <typename Key> struct KeyTable {
  std::vector<Key> table;
  std::map<Key, long> back;
  KeyTable(Rng &r, long n) {
    std::set<Key> s;
    const int style = rnd(r, 0, 3);
    while ((long)s.size() < n) {
      switch (style) {
      case 0: s.insert((Key)s.size()); break;
      case 1: s.insert((Key)(s.size() << rnd(r, 0, 6))); break;
      case 2: s.insert((Key)r()); break;
      case 3: s.insert(coin(r, 1, 2) ? (Key)(std::numeric_limits<Key>::max() - (Key)rnd(r, 0, 3 * n)) : (Key)rnd(r, 0, 3 * n)); break;
      }
    }
    for (Key k : s) table.push_back(k);
    std::shuffle(table.begin(), table.end(), r);
    for (std::size_t i = 0; i < table.size(); ++i) back[table[i]] = i;
  }
  Key operator()(long i) const { return table[i]; }
  long rank(Key k) const {
    auto it = back.find(k);
    return it == back.end() ? -1 : it->second;
  }
};

template <typename M, typename Key, bool kEntries> struct DynMap : Map {
  M m;
  KeyTable<Key> K;
  DynMap(Rng &r, long n) : K(r, n) {
    keys = limit = n;
  }
  void add(long k, long v) override { m[K(k)] += v; }
  void set(long k, long v) override { m[K(k)] = v; }
  void touch(long k) override { (void)m[K(k)]; }
  void clear() override { m.clear(); }
  bool move() override {
    M o(std::move(m));
    m = std::move(o);
    return true;
  }
  long size() override { return m.size(); }
  bool contains(long k) override {
    const bool a = m.contains(K(k)), b = m.get_if_contained(K(k)) != m.end();
    if (a != b) return !a;
    return a;
  }
  long get(long k) override {
    const auto *p = m.get_if_contained(K(k));
    return p == m.end() ? 0 : (*p == m.get(K(k)) ? (long)*p : -77);
  }
  int alls() override { return kEntries ? 2 : 1; }
  Pairs all(int which) override {
    Pairs p;
    if (which == 0) {
      m.for_each([&](const Key k, const auto v) { p.push_back({K.rank(k), (long long)v}); });
    } else {
      if constexpr (kEntries) {
        for (const auto [k, v] : m.entries()) p.push_back({K.rank(k), (long long)v});
      }
    }
    return p;
  }
};

template <std::size_t kSize, typename Key, typename Value> struct Fixed : Map {
  FixedSizeSparseMap<Key, Value, kSize> m;
  KeyTable<Key> K;
  Fixed(Rng &r, int init) : m((Value)init), K(r, 3 * kSize) {
    d = init;
    keys = 3 * kSize;
    limit = kSize - 1;
  }
  void add(long k, long v) override { m[K(k)] += v; }
  void set(long k, long v) override { m[K(k)] = v; }
  void touch(long k) override { (void)m[K(k)]; }
  void clear() override { m.clear(); }
  bool renew(Rng &r) override {
    const std::size_t n = rnd(r, 1, 2 * m.capacity());
    const std::size_t before = m.capacity();
    m.clear();
    m.set_max_size(n);
    if (m.capacity() < std::max(before, n)) abort();
    limit = std::min<long>(m.capacity(), keys) - 1;
    return true;
  }
  long size() override { return m.size(); }
  bool contains(long k) override { return m.contains(K(k)); }
  long get(long k) override { return contains(k) ? (long)m.get(K(k)) : d; }
  Pairs all(int) override {
    Pairs p;
    for (const auto &e : m.entries()) p.push_back({K.rank(e.key), (long long)e.value});
    return p;
  }
};

template <typename Key, typename Value> struct Sparse : Map {
  kaminpar::SparseMap<Key, Value> m;
  Sparse(Rng &r, long n) : m(coin(r, 1, 2) ? n : 0) {
    keys = limit = n;
    insert_ok = remove_ok = true;
    if (!m.is_allocated()) m.resize(n);
  }
  void add(long k, long v) override { m[k] += v; }
  void set(long k, long v) override { m[k] = v; }
  void touch(long k) override { (void)m[k]; }
  void insert(long k, long v) override { m.add(k, v); }
  void remove(long k) override { m.remove(k); }
  void clear() override { m.clear(); }
  bool renew(Rng &r) override {
    if (coin(r, 2, 3)) m.clear();
    keys = limit = rnd(r, 1, 80);
    m.resize(keys); // whatever was stored is gone
    return true;
  }
  bool move() override {
    kaminpar::SparseMap<Key, Value> o(std::move(m));
    m = std::move(o);
    return true;
  }
  long size() override { return m.size(); }
  bool contains(long k) override { return m.contains(k); }
  long get(long k) override { return contains(k) ? (long)m.get(k) : 0; }
  Pairs all(int) override {
    Pairs p;
    for (const auto &e : m.entries()) p.push_back({(long long)e.key, (long long)e.value});
    return p;
  }
};

template <typename Value, typename Size> struct Reset : Map {
  FastResetArray<Value, Size> m;
  Reset(Rng &r, long n) : m(coin(r, 1, 2) ? n : 0) {
    keys = limit = n;
    nonzero = true;
    touch_ok = false;
    if (m.capacity() == 0) m.resize(n);
  }
  void add(long k, long v) override { m[k] += v; }
  void set(long k, long v) override { m.set(k, v); }
  void clear() override { m.clear(); }
  bool renew(Rng &r) override {
    m.clear();
    keys = limit = rnd(r, 1, 80);
    m.resize(keys);
    if ((long)m.capacity() != keys) abort();
    return true;
  }
  bool move() override {
    FastResetArray<Value, Size> o(std::move(m));
    m = std::move(o);
    return true;
  }
  long size() override { return m.empty() != (m.size() == 0) ? -1 : (long)m.size(); }
  bool contains(long k) override { return m.exists(k); }
  long get(long k) override {
    const auto &c = m;
    return c[k] == m.get(k) ? (long)c[k] : -77;
  }
  int alls() override { return 2; }
  Pairs all(int which) override {
    Pairs p;
    if (which == 0) {
      for (const auto [k, v] : m.entries()) p.push_back({(long long)k, (long long)v});
    } else {
      for (const auto k : m.used_entry_ids()) p.push_back({(long long)k});
      std::size_t i = 0;
      for (const auto v : m.used_entry_values()) p[i++].push_back((long long)v);
    }
    return p;
  }
};

template <typename Type, bool kFull> struct Compact : Map {
  std::vector<Type> data;
  int bits;
  CompactHashMap<Type, kFull> m;
  long maxval;
  static long slots(Rng &r) { return 1 << rnd(r, kFull ? 0 : 1, 5); }
  Compact(Rng &r, long size, long n)
      : data(size, 0),
        bits(CompactHashMap<Type, kFull>::compute_key_bits(n)),
        m(data.data(), size, bits) {
    keys = n;
    limit = kFull ? size : size - 1;
    dec_only = true;
    touch_ok = false;
    nonzero = true;
    const int vb = std::numeric_limits<Type>::digits - bits;
    maxval = vb >= 30 ? 1000000000 : (1l << vb) - 1;
  }
  void add(long, long) override { abort(); }
  int add_new(long k, long v) override { return m.increase_by(k, v); }
  int dec(long k, long v) override { return m.decrease_by(k, v); }
  void set(long, long) override { abort(); }
  void clear() override { std::fill(data.begin(), data.end(), 0); }
  long size() override { return m.count(); }
  bool contains(long k) override { return m.get(k) != 0; }
  long get(long k) override { return m.get(k); }
  Pairs all(int) override {
    Pairs p;
    m.for_each([&](const Type k, const Type v) { p.push_back({(long long)k, (long long)v}); });
    return p;
  }
};

static void observe(Rng &r, Map &m, Rec &rec, const std::vector<long> &ks, bool all) {
  Pairs probe, gets;
  for (long k : ks) {
    const bool c = m.contains(k);
    probe.push_back({k, c});
    if (c || m.nonzero) gets.push_back({k, m.get(k)});
  }
  rec.num("size", m.size()).arr2("probe", probe).arr2("gets", gets);
  std::string s = "[";
  if (all) {
    Pairs p = m.all(m.alls() == 2 && coin(r, 1, 2) ? 1 : 0);
    s += "[";
    for (std::size_t i = 0; i < p.size(); ++i)
      s += (i ? ",[" : "[") + std::to_string(p[i][0]) + "," + std::to_string(p[i][1]) + "]";
    s += "]";
  }
  rec.raw("all", s + "]");
}

static void map_session(Rng &r, Map &m, const std::string &name, long maxval) {
  Rec().str("ev", "new").str("type", "map").str("name", name).num("d", m.d).emit();
  std::map<long, long> ref; // only to choose admissible operations
  m.clear();
  const int steps = rnd(r, 5, 80);
  for (int i = 0; i < steps; ++i) {
    Rec rec;
    rec.str("ev", "map");
    long k = rnd(r, 0, m.keys - 1);
    if (!ref.empty() && coin(r, 1, 2)) k = std::next(ref.begin(), rnd(r, 0, ref.size() - 1))->first;
    const bool have = ref.count(k);
    const bool room = have || (long)ref.size() < m.limit;
    long v = coin(r, 1, 6) ? rnd(r, 1, std::min(maxval, 1000000l)) : rnd(r, 1, std::min(maxval, 5l));
    std::string op = "look";
    int fresh = -1;
    const int what = rnd(r, 0, 99);
    const long now = have ? ref[k] : m.d;
    if (m.dec_only) {
      if (have && what < 45) {
        if (coin(r, 1, 2)) v = now;
        v = std::min(v, now);
        op = "dec";
        fresh = m.dec(k, v);
        if (v == now) ref.erase(k);
        else ref[k] = now - v;
      } else if (room && what < 95 && now < maxval) {
        v = std::min(v, maxval - now);
        op = "add";
        fresh = m.add_new(k, v);
        ref[k] = now + v;
      } else if (what >= 99) {
        op = "clear";
        m.clear();
        ref.clear();
      }
    } else if (what < 40 && room) {
      if (!m.nonzero && coin(r, 1, 5)) v = -v;
      op = "add";
      m.add(k, v);
      ref[k] = now + v;
    } else if (what < 50 && room) {
      op = "set";
      if (!m.nonzero && coin(r, 1, 5)) v = 0;
      m.set(k, v);
      ref[k] = v;
    } else if (what < 58 && room && m.touch_ok) {
      op = "touch";
      m.touch(k);
      ref[k] = now;
    } else if (what < 66 && room && m.insert_ok) {
      op = "insert";
      m.insert(k, v);
      ref.insert({k, v});
    } else if (what < 80 && m.remove_ok) {
      op = "remove";
      m.remove(k);
      ref.erase(k);
    } else if (what < 86) {
      // several insertions at once, e.g. to make the table grow
      op = "adds";
      Pairs p;
      const int n = rnd(r, 1, 30);
      for (int j = 0; j < n; ++j) {
        const long kk = rnd(r, 0, m.keys - 1);
        if (!ref.count(kk) && (long)ref.size() >= m.limit) continue;
        const long vv = rnd(r, 1, 9);
        m.add(kk, vv);
        ref[kk] = (ref.count(kk) ? ref[kk] : m.d) + vv;
        p.push_back({kk, vv});
      }
      rec.arr2("pairs", p);
    } else if (what < 89) {
      op = "clear";
      m.clear();
      ref.clear();
    } else if (what < 92) {
      if (m.renew(r)) {
        op = "renew";
        ref.clear();
        k = rnd(r, 0, m.keys - 1);
      }
    } else if (what < 94) {
      if (m.move()) op = "move";
    } else if (what < 95 && m.keys > 40) {
      m.clear();
      ref.clear();
      op = "bulk";
      std::vector<long> ks(m.keys);
      std::iota(ks.begin(), ks.end(), 0);
      std::shuffle(ks.begin(), ks.end(), r);
      ks.resize(rnd(r, 1, std::min<long>(m.limit, ks.size())));
      Rec c;
      c.str("ev", "map").str("op", "clear").num("key", 0).num("val", 0).num("new", -1);
      observe(r, m, c, {0}, true);
      c.emit();
      Pairs p;
      for (long x : ks) {
        const long vv = rnd(r, 1, 99);
        m.add(x, vv);
        p.push_back({x, m.d + vv});
        ref[x] = m.d + vv;
      }
      rec.arr2("pairs", p);
    }
    rec.str("op", op).num("key", k).num("val", v).num("new", fresh);
    std::vector<long> ks{k};
    for (int j = 0; j < 2; ++j) ks.push_back(rnd(r, 0, m.keys - 1));
    if (m.keys < 50 && coin(r, 1, 6)) for (long x = 0; x < m.keys; ++x) ks.push_back(x);
    observe(r, m, rec, ks, op == "bulk" || coin(r, 1, 3));
    rec.emit();
  }
}

// rating maps choose between three maps: every use gets a bound and clears the map
template <template <typename, typename> typename Large> static void rating_session(Rng &r, const std::string &name) {
  long cap = coin(r, 1, 2) ? rnd(r, 1, 300) : rnd(r, 32768, 40000);
  RatingMap<std::int32_t, std::uint32_t, Large> rm(cap);
  const int uses = rnd(r, 1, 8);
  for (int u = 0; u < uses; ++u) {
    if (coin(r, 1, 5)) {
      cap = coin(r, 1, 2) ? rnd(r, 1, 300) : rnd(r, 32768, 40000);
      rm.change_max_size(cap);
    }
    static const long bounds[] = {1, 2, 41, 42, 43, 100, 10921, 10922, 10923, 11000, 30000};
    const long bound = std::min<long>(cap, coin(r, 1, 2) ? bounds[rnd(r, 0, 10)] : rnd(r, 1, 600));
    const long cnt = coin(r, 1, 3) ? std::min(bound, 700l) : (long)rnd(r, 0, std::min(bound, 60l));
    Rec().str("ev", "new").str("type", "map").str("name", name).num("d", 0).emit();
    std::vector<long> ks;
    std::set<long> seen;
    while ((long)seen.size() < cnt) seen.insert(coin(r, 1, 2) ? rnd(r, 0, cap - 1) : rnd(r, 0, std::min<long>(cap - 1, cnt * 2)));
    ks.assign(seen.begin(), seen.end());
    std::shuffle(ks.begin(), ks.end(), r);
    rm.execute(bound, [&](auto &m) {
      Pairs p;
      std::map<long, long> sum;
      for (long k : ks) {
        const int v = rnd(r, 1, 50);
        m[k] += v;
        sum[k] += v;
      }
      const int more = ks.empty() ? 0 : (int)rnd(r, 0, 40);
      for (int i = 0; i < more; ++i) {
        const long k = pick(r, ks);
        const int v = rnd(r, 1, 50);
        m[k] += v;
        sum[k] += v;
      }
      for (auto [k, v] : sum) p.push_back({k, v});
      std::string s = "[[";
      long n = 0;
      for (const auto &[k, v] : m.entries()) s += (n++ ? ",[" : "[") + std::to_string((long)k) + "," + std::to_string((long)v) + "]";
      Rec().str("ev", "map").str("op", "bulk").num("key", 0).num("val", 0).num("new", -1).num("bound", bound).num("cap", cap)
          .arr2("pairs", p).num("size", n).raw("all", s + "]]").raw("probe", "[]").raw("gets", "[]").emit();
      m.clear();
      n = 0;
      for (const auto &[k, v] : m.entries()) ++n, (void)k, (void)v;
      Rec().str("ev", "map").str("op", "clear").num("key", 0).num("val", 0).num("new", -1).num("size", n)
          .raw("all", "[]").raw("probe", "[]").raw("gets", "[]").emit();
    });
  }
}

static void maps(Rng &r) {
  std::unique_ptr<Map> m;
  std::string name;
  long maxval = 1000000000;
  const long n = coin(r, 1, 5) ? rnd(r, 100, 400) : rnd(r, 1, 60);
  switch (rnd(r, 0, 14)) {
  case 0: name = "flat32"; m = std::make_unique<DynMap<DynamicFlatMap<std::uint32_t, std::int32_t>, std::uint32_t, false>>(r, n); break;
  case 1: name = "flat64"; m = std::make_unique<DynMap<DynamicFlatMap<std::size_t, std::int64_t>, std::size_t, false>>(r, n); break;
  case 2: name = "remember32"; m = std::make_unique<DynMap<DynamicRememberingFlatMap<std::uint32_t, std::int32_t, std::uint32_t>, std::uint32_t, true>>(r, n); break;
  case 3: name = "remember64"; m = std::make_unique<DynMap<DynamicRememberingFlatMap<std::uint64_t, std::int64_t>, std::uint64_t, true>>(r, n); break;
  case 4: name = "fixed4"; m = std::make_unique<Fixed<4, std::uint32_t, std::int32_t>>(r, coin(r, 1, 2) ? 0 : (int)rnd(r, -5, 5)); break;
  case 5: name = "fixed16"; m = std::make_unique<Fixed<16, std::uint64_t, std::int64_t>>(r, coin(r, 1, 2) ? 0 : (int)rnd(r, -5, 5)); break;
  case 6: name = "fixed128"; m = std::make_unique<Fixed<128, std::uint32_t, std::int64_t>>(r, 0); break;
  case 7: name = "sparse32"; m = std::make_unique<Sparse<std::uint32_t, std::int32_t>>(r, n); break;
  case 8: name = "sparse64"; m = std::make_unique<Sparse<std::uint32_t, std::int64_t>>(r, n); break;
  case 9: name = "reset32"; m = std::make_unique<Reset<std::int32_t, std::uint32_t>>(r, n); break;
  case 10: name = "reset64"; m = std::make_unique<Reset<std::int64_t, std::size_t>>(r, n); break;
  case 11: {
    name = "compact32/full";
    const long s = Compact<std::uint32_t, true>::slots(r);
    auto c = std::make_unique<Compact<std::uint32_t, true>>(r, s, rnd(r, 2, 64));
    maxval = c->maxval;
    m = std::move(c);
    break;
  }
  case 12: {
    name = "compact32";
    const long s = Compact<std::uint32_t, false>::slots(r);
    auto c = std::make_unique<Compact<std::uint32_t, false>>(r, s, rnd(r, 2, 200));
    maxval = c->maxval;
    m = std::move(c);
    break;
  }
  case 13: {
    name = "compact64";
    const long s = Compact<std::uint64_t, false>::slots(r);
    auto c = std::make_unique<Compact<std::uint64_t, false>>(r, s, rnd(r, 2, 100000));
    maxval = c->maxval;
    m = std::move(c);
    break;
  }
  case 14:
    switch (rnd(r, 0, 2)) {
    case 0: rating_session<rm_backyard::FastResetArray>(r, "rating/reset"); break;
    case 1: rating_session<rm_backyard::SparseMap>(r, "rating/sparse"); break;
    case 2: rating_session<rm_backyard::UnorderedMap>(r, "rating/unordered"); break;
    }
    return;
  }
  map_session(r, *m, name, maxval);
  if (coin(r, 1, 3)) map_session(r, *m, name, maxval);
}

// ---------------------------------------------------------------- markers
// wraps: number of resets after which the marks of the type start over, or 0: only a few resets
template <std::size_t kMarkers, typename Value, template <typename...> typename C>
static void set_session(Rng &r, const std::string &name, unsigned long long jump = 0) {
  using M = Marker<kMarkers, Value, C>;
  long n = rnd(r, 1, 40);
  M m;
  if (coin(r, 1, 2)) m = M(n);
  else m.resize(n);
  const bool track = coin(r, 1, 2); // all insertions of a session keep track of the first unmarked element
  Rec().str("ev", "new").str("type", "set").str("name", name).num("d", 0).num("markers", kMarkers).num("n", n).emit();
  auto see = [&](Rec &rec) {
    Pairs probe;
    const bool all = coin(r, 1, 3);
    for (long e = 0; e < n; ++e)
      for (std::size_t k = 0; k < kMarkers; ++k)
        if (all || coin(r, 1, 8)) probe.push_back({e, (long long)k + 1, m.get(e, k)});
    rec.arr2("probe", probe).num("capacity", m.capacity() == m.size() ? (long)m.capacity() : -1).num("n", n);
    std::vector<long> f;
    if (track) for (std::size_t k = 0; k < kMarkers; ++k) f.push_back(m.first_unmarked_element(k));
    rec.arr("first", f).emit();
  };
  const int steps = rnd(r, 5, 100);
  for (int i = 0; i < steps; ++i) {
    Rec rec;
    rec.str("ev", "mark");
    const int what = rnd(r, 0, 99);
    long e = rnd(r, 0, n - 1), k = rnd(r, 0, kMarkers - 1);
    if (track && coin(r, 1, 2)) e = std::min<long>(m.first_unmarked_element(k), n - 1);
    std::string op = "look";
    if (what < 75) {
      op = "set";
      if (track) m.template set<true>(e, k);
      else m.set(e, k);
    } else if (what < 92) {
      op = "reset";
      unsigned long long times = coin(r, 1, 3) ? rnd(r, 1, 600) : 1;
      if (jump) {
        times = jump;
        jump = 0;
      }
      for (unsigned long long t = 0; t < times; ++t) m.reset();
    } else if (what < 95) {
      op = "move";
      M o(std::move(m));
      m = std::move(o);
    } else if (what < 98) {
      if constexpr (std::is_same_v<C<Value>, std::vector<Value>>) { // grows and keeps the marks
        op = "resize";
        n += rnd(r, 0, 10);
        m.resize(n);
      } else { // a fresh array
        op = "reset";
        n = rnd(r, 1, 40);
        m.reset();
        m.resize(n);
      }
    }
    rec.str("op", op).num("element", e).num("marker", k + 1);
    see(rec);
  }
}

static void sets(Rng &r) {
  switch (rnd(r, 0, 6)) {
  case 0: set_session<1, std::size_t, std::vector>(r, "1"); break;
  case 1: set_session<3, std::size_t, std::vector>(r, "3"); break;
  case 2: set_session<1, std::uint8_t, std::vector>(r, "1/8"); break;
  case 3: set_session<3, std::uint8_t, std::vector>(r, "3/8"); break;
  case 4: set_session<1, std::uint8_t, StaticArray>(r, "1/8/array"); break;
  case 5: set_session<2, std::uint16_t, ScalableVector>(r, "2/16/scalable"); break;
  case 6: set_session<2, std::uint32_t, StaticArray>(r, "2/32/array"); break;
  }
}

// ---------------------------------------------------------------- sequences
template <typename A> static void see_seq(Rec &rec, A &a, const std::vector<long> &got, const std::vector<long> &it) {
  rec.num("size", a.size()).num("empty", a.empty()).arr("got", got).arr("it", it);
}

static void queue_session(Rng &r) {
  long cap = rnd(r, 0, 30);
  Queue<std::int64_t> q(cap);
  Rec().str("ev", "new").str("type", "seq").str("name", "queue").num("d", 0).raw("init", "[]").emit();
  long head = 0, tail = 0;
  const int steps = rnd(r, 5, 60);
  for (int i = 0; i < steps; ++i) {
    Rec rec;
    rec.str("ev", "seq");
    std::string op = "look";
    const long v = rnd(r, -100, 100);
    long pos = 0;
    const int what = rnd(r, 0, 99);
    if (what < 45 && tail < cap) op = "pushback", q.push_tail(v), ++tail;
    else if (what < 58 && head < tail) op = "popfront", q.pop_head(), ++head;
    else if (what < 68 && head < tail) op = "popback", q.pop_tail(), --tail;
    else if (what < 80 && head > 0) op = "pushfront", q.push_head(v), --head;
    else if (what < 86 && head < tail) op = "set", pos = rnd(r, 0, tail - head - 1), q[pos] = v;
    else if (what < 89) op = "clear", q.clear(), head = tail = 0;
    else if (what < 93) op = "clear", cap = rnd(r, 0, 30), q.resize(cap), head = tail = 0;
    else if (what < 95) {
      op = "move";
      Queue<std::int64_t> o(std::move(q));
      q = std::move(o);
    }
    if ((long)q.capacity() != cap) abort();
    rec.str("op", op).num("val", v).num("pos", pos).num("n", 0);
    std::vector<long> got, it(q.begin(), q.end());
    if (std::vector<long>(q.cbegin(), q.cend()) != it) it.push_back(-12345);
    const auto &cq = q;
    for (std::size_t j = 0; j < q.size(); ++j) got.push_back(cq[j]);
    see_seq(rec, q, got, it);
    rec.raw("ends", q.empty() ? "[]" : "[[" + std::to_string(q.head()) + "," + std::to_string(q.tail()) + "]]");
    rec.raw("back", "[]").emit();
  }
}

template <typename T> static void array_session(Rng &r, const std::string &name) {
  StaticArray<T> a;
  std::vector<T> storage;
  bool span = false, cut = false;
  Rec().str("ev", "new").str("type", "seq").str("name", name).num("d", 0).raw("init", "[]").emit();
  const int steps = rnd(r, 5, 40);
  auto value = [&] { return (T)(std::is_signed_v<T> ? rnd(r, -100, 100) : rnd(r, 0, 100)); };
  for (int i = 0; i < steps; ++i) {
    Rec rec;
    rec.str("ev", "seq");
    std::string op = "look";
    const T v = value();
    long pos = 0, n = coin(r, 1, 8) ? rnd(r, 100, 600) : rnd(r, 0, 20);
    std::vector<long> vals;
    bool equal = false;
    const int what = rnd(r, 0, 99);
    if (what < 25 && a.size() > 0) {
      op = "set";
      pos = rnd(r, 0, a.size() - 1);
      switch (rnd(r, 0, 7)) {
      case 0: a[pos] = v; break;
      case 1: a.write(pos, v); break;
      case 2: a.at(pos) = v; break;
      case 3: a.data()[pos] = v; break;
      case 4: *(a.begin() + pos) = v; break;
      case 5: (a.end() - (a.size() - pos))[0] = v; break;
      case 6: pos = 0, a.front() = v; break;
      case 7: pos = a.size() - 1, a.back() = v; break;
      }
    } else if (what < 32 && !span && !cut) {
      op = "fill";
      switch (rnd(r, 0, 5)) {
      case 0: a.resize(n, v); break;
      case 1: a.resize(n, v, static_array::seq); break;
      case 2: a.resize(n, v, static_array::small); break;
      case 3:
        if constexpr (std::is_same_v<T, std::uint64_t>) a.resize(n, v); // would be two iterators
        else a = StaticArray<T>((std::size_t)n, v);
        break;
      case 4: a = StaticArray<T>((std::size_t)n, v, static_array::seq, static_array::small); break;
      case 5:
        a.resize(n, static_array::noinit);
        for (std::size_t j = 0; j < a.size(); ++j) a[j] = v;
        break;
      }
    } else if (what < 38 && !span && !cut) {
      op = "fill";
      if (coin(r, 1, 2)) a.resize(n);
      else a = StaticArray<T>((std::size_t)n);
      rec.num("val", 0);
    } else if (what < 48) {
      op = "assign";
      n = rnd(r, 0, a.size());
      a.assign(n, v, coin(r, 1, 2));
    } else if (what < 58 && !cut) {
      op = "load";
      std::vector<T> x(n);
      for (auto &y : x) y = value();
      vals.assign(x.begin(), x.end());
      span = false;
      switch (rnd(r, 0, 3)) {
      case 0: a = static_array::create(x); break;
      case 1: a = StaticArray<T>(x.begin(), x.end()); break;
      case 2: { StaticArray<T> y(x.begin(), x.end()); a = StaticArray<T>(y.begin(), y.end()); break; }
      case 3:
        storage = x;
        a = StaticArray<T>(storage.size(), storage.data());
        span = true;
        break;
      }
      if (a.size() > 0 && a.is_span() != span) abort();
    } else if (what < 66 && !cut) {
      op = "cut";
      n = rnd(r, 0, a.size());
      a.restrict(n);
      cut = true;
    } else if (what < 74 && cut) {
      op = "uncut";
      a.unrestrict();
      cut = false;
    } else if (what < 77 && !cut) {
      op = "free";
      a.free();
      span = false;
    } else if (what < 82) {
      op = "move";
      StaticArray<T> o(std::move(a));
      a = std::move(o);
    } else if (what < 92) {
      op = "equal";
      std::vector<T> x(a.begin(), a.end());
      const int c = rnd(r, 0, 3);
      if (c == 0 && !x.empty()) x[rnd(r, 0, x.size() - 1)] = value();
      if (c == 1 && !x.empty()) x.back() = x.back() + 1;
      if (c == 2) coin(r, 1, 2) && !x.empty() ? x.pop_back() : x.push_back(v);
      vals.assign(x.begin(), x.end());
      equal = a == static_array::create(x);
    } else {
      op = "sort"; // random access iterators serve the standard algorithms
      std::sort(a.begin(), a.end());
    }
    rec.str("op", op);
    if (rec.s.find("\"val\"") == std::string::npos) rec.num("val", (long long)v);
    rec.num("pos", pos).num("n", n).arr("vals", vals).num("equal", equal);
    const auto &ca = a;
    std::vector<long> got, it, back;
    for (std::size_t j = 0; j < a.size(); ++j) got.push_back((long)(coin(r, 1, 2) ? ca[j] : ca.at(j)));
    for (auto p = ca.cbegin(); p != ca.cend(); p++) it.push_back((long)*p);
    for (auto p = a.end(); p > a.begin();) back.push_back((long)*--p);
    see_seq(rec, a, got, it);
    std::string b = "[[";
    for (std::size_t j = 0; j < back.size(); ++j) b += (j ? "," : "") + std::to_string(back[j]);
    rec.raw("back", b + "]]");
    rec.raw("ends", a.empty() ? "[]" : "[[" + std::to_string((long)ca.front()) + "," + std::to_string((long)ca.back()) + "]]");
    rec.emit();
  }
}

template <typename V> static void vector_session(Rng &r, const std::string &name, V a, long cap) {
  Rec().str("ev", "new").str("type", "seq").str("name", name).num("d", 0).raw("init", "[]").emit();
  const int steps = rnd(r, 5, 60);
  for (int i = 0; i < steps; ++i) {
    Rec rec;
    rec.str("ev", "seq");
    std::string op = "look";
    const long v = rnd(r, -100, 100), size = a.size();
    long pos = 0, n = 0;
    const int what = rnd(r, 0, 99);
    if (what < 45 && size < cap) {
      op = "pushback";
      if (coin(r, 1, 2)) a.push_back(v);
      else a.emplace_back(v);
    } else if (what < 55 && size > 0) op = "popback", a.pop_back();
    else if (what < 65 && size < cap) op = "insert", pos = rnd(r, 0, size), a.insert(a.begin() + pos, v);
    else if (what < 73 && size > 0) op = "erase", pos = rnd(r, 0, size - 1), a.erase(a.begin() + pos);
    else if (what < 80) op = "resize", n = rnd(r, 0, cap), a.resize(n, v);
    else if (what < 83) op = "clear", a.clear();
    else if (what < 88 && size > 0) op = "set", pos = rnd(r, 0, size - 1), a[pos] = v;
    else if (what < 92) a.reserve(rnd(r, 0, cap));
    else if (what < 94) a.shrink_to_fit();
    if ((long)a.size() > cap || a.capacity() < a.size()) abort();
    rec.str("op", op).num("val", v).num("pos", pos).num("n", n);
    std::vector<long> got, it(a.begin(), a.end()), back(a.rbegin(), a.rend());
    for (std::size_t j = 0; j < a.size(); ++j) got.push_back(a[j]);
    see_seq(rec, a, got, it);
    std::string b = "[[";
    for (std::size_t j = 0; j < back.size(); ++j) b += (j ? "," : "") + std::to_string(back[j]);
    rec.raw("back", b + "]]");
    rec.raw("ends", a.empty() ? "[]" : "[[" + std::to_string((long)a.front()) + "," + std::to_string((long)a.back()) + "]]");
    rec.emit();
  }
}

static void seqs(Rng &r) {
  const long cap = rnd(r, 0, 40);
  switch (rnd(r, 0, 7)) {
  case 0:
  case 1: queue_session(r); break;
  case 2: array_session<std::int32_t>(r, "array32"); break;
  case 3: array_session<std::int64_t>(r, "array64"); break;
  case 4: array_session<std::uint8_t>(r, "array8"); break;
  case 5: array_session<std::uint64_t>(r, "arrayu64"); break;
  case 6: vector_session(r, "maxsize", MaxSizeVector<std::int64_t>(cap), cap); break;
  case 7: vector_session(r, "noinit", NoinitVector<std::int32_t>(), cap); break;
  }
}

// ---------------------------------------------------------------- concurrent containers
static void shared_session(Rng &r, tbb::task_arena &arena) {
  arena.execute([&] {
    long n = rnd(r, 1, 40);
    ConcurrentFastResetArray<std::int32_t, std::uint32_t> a(coin(r, 1, 2) ? n : 0);
    a.resize(n);
    const int rounds = rnd(r, 1, 4);
    for (int x = 0; x < rounds; ++x) {
      if (coin(r, 1, 4)) {
        n = rnd(r, 1, 40);
        if (coin(r, 1, 2)) a.free();
        a.resize(n);
      }
      const int calls = rnd(r, 0, 120);
      Pairs adds;
      for (int i = 0; i < calls; ++i) adds.push_back({rnd(r, 0, n - 1), rnd(r, 1, 9)});
      auto yields = r();
      tbb::parallel_for<std::size_t>(0, adds.size(), 1, [&](const std::size_t i) {
        if ((yields >> (i % 64)) & 1) std::this_thread::yield();
        const auto pos = adds[i][0];
        if (__atomic_fetch_add(&a[pos], (std::int32_t)adds[i][1], __ATOMIC_RELAXED) == 0) a.local_used_entries().push_back(pos);
      });
      std::mutex mtx;
      Pairs found, again;
      auto collect = [&](Pairs &out) {
        a.iterate_and_reset([&](const std::size_t, auto entries) {
          for (const auto [pos, val] : entries) {
            std::lock_guard l(mtx);
            out.push_back({(long long)pos, (long long)val});
          }
        });
      };
      collect(found);
      collect(again);
      std::vector<long> left;
      for (long i = 0; i < n; ++i) left.push_back(a[i]);
      Rec().str("ev", "shared").arr2("adds", adds).arr2("found", found).arr2("again", again).arr("left", left).num("n", a.capacity()).emit();
    }
  });
}

static void list_session(Rng &r, tbb::task_arena &arena) {
  arena.execute([&] {
    NavigableLinkedList<std::uint32_t, std::uint32_t, ScalableVector> list;
    const bool large = coin(r, 1, 6);
    const int keys = large ? (int)rnd(r, 1, 60) : (int)rnd(r, 0, 40);
    Pairs ks;
    long base = rnd(r, 0, 1000);
    for (int k = 0; k < keys; ++k) {
      static const long sizes[] = {32767, 32768, 32769, 65536, 1, 0};
      const long c = large ? (coin(r, 1, 3) ? sizes[rnd(r, 0, 5)] : rnd(r, 0, 8000)) : rnd(r, 0, 30);
      ks.push_back({k, base, c});
      base += c + rnd(r, 1, 5);
    }
    auto yields = r();
    tbb::parallel_for<std::size_t>(0, ks.size(), 1, [&](const std::size_t i) {
      if ((yields >> (i % 64)) & 1) std::this_thread::yield();
      auto &local = list.local();
      local.mark(ks[i][0]);
      for (long j = 0; j < ks[i][2]; ++j) {
        const std::uint32_t v = ks[i][1] + j;
        switch (j % 3) {
        case 0: local.push_back(v); break;
        case 1: { std::uint32_t w = v; local.push_back(std::move(w)); break; }
        case 2: local.emplace_back(v); break;
        }
      }
    });
    using NM = NavigationMarker<std::uint32_t, std::uint32_t, ScalableVector>;
    ScalableVector<NM> markers(coin(r, 1, 2) ? 0 : keys);
    markers = ts_navigable_list::combine<std::uint32_t, std::uint32_t, ScalableVector, ScalableVector>(list, std::move(markers));
    Pairs marks;
    for (const auto &m : markers) {
      std::vector<long long> row{(long long)m.key};
      const long c = m.key < ks.size() ? ks[m.key][2] : 0;
      long long start = -1, len = 0;
      for (long j = 0; j < c; ++j) {
        const long long v = std::as_const(*m.local_list).get(m.position + j);
        if (len && v == start + len) ++len;
        else {
          if (len) row.push_back(start), row.push_back(len);
          if (row.size() > 40) break;
          start = v;
          len = 1;
        }
      }
      if (len) row.push_back(start), row.push_back(len);
      marks.push_back(row);
    }
    Rec().str("ev", "list").arr2("keys", ks).arr2("marks", marks).emit();
  });
}

template <typename V> static void circular_session(Rng &r, const std::string &name) {
  const int threads = rnd(r, 1, 6);
  V v(threads);
  const int per = rnd(r, 1, 40);
  std::vector<std::uint32_t> deltas(threads * per);
  for (auto &x : deltas) x = coin(r, 1, 4) ? 0 : rnd(r, 1, 1000);
  std::vector<std::vector<std::vector<long long>>> out(threads);
  std::vector<std::thread> ts;
  auto yields = r();
  for (int t = 0; t < threads; ++t)
    ts.emplace_back([&, t] {
      for (int i = 0; i < per; ++i) {
        const auto e = v.next();
        if ((yields >> ((t * 7 + i) % 64)) & 1) std::this_thread::yield();
        const auto d = deltas[e % deltas.size()];
        const auto val = v.fetch_and_update(e, d);
        out[t].push_back({(long long)e, (long long)d, (long long)val});
      }
    });
  for (auto &t : ts) t.join();
  Pairs calls;
  for (auto &o : out) calls.insert(calls.end(), o.begin(), o.end());
  Rec().str("ev", "circular").str("name", name).arr2("calls", calls).emit();
}

int main(int argc, char **argv) {
  Rng r(std::strtoull(argv[1], nullptr, 10));
  const std::string mode = argv[3];
  const int count = std::atoi(argv[2]);
  tbb::global_control gc(tbb::global_control::max_allowed_parallelism, 8);
  if (mode == "wrap") { // as many resets as a long-lived object sees; then the marks have to work still
    set_session<3, std::size_t, std::vector>(r, "3/long", (1ull << 29) + 3);
    if (count > 1) set_session<1, std::size_t, std::vector>(r, "1/long", (1ull << 31) + 3);
    return 0;
  }
  for (int i = 0; i < count; ++i) {
    if (mode == "map") maps(r);
    else if (mode == "set") sets(r);
    else if (mode == "seq") seqs(r);
    else {
      tbb::task_arena arena(rnd(r, 1, 6));
      switch (rnd(r, 0, 3)) {
      case 0: shared_session(r, arena); break;
      case 1: list_session(r, arena); break;
      case 2: circular_session<ConcurrentCircularVectorSpinlock<std::uint32_t, std::uint32_t>>(r, "spin"); break;
      case 3: circular_session<ConcurrentCircularVectorMutex<std::uint32_t, std::uint32_t>>(r, "mutex"); break;
      }
    }
  }
}
