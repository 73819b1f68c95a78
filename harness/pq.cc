// Drives every priority queue of binary_heap.h with random histories.
// usage: pq SEED COUNT
#include "vp.h"

#include <limits>
#include <memory>
#include <vector>

#include "kaminpar-common/datastructures/binary_heap.h"

using namespace kaminpar;
using namespace vp;

// keys: order-preserving table of ranks; queues exclude the extreme values (sentinels of removal)
template <typename Key> struct Keys {
  std::vector<Key> table;
  std::map<Key, int> back;
  Keys(Rng &r, int n) {
    std::set<Key> s;
    while ((int)s.size() < n) {
      Key k;
      if constexpr (std::is_floating_point_v<Key>) {
        static const double specials[] = {0.0, -1.0, 1.0, 1e300, -1e300, 1e-300, -1e-300, 0.1, -0.1};
        k = coin(r, 1, 3) ? (Key)specials[rnd(r, 0, 8)] : (Key)((double)rnd(r, -1000, 1000) / 7.0);
      } else {
        if (coin(r, 1, 4)) {
          const Key lo = std::numeric_limits<Key>::lowest(), hi = std::numeric_limits<Key>::max();
          k = coin(r, 1, 2) ? (Key)(lo + 1 + (Key)rnd(r, 0, 5)) : (Key)(hi - 1 - (Key)rnd(r, 0, 5));
        } else {
          k = (Key)rnd(r, -n, 3 * n);
        }
        if (!std::is_signed_v<Key> && k == 0) continue;
        if (k == std::numeric_limits<Key>::lowest() || k == std::numeric_limits<Key>::max()) continue;
      }
      s.insert(k);
    }
    for (Key k : s) {
      back[k] = table.size();
      table.push_back(k);
    }
  }
  Key key(int rank) const { return table[rank]; }
  int rank(Key k) const {
    auto it = back.find(k);
    return it == back.end() ? -999 : it->second;
  }
};

using Entry = std::pair<long, int>; // id, rank
struct Queue {
  virtual ~Queue() = default;
  virtual std::string kind() = 0;
  bool per_heap = true;     // more than one heap possible
  bool address = true;      // contains, key, remove, change
  bool put_ok = true, clear_one = true, grow = false, minmax = false, elements_ok = false, total_ok = true;
  virtual void init(std::size_t cap, std::size_t heaps) = 0;
  virtual std::size_t size(int h) = 0;
  virtual bool empty(int h) = 0;
  virtual std::size_t total() = 0;
  virtual void push(int h, long id, int k) = 0;
  virtual void put(int, long, int) {}
  virtual void change(int, long, int) {}
  virtual void shift(int, long, int) {} // change through increase / decrease
  virtual void remove(int, long) {}
  virtual void pop(int, char) = 0; // side 'x' max, 'n' min
  virtual void clear(int) {}
  virtual void clear() {}
  virtual bool contains(long) { return false; }
  virtual int key(int, long) { return -1; }
  virtual Entry top(int h, char side) = 0;
  virtual std::vector<Entry> elements(int) { return {}; }
  virtual void move() {}
};

template <typename Key, bool kMax> bool better(Key a, Key b) { return kMax ? a > b : a < b; }

template <typename Key, bool kMax> struct Shared : Queue {
  using H = std::conditional_t<kMax, SharedBinaryMaxHeap<Key>, SharedBinaryMinHeap<Key>>;
  const Keys<Key> &K;
  std::vector<std::size_t> handles;
  std::vector<H> hs;
  Shared(const Keys<Key> &k) : K(k) {}
  std::string kind() override { return kMax ? "max" : "min"; }
  void init(std::size_t cap, std::size_t heaps) override {
    hs.clear();
    handles.assign(cap, H::kInvalidID);
    for (std::size_t i = 0; i < heaps; ++i) hs.emplace_back(cap, handles.data());
  }
  std::size_t size(int h) override { return hs[h].size(); }
  bool empty(int h) override { return hs[h].empty(); }
  std::size_t total() override {
    std::size_t s = 0;
    for (auto &h : hs) s += h.size();
    return s;
  }
  void push(int h, long id, int k) override { hs[h].push(id, K.key(k)); }
  void put(int h, long id, int k) override { hs[h].push_or_change_priority(id, K.key(k)); }
  void change(int h, long id, int k) override { hs[h].change_priority(id, K.key(k)); }
  void shift(int h, long id, int k) override {
    if (better<Key, kMax>(K.key(k), hs[h].key(id))) hs[h].decrease_priority(id, K.key(k));
    else hs[h].increase_priority(id, K.key(k));
  }
  void remove(int h, long id) override { hs[h].remove(id); }
  void pop(int h, char) override { hs[h].pop(); }
  void clear(int h) override { hs[h].clear(); }
  void clear() override {
    for (auto &h : hs) h.clear();
  }
  bool contains(long id) override { return hs.front().contains(id); }
  int key(int h, long id) override { return K.rank(hs[h].key(id)); }
  Entry top(int h, char) override { return {(long)hs[h].peek_id(), K.rank(hs[h].peek_key())}; }
  void move() override {
    std::vector<H> other;
    for (auto &h : hs) other.push_back(std::move(h));
    hs = std::move(other);
  }
};

template <typename Key, bool kMax> struct Plain : Queue {
  using H = std::conditional_t<kMax, BinaryMaxHeap<Key>, BinaryMinHeap<Key>>;
  const Keys<Key> &K;
  H q{0};
  Plain(const Keys<Key> &k) : K(k) { per_heap = false; }
  std::string kind() override { return kMax ? "max" : "min"; }
  void init(std::size_t cap, std::size_t) override {
    q.clear();
    q.resize(cap);
    if (q.capacity() != cap) abort();
  }
  std::size_t size(int) override { return q.size(); }
  bool empty(int) override { return q.empty(); }
  std::size_t total() override { return q.size(); }
  void push(int, long id, int k) override { q.push(id, K.key(k)); }
  void put(int, long id, int k) override { q.push_or_change_priority(id, K.key(k)); }
  void change(int, long id, int k) override { q.change_priority(id, K.key(k)); }
  void shift(int, long id, int k) override {
    const Key now = q.key(id), to = K.key(k);
    if constexpr (std::is_integral_v<Key>) {
      // only downwards in value: the delta has to be positive and representable
      if (kMax == false && to < now && (to >= 0 || now < 0 || std::is_unsigned_v<Key>)) {
        q.decrease_priority_by(id, now - to);
        return;
      }
    }
    if (better<Key, kMax>(to, now)) q.decrease_priority(id, to);
    else q.increase_priority(id, to);
  }
  void remove(int, long id) override { q.remove(id); }
  void pop(int, char) override { q.pop(); }
  void clear(int) override { q.clear(); }
  void clear() override { q.clear(); }
  bool contains(long id) override { return q.contains(id); }
  int key(int, long id) override { return K.rank(q.key(id)); }
  Entry top(int, char) override { return {(long)q.peek_id(), K.rank(q.peek_key())}; }
  void move() override {
    H other(std::move(q));
    q = std::move(other);
  }
};

template <typename F, typename Key> std::vector<Entry> elems(const Keys<Key> &K, F &f, int h) {
  std::vector<Entry> out;
  for (const auto &e : f.elements(h)) out.push_back({(long)e.id, K.rank(e.key)});
  return out;
}

template <typename ID, typename Key, bool kMax> struct Forest : Queue {
  using H = std::conditional_t<kMax, DynamicBinaryMaxForest<ID, Key>, DynamicBinaryMinForest<ID, Key, ScalableVector>>;
  const Keys<Key> &K;
  H q;
  Forest(const Keys<Key> &k) : K(k) {
    put_ok = false;
    elements_ok = true;
  }
  std::string kind() override { return kMax ? "max" : "min"; }
  void init(std::size_t cap, std::size_t heaps) override {
    q.init(cap, heaps);
    if (q.capacity() != cap) abort();
  }
  std::size_t size(int h) override { return q.size(h); }
  bool empty(int h) override { return q.empty(h); }
  std::size_t total() override { return q.size(); }
  void push(int h, long id, int k) override { q.push(h, id, K.key(k)); }
  void change(int h, long id, int k) override { q.change_priority(h, id, K.key(k)); }
  void shift(int h, long id, int k) override {
    if (better<Key, kMax>(K.key(k), q.key(h, id))) q.decrease_priority(h, id, K.key(k));
    else q.increase_priority(h, id, K.key(k));
  }
  void remove(int h, long id) override { q.remove(h, id); }
  void pop(int h, char) override { q.pop(h); }
  void clear(int h) override { q.clear(h); }
  void clear() override { q.clear(); }
  bool contains(long id) override { return q.contains(id); }
  int key(int h, long id) override { return K.rank(q.key(h, id)); }
  Entry top(int h, char) override { return {(long)q.peek_id(h), K.rank(q.peek_key(h))}; }
  std::vector<Entry> elements(int h) override { return elems(K, q, h); }
  void move() override {
    H other(std::move(q));
    q = std::move(other);
  }
};

template <typename ID, typename Key> struct MinMax : Queue {
  using H = DynamicBinaryMinMaxForest<ID, Key>;
  const Keys<Key> &K;
  H q;
  MinMax(const Keys<Key> &k) : K(k) {
    put_ok = false;
    minmax = true;
    elements_ok = true;
  }
  std::string kind() override { return "minmax"; }
  void init(std::size_t cap, std::size_t heaps) override {
    q.init(cap, heaps);
    if (q.capacity() != cap) abort();
  }
  std::size_t size(int h) override { return q.size(h); }
  bool empty(int h) override { return q.empty(h); }
  std::size_t total() override { return q.size(); }
  void push(int h, long id, int k) override { q.push(h, id, K.key(k)); }
  void change(int h, long id, int k) override { q.change_priority(h, id, K.key(k)); }
  void shift(int h, long id, int k) override { q.change_priority(h, id, K.key(k)); }
  void remove(int h, long id) override { q.remove(h, id); }
  void pop(int h, char side) override {
    if (side == 'x') q.pop_max(h);
    else q.pop_min(h);
  }
  void clear(int h) override { q.clear(h); }
  void clear() override { q.clear(); }
  bool contains(long id) override { return q.contains(id); }
  int key(int h, long id) override { return K.rank(q.key(h, id)); }
  Entry top(int h, char side) override {
    return side == 'x' ? Entry{(long)q.peek_max_id(h), K.rank(q.peek_max_key(h))}
                       : Entry{(long)q.peek_min_id(h), K.rank(q.peek_min_key(h))};
  }
  std::vector<Entry> elements(int h) override { return elems(K, q, h); }
  void move() override {
    H other(std::move(q));
    q = std::move(other);
  }
};

template <typename ID, typename Key, bool kMax> struct Dynamic : Queue {
  using H = std::conditional_t<kMax, DynamicBinaryMaxHeap<ID, Key>, DynamicBinaryMinHeap<ID, Key>>;
  const Keys<Key> &K;
  H q;
  Dynamic(const Keys<Key> &k, std::size_t cap) : K(k), q(cap) {
    per_heap = false;
    address = false;
    put_ok = false;
    elements_ok = true;
  }
  std::string kind() override { return kMax ? "max" : "min"; }
  void init(std::size_t, std::size_t) override { q.clear(); }
  std::size_t size(int) override { return q.size(); }
  bool empty(int) override { return q.empty(); }
  std::size_t total() override { return q.size(); }
  void push(int, long id, int k) override { q.push(id, K.key(k)); }
  void pop(int, char) override { q.pop(); }
  void clear(int) override { q.clear(); }
  void clear() override { q.clear(); }
  Entry top(int, char) override { return {(long)q.peek_id(), K.rank(q.peek_key())}; }
  std::vector<Entry> elements(int) override {
    std::vector<Entry> out;
    for (const auto &e : q.elements()) out.push_back({(long)e.id, K.rank(e.key)});
    return out;
  }
  void move() override {
    H other(std::move(q));
    q = std::move(other);
  }
};

static void session(Rng &r, Queue &q, int ranks, const std::string &name) {
  int cap = coin(r, 1, 12) ? (int)rnd(r, 100, 300) : (int)rnd(r, 1, 24);
  int heaps = q.per_heap ? (int)rnd(r, 1, 5) : 1;
  q.init(cap, heaps);
  Rec().str("ev", "new").str("name", name).str("kind", q.kind()).num("heaps", heaps).num("cap", cap).emit();
  std::map<long, int> where; // id -> heap: only to choose sensible operations
  const int steps = cap > 50 ? (int)rnd(r, 60, 150) : (int)rnd(r, 5, 60);
  int bias = rnd(r, 20, 80); // share of insertions, so that queues fill up or stay small
  for (int i = 0; i < steps; ++i) {
    std::vector<std::vector<long>> in(heaps);
    for (auto [id, h] : where) in[h].push_back(id);
    Rec rec;
    rec.str("ev", "op");
    const int h = rnd(r, 0, heaps - 1);
    std::string op;
    long id = -1;
    int key = -1;
    const bool some = !in[h].empty();
    auto erase_top = [&](char side) {
      const Entry t = q.top(h, side);
      rec.arr("top", std::vector<long>{t.first, t.second});
      q.pop(h, side);
      where.erase(t.first);
    };
    key = rnd(r, 0, ranks - 1);
    if (coin(r, 1, 25)) bias = rnd(r, 10, 90);
    if (coin(r, bias, 100)) { // insert
      id = rnd(r, 0, cap - 1);
      if (where.count(id)) {
        if (!q.address) { --i; if (where.size() == (std::size_t)cap) { q.clear(); where.clear(); op = "clearall"; goto out; } continue; }
        const int hh = where[id];
        (void)hh;
        op = "";
      } else {
        op = (q.put_ok && coin(r, 1, 4)) ? "put" : "push";
        if (op == "put") q.put(h, id, key);
        else q.push(h, id, key);
        where[id] = h;
      }
    }
    if (op.empty()) {
      const int what = rnd(r, 0, 99);
      if (some && q.address && what < 40) {
        id = pick(r, in[h]);
        const int now = q.key(h, id);
        if (what < 12 && now != key) {
          op = key > now ? "increase" : "decrease";
          q.shift(h, id, key);
        } else if (what < 20 && q.put_ok) {
          op = "put";
          q.put(h, id, key);
        } else {
          op = "change";
          q.change(h, id, key);
        }
      } else if (some && q.address && what < 62) {
        op = "remove";
        id = pick(r, in[h]);
        q.remove(h, id);
        where.erase(id);
      } else if (some && what < 92) {
        if (q.minmax) {
          const bool mx = coin(r, 1, 2);
          op = mx ? "popmax" : "popmin";
          erase_top(mx ? 'x' : 'n');
        } else {
          op = "pop";
          erase_top(q.kind() == "max" ? 'x' : 'n');
        }
      } else if (what < 94) {
        op = "clear";
        q.clear(h);
        for (long x : in[h]) where.erase(x);
      } else if (what < 95) {
        op = "clearall";
        q.clear();
        where.clear();
      } else if (what < 97) {
        op = "init"; // also with elements left over
        const int c2 = rnd(r, 1, 30), h2 = q.per_heap ? (int)rnd(r, 1, 5) : 1;
        q.init(c2, h2);
        cap = c2;
        heaps = h2;
        where.clear();
        rec.num("heaps", heaps);
      } else {
        op = "move";
        q.move();
      }
    }
  out:
    const int oh = std::min(h, heaps - 1);
    rec.str("op", op).num("h", oh + 1).num("id", id).num("key", key);
    // what is to be seen now
    std::vector<long> sizes;
    std::string mx = "[", mn = "[";
    auto js = [](const Entry &e) { return "[" + std::to_string(e.first) + "," + std::to_string(e.second) + "]"; };
    for (int j = 0; j < heaps; ++j) {
      sizes.push_back(q.empty(j) != (q.size(j) == 0) ? -1 : (long)q.size(j));
      const std::string c = j ? "," : "";
      mx += c + (q.empty(j) || q.kind() == "min" ? "[]" : js(q.top(j, 'x')));
      mn += c + (q.empty(j) || q.kind() == "max" ? "[]" : js(q.top(j, 'n')));
    }
    rec.num("total", q.total()).arr("sizes", sizes).raw("max", mx + "]").raw("min", mn + "]");
    std::vector<std::vector<long>> probe, keys;
    if (q.address) {
      std::vector<long> ids;
      if (coin(r, 1, 4) && cap < 40) for (long x = 0; x < cap; ++x) ids.push_back(x);
      else for (int j = 0; j < 3; ++j) ids.push_back(rnd(r, 0, cap - 1));
      if (id >= 0 && id < cap) ids.push_back(id);
      for (long x : ids) {
        const bool c = q.contains(x);
        probe.push_back({x, c});
        if (c && where.count(x)) keys.push_back({where[x] + 1, x, q.key(where[x], x)});
      }
    }
    rec.arr2("probe", probe).arr2("keys", keys);
    std::string el = "[";
    if (q.elements_ok && coin(r, 1, 3)) {
      const int j = rnd(r, 0, heaps - 1);
      el += "[" + std::to_string(j + 1) + ",[";
      bool f = true;
      for (auto e : q.elements(j)) {
        el += (f ? "" : ",") + js(e);
        f = false;
      }
      el += "]]";
    }
    rec.raw("elements", el + "]");
    rec.emit();
  }
}

template <typename Key> void one(Rng &r, const std::string &kn) {
  const int ranks = coin(r, 1, 3) ? (int)rnd(r, 1, 4) : (int)rnd(r, 5, 60);
  Keys<Key> K(r, ranks);
  std::unique_ptr<Queue> q;
  std::string n;
  switch (rnd(r, 0, 8)) {
  case 0: n = "SharedMax"; q = std::make_unique<Shared<Key, true>>(K); break;
  case 1: n = "SharedMin"; q = std::make_unique<Shared<Key, false>>(K); break;
  case 2: n = "Max"; q = std::make_unique<Plain<Key, true>>(K); break;
  case 3: n = "Min"; q = std::make_unique<Plain<Key, false>>(K); break;
  case 4: n = "MaxForest"; q = std::make_unique<Forest<std::uint32_t, Key, true>>(K); break;
  case 5: n = "MinForest"; q = std::make_unique<Forest<std::size_t, Key, false>>(K); break;
  case 6: n = "MinMaxForest"; q = std::make_unique<MinMax<std::uint32_t, Key>>(K); break;
  case 7: n = "DynMax"; q = std::make_unique<Dynamic<std::uint64_t, Key, true>>(K, rnd(r, 0, 40)); break;
  case 8: n = "DynMin"; q = std::make_unique<Dynamic<std::uint32_t, Key, false>>(K, rnd(r, 0, 40)); break;
  }
  const int sessions = rnd(r, 1, 2);
  for (int i = 0; i < sessions; ++i) session(r, *q, ranks, n + "/" + kn);
}

int main(int argc, char **argv) {
  Rng r(std::strtoull(argv[1], nullptr, 10));
  const int count = std::atoi(argv[2]);
  for (int i = 0; i < count; ++i) {
    switch (rnd(r, 0, 3)) {
    case 0: one<std::int32_t>(r, "i32"); break;
    case 1: one<std::int64_t>(r, "i64"); break;
    case 2: one<double>(r, "f64"); break;
    case 3: one<std::uint64_t>(r, "u64"); break;
    }
  }
}
