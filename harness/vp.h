// Shared helpers of the conformance harnesses: JSON records, random numbers, input graphs.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <numeric>
#include <random>
#include <set>
#include <span>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

namespace vp {
// ---------------------------------------------------------------- JSON
// TLC integers have 32 bits: larger values are written as strings, which no specification accepts
// where it expects a number.
inline void put_num(std::string &s, long long v) {
  if (v > 2000000000LL || v < -2000000000LL) {
    s += "\"" + std::to_string(v) + "\"";
  } else {
    s += std::to_string(v);
  }
}
struct Rec {
  std::string s = "{";
  bool first = true;
  Rec &key(const char *k) {
    if (!first) s += ",";
    first = false;
    s += "\"";
    s += k;
    s += "\":";
    return *this;
  }
  Rec &num(const char *k, long long v) {
    key(k);
    put_num(s, v);
    return *this;
  }
  Rec &str(const char *k, const std::string &v) {
    key(k);
    s += "\"";
    for (char c : v) {
      if (c == '"' || c == '\\') s += '\\';
      if ((unsigned char)c >= 32 && (unsigned char)c < 127) s += c; else s += '?';
    }
    s += "\"";
    return *this;
  }
  Rec &boolean(const char *k, bool v) {
    key(k);
    s += v ? "true" : "false";
    return *this;
  }
  template <typename C> Rec &arr(const char *k, const C &c) {
    key(k);
    s += "[";
    bool f = true;
    for (const auto &v : c) {
      if (!f) s += ",";
      f = false;
      put_num(s, (long long)v);
    }
    s += "]";
    return *this;
  }
  template <typename C> Rec &arr2(const char *k, const C &c) {
    key(k);
    s += "[";
    bool f = true;
    for (const auto &r : c) {
      if (!f) s += ",";
      f = false;
      s += "[";
      bool g = true;
      for (const auto &v : r) {
        if (!g) s += ",";
        g = false;
        put_num(s, (long long)v);
      }
      s += "]";
    }
    s += "]";
    return *this;
  }
  Rec &raw(const char *k, const std::string &v) {
    key(k);
    s += v;
    return *this;
  }
  std::string done() const { return s + "}"; }
  void emit() const {
    std::string o = s + "}\n";
    fwrite(o.data(), 1, o.size(), stdout);
    fflush(stdout);
  }
};

// ---------------------------------------------------------------- random numbers
using Rng = std::mt19937_64;
inline long long rnd(Rng &r, long long lo, long long hi) { // inclusive
  return lo + (long long)(r() % (unsigned long long)(hi - lo + 1));
}
inline bool coin(Rng &r, int num, int den) { return (long long)(r() % den) < num; }
template <typename T> const T &pick(Rng &r, const std::vector<T> &v) { return v[r() % v.size()]; }

// ---------------------------------------------------------------- graphs
struct G {
  std::vector<std::uint32_t> x{0};
  std::vector<std::uint32_t> a;
  std::vector<int> vw, ew; // empty: unit weights
  std::uint32_t n() const { return x.size() - 1; }
  long long w(std::size_t u) const { return vw.empty() ? 1 : vw[u]; }
  long long e(std::size_t i) const { return ew.empty() ? 1 : ew[i]; }
};

// json object [n, s, t, vw, ew]
inline std::string json(const G &g) {
  std::vector<std::uint32_t> src;
  for (std::uint32_t u = 0; u < g.n(); ++u)
    for (auto e = g.x[u]; e < g.x[u + 1]; ++e) src.push_back(u);
  Rec r;
  r.num("n", g.n()).arr("s", src).arr("t", g.a).arr("vw", g.vw).arr("ew", g.ew);
  return r.done();
}

inline G from_edges(std::uint32_t n, const std::set<std::pair<int, int>> &E, Rng &r, bool nw, bool ew,
                    int max_nw = 10, int max_ew = 20, bool shuffle = true) {
  std::vector<std::vector<std::pair<int, int>>> adj(n);
  for (auto [u, v] : E) {
    int w = ew ? (int)rnd(r, 1, max_ew) : 1;
    adj[u].push_back({v, w});
    adj[v].push_back({u, w});
  }
  G g;
  for (std::uint32_t u = 0; u < n; ++u) {
    if (shuffle && coin(r, 1, 2)) std::shuffle(adj[u].begin(), adj[u].end(), r);
    else std::sort(adj[u].begin(), adj[u].end());
    for (auto [v, w] : adj[u]) {
      g.a.push_back(v);
      if (ew) g.ew.push_back(w);
    }
    g.x.push_back(g.a.size());
    if (nw) g.vw.push_back((int)rnd(r, 1, max_nw));
  }
  return g;
}

// a random graph on about `n` vertices; many shapes
inline std::set<std::pair<int, int>> random_edges(Rng &r, int n, int kind = -1) {
  std::set<std::pair<int, int>> E;
  auto add = [&](long long u, long long v) {
    if (u == v || u < 0 || v < 0 || u >= n || v >= n) return;
    if (u > v) std::swap(u, v);
    E.insert({(int)u, (int)v});
  };
  if (n < 2) return E;
  if (kind < 0) kind = r() % 9;
  switch (kind) {
  case 0: { // sparse random
    long long m = rnd(r, 0, 3LL * n);
    for (long long i = 0; i < m; ++i) add(r() % n, r() % n);
    break;
  }
  case 1: { // grid
    int w = std::max(1, (int)std::sqrt((double)n));
    for (int i = 0; i < n; ++i) {
      if ((i + 1) % w) add(i, i + 1);
      add(i, i + w);
    }
    break;
  }
  case 2: { // star(s)
    int c = 1 + r() % 3;
    for (int i = c; i < n; ++i) add(r() % c, i);
    break;
  }
  case 3: // tree
    for (int i = 1; i < n; ++i) add(i, r() % i);
    break;
  case 4: { // cliques plus noise
    int c = 2 + r() % 10;
    for (int i = 0; i < n; ++i)
      for (int j = i + 1; j < std::min(n, (i / c + 1) * c); ++j) add(i, j);
    for (int i = 0; i < n / 8; ++i) add(r() % n, r() % n);
    break;
  }
  case 5: { // isolated vertices plus random
    int q = std::max(1, n / 2);
    for (int i = 0; i < 2 * q; ++i) add((r() % q) * 2 % n, (r() % q) * 2 % n);
    break;
  }
  case 6: // path / ring
    for (int i = 0; i + 1 < n; ++i) add(i, i + 1);
    if (coin(r, 1, 2)) add(0, n - 1);
    break;
  case 7: { // dense
    if (n > 120) {
      for (int i = 0; i < n * 12; ++i) add(r() % n, r() % n);
    } else {
      for (int i = 0; i < n; ++i)
        for (int j = i + 1; j < n; ++j)
          if (coin(r, 2, 3)) add(i, j);
    }
    break;
  }
  default: { // skewed degrees, long runs of consecutive neighbors
    for (int i = 0; i < n; ++i) {
      int d = (int)(2.0 / (0.02 + (r() % 1000) / 1000.0));
      int b = r() % n;
      for (int j = 0; j < d; ++j) add(i, coin(r, 1, 2) ? b + j : r() % n);
    }
  }
  }
  return E;
}

inline G random_graph(Rng &r, int n, int kind = -1, int nw_pct = 33, int ew_pct = 40, bool shuffle = true) {
  auto E = random_edges(r, n, kind);
  return from_edges(n, E, r, coin(r, nw_pct, 100), coin(r, ew_pct, 100), 10, 20, shuffle);
}

inline void guard_wall(int seconds) {
  const char *w = std::getenv("VP_WALL");
  alarm(w ? std::atoi(w) : seconds);
}
} // namespace vp
