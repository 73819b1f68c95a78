// helpers of the demonstrations
#pragma once
#include <algorithm>
#include <cstdio>
#include <map>
#include <numeric>
#include <random>
#include <set>
#include <vector>
#include "kaminpar-shm/datastructures/csr_graph.h"
#include "kaminpar-shm/datastructures/graph.h"
#include "kaminpar-shm/kaminpar.h"
using namespace kaminpar;
using namespace kaminpar::shm;
using Edges = std::map<std::pair<unsigned, unsigned>, int>; // both directions
inline void edge(Edges &E, unsigned u, unsigned v, int w = 1) { if (u != v) E[{u, v}] = w, E[{v, u}] = w; }
inline Edges random_edges(std::mt19937 &r, unsigned n, unsigned m, int maxw = 1) {
  Edges E;
  for (unsigned i = 0; i < m; ++i) edge(E, r() % n, r() % n, 1 + r() % maxw);
  return E;
}
struct Raw { std::vector<EdgeID> x; std::vector<NodeID> a; std::vector<NodeWeight> vw; std::vector<EdgeWeight> ew; };
inline Raw raw(unsigned n, const Edges &E, bool weighted = true) {
  Raw g;
  g.x.assign(n + 1, 0);
  for (auto &[e, w] : E) ++g.x[e.first + 1], g.a.push_back(e.second), g.ew.push_back(w);
  for (unsigned u = 0; u < n; ++u) g.x[u + 1] += g.x[u];
  if (!weighted) g.ew.clear();
  return g;
}
inline CSRGraph csr(const Raw &g) {
  StaticArray<EdgeID> x(g.x.size());
  StaticArray<NodeID> a(g.a.size());
  StaticArray<NodeWeight> vw(g.vw.size());
  StaticArray<EdgeWeight> ew(g.ew.size());
  std::copy(g.x.begin(), g.x.end(), x.begin());
  std::copy(g.a.begin(), g.a.end(), a.begin());
  std::copy(g.vw.begin(), g.vw.end(), vw.begin());
  std::copy(g.ew.begin(), g.ew.end(), ew.begin());
  return CSRGraph(std::move(x), std::move(a), std::move(vw), std::move(ew));
}
inline long long cut(const Raw &g, const std::vector<BlockID> &p) {
  long long c = 0;
  for (unsigned u = 0; u + 1 < g.x.size(); ++u)
    for (auto e = g.x[u]; e < g.x[u + 1]; ++e) if (p[u] != p[g.a[e]]) c += g.ew.empty() ? 1 : g.ew[e];
  return c / 2;
}
