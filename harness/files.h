// Text and binary graph files as the harnesses write and read them, independently of the library.
#pragma once
#include "vp.h"

#include <cerrno>
#include <filesystem>
#include <fstream>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

// Mapped input files are followed by an inaccessible page, such that reading beyond their end is noticed
extern "C" void *mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off) noexcept {
  auto raw = [](void *a, size_t l, int p, int f, int d, off_t o) { return reinterpret_cast<void *>(syscall(SYS_mmap, a, l, p, f, d, o)); };
  if (fd < 0 || addr || len == 0 || (flags & MAP_FIXED)) return raw(addr, len, prot, flags, fd, off);
  size_t pages = (len + 4095) / 4096 * 4096;
  char *area = static_cast<char *>(raw(nullptr, pages + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  if (area == MAP_FAILED) return area;
  return raw(area, len, prot, flags | MAP_FIXED, fd, off);
}

namespace vp {
using Lines = std::vector<std::vector<long long>>; // numbers; {-1}: comment

inline std::string scratch_dir() {
  char dir[] = "/tmp/vp-io-XXXXXX";
  if (!mkdtemp(dir)) exit(3);
  return dir;
}
inline void remove_scratch(const std::string &dir, const std::vector<const char *> &files) {
  for (const char *f : files) unlink((dir + "/" + f).c_str());
  rmdir(dir.c_str());
}

inline std::string slurp(const std::string &file) {
  std::ifstream in(file, std::ios::binary);
  std::stringstream s;
  s << in.rdbuf();
  return s.str();
}
inline Lines tokens(const std::string &text) {
  Lines lines;
  std::istringstream in(text);
  for (std::string line; std::getline(in, line);) {
    lines.emplace_back();
    if (!line.empty() && line[0] == '%') {
      lines.back().push_back(-1);
      continue;
    }
    std::istringstream ls(line);
    for (long long v; ls >> v;) lines.back().push_back(v);
  }
  return lines;
}
inline std::vector<long long> words(const std::string &data) {
  std::vector<long long> w(data.size() / 4);
  for (std::size_t i = 0; i < w.size(); ++i) {
    std::uint32_t x;
    memcpy(&x, data.data() + 4 * i, 4);
    w[i] = x;
  }
  if (data.size() % 4) w.push_back(-1);
  return w;
}

// a METIS file with comments, additional spaces, ...; returns its lines
inline Lines metis_lines(Rng &r, const G &g, bool sizes, bool unit_vw, bool unit_ew) {
  Lines lines;
  auto comment = [&](int p) {
    while (coin(r, p, 10)) lines.push_back({-1});
  };
  int p = coin(r, 1, 2) ? 0 : 2;
  comment(p);
  bool nw = !g.vw.empty() || unit_vw, ew = !g.ew.empty() || unit_ew;
  lines.push_back({(long long)g.n(), (long long)g.a.size() / 2});
  int fmt = 100 * sizes + 10 * nw + ew;
  if (fmt || coin(r, 1, 3)) lines.back().push_back(fmt);
  for (std::uint32_t u = 0; u < g.n(); ++u) {
    comment(p);
    lines.emplace_back();
    if (sizes) lines.back().push_back(rnd(r, 1, 9));
    if (nw) lines.back().push_back(g.w(u));
    for (auto e = g.x[u]; e < g.x[u + 1]; ++e) {
      lines.back().push_back(g.a[e] + 1);
      if (ew) lines.back().push_back(g.e(e));
    }
  }
  if (coin(r, p, 10)) lines.push_back({-1});
  return lines;
}
inline std::string metis_text(Rng &r, const Lines &lines) {
  std::string s;
  bool spaces = coin(r, 1, 2), no_newline = coin(r, 1, 3), page = coin(r, 1, 3);
  auto space = [&] { return std::string(spaces ? r() % 3 : 0, ' '); };
  std::vector<std::size_t> comments; // positions at which comments may be extended
  for (std::size_t i = 0; i < lines.size(); ++i) {
    const auto &q = lines[i];
    if (q.size() == 1 && q[0] == -1) {
      s += space() + "%" + (coin(r, 1, 2) ? " 1 2 3" : "");
      comments.push_back(s.size());
    } else {
      s += space();
      for (std::size_t j = 0; j < q.size(); ++j) s += (j ? " " : "") + space() + std::to_string(q[j]);
      s += space();
    }
    if (i + 1 < lines.size() || !no_newline) s += "\n";
  }
  // make the file end at the end of a page
  if (page && !comments.empty()) s.insert(comments[r() % comments.size()], std::string((4096 - s.size() % 4096) % 4096, 'x'));
  else if (page && !lines.back().empty() && s.back() != '\n') s += std::string((4096 - s.size() % 4096) % 4096, ' ');
  return s;
}
inline void put(const std::string &file, const std::string &data) { std::ofstream(file, std::ios::binary) << data; }

inline std::string parhip_data(Rng &r, const G &g, bool wide_edge, bool wide_node, bool wide_nw, bool wide_ew, bool nw, bool ew) {
  std::string s;
  auto word = [&](std::uint64_t v, bool wide) { s.append(reinterpret_cast<const char *>(&v), wide ? 8 : 4); };
  std::uint64_t version = (ew ? 0 : 1) | (nw ? 0 : 2) | (wide_edge ? 0 : 4) | (wide_node ? 0 : 8) | (wide_nw ? 0 : 16) | (wide_ew ? 0 : 32);
  word(version, true), word(g.n(), true), word(g.a.size(), true);
  std::uint64_t base = 24 + (g.n() + 1) * (wide_edge ? 8 : 4);
  for (auto x : g.x) word(base + x * (wide_node ? 8 : 4), wide_edge);
  for (auto v : g.a) word(v, wide_node);
  if (nw)
    for (std::uint32_t u = 0; u < g.n(); ++u) word(g.w(u), wide_nw);
  if (ew)
    for (std::size_t e = 0; e < g.a.size(); ++e) word(g.e(e), wide_ew);
  return s;
}
} // namespace vp
