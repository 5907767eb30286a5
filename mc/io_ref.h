#pragma once
// Helpers for the file-format checks: a plain mesh, generators with enumerated choices, temporary directories.
#include <kigumi/Region_io.h>
#include <kigumi/Triangle_soup_io.h>

#include <ftw.h>

#include <cmath>
#include <iomanip>
#include <cstring>
#include <fstream>
#include <functional>

#include "geom.h"

namespace ior {

using geom::Face_index;
using geom::K;
using geom::Region;
using geom::Soup;
using geom::Vertex_index;

struct Mesh {
  std::vector<std::array<double, 3>> p;
  std::vector<std::array<std::size_t, 3>> f;
  bool operator==(const Mesh& o) const = default;
  void polygon(const std::vector<std::size_t>& v) {
    for (std::size_t i = 2; i < v.size(); ++i) f.push_back({v[0], v[i - 1], v[i]});
  }
};

inline Soup soup_of(const Mesh& m) {
  Soup s;
  for (auto& p : m.p) s.add_vertex({p[0], p[1], p[2]});
  for (auto& f : m.f) s.add_face({Vertex_index{f[0]}, Vertex_index{f[1]}, Vertex_index{f[2]}});
  return s;
}

// Empty if the soup is exactly the mesh.
inline std::string differs(const Soup& s, const Mesh& m) {
  std::ostringstream o;
  if (s.num_vertices() != m.p.size()) {
    o << s.num_vertices() << " vertices instead of " << m.p.size();
    return o.str();
  }
  if (s.num_faces() != m.f.size()) {
    o << s.num_faces() << " faces instead of " << m.f.size();
    return o.str();
  }
  for (std::size_t i = 0; i < m.p.size(); ++i)
    if (s.point(Vertex_index{i}) != K::Point_3(m.p[i][0], m.p[i][1], m.p[i][2])) {
      auto& q = s.point(Vertex_index{i});
      o << "vertex " << i << " is " << std::setprecision(17) << CGAL::to_double(q.x()) << " " << CGAL::to_double(q.y()) << " "
        << CGAL::to_double(q.z()) << " instead of " << m.p[i][0] << " " << m.p[i][1] << " " << m.p[i][2];
      return o.str();
    }
  for (std::size_t i = 0; i < m.f.size(); ++i) {
    auto& f = s.face(Face_index{i});
    if (f[0].idx() != m.f[i][0] || f[1].idx() != m.f[i][1] || f[2].idx() != m.f[i][2]) {
      o << "face " << i << " is " << f[0].idx() << "," << f[1].idx() << "," << f[2].idx();
      return o.str();
    }
  }
  return {};
}

// All faces refer to vertices, all coordinates are finite; the mesh can be used.
inline std::string unusable(const Soup& s) {
  for (auto v : s.vertices()) {
    auto& p = s.point(v);
    for (int k = 0; k < 3; ++k) {
      auto i = p.approx()[k];
      if (!(std::isfinite(i.inf()) && std::isfinite(i.sup()))) {
        if (std::isnan(i.inf()) || std::isnan(i.sup()) || i.inf() == i.sup()) return "a coordinate is not finite";
      }
    }
  }
  for (auto f : s.faces())
    for (auto v : s.face(f))
      if (v.idx() >= s.num_vertices()) return "a face refers to vertex " + std::to_string(v.idx()) + " of " + std::to_string(s.num_vertices());
  return {};
}

inline std::string show(const std::string& s) {
  std::string r;
  for (unsigned char c : s.substr(0, 1500)) {
    if (c == '\n') r += "\\n\n";
    else if (c == '\t') r += "\\t";
    else if (c == '\r') r += "\\r";
    else if (c < 32 || c > 126) {
      char b[8];
      std::snprintf(b, sizeof b, "\\x%02x", c);
      r += b;
    } else r += static_cast<char>(c);
  }
  return r;
}

// Choices of a generator: number 0 is the plain one.
class Chooser {
 public:
  explicit Chooser(std::vector<std::pair<int, int>> dev = {}) : dev_{std::move(dev)} {}
  int operator()(int n) {
    int r = 0;
    for (auto& [i, a] : dev_)
      if (i == static_cast<int>(sizes.size())) r = a;
    sizes.push_back(n);
    if (r >= n) throw std::logic_error("a choice out of range");
    return r;
  }
  std::string pick(const std::vector<std::string>& v) { return v[(*this)(static_cast<int>(v.size()))]; }
  std::vector<int> sizes;

 private:
  std::vector<std::pair<int, int>> dev_;
};
using Dev = std::vector<std::pair<int, int>>;

// All choice vectors with at most `bound` deviations from the plain one.
inline void enumerate(const std::function<void(Chooser&)>& gen, int bound, const std::function<void(const Dev&)>& visit, Dev prefix = {}) {
  Chooser c{prefix};
  gen(c);
  visit(prefix);
  if (static_cast<int>(prefix.size()) == bound) return;
  int from = prefix.empty() ? 0 : prefix.back().first + 1;
  for (int i = from; i < static_cast<int>(c.sizes.size()); ++i)
    for (int a = 1; a < c.sizes[i]; ++a) {
      auto p = prefix;
      p.emplace_back(i, a);
      enumerate(gen, bound, visit, p);
    }
}

// The same vectors, by number: a compact table for the driver.
struct Table {
  std::vector<Dev> v;
  Table(const std::function<void(Chooser&)>& gen, int bound) {
    enumerate(gen, bound, [&](const Dev& d) { v.push_back(d); });
  }
};

// Removed with everything in it.
class Scratch {
 public:
  Scratch() {
    char t[] = "/tmp/kmcio.XXXXXX";
    dir = mkdtemp(t);
  }
  ~Scratch() {
    if (dir.rfind("/tmp/kmcio.", 0) == 0)
      nftw(dir.c_str(), [](const char* p, const struct stat*, int, struct FTW*) { return ::remove(p); }, 8, FTW_DEPTH | FTW_PHYS);
  }
  Scratch(const Scratch&) = delete;
  std::string dir;
  std::string put(const std::string& name, const std::string& text) const {
    auto f = dir + "/" + name;
    std::ofstream o(f, std::ios::binary | std::ios::trunc);
    o << text;
    return f;
  }
};

inline std::string slurp(const std::string& f) {
  std::ifstream i(f, std::ios::binary);
  std::ostringstream o;
  o << i.rdbuf();
  return o.str();
}

enum Format { OBJ, OFF, PLY };
inline const char* ext(int f) { return f == OBJ ? ".obj" : f == OFF ? ".off" : ".ply"; }
inline bool read(int f, std::istream& is, Soup& s) {
  return f == OBJ ? kigumi::io::read_obj(is, s) : f == OFF ? kigumi::io::read_off(is, s) : kigumi::io::read_ply(is, s);
}
inline bool write(int f, std::ostream& os, const Soup& s) {
  return f == OBJ ? kigumi::io::write_obj(os, s) : f == OFF ? kigumi::io::write_off(os, s) : kigumi::io::write_ply(os, s);
}

}  // namespace ior
