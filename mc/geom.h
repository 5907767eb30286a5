#pragma once
// Shapes, and an oracle for point sets that shares no code with the library: floating-point winding
// numbers evaluated at one representative point of every cell of the arrangement of supporting planes.

#include <CGAL/Exact_predicates_exact_constructions_kernel.h>
#include <kigumi/Boolean_operator.h>
#include <kigumi/Boolean_region_builder.h>
#include <kigumi/Region.h>
#include <kigumi/Triangle_soup.h>
#include <kigumi/Warnings.h>

#include <array>
#include <cmath>
#include <map>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>

#include "kmc.h"

namespace geom {

using K = CGAL::Exact_predicates_exact_constructions_kernel;
using Soup = kigumi::Triangle_soup<K, int>;
using Region = kigumi::Region<K, int>;
using Builder = kigumi::Boolean_region_builder<K, int>;
using Op = kigumi::Boolean_operator;
using kigumi::Face;
using kigumi::Face_index;
using kigumi::Vertex_index;

struct V3 {
  double x{}, y{}, z{};
  V3 operator+(const V3& o) const { return {x + o.x, y + o.y, z + o.z}; }
  V3 operator-(const V3& o) const { return {x - o.x, y - o.y, z - o.z}; }
  V3 operator*(double s) const { return {x * s, y * s, z * s}; }
  double dot(const V3& o) const { return x * o.x + y * o.y + z * o.z; }
  V3 cross(const V3& o) const { return {y * o.z - z * o.y, z * o.x - x * o.z, x * o.y - y * o.x}; }
  double norm() const { return std::sqrt(dot(*this)); }
  V3 unit() const { return *this * (1.0 / norm()); }
  bool operator<(const V3& o) const {
    return std::tie(x, y, z) < std::tie(o.x, o.y, o.z);
  }
  bool operator==(const V3& o) const { return x == o.x && y == o.y && z == o.z; }
};

struct Shape {
  std::string name;
  std::vector<V3> p;
  std::vector<std::array<int, 3>> f;
  bool inf = false;  // does it contain the points at infinity?
  // Special kinds: -1 none, 0 empty set, 1 universe.
  int special = -1;

  std::string text() const {
    std::ostringstream o;
    o << name;
    if (special >= 0) return o.str();
    o << " points:";
    for (auto& v : p) o << " (" << v.x << "," << v.y << "," << v.z << ")";
    o << " faces:";
    for (auto& t : f) o << " " << t[0] << "," << t[1] << "," << t[2];
    return o.str();
  }
};

inline Soup soup_of(const Shape& s, int data0 = 0) {
  std::vector<K::Point_3> pts;
  std::vector<Face> faces;
  std::vector<int> data;
  for (auto& v : s.p) pts.emplace_back(v.x, v.y, v.z);
  for (auto& t : s.f) {
    faces.push_back({Vertex_index(t[0]), Vertex_index(t[1]), Vertex_index(t[2])});
    data.push_back(data0++);
  }
  return Soup{std::move(pts), std::move(faces), std::move(data)};
}

// The shape a third of its size, with coordinates computed in one of two ways: intervals until somebody asks for more.
inline Region region_of_thirds(const Shape& s, int data0, int variant) {
  if (s.special == 0) return Region::empty();
  if (s.special == 1) return Region::full();
  auto base = soup_of(s, data0);
  auto third = [&](double x) -> K::FT {
    K::FT v{x};
    if (variant == 0) return v / K::FT{3};
    return ((v / K::FT{7} + K::FT{1} / K::FT{9}) - K::FT{1} / K::FT{9}) * (K::FT{7} / K::FT{3});
  };
  std::vector<K::Point_3> pts;
  std::vector<Face> faces;
  std::vector<int> data;
  for (auto& v : s.p) pts.emplace_back(third(v.x), third(v.y), third(v.z));
  for (auto fi : base.faces()) {
    faces.push_back(base.face(fi));
    data.push_back(base.data(fi));
  }
  return Region{Soup{std::move(pts), std::move(faces), std::move(data)}};
}

inline Region region_of(const Shape& s, int data0 = 0) {
  if (s.special == 0) return Region::empty();
  if (s.special == 1) return Region::full();
  return Region{soup_of(s, data0)};
}

inline Shape empty_shape() { Shape s; s.name = "empty"; s.special = 0; return s; }
inline Shape full_shape() { Shape s; s.name = "universe"; s.special = 1; s.inf = true; return s; }

inline Shape inverted(Shape s) {
  s.name = "complement of " + s.name;
  for (auto& t : s.f) std::swap(t[1], t[2]);
  s.inf = !s.inf;
  if (s.special >= 0) s.special = 1 - s.special;
  return s;
}

inline Shape moved(Shape s, V3 d, double scale = 1) {
  for (auto& v : s.p) v = v * scale + d;
  return s;
}

inline Shape merged(const Shape& a, const Shape& b) {  // disjoint components (or nested with opposite orientation)
  Shape s = a;
  s.name = a.name + " + " + b.name;
  int n = static_cast<int>(a.p.size());
  for (auto& v : b.p) s.p.push_back(v);
  for (auto t : b.f) s.f.push_back({t[0] + n, t[1] + n, t[2] + n});
  return s;
}

// Voxels of an nx*ny*nz grid; `diag` selects the diagonal of each boundary square (0, 1: uniform;
// 2: alternating by parity, 3: a mix by direction).
inline Shape voxels(unsigned mask, int nx, int ny, int nz, int diag, V3 off = {}, double scale = 1) {
  Shape s;
  std::ostringstream nm;
  nm << "voxels" << nx << ny << nz << " mask=" << mask << " diag=" << diag;
  s.name = nm.str();
  std::map<std::array<int, 3>, int> idx;
  auto vert = [&](std::array<int, 3> g) {
    auto [it, ins] = idx.emplace(g, static_cast<int>(s.p.size()));
    if (ins) s.p.push_back(V3{static_cast<double>(g[0]), static_cast<double>(g[1]), static_cast<double>(g[2])} * scale + off);
    return it->second;
  };
  auto in = [&](int x, int y, int z) {
    if (x < 0 || y < 0 || z < 0 || x >= nx || y >= ny || z >= nz) return false;
    return ((mask >> (x + nx * (y + ny * z))) & 1U) != 0;
  };
  int n[3] = {nx, ny, nz};
  for (int ax = 0; ax < 3; ++ax) {
    int u = (ax + 1) % 3, v = (ax + 2) % 3;
    for (int c = 0; c <= n[ax]; ++c)
      for (int i = 0; i < n[u]; ++i)
        for (int j = 0; j < n[v]; ++j) {
          std::array<int, 3> lo{}, hi{};
          lo[ax] = c - 1; hi[ax] = c; lo[u] = hi[u] = i; lo[v] = hi[v] = j;
          bool a = in(lo[0], lo[1], lo[2]), b = in(hi[0], hi[1], hi[2]);
          if (a == b) continue;
          std::array<int, 3> g00{}, g10{}, g11{}, g01{};
          g00[ax] = g10[ax] = g11[ax] = g01[ax] = c;
          g00[u] = g01[u] = i; g10[u] = g11[u] = i + 1;
          g00[v] = g10[v] = j; g01[v] = g11[v] = j + 1;
          std::array<int, 4> q{vert(g00), vert(g10), vert(g11), vert(g01)};  // ccw seen from +ax
          bool d = diag == 0 ? false : diag == 1 ? true : diag == 2 ? ((i + j + c) % 2 != 0) : (ax == 1) != a;
          std::vector<std::array<int, 3>> ts;
          if (!d) ts = {{q[0], q[1], q[2]}, {q[0], q[2], q[3]}};
          else ts = {{q[0], q[1], q[3]}, {q[1], q[2], q[3]}};
          for (auto t : ts) {
            if (b) std::swap(t[1], t[2]);  // outward normal points to -ax
            s.f.push_back(t);
          }
        }
  }
  return s;
}

inline Shape box(V3 lo, V3 hi, int diag) {
  auto s = voxels(1, 1, 1, 1, diag);
  for (auto& v : s.p) v = {lo.x + v.x * (hi.x - lo.x), lo.y + v.y * (hi.y - lo.y), lo.z + v.z * (hi.z - lo.z)};
  std::ostringstream nm;
  nm << "box(" << lo.x << lo.y << lo.z << "-" << hi.x << hi.y << hi.z << ") diag=" << diag;
  s.name = nm.str();
  return s;
}

// Returns no faces if flat.
inline Shape tet(V3 a, V3 b, V3 c, V3 d) {
  Shape s;
  s.name = "tet";
  double vol = (b - a).cross(c - a).dot(d - a);
  if (vol == 0) return s;
  if (vol < 0) std::swap(c, d);
  s.p = {a, b, c, d};
  s.f = {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}};
  return s;
}

inline Shape octahedron(V3 c, double r) {
  Shape s;
  s.name = "octahedron";
  s.p = {c + V3{r, 0, 0}, c + V3{-r, 0, 0}, c + V3{0, r, 0}, c + V3{0, -r, 0}, c + V3{0, 0, r}, c + V3{0, 0, -r}};
  s.f = {{0, 2, 4}, {2, 1, 4}, {1, 3, 4}, {3, 0, 4}, {2, 0, 5}, {1, 2, 5}, {3, 1, 5}, {0, 3, 5}};
  return s;
}

// --- winding numbers -------------------------------------------------------------------------------

struct Tri {
  V3 a, b, c;
};

inline double solid_angle(const V3& q, const V3& pa, const V3& pb, const V3& pc) {
  V3 a = pa - q, b = pb - q, c = pc - q;
  double la = a.norm(), lb = b.norm(), lc = c.norm();
  double num = a.dot(b.cross(c));
  double den = la * lb * lc + a.dot(b) * lc + b.dot(c) * la + c.dot(a) * lb;
  return 2 * std::atan2(num, den);
}

inline double winding(const std::vector<Tri>& ts, const V3& q) {
  double w = 0;
  for (auto& t : ts) w += solid_angle(q, t.a, t.b, t.c);
  return w / (4 * M_PI);
}

inline std::vector<Tri> tris_of(const Shape& s) {
  std::vector<Tri> r;
  for (auto& t : s.f) r.push_back({s.p[t[0]], s.p[t[1]], s.p[t[2]]});
  return r;
}

// Results are seen through this factor, so that a computation in another scale can be judged by the same reference.
inline double g_unscale = 1;
struct Unscale {
  explicit Unscale(double f) { g_unscale = f; }
  ~Unscale() { g_unscale = 1; }
};

inline V3 to_v3(const K::Point_3& p) {
  p.exact();
  return V3{CGAL::to_double(p.x()), CGAL::to_double(p.y()), CGAL::to_double(p.z())} * g_unscale;
}

// What a boundary-defined region or a special region denotes, read through its public interface.
inline std::vector<Tri> tris_of(const Soup& s) {
  std::vector<V3> pts;
  pts.reserve(s.num_vertices());
  for (auto vi : s.vertices()) pts.push_back(to_v3(s.point(vi)));
  std::vector<Tri> r;
  for (auto fi : s.faces()) {
    auto& f = s.face(fi);
    r.push_back({pts.at(f[0].idx()), pts.at(f[1].idx()), pts.at(f[2].idx())});
  }
  return r;
}

inline bool apply(Op op, bool a, bool b) {
  // Truth tables written from the README's table of operators (Venn diagrams: A only, B only, both, neither).
  switch (op) {
    case Op::V: return true;
    case Op::A: return a || b;
    case Op::B: return !(b && !a);
    case Op::C: return !(a && !b);
    case Op::D: return !(a && b);
    case Op::E: return a == b;
    case Op::F: return !a;
    case Op::G: return !b;
    case Op::H: return b;
    case Op::I: return a;
    case Op::J: return a != b;
    case Op::K: return a && b;
    case Op::L: return a && !b;
    case Op::M: return b && !a;
    case Op::X: return !(a || b);
    case Op::O: return false;
  }
  return false;
}

inline const char* op_name(Op op) {
  static const char* n[] = {"V", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "X", "O"};
  return n[static_cast<int>(op)];
}

struct Plane {
  V3 n;  // unit, canonical sign
  double d{};
};

inline std::optional<Plane> plane_of(const Tri& t) {
  V3 n = (t.b - t.a).cross(t.c - t.a);
  double l = n.norm();
  if (l < 1e-12) return {};
  n = n * (1 / l);
  if (n.x < -1e-9 || (std::abs(n.x) <= 1e-9 && (n.y < -1e-9 || (std::abs(n.y) <= 1e-9 && n.z < 0)))) n = n * -1;
  return Plane{n, n.dot(t.a)};
}

inline bool same_plane(const Plane& a, const Plane& b) {
  return (a.n - b.n).norm() < 1e-9 && std::abs(a.d - b.d) < 1e-9;
}

inline std::vector<Plane> planes_of(const std::vector<Tri>& ts) {
  std::vector<Plane> r;
  for (auto& t : ts) {
    auto p = plane_of(t);
    if (!p) continue;
    bool dup = false;
    for (auto& q : r) dup = dup || same_plane(*p, q);
    if (!dup) r.push_back(*p);
  }
  return r;
}

inline bool axis_aligned(const Plane& p) {
  return std::abs(p.n.x) + std::abs(p.n.y) + std::abs(p.n.z) < 1 + 1e-9;
}

// One representative point of every (full-dimensional) cell of the arrangement of the planes.
inline std::vector<V3> cell_points(const std::vector<Plane>& planes) {
  std::vector<V3> out;
  bool axis = true;
  for (auto& p : planes) axis = axis && axis_aligned(p);
  if (axis) {
    std::array<std::set<double>, 3> cs;
    for (auto& p : planes) {
      if (std::abs(p.n.x) > 0.5) cs[0].insert(p.d / p.n.x);
      else if (std::abs(p.n.y) > 0.5) cs[1].insert(p.d / p.n.y);
      else cs[2].insert(p.d / p.n.z);
    }
    std::array<std::vector<double>, 3> m;
    for (int k = 0; k < 3; ++k) {
      if (cs[k].empty()) {
        m[k] = {0.123};
        continue;
      }
      double prev = *cs[k].begin() - 2;
      for (double c : cs[k]) {
        m[k].push_back((prev + c) / 2);
        prev = c;
      }
      m[k].push_back(prev + 1);
    }
    for (double x : m[0])
      for (double y : m[1])
        for (double z : m[2]) out.push_back({x, y, z});
    return out;
  }
  // General case: every cell has a vertex and, at that vertex, an extreme ray; next to that ray it is a
  // sector of the transverse line arrangement.
  std::vector<V3> verts;
  auto n = planes.size();
  for (std::size_t i = 0; i < n; ++i)
    for (std::size_t j = i + 1; j < n; ++j)
      for (std::size_t k = j + 1; k < n; ++k) {
        auto &a = planes[i], &b = planes[j], &c = planes[k];
        double det = a.n.dot(b.n.cross(c.n));
        if (std::abs(det) < 1e-9) continue;
        V3 v = (b.n.cross(c.n) * a.d + c.n.cross(a.n) * b.d + a.n.cross(b.n) * c.d) * (1 / det);
        bool dup = false;
        for (auto& w : verts) dup = dup || (w - v).norm() < 1e-9;
        if (!dup) verts.push_back(v);
      }
  struct Best {
    V3 p;
    double margin;
  };
  std::map<std::vector<bool>, Best> cells;
  std::vector<std::size_t> on;
  for (auto& v : verts) {
    on.clear();
    double clear = 1e9;  // distance to the planes not through v
    for (std::size_t i = 0; i < n; ++i) {
      double d = std::abs(planes[i].n.dot(v) - planes[i].d);
      if (d < 1e-9) on.push_back(i);
      else clear = std::min(clear, d);
    }
    std::vector<V3> rays;
    for (std::size_t i = 0; i < on.size(); ++i)
      for (std::size_t j = i + 1; j < on.size(); ++j) {
        V3 r = planes[on[i]].n.cross(planes[on[j]].n);
        if (r.norm() < 1e-9) continue;
        r = r.unit();
        for (int s : {1, -1}) {
          V3 q = r * s;
          bool dup = false;
          for (auto& w : rays) dup = dup || (w - q).norm() < 1e-9;
          if (!dup) rays.push_back(q);
        }
      }
    double e1 = std::min(0.25, clear / 4);
    for (auto& r : rays) {
      double clear2 = 1;  // how fast the ray leaves the planes through v that do not contain it
      std::vector<V3> dirs;
      for (auto i : on) {
        double c = std::abs(planes[i].n.dot(r));
        if (c < 1e-9) dirs.push_back(planes[i].n.cross(r).unit());
        else clear2 = std::min(clear2, c);
      }
      double e2 = std::min(e1 * clear2 / 4, e1);
      V3 u = dirs.front(), w = r.cross(u);
      std::vector<double> ang;
      for (auto& d : dirs)
        for (int s : {1, -1}) ang.push_back(std::atan2(d.dot(w) * s, d.dot(u) * s));
      std::sort(ang.begin(), ang.end());
      for (std::size_t i = 0; i < ang.size(); ++i) {
        double a = ang[i], b = i + 1 < ang.size() ? ang[i + 1] : ang[0] + 2 * M_PI;
        if (b - a < 1e-7) continue;
        double m = (a + b) / 2;
        V3 p = v + r * e1 + (u * std::cos(m) + w * std::sin(m)) * e2;
        std::vector<bool> sg;
        double margin = 1e9;
        for (auto& pl : planes) {
          double d = pl.n.dot(p) - pl.d;
          sg.push_back(d > 0);
          margin = std::min(margin, std::abs(d));
        }
        auto [it, ins] = cells.emplace(std::move(sg), Best{p, margin});
        if (!ins && margin > it->second.margin) it->second = {p, margin};
      }
    }
  }
  for (auto& [k, b] : cells) out.push_back(b.p);
  return out;
}

struct Key9 {
  std::array<std::int64_t, 9> k{};
  bool operator==(const Key9& o) const { return k == o.k; }
};
struct Key9Hash {
  std::size_t operator()(const Key9& x) const {
    std::uint64_t h = 7;
    for (auto v : x.k) h = kmc::mix64(h ^ static_cast<std::uint64_t>(v));
    return h;
  }
};
using PKey = std::array<std::int64_t, 3>;
inline PKey pkey(const V3& v) {
  return {std::llround(v.x * 1e9), std::llround(v.y * 1e9), std::llround(v.z * 1e9)};
}

struct Verdict {
  std::string key, text;  // empty key: fine
  explicit operator bool() const { return !key.empty(); }
};

// A set over n base shapes is a truth table: bit m tells whether points whose membership bits are m belong.
using TT = std::uint32_t;

inline TT tt_var(int i) {
  TT t = 0;
  for (unsigned m = 0; m < 32; ++m)
    if ((m >> i) & 1U) t |= 1U << m;
  return t;
}
inline TT tt_const(bool v) { return v ? ~0U : 0U; }
inline TT tt_apply(Op op, TT a, TT b) {
  TT t = 0;
  for (unsigned m = 0; m < 32; ++m)
    if (apply(op, ((a >> m) & 1U) != 0, ((b >> m) & 1U) != 0)) t |= 1U << m;
  return t;
}
inline bool tt_at(TT t, unsigned bits) { return ((t >> bits) & 1U) != 0; }

// The reference for sets over a few base shapes (at most five).
class Oracle {
 public:
  explicit Oracle(std::vector<Shape> shapes) : shapes_{std::move(shapes)} {
    std::vector<Tri> all;
    for (auto& s : shapes_) {
      tris_.push_back(tris_of(s));
      all.insert(all.end(), tris_.back().begin(), tris_.back().end());
    }
    planes_ = planes_of(all);
    cells_ = cell_points(planes_);
    if (planes_.empty()) cells_ = {V3{0.1, 0.2, 0.3}};
    for (auto& c : cells_) bits_.push_back(bits_at(c));
    for (std::size_t i = 0; i < shapes_.size(); ++i) inf_ |= shapes_[i].inf ? 1U << i : 0U;
  }

  std::size_t num_cells() const { return cells_.size(); }
  const std::vector<V3>& cells() const { return cells_; }
  unsigned bits(std::size_t i) const { return bits_[i]; }
  bool valid_inputs() const { return valid_; }

  unsigned bits_at(const V3& p) {
    unsigned b = 0;
    for (std::size_t i = 0; i < shapes_.size(); ++i)
      if (inside(tris_[i], shapes_[i].inf, p)) b |= 1U << i;
    return b;
  }

  int expected_kind(TT t) const {  // 0 empty, 1 full, 2 boundary
    bool any0 = false, any1 = false;
    for (auto b : bits_) (tt_at(t, b) ? any1 : any0) = true;
    return any0 && any1 ? 2 : any1 ? 1 : 0;
  }

  // The set as a bit string over the cells: equal strings, equal sets.
  std::string denotation(TT t) const {
    std::string r;
    for (auto b : bits_) r += tt_at(t, b) ? '1' : '0';
    return r;
  }

  // Does `r` denote the set, with a valid boundary?
  Verdict check(TT t, const Region& r, const std::string& what) {
    auto k = expected_kind(t);
    int got = r.is_empty() ? 0 : r.is_full() ? 1 : 2;
    static const char* kn[] = {"empty", "full", "boundary-defined"};
    if (got != k) return {"kind", what + ": expected " + kn[k] + ", got " + kn[got]};
    if (r.is_empty_or_full() != (got != 2)) return {"kind", what + ": is_empty_or_full() contradicts the kind"};
    if (got != 2) {
      if (r.boundary().num_faces() != 0) return {"kind-faces", what + ": a special region has boundary faces"};
      return {};
    }
    std::vector<double> w(cells_.size(), 0.0);
    const auto& s = r.boundary();
    std::vector<V3> pts;
    for (auto vi : s.vertices()) pts.push_back(to_v3(s.point(vi)));
    std::map<std::pair<PKey, PKey>, int> he;
    for (auto fi : s.faces()) {
      const auto& f = s.face(fi);
      for (auto v : f)
        if (v.idx() >= pts.size()) return {"bad-index", what + ": a face refers to a vertex that does not exist"};
      Tri tri{pts[f[0].idx()], pts[f[1].idx()], pts[f[2].idx()]};
      bool odd = false;
      auto& info = info_of(tri, odd);
      if (info.degenerate) return {"degenerate-face", what + ": a degenerate face"};
      if (!info.on_input_plane) return {"alien-face", what + ": a face not on any plane of the operands " + str(tri)};
      double sg = odd ? -1 : 1;
      for (std::size_t i = 0; i < w.size(); ++i) w[i] += sg * (*info.angles)[i];
      // The face must separate inside (below) from outside (above).
      bool up = tt_at(t, info.up), dn = tt_at(t, info.dn);
      if (odd) std::swap(up, dn);
      if (up || !dn) {
        return {"face-sides", what + ": face " + std::to_string(fi.idx()) +
                                  " does not separate inside from outside (above " + (up ? "in" : "out") +
                                  ", below " + (dn ? "in" : "out") + ") " + str(tri)};
      }
      PKey k3[3] = {pkey(tri.a), pkey(tri.b), pkey(tri.c)};
      for (int i = 0; i < 3; ++i) {
        auto x = k3[i], y = k3[(i + 1) % 3];
        if (x < y) ++he[{x, y}];
        else --he[{y, x}];
      }
    }
    bool inf = tt_at(t, inf_);
    for (std::size_t i = 0; i < w.size(); ++i) {
      double ww = w[i] / (4 * M_PI) + (inf ? 1 : 0);
      bool want = tt_at(t, bits_[i]);
      if (std::abs(ww - (want ? 1 : 0)) > 1e-4) {
        std::ostringstream o;
        o << what << ": at (" << cells_[i].x << "," << cells_[i].y << "," << cells_[i].z
          << ") the result has winding " << ww << ", expected " << want << " (membership bits " << bits_[i] << ")";
        return {"membership", o.str()};
      }
    }
    for (auto& [e, n] : he)
      if (n != 0) return {"open-edge", what + ": unbalanced edge in the result"};
    return {};
  }

  static std::string str(const Tri& t) {
    std::ostringstream o;
    for (auto& v : {t.a, t.b, t.c}) o << "(" << v.x << "," << v.y << "," << v.z << ")";
    return o.str();
  }

 private:
  struct Info {
    std::shared_ptr<std::vector<double>> angles;
    bool degenerate{}, on_input_plane{};
    unsigned up{}, dn{};
  };

  bool inside(const std::vector<Tri>& ts, bool inf, const V3& p) {
    double w = winding(ts, p) + (inf ? 1 : 0);
    if (std::abs(w) > 1e-4 && std::abs(w - 1) > 1e-4) valid_ = false;
    return w > 0.5;
  }

  Info& info_of(const Tri& t, bool& odd) {
    // Canonical form: sorted vertices; the sign is the parity of the permutation.
    std::array<PKey, 3> k{pkey(t.a), pkey(t.b), pkey(t.c)};
    std::array<int, 3> perm{0, 1, 2};
    std::sort(perm.begin(), perm.end(), [&](int x, int y) { return k[x] < k[y]; });
    odd = (perm[0] > perm[1]) ^ (perm[0] > perm[2]) ^ (perm[1] > perm[2]);
    Key9 key;
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j) key.k[3 * i + j] = k[perm[i]][j];
    auto [it, ins] = cache_.emplace(key, Info{});
    auto& info = it->second;
    if (ins) {
      V3 v[3] = {t.a, t.b, t.c};
      Tri c{v[perm[0]], v[perm[1]], v[perm[2]]};
      auto pl = plane_of(c);
      if (!pl) {
        info.degenerate = true;
      } else {
        for (auto& q : planes_) info.on_input_plane = info.on_input_plane || same_plane(*pl, q);
        info.angles = std::make_shared<std::vector<double>>();
        for (auto& p : cells_) info.angles->push_back(solid_angle(p, c.a, c.b, c.c));
        V3 n = (c.b - c.a).cross(c.c - c.a).unit();
        // A generic interior point, then just above and below.
        V3 g = c.a * 0.34567 + c.b * 0.33456 + c.c * 0.31977;
        double eps = 1e-6;
        info.up = bits_at(g + n * eps);
        info.dn = bits_at(g - n * eps);
      }
    }
    return info;
  }

  std::vector<Shape> shapes_;
  std::vector<std::vector<Tri>> tris_;
  std::vector<Plane> planes_;
  std::vector<V3> cells_;
  std::vector<unsigned> bits_;
  unsigned inf_ = 0;
  std::unordered_map<Key9, Info, Key9Hash> cache_;
  bool valid_ = true;
};

// The reference for one pair of operands.
class Pair_oracle : public Oracle {
 public:
  Pair_oracle(const Shape& a, const Shape& b) : Oracle{{a, b}} {}
  bool in_a(std::size_t i) const { return (bits(i) & 1U) != 0; }
  bool in_b(std::size_t i) const { return (bits(i) & 2U) != 0; }
  Verdict check(Op op, const Region& r) {
    return Oracle::check(tt_apply(op, tt_var(0), tt_var(1)), r, std::string("operator ") + op_name(op));
  }
};

// A canonical description of a region: equal strings, same kind, triangles (by position), orientation and data.
inline std::string canonical(const Region& r, bool with_data = true) {
  if (r.is_empty()) return "empty";
  if (r.is_full()) return "full";
  const auto& s = r.boundary();
  std::vector<std::string> fs;
  for (auto fi : s.faces()) {
    const auto& f = s.face(fi);
    std::array<std::string, 3> t;
    for (int i = 0; i < 3; ++i) {
      const auto& p = s.point(f[i]);
      p.exact();
      std::ostringstream o;
      o << p.exact().x() << ',' << p.exact().y() << ',' << p.exact().z();
      t[i] = o.str();
    }
    int m = static_cast<int>(std::min_element(t.begin(), t.end()) - t.begin());
    std::string x = t[m] + ";" + t[(m + 1) % 3] + ";" + t[(m + 2) % 3];
    if (with_data) x += "#" + std::to_string(s.data(fi));
    fs.push_back(std::move(x));
  }
  std::sort(fs.begin(), fs.end());
  std::string r2 = "boundary ";
  for (auto& f : fs) r2 += f + " ";
  return r2;
}

// A hash of the same description (coordinates as doubles), for comparing many regions quickly.
inline std::uint64_t fingerprint(const Region& r, bool with_data = true) {
  std::uint64_t h = kmc::mix64(r.is_empty() ? 1 : r.is_full() ? 2 : 3);
  if (r.is_empty_or_full()) return h;
  const auto& s = r.boundary();
  std::vector<std::uint64_t> ph;
  for (auto vi : s.vertices()) {
    auto v = to_v3(s.point(vi));
    std::uint64_t x = 5;
    for (double d : {v.x + 0.0, v.y + 0.0, v.z + 0.0}) {
      std::uint64_t b;
      std::memcpy(&b, &d, 8);
      x = kmc::mix64(x ^ b);
    }
    ph.push_back(x);
  }
  for (auto fi : s.faces()) {
    const auto& f = s.face(fi);
    std::uint64_t t[3];
    for (int i = 0; i < 3; ++i) t[i] = ph.at(f[i].idx());
    int m = static_cast<int>(std::min_element(t, t + 3) - t);
    std::uint64_t x = kmc::mix64(t[m] * 3 + kmc::mix64(t[(m + 1) % 3] * 5 + kmc::mix64(t[(m + 2) % 3])));
    if (with_data) x = kmc::mix64(x + static_cast<std::uint64_t>(s.data(fi)));
    h += x;
  }
  return h;
}

}  // namespace geom
