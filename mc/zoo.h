#pragma once
// Families of shapes.
#include "geom.h"

namespace zoo {

using geom::Shape;
using geom::V3;

// Is the mask the smallest of its class under the 48 symmetries of the cube (2x2x2 grid)?
inline bool canonical_mask(unsigned m) {
  int perms[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  for (auto& p : perms)
    for (int flip = 0; flip < 8; ++flip) {
      unsigned r = 0;
      for (int i = 0; i < 8; ++i)
        if ((m >> i) & 1U) {
          int b[3] = {i & 1, (i >> 1) & 1, (i >> 2) & 1}, o[3];
          for (int k = 0; k < 3; ++k) o[k] = b[p[k]] ^ ((flip >> k) & 1);
          r |= 1U << (o[0] + 2 * o[1] + 4 * o[2]);
        }
      if (r < m) return false;
    }
  return true;
}

inline std::vector<Shape> boxes(int n, int diag) {
  std::vector<Shape> r;
  for (int x0 = 0; x0 < n; ++x0)
    for (int x1 = x0 + 1; x1 <= n; ++x1)
      for (int y0 = 0; y0 < n; ++y0)
        for (int y1 = y0 + 1; y1 <= n; ++y1)
          for (int z0 = 0; z0 < n; ++z0)
            for (int z1 = z0 + 1; z1 <= n; ++z1)
              r.push_back(geom::box({double(x0), double(y0), double(z0)}, {double(x1), double(y1), double(z1)}, diag));
  return r;
}

inline std::vector<Shape> base_tets() {
  std::vector<Shape> r;
  auto add = [&](V3 a, V3 b, V3 c, V3 d) { r.push_back(geom::tet(a, b, c, d)); };
  add({0, 0, 0}, {2, 0, 0}, {0, 2, 0}, {0, 0, 2});
  add({0, 0, 0}, {2, 2, 0}, {2, 0, 2}, {0, 2, 2});
  add({0, 0, 0}, {2, 1, 0}, {1, 2, 0}, {1, 1, 2});
  r.push_back(geom::inverted(r[0]));
  r.push_back(geom::octahedron({1, 1, 1}, 1));
  r.push_back(geom::box({0, 0, 0}, {2, 2, 2}, 0));
  r.push_back(geom::box({0, 0, 0}, {1, 2, 1}, 1));
  return r;
}

// All tetrahedra over grid points; level 1: the 2x2x2 cube corners stretched plus centre points, 2: {0,1,2}^3
// restricted to those that have a vertex of the form (even,even,even).
inline std::vector<Shape> all_tets(int level, bool small) {
  std::vector<V3> p;
  for (int x = 0; x < 3; ++x)
    for (int y = 0; y < 3; ++y)
      for (int z = 0; z < 3; ++z) {
        int odd = x % 2 + y % 2 + z % 2;
        if (level == 1 && (odd == 1 || (odd == 2 && (x + 2 * y + 3 * z) % 2 != 0))) continue;
        p.push_back({double(x), double(y), double(z)});
      }
  (void)small;
  std::vector<Shape> r;
  for (std::size_t i = 0; i < p.size(); ++i)
    for (std::size_t j = i + 1; j < p.size(); ++j)
      for (std::size_t k = j + 1; k < p.size(); ++k)
        for (std::size_t l = k + 1; l < p.size(); ++l) {
          auto t = geom::tet(p[i], p[j], p[k], p[l]);
          if (!t.f.empty()) r.push_back(t);
        }
  return r;
}

inline Shape prism(V3 o) {  // triangular prism
  Shape s;
  s.name = "prism";
  s.p = {o, o + V3{2, 0, 0}, o + V3{0, 2, 0}, o + V3{0, 0, 2}, o + V3{2, 0, 2}, o + V3{0, 2, 2}};
  s.f = {{0, 2, 1}, {3, 4, 5}, {0, 1, 4}, {0, 4, 3}, {1, 2, 5}, {1, 5, 4}, {2, 0, 3}, {2, 3, 5}};
  return s;
}

inline Shape pyramid(V3 o, int diag) {
  Shape s;
  s.name = "pyramid";
  s.p = {o, o + V3{2, 0, 0}, o + V3{2, 2, 0}, o + V3{0, 2, 0}, o + V3{1, 1, 2}};
  s.f = {{0, 1, 4}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}};
  if (diag == 0) { s.f.push_back({0, 2, 1}); s.f.push_back({0, 3, 2}); }
  else { s.f.push_back({0, 3, 1}); s.f.push_back({1, 3, 2}); }
  return s;
}

// A cube whose top square is split into four triangles around its centre (vertex in a coplanar face).
inline Shape cube_star(V3 o, double e) {
  Shape s = geom::box(o, o + V3{e, e, e}, 0);
  s.name = "cube with star faces";
  Shape r;
  r.name = s.name;
  r.p = s.p;
  // Replace each pair of triangles of a square by four.
  for (std::size_t i = 0; i < s.f.size(); i += 2) {
    auto a = s.f[i], b = s.f[i + 1];
    std::set<int> ids{a[0], a[1], a[2], b[0], b[1], b[2]};
    V3 c{};
    for (int v : ids) c = c + s.p[v] * 0.25;
    int ci = static_cast<int>(r.p.size());
    r.p.push_back(c);
    std::map<std::pair<int, int>, bool> he;
    for (auto& t : {a, b})
      for (int k = 0; k < 3; ++k) he[{t[k], t[(k + 1) % 3]}] = true;
    for (auto& [e2, _] : he)
      if (!he.count({e2.second, e2.first})) r.f.push_back({e2.first, e2.second, ci});
  }
  return r;
}

// A prism over a polygon given counterclockwise; the caps are fans from vertex `root`.
inline Shape prism_over(const std::vector<std::array<double, 2>>& poly, double z0, double z1, int root = 0) {
  Shape s;
  std::ostringstream nm;
  nm << "prism over";
  int n = static_cast<int>(poly.size());
  for (auto& q : poly) nm << " (" << q[0] << "," << q[1] << ")";
  nm << " z=" << z0 << ".." << z1;
  s.name = nm.str();
  for (auto& q : poly) s.p.push_back({q[0], q[1], z0});
  for (auto& q : poly) s.p.push_back({q[0], q[1], z1});
  for (int i = 1; i + 1 < n; ++i) {
    int a = root, b = (root + i) % n, c = (root + i + 1) % n;
    s.f.push_back({a, c, b});
    s.f.push_back({n + a, n + b, n + c});
  }
  for (int i = 0; i < n; ++i) {
    int j = (i + 1) % n;
    s.f.push_back({i, j, n + j});
    s.f.push_back({i, n + j, n + i});
  }
  return s;
}

// Triangles over an (n+1)^2 grid, counterclockwise; only one per class of the square's symmetries if `reps`.
inline std::vector<std::vector<std::array<double, 2>>> grid_triangles(int n, bool reps) {
  std::vector<std::vector<std::array<double, 2>>> r;
  int m = (n + 1) * (n + 1);
  for (int i = 0; i < m; ++i)
    for (int j = i + 1; j < m; ++j)
      for (int k = j + 1; k < m; ++k) {
        int v[3][2] = {{i % (n + 1), i / (n + 1)}, {j % (n + 1), j / (n + 1)}, {k % (n + 1), k / (n + 1)}};
        int det = (v[1][0] - v[0][0]) * (v[2][1] - v[0][1]) - (v[1][1] - v[0][1]) * (v[2][0] - v[0][0]);
        if (det == 0) continue;
        if (reps) {
          bool smallest = true;
          std::array<int, 3> me{i, j, k};
          for (int g = 1; g < 8; ++g) {
            std::array<int, 3> o{};
            for (int t = 0; t < 3; ++t) {
              int x = v[t][0], y = v[t][1];
              if (g & 1) x = n - x;
              if (g & 2) y = n - y;
              if (g & 4) std::swap(x, y);
              o[t] = x + (n + 1) * y;
            }
            std::sort(o.begin(), o.end());
            if (o < me) smallest = false;
          }
          if (!smallest) continue;
        }
        std::vector<std::array<double, 2>> t;
        for (auto& q : v) t.push_back({double(q[0]), double(q[1])});
        if (det < 0) std::swap(t[1], t[2]);
        r.push_back(t);
      }
  return r;
}

// All convex polygons on eight cocircular points.
inline std::vector<std::vector<std::array<double, 2>>> circle_polygons() {
  static const double c[8][2] = {{2, 1}, {1, 2}, {-1, 2}, {-2, 1}, {-2, -1}, {-1, -2}, {1, -2}, {2, -1}};
  std::vector<std::vector<std::array<double, 2>>> r;
  for (unsigned m = 0; m < 256; ++m) {
    if (__builtin_popcount(m) < 3) continue;
    std::vector<std::array<double, 2>> t;
    for (int i = 0; i < 8; ++i)
      if ((m >> i) & 1U) t.push_back({c[i][0], c[i][1]});
    r.push_back(t);
  }
  return r;
}

inline std::vector<Shape> zoo() {
  using namespace geom;
  std::vector<Shape> r;
  r.push_back(box({0, 0, 0}, {2, 2, 2}, 0));
  r.push_back(box({0, 0, 0}, {2, 2, 2}, 1));
  r.push_back(box({0, 0, 0}, {2, 2, 2}, 3));
  r.push_back(cube_star({0, 0, 0}, 2));
  r.push_back(tet({0, 0, 0}, {2, 0, 0}, {0, 2, 0}, {0, 0, 2}));
  r.push_back(tet({0, 0, 0}, {2, 2, 0}, {2, 0, 2}, {0, 2, 2}));
  r.push_back(octahedron({1, 1, 1}, 1));
  r.push_back(octahedron({1, 1, 1}, 2));
  r.push_back(prism({0, 0, 0}));
  r.push_back(pyramid({0, 0, 0}, 0));
  r.push_back(pyramid({0, 0, 0}, 1));
  {  // Two tetrahedra sharing one vertex (as one vertex), and sharing an edge.
    Shape s;
    s.name = "two tets sharing a vertex";
    s.p = {{1, 1, 1}, {2, 1, 1}, {1, 2, 1}, {1, 1, 2}, {0, 1, 1}, {1, 0, 1}, {1, 1, 0}};
    s.f = {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}, {0, 4, 5}, {0, 6, 4}, {4, 6, 5}, {5, 6, 0}};
    r.push_back(s);
  }
  {
    Shape s = voxels(0b1001, 2, 2, 1, 0);  // two cubes sharing an edge
    r.push_back(s);
    s = voxels(0b10000001, 2, 2, 2, 1);  // two cubes sharing a vertex
    r.push_back(s);
    s = voxels(0b00010111, 2, 2, 2, 0);
    r.push_back(s);
    s = voxels(0b01101001, 2, 2, 2, 2);  // checkerboard: every edge non-manifold
    r.push_back(s);
  }
  {  // A cube with a cubic cavity, and a ring.
    unsigned m = 0;
    for (int i = 0; i < 27; ++i)
      if (i != 13) m |= 1U << i;
    auto s = voxels(m, 3, 3, 3, 0, {}, 2.0 / 3);
    r.push_back(moved(merged(box({0, 0, 0}, {2, 2, 2}, 0), inverted(box({0.5, 0.5, 0.5}, {1.5, 1.5, 1.5}, 1))), {}));
    r.back().name = "cube with cavity";
    r.back().inf = false;
    m = 0b111101111;
    s = voxels(m, 3, 3, 1, 0, {}, 1);
    s.name = "ring";
    r.push_back(s);
  }
  {  // Coincident duplicate points: two cubes touching along a square's edge but with separate vertices.
    auto s = merged(box({0, 0, 0}, {1, 1, 1}, 0), box({1, 1, 0}, {2, 2, 1}, 1));
    r.push_back(s);
  }
  // Nested shells: solid inside a cavity.
  {
    auto s = merged(merged(box({0, 0, 0}, {2, 2, 2}, 0), inverted(octahedron({1, 1, 1}, 0.875))), tet({0.75, 0.75, 0.75}, {1.25, 1, 1}, {1, 1.25, 1}, {1, 1, 1.25}));
    s.name = "nested shells";
    s.inf = false;
    r.push_back(s);
  }
  auto n = r.size();
  for (std::size_t i = 0; i < n; i += 3) r.push_back(inverted(r[i]));
  return r;
}

inline std::vector<Shape> zoo_shifted(bool thorough) {
  std::vector<Shape> r;
  std::vector<V3> offs{{0, 0, 0}, {1, 0, 0}, {2, 0, 0}, {1, 1, 1}, {0.5, 0.25, 0.125}};
  if (thorough)
    for (V3 o : {V3{0.5, 0.5, 0}, V3{-1, 1, 0}, V3{2, 2, 0}, V3{0, 0.5, 0}, V3{0, 0, -1}, V3{3, 0, 0}, V3{0.3, 0.7, 0.1}}) offs.push_back(o);
  for (auto& s : zoo())
    for (auto& o : offs) {
      r.push_back(geom::moved(s, o));
      std::ostringstream nm;
      nm << s.name << " moved by (" << o.x << "," << o.y << "," << o.z << ")";
      r.back().name = nm.str();
    }
  return r;
}

}  // namespace zoo
