#pragma once
// Exact integer reference for the intersection of two triangles.
#include <array>
#include <set>
#include <utility>

namespace tri_ref {

using I3 = std::array<int, 3>;
inline long det3(const I3& a, const I3& b, const I3& c) {
  return long(a[0]) * (long(b[1]) * c[2] - long(b[2]) * c[1]) - long(a[1]) * (long(b[0]) * c[2] - long(b[2]) * c[0]) +
         long(a[2]) * (long(b[0]) * c[1] - long(b[1]) * c[0]);
}
inline I3 sub(const I3& a, const I3& b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
inline I3 cross(const I3& a, const I3& b) {
  return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
}
inline long dot(const I3& a, const I3& b) { return long(a[0]) * b[0] + long(a[1]) * b[1] + long(a[2]) * b[2]; }
inline int sgn(long v) { return v < 0 ? -1 : v > 0; }
inline int orient(const I3& a, const I3& b, const I3& c, const I3& d) { return sgn(det3(sub(b, a), sub(c, a), sub(d, a))); }

using T3 = std::array<I3, 3>;

inline bool strictly_between(const I3& p, const I3& a, const I3& b) {
  I3 c = cross(sub(p, a), sub(b, a));
  if (c[0] || c[1] || c[2]) return false;
  return dot(sub(p, a), sub(b, a)) > 0 && dot(sub(p, b), sub(a, b)) > 0;
}
inline bool strictly_in_face(const I3& p, const T3& t) {
  I3 n = cross(sub(t[1], t[0]), sub(t[2], t[0]));
  if (dot(n, sub(p, t[0])) != 0) return false;
  for (int i = 0; i < 3; ++i)
    if (dot(n, cross(sub(t[(i + 1) % 3], t[i]), sub(p, t[i]))) <= 0) return false;
  return true;
}
// The open segment and the open triangle meet in one point.
inline bool edge_crosses_face(const I3& a, const I3& b, const T3& t) {
  int sa = orient(t[0], t[1], t[2], a), sb = orient(t[0], t[1], t[2], b);
  if (sa * sb >= 0) return false;
  int s[3];
  for (int i = 0; i < 3; ++i) s[i] = orient(a, b, t[i], t[(i + 1) % 3]);
  return s[0] != 0 && s[0] == s[1] && s[1] == s[2];
}
// Two open segments meet in one point.
inline bool edges_cross(const I3& a, const I3& b, const I3& p, const I3& q) {
  if (orient(a, b, p, q) != 0) return false;
  I3 n = cross(sub(b, a), sub(q, p));
  if (!n[0] && !n[1] && !n[2]) return false;
  auto side = [&](const I3& x, const I3& y, const I3& z) { return sgn(dot(n, cross(sub(y, x), sub(z, x)))); };
  return side(a, b, p) * side(a, b, q) < 0 && side(p, q, a) * side(p, q, b) < 0;
}

// The extreme points of the intersection: pairs (left region mask, right region mask), masks over vertices.
inline std::set<std::pair<int, int>> reference(const T3& l, const T3& r) {
  std::set<std::pair<int, int>> s;
  auto e = [](int i) { return (1 << i) | (1 << ((i + 1) % 3)); };
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) {
      if (l[i] == r[j]) s.emplace(1 << i, 1 << j);
      if (strictly_between(l[i], r[j], r[(j + 1) % 3])) s.emplace(1 << i, e(j));
      if (strictly_between(r[j], l[i], l[(i + 1) % 3])) s.emplace(e(i), 1 << j);
      if (edges_cross(l[i], l[(i + 1) % 3], r[j], r[(j + 1) % 3])) s.emplace(e(i), e(j));
    }
    if (strictly_in_face(l[i], r)) s.emplace(1 << i, 7);
    if (strictly_in_face(r[i], l)) s.emplace(7, 1 << i);
    if (edge_crosses_face(l[i], l[(i + 1) % 3], r)) s.emplace(e(i), 7);
    if (edge_crosses_face(r[i], r[(i + 1) % 3], l)) s.emplace(7, e(i));
  }
  return s;
}

}  // namespace tri_ref
