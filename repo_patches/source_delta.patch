From 66aeef08e2df156d6155e25a6cf088fb78de5226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 01/19] fix: do not keep a per-thread reference to a finished
 call's points

Face_face_intersection was thread_local and constructed with a reference to
the first caller's Point_list, so later Boolean operations and defect searches
on the same thread (always the case when running sequentially) computed
intersections from a dangling or unrelated list of points.
---
 include/kigumi/Corefine.h     |  9 +++++----
 include/kigumi/Find_defects.h | 10 ++++++----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/kigumi/Corefine.h b/include/kigumi/Corefine.h
index cceb1bf..4ee81b6 100644
--- a/include/kigumi/Corefine.h
+++ b/include/kigumi/Corefine.h
@@ -62,9 +62,11 @@ class Corefine {
 
     std::size_t num_intersections{};
     parallel_do(
-        pairs.begin(), pairs.end(), std::pair<std::vector<Intersection_info>, std::size_t>{},
+        pairs.begin(), pairs.end(),
+        std::make_tuple(std::vector<Intersection_info>{}, std::size_t{},
+                        Face_face_intersection{points_}),
         [&](const auto& pair, auto& local_state) {
-          thread_local Face_face_intersection face_face_intersection{points_};
+          auto& [local_infos, local_num_intersections, face_face_intersection] = local_state;
 
           auto [left_fi, right_fi] = pair;
           const auto& left_face = left_.face(left_fi);
@@ -79,12 +81,11 @@ class Corefine {
           if (sym_inters.empty()) {
             return;
           }
-          auto& [local_infos, local_num_intersections] = local_state;
           local_infos.emplace_back(left_fi, right_fi, sym_inters);
           local_num_intersections += sym_inters.size();
         },
         [&](auto& local_state) {
-          auto& [local_infos, local_num_intersections] = local_state;
+          auto& [local_infos, local_num_intersections, _] = local_state;
           if (infos_.empty()) {
             infos_ = std::move(local_infos);
           } else {
diff --git a/include/kigumi/Find_defects.h b/include/kigumi/Find_defects.h
index a318df7..5efa626 100644
--- a/include/kigumi/Find_defects.h
+++ b/include/kigumi/Find_defects.h
@@ -300,9 +300,10 @@ class Find_defects {
     const auto& tree = m.aabb_tree();
 
     parallel_do(
-        m.faces_begin(), m.faces_end(), std::vector<Face_index>{},
-        [&](auto fi, auto& local_fis) {
-          thread_local Face_face_intersection face_face_intersection{points};
+        m.faces_begin(), m.faces_end(),
+        std::make_pair(std::vector<Face_index>{}, Face_face_intersection{points}),
+        [&](auto fi, auto& local_state) {
+          auto& [local_fis, face_face_intersection] = local_state;
           thread_local std::vector<const Leaf*> leaves;
           thread_local std::vector<Vertex_index> shared_vertices;
 
@@ -352,7 +353,8 @@ class Find_defects {
             }
           }
         },
-        [&](auto& local_fis) {
+        [&](auto& local_state) {
+          auto& local_fis = local_state.first;
           if (fis.empty()) {
             fis = std::move(local_fis);
           } else {
-- 
2.43.0


From c9601a103800b3fbdd8580890b94840540692fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:59 +0000
Subject: [PATCH 02/19] fix: intersect coinciding faces with the other mesh's
 remaining faces

Pairs with at least one face that coincides with a face of the other mesh were
skipped, so a non-manifold edge whose faces in one mesh all coincide with faces
of the other was not treated as an intersecting edge. The coplanar/opposite tag
then leaked across it to faces that do not coincide with anything. Only pairs of
two coinciding faces can be skipped.
---
 include/kigumi/Find_possibly_intersecting_faces.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/kigumi/Find_possibly_intersecting_faces.h b/include/kigumi/Find_possibly_intersecting_faces.h
index ef6a8f1..fa741c4 100644
--- a/include/kigumi/Find_possibly_intersecting_faces.h
+++ b/include/kigumi/Find_possibly_intersecting_faces.h
@@ -36,16 +36,14 @@ class Find_possibly_intersecting_faces {
         [&](auto b_fi, auto& local_pairs) {
           thread_local std::vector<const Leaf*> leaves;
 
-          if (b_face_tags.at(b_fi.idx()) != Face_tag::UNKNOWN) {
-            return;
-          }
+          auto b_is_tagged = b_face_tags.at(b_fi.idx()) != Face_tag::UNKNOWN;
 
           leaves.clear();
           a_tree.get_intersecting_leaves(std::back_inserter(leaves), internal::face_bbox(b, b_fi));
 
           for (const auto* leaf : leaves) {
             auto a_fi = leaf->face_index();
-            if (a_face_tags.at(a_fi.idx()) != Face_tag::UNKNOWN) {
+            if (b_is_tagged && a_face_tags.at(a_fi.idx()) != Face_tag::UNKNOWN) {
               continue;
             }
 
-- 
2.43.0


From ef5d72799e6837e356583df5bdc7b5d76a8d0187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:53 +0000
Subject: [PATCH 03/19] fix: triangulate opposite faces with the same normal

Where cocircular points make the Delaunay triangulation ambiguous, CGAL breaks
the tie by the order of the projected coordinates, which depends on the sign of
the normal. The common part of two opposite faces could therefore be divided
along different diagonals and was then not recognised as coinciding.
---
 include/kigumi/Triangulation.h | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/kigumi/Triangulation.h b/include/kigumi/Triangulation.h
index a1e65c0..e921165 100644
--- a/include/kigumi/Triangulation.h
+++ b/include/kigumi/Triangulation.h
@@ -4,12 +4,14 @@
 #include <CGAL/Kernel/global_functions.h>
 #include <CGAL/Projection_traits_3.h>
 #include <CGAL/Triangulation_vertex_base_with_info_2.h>
+#include <CGAL/number_utils.h>
 #include <kigumi/Mesh_indices.h>
 #include <kigumi/Triangle_region.h>
 
 #include <array>
 #include <boost/unordered/unordered_flat_map.hpp>
 #include <stdexcept>
+#include <utility>
 
 namespace kigumi {
 
@@ -29,7 +31,9 @@ class Triangulation {
 
   Triangulation(Triangle_region f, const Point& pa, const Point& pb, const Point& pc, std::size_t a,
                 std::size_t b, std::size_t c)
-      : f_{f}, cdt_{make_cdt_traits(pa, pb, pc)} {
+      : f_{f},
+        is_flipped_{is_negative(CGAL::normal(pa, pb, pc))},
+        cdt_{is_flipped_ ? make_cdt_traits(pa, pc, pb) : make_cdt_traits(pa, pb, pc)} {
     // To keep id_to_vh_ small, we do not insert these vertices into it.
     vhs_[0] = cdt_.insert_outside_affine_hull(pa);
     vhs_[0]->info() = a;
@@ -46,6 +50,9 @@ class Triangulation {
       auto a = Vertex_index{it->vertex(0)->info()};
       auto b = Vertex_index{it->vertex(1)->info()};
       auto c = Vertex_index{it->vertex(2)->info()};
+      if (is_flipped_) {
+        std::swap(b, c);
+      }
       *faces++ = {a, b, c};
       ++count;
     }
@@ -128,11 +135,24 @@ class Triangulation {
     return it->second;
   }
 
+  static bool is_negative(const typename K::Vector_3& v) {
+    if (auto s = CGAL::sign(v.x()); s != 0) {
+      return s < 0;
+    }
+    if (auto s = CGAL::sign(v.y()); s != 0) {
+      return s < 0;
+    }
+    return CGAL::sign(v.z()) < 0;
+  }
+
   static CDT_traits make_cdt_traits(const Point& pa, const Point& pb, const Point& pc) {
     return CDT_traits{CGAL::normal(pa, pb, pc)};
   }
 
   Triangle_region f_{};
+  // Opposite faces must be triangulated with the same normal; otherwise, where the Delaunay
+  // triangulation is not unique, their common part could be divided differently.
+  bool is_flipped_;
   CDT cdt_;
   std::array<Vertex_handle, 3> vhs_;
   boost::unordered_flat_map<std::size_t, Vertex_handle> id_to_vh_;
-- 
2.43.0


From de7dec56865f76154b6cbc2bdd6ce1d9ba7e597f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 04/19] fix: do not classify faces across the outside of the
 clipping region

Where both open meshes have a border on the same edge, the sector between two
radially consecutive faces can be the outside of the clipping region. Only
sectors narrower than 180 degrees are inside it for certain.
---
 include/kigumi/Classify_faces_locally.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/kigumi/Classify_faces_locally.h b/include/kigumi/Classify_faces_locally.h
index 7caecd5..26ffee1 100644
--- a/include/kigumi/Classify_faces_locally.h
+++ b/include/kigumi/Classify_faces_locally.h
@@ -42,6 +42,10 @@ class Classify_faces_locally {
     auto u = plane.base1();
     auto v = plane.base2();
 
+    // These are non-zero if the edge is on the border of an open mesh.
+    int left_balance{};
+    int right_balance{};
+
     faces_.clear();
     for (auto fi : m.faces_around_edge(edge)) {
       // The face is either pqr or qpr.
@@ -63,6 +67,9 @@ class Classify_faces_locally {
       auto orientation = j == (i + 1) % 3 ? CGAL::COUNTERCLOCKWISE  // The face is pqr.
                                           : CGAL::CLOCKWISE;        // The face is qpr.
 
+      auto& balance = m.data(fi).from_left ? left_balance : right_balance;
+      balance += orientation == CGAL::COUNTERCLOCKWISE ? 1 : -1;
+
       faces_.emplace_back(fi, f.at(k), std::move(r_uv), orientation);
     }
 
@@ -88,6 +95,7 @@ class Classify_faces_locally {
 
     // Find pairs of non-overlapping and non-orientable faces and tag them.
 
+    auto is_on_border = left_balance != 0 || right_balance != 0;
     auto is_undefined_configuration = true;
     // At the end of the loop, the kth face is tagged as either interior or exterior.
     std::size_t k{};
@@ -105,6 +113,11 @@ class Classify_faces_locally {
 
       // Neither f nor g is overlapping with adjacent faces.
 
+      if (is_on_border && CGAL::orientation(f.r, g.r) <= 0) {
+        // The outside of the clipping region can be between f and g.
+        continue;
+      }
+
       if (f.orientation == g.orientation) {
         if (f.orientation == CGAL::COUNTERCLOCKWISE) {
           f_data.tag = Face_tag::INTERIOR;
-- 
2.43.0


From e2120407450bbabb263d4ec2086f7b23c0b06b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 05/19] fix: reject text meshes with missing vertices, values
 or finite coordinates

A face may refer only to vertices that exist, a coordinate must be finite, a
malformed OBJ face is an error rather than a shorter or missing face, and a
huge vertex count of a polygon no longer allocates memory for missing data.
---
 include/kigumi/io/ascii.h     |  3 ++-
 include/kigumi/io/obj.h       | 30 +++++++++++++++++++-----------
 include/kigumi/io/off.h       |  8 +++++++-
 include/kigumi/io/ply.h       | 12 +++++++++---
 include/kigumi/mesh_utility.h | 12 ++++++++++++
 5 files changed, 49 insertions(+), 16 deletions(-)

diff --git a/include/kigumi/io/ascii.h b/include/kigumi/io/ascii.h
index 1482b3e..75774c5 100644
--- a/include/kigumi/io/ascii.h
+++ b/include/kigumi/io/ascii.h
@@ -4,6 +4,7 @@
 
 #include <array>
 #include <charconv>
+#include <cmath>
 #include <iostream>
 #include <limits>
 #include <string>
@@ -24,7 +25,7 @@ inline std::istream& operator>>(std::istream& in, Double& d) {
   const auto* first = s.front() == '+' ? s.data() + 1 : s.data();
   const auto* last = s.data() + s.size();
   auto [ptr, ec] = fast_float::from_chars(first, last, d.value);
-  if (ptr != last || ec != std::errc{}) {
+  if (ptr != last || ec != std::errc{} || !std::isfinite(d.value)) {
     in.setstate(std::ios::failbit);
   }
 
diff --git a/include/kigumi/io/obj.h b/include/kigumi/io/obj.h
index 5b23abb..1af5da3 100644
--- a/include/kigumi/io/obj.h
+++ b/include/kigumi/io/obj.h
@@ -5,6 +5,7 @@
 #include <kigumi/Mesh_indices.h>
 #include <kigumi/Triangle_soup.h>
 #include <kigumi/io/ascii.h>
+#include <kigumi/mesh_utility.h>
 
 #include <fstream>
 #include <iostream>
@@ -62,31 +63,38 @@ bool read_obj(std::istream& is, Triangle_soup<K, FaceData>& soup) {
       new_soup.add_vertex({x.value, y.value, z.value});
     } else if (s == "f") {
       face.clear();
-      std::ptrdiff_t v{};
-      while (iss >> v) {
-        if (v > 0) {
-          face.push_back(Vertex_index{static_cast<std::size_t>(v) - 1});
-        } else if (v < 0) {
-          face.push_back(Vertex_index{new_soup.num_vertices() + v});
-        } else {
+      while (!(iss >> opt_hash_comment_eof)) {
+        iss.clear();
+        std::ptrdiff_t v{};
+        if (!(iss >> v) || v == 0) {
           std::cerr << "invalid face line: " << line << std::endl;
           return false;
         }
+        face.push_back(
+            Vertex_index{v > 0 ? static_cast<std::size_t>(v) - 1 : new_soup.num_vertices() + v});
         // Ignore optional texture and normal indices.
         auto c = iss.peek();
         while (!std::isspace(c) && c != std::char_traits<char>::eof()) {
           iss.ignore();
           c = iss.peek();
         }
+        iss.clear();
       }
-      if (face.size() >= 3) {
-        for (std::size_t i = 0; i < face.size() - 2; ++i) {
-          new_soup.add_face({face.at(0), face.at(i + 1), face.at(i + 2)});
-        }
+      if (face.size() < 3) {
+        std::cerr << "invalid face line: " << line << std::endl;
+        return false;
+      }
+      for (std::size_t i = 0; i < face.size() - 2; ++i) {
+        new_soup.add_face({face.at(0), face.at(i + 1), face.at(i + 2)});
       }
     }
   }
 
+  if (!internal::all_faces_have_vertices(new_soup)) {
+    std::cerr << "invalid vertex index" << std::endl;
+    return false;
+  }
+
   soup = std::move(new_soup);
   return true;
 }
diff --git a/include/kigumi/io/off.h b/include/kigumi/io/off.h
index 12525a0..f728a23 100644
--- a/include/kigumi/io/off.h
+++ b/include/kigumi/io/off.h
@@ -4,6 +4,7 @@
 #include <kigumi/Mesh_indices.h>
 #include <kigumi/Triangle_soup.h>
 #include <kigumi/io/ascii.h>
+#include <kigumi/mesh_utility.h>
 
 #include <cstdint>
 #include <fstream>
@@ -140,7 +141,7 @@ bool read_off(std::istream& is, Triangle_soup<K, FaceData>& soup) {
         face.clear();
         std::size_t count{};
         iss >> count;
-        for (std::size_t i = 0; i < count; ++i) {
+        for (std::size_t i = 0; iss && i < count; ++i) {
           std::size_t v{};
           iss >> v;
           face.push_back(Vertex_index{v});
@@ -171,6 +172,11 @@ bool read_off(std::istream& is, Triangle_soup<K, FaceData>& soup) {
     return false;
   }
 
+  if (!internal::all_faces_have_vertices(new_soup)) {
+    std::cerr << "invalid vertex index" << std::endl;
+    return false;
+  }
+
   soup = std::move(new_soup);
   return true;
 }
diff --git a/include/kigumi/io/ply.h b/include/kigumi/io/ply.h
index f10563c..1fcea55 100644
--- a/include/kigumi/io/ply.h
+++ b/include/kigumi/io/ply.h
@@ -4,6 +4,7 @@
 #include <kigumi/Mesh_indices.h>
 #include <kigumi/Triangle_soup.h>
 #include <kigumi/io/ascii.h>
+#include <kigumi/mesh_utility.h>
 
 #include <cstdint>
 #include <fstream>
@@ -219,7 +220,7 @@ bool read_ply(std::istream& is, Triangle_soup<K, FaceData>& soup) {
         } else if (it->type == "list") {
           std::size_t count{};
           iss >> count;
-          for (std::size_t i = 0; i < count; ++i) {
+          for (std::size_t i = 0; iss && i < count; ++i) {
             iss >> s;
           }
         } else {
@@ -237,7 +238,7 @@ bool read_ply(std::istream& is, Triangle_soup<K, FaceData>& soup) {
         if (it == vertex_index_property_it) {
           std::size_t count{};
           iss >> count;
-          for (std::size_t i = 0; i < count; ++i) {
+          for (std::size_t i = 0; iss && i < count; ++i) {
             std::size_t v{};
             iss >> v;
             face.push_back(Vertex_index{v});
@@ -245,7 +246,7 @@ bool read_ply(std::istream& is, Triangle_soup<K, FaceData>& soup) {
         } else if (it->type == "list") {
           std::size_t count{};
           iss >> count;
-          for (std::size_t i = 0; i < count; ++i) {
+          for (std::size_t i = 0; iss && i < count; ++i) {
             iss >> s;
           }
         } else {
@@ -274,6 +275,11 @@ bool read_ply(std::istream& is, Triangle_soup<K, FaceData>& soup) {
     return false;
   }
 
+  if (!internal::all_faces_have_vertices(new_soup)) {
+    std::cerr << "invalid vertex index" << std::endl;
+    return false;
+  }
+
   soup = std::move(new_soup);
   return true;
 }
diff --git a/include/kigumi/mesh_utility.h b/include/kigumi/mesh_utility.h
index 9419df7..4ce7e27 100644
--- a/include/kigumi/mesh_utility.h
+++ b/include/kigumi/mesh_utility.h
@@ -45,6 +45,18 @@ CGAL::Oriented_side oriented_side_of_face_supporting_plane(const Triangle_soup<K
   return CGAL::orientation(m.point(f[0]), m.point(f[1]), m.point(f[2]), p);
 }
 
+template <class K, class FaceData>
+bool all_faces_have_vertices(const Triangle_soup<K, FaceData>& m) {
+  for (auto fi : m.faces()) {
+    for (auto vi : m.face(fi)) {
+      if (vi.idx() >= m.num_vertices()) {
+        return false;
+      }
+    }
+  }
+  return true;
+}
+
 }  // namespace internal
 
 }  // namespace kigumi
-- 
2.43.0


From aecc13d3a8a36146f69a8a3e5d54e566f6c1a034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:45 +0000
Subject: [PATCH 06/19] fix: reject malformed .kigumi data and leave the target
 as it was

Reading stops at the first missing byte, checks kinds, coordinates,
denominators and vertex indices, and replaces the target - which need not be
fresh - only when everything has been read.
---
 include/kigumi/Region.h        | 16 ++++++++++++--
 include/kigumi/Region_io.h     |  8 ++++++-
 include/kigumi/Triangle_soup.h | 28 +++++++++++++++++++-----
 include/kigumi/io.h            | 40 +++++++++++++++++++++++++++-------
 4 files changed, 75 insertions(+), 17 deletions(-)

diff --git a/include/kigumi/Region.h b/include/kigumi/Region.h
index 35b4640..6a01a68 100644
--- a/include/kigumi/Region.h
+++ b/include/kigumi/Region.h
@@ -8,6 +8,7 @@
 
 #include <cstdint>
 #include <iostream>
+#include <stdexcept>
 #include <utility>
 
 namespace kigumi {
@@ -30,6 +31,9 @@ struct Read<Region_kind> {
   void operator()(std::istream& in, Region_kind& t) const {
     std::uint8_t x{};
     kigumi_read<std::uint8_t>(in, x);
+    if (x > static_cast<std::uint8_t>(Region_kind::BOUNDARY_DEFINED)) {
+      throw std::runtime_error("invalid region kind");
+    }
     t = static_cast<Region_kind>(x);
   }
 };
@@ -108,8 +112,16 @@ struct Write<Region<K, FaceData>> {
 template <class K, class FaceData>
 struct Read<Region<K, FaceData>> {
   void operator()(std::istream& in, Region<K, FaceData>& t) const {
-    kigumi_read<Region_kind>(in, t.kind_);
-    kigumi_read<Triangle_soup<K, FaceData>>(in, t.boundary_);
+    Region_kind kind{};
+    Triangle_soup<K, FaceData> boundary;
+    kigumi_read<Region_kind>(in, kind);
+    kigumi_read<Triangle_soup<K, FaceData>>(in, boundary);
+    if (kind == Region_kind::BOUNDARY_DEFINED && boundary.num_faces() == 0) {
+      throw std::runtime_error("region boundary must not be empty");
+    }
+
+    t.kind_ = kind;
+    t.boundary_ = std::move(boundary);
   }
 };
 
diff --git a/include/kigumi/Region_io.h b/include/kigumi/Region_io.h
index 3802d9d..47650c0 100644
--- a/include/kigumi/Region_io.h
+++ b/include/kigumi/Region_io.h
@@ -5,6 +5,7 @@
 
 #include <fstream>
 #include <iostream>
+#include <stdexcept>
 #include <string>
 
 namespace kigumi {
@@ -14,7 +15,12 @@ bool read_kigumi_region(std::istream& is, Region<K, FaceData>& region) {
   if (!is) {
     return false;
   }
-  kigumi_read<Region<K, FaceData>>(is, region);
+  try {
+    kigumi_read<Region<K, FaceData>>(is, region);
+  } catch (const std::runtime_error& e) {
+    std::cerr << e.what() << std::endl;
+    return false;
+  }
   return is.good();
 }
 
diff --git a/include/kigumi/Triangle_soup.h b/include/kigumi/Triangle_soup.h
index b07007f..022faaa 100644
--- a/include/kigumi/Triangle_soup.h
+++ b/include/kigumi/Triangle_soup.h
@@ -13,10 +13,12 @@
 #include <kigumi/mesh_utility.h>
 
 #include <boost/range/iterator_range.hpp>
+#include <cmath>
 #include <cstdint>
 #include <iostream>
 #include <memory>
 #include <mutex>
+#include <stdexcept>
 #include <utility>
 #include <vector>
 
@@ -185,6 +187,8 @@ struct Write<Triangle_soup<K, FaceData>> {
 template <class K, class FaceData>
 struct Read<Triangle_soup<K, FaceData>> {
   void operator()(std::istream& in, Triangle_soup<K, FaceData>& t) const {
+    Triangle_soup<K, FaceData> new_t;
+
     std::size_t num_vertices{};
     std::size_t num_faces{};
     kigumi_read<std::int32_t>(in, num_vertices);
@@ -201,7 +205,10 @@ struct Read<Triangle_soup<K, FaceData>> {
         kigumi_read<double>(in, x);
         kigumi_read<double>(in, y);
         kigumi_read<double>(in, z);
-        t.add_vertex({x, y, z});
+        if (!std::isfinite(x) || !std::isfinite(y) || !std::isfinite(z)) {
+          throw std::runtime_error("invalid coordinate");
+        }
+        new_t.add_vertex({x, y, z});
       } else {
         CGAL::Exact_rational x;
         CGAL::Exact_rational y;
@@ -209,9 +216,9 @@ struct Read<Triangle_soup<K, FaceData>> {
         kigumi_read<CGAL::Exact_rational>(in, x);
         kigumi_read<CGAL::Exact_rational>(in, y);
         kigumi_read<CGAL::Exact_rational>(in, z);
-        t.add_vertex({CGAL::Lazy_exact_nt<CGAL::Exact_rational>{std::move(x)},
-                      CGAL::Lazy_exact_nt<CGAL::Exact_rational>{std::move(y)},
-                      CGAL::Lazy_exact_nt<CGAL::Exact_rational>{std::move(z)}});
+        new_t.add_vertex({CGAL::Lazy_exact_nt<CGAL::Exact_rational>{std::move(x)},
+                          CGAL::Lazy_exact_nt<CGAL::Exact_rational>{std::move(y)},
+                          CGAL::Lazy_exact_nt<CGAL::Exact_rational>{std::move(z)}});
       }
     }
 
@@ -222,9 +229,18 @@ struct Read<Triangle_soup<K, FaceData>> {
       kigumi_read<Vertex_index>(in, face[1]);
       kigumi_read<Vertex_index>(in, face[2]);
       kigumi_read<FaceData>(in, f_data);
-      auto fi = t.add_face(face);
-      t.data(fi) = f_data;
+      if (!in) {
+        throw std::runtime_error("reading failed");
+      }
+      auto fi = new_t.add_face(face);
+      new_t.data(fi) = f_data;
     }
+
+    if (!internal::all_faces_have_vertices(new_t)) {
+      throw std::runtime_error("invalid vertex index");
+    }
+
+    t = std::move(new_t);
   }
 };
 
diff --git a/include/kigumi/io.h b/include/kigumi/io.h
index 6d64381..be0c378 100644
--- a/include/kigumi/io.h
+++ b/include/kigumi/io.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <boost/endian/conversion.hpp>
 #include <cstdint>
 #include <iostream>
@@ -36,6 +37,9 @@ struct Read {
     static_assert(std::is_arithmetic_v<T> && !std::is_same_v<T, bool>);
 
     in.read(reinterpret_cast<char*>(&t), sizeof(T));
+    if (!in) {
+      throw std::runtime_error("reading failed");
+    }
     boost::endian::little_to_native_inplace(t);
   }
 };
@@ -78,6 +82,22 @@ struct Read<bool> {
   }
 };
 
+// Reads the bytes as they arrive, so that a corrupt count does not exhaust memory.
+inline void read_bytes(std::istream& in, std::vector<std::uint8_t>& buf, std::size_t count) {
+  constexpr std::size_t max_chunk_size = 65536;
+
+  buf.clear();
+  while (buf.size() < count) {
+    auto offset = buf.size();
+    auto chunk_size = std::min(max_chunk_size, count - offset);
+    buf.resize(offset + chunk_size);
+    in.read(reinterpret_cast<char*>(buf.data() + offset), static_cast<std::streamsize>(chunk_size));
+    if (!in) {
+      throw std::runtime_error("reading failed");
+    }
+  }
+}
+
 #ifdef CGAL_USE_BOOST_MP
 
 #include <CGAL/boost_mp.h>
@@ -114,15 +134,17 @@ struct Read<boost::multiprecision::cpp_rational> {
     std::size_t count{};
 
     kigumi_read<std::int32_t>(in, count);
-    buf.resize(count);
-    in.read(reinterpret_cast<char*>(buf.data()), static_cast<std::streamsize>(count));
+    read_bytes(in, buf, count);
     import_bits(num, buf.begin(), buf.end());
 
     kigumi_read<std::int32_t>(in, count);
-    buf.resize(count);
-    in.read(reinterpret_cast<char*>(buf.data()), static_cast<std::streamsize>(count));
+    read_bytes(in, buf, count);
     import_bits(den, buf.begin(), buf.end());
 
+    if (den == 0) {
+      throw std::runtime_error("invalid denominator");
+    }
+
     t = boost::multiprecision::cpp_rational{std::move(num), std::move(den)};
     if (neg) {
       t = -std::move(t);
@@ -170,15 +192,17 @@ struct Read<mpq_class> {
     std::size_t count{};
 
     kigumi_read<std::int32_t>(in, count);
-    buf.resize(count);
-    in.read(reinterpret_cast<char*>(buf.data()), static_cast<std::streamsize>(count));
+    read_bytes(in, buf, count);
     mpz_import(num.get_mpz_t(), count, 1, 1, 0, 0, buf.data());
 
     kigumi_read<std::int32_t>(in, count);
-    buf.resize(count);
-    in.read(reinterpret_cast<char*>(buf.data()), static_cast<std::streamsize>(count));
+    read_bytes(in, buf, count);
     mpz_import(den.get_mpz_t(), count, 1, 1, 0, 0, buf.data());
 
+    if (den == 0) {
+      throw std::runtime_error("invalid denominator");
+    }
+
     t = mpq_class{std::move(num)} / mpq_class{std::move(den)};
     if (neg) {
       t = -std::move(t);
-- 
2.43.0


From aecc310957efe456f19725a985a5f9f2d32a87f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:45 +0000
Subject: [PATCH 07/19] fix: report read errors and errors of the final flush

---
 include/kigumi/Region_io.h | 1 +
 include/kigumi/io/obj.h    | 6 ++++++
 include/kigumi/io/off.h    | 6 ++++++
 include/kigumi/io/ply.h    | 6 ++++++
 4 files changed, 19 insertions(+)

diff --git a/include/kigumi/Region_io.h b/include/kigumi/Region_io.h
index 47650c0..2b9bb68 100644
--- a/include/kigumi/Region_io.h
+++ b/include/kigumi/Region_io.h
@@ -40,6 +40,7 @@ bool write_kigumi_region(std::ostream& os, const Region<K, FaceData>& region) {
     return false;
   }
   kigumi_write<Region<K, FaceData>>(os, region);
+  os.flush();
   return os.good();
 }
 
diff --git a/include/kigumi/io/obj.h b/include/kigumi/io/obj.h
index 1af5da3..aa35d9e 100644
--- a/include/kigumi/io/obj.h
+++ b/include/kigumi/io/obj.h
@@ -90,6 +90,11 @@ bool read_obj(std::istream& is, Triangle_soup<K, FaceData>& soup) {
     }
   }
 
+  if (is.bad()) {
+    std::cerr << "reading failed" << std::endl;
+    return false;
+  }
+
   if (!internal::all_faces_have_vertices(new_soup)) {
     std::cerr << "invalid vertex index" << std::endl;
     return false;
@@ -138,6 +143,7 @@ bool write_obj(std::ostream& os, const Triangle_soup<K, FaceData>& soup) {
     }
   }
 
+  os.flush();
   return os.good();
 }
 
diff --git a/include/kigumi/io/off.h b/include/kigumi/io/off.h
index f728a23..7224d6a 100644
--- a/include/kigumi/io/off.h
+++ b/include/kigumi/io/off.h
@@ -172,6 +172,11 @@ bool read_off(std::istream& is, Triangle_soup<K, FaceData>& soup) {
     return false;
   }
 
+  if (is.bad()) {
+    std::cerr << "reading failed" << std::endl;
+    return false;
+  }
+
   if (!internal::all_faces_have_vertices(new_soup)) {
     std::cerr << "invalid vertex index" << std::endl;
     return false;
@@ -216,6 +221,7 @@ bool write_off(std::ostream& os, const Triangle_soup<K, FaceData>& soup) {
     os << "3 " << f[0].idx() << ' ' << f[1].idx() << ' ' << f[2].idx() << '\n';
   }
 
+  os.flush();
   return os.good();
 }
 
diff --git a/include/kigumi/io/ply.h b/include/kigumi/io/ply.h
index 1fcea55..c132d61 100644
--- a/include/kigumi/io/ply.h
+++ b/include/kigumi/io/ply.h
@@ -275,6 +275,11 @@ bool read_ply(std::istream& is, Triangle_soup<K, FaceData>& soup) {
     return false;
   }
 
+  if (is.bad()) {
+    std::cerr << "reading failed" << std::endl;
+    return false;
+  }
+
   if (!internal::all_faces_have_vertices(new_soup)) {
     std::cerr << "invalid vertex index" << std::endl;
     return false;
@@ -327,6 +332,7 @@ bool write_ply(std::ostream& os, const Triangle_soup<K, FaceData>& soup) {
     os << "3 " << f[0].idx() << ' ' << f[1].idx() << ' ' << f[2].idx() << '\n';
   }
 
+  os.flush();
   return os.good();
 }
 
-- 
2.43.0


From 198afacca877a10c97799840531cbcf40ad84e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:45 +0000
Subject: [PATCH 08/19] fix: ignore blank lines in the body of a PLY file

---
 include/kigumi/io/ply.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/kigumi/io/ply.h b/include/kigumi/io/ply.h
index c132d61..2626728 100644
--- a/include/kigumi/io/ply.h
+++ b/include/kigumi/io/ply.h
@@ -198,13 +198,20 @@ bool read_ply(std::istream& is, Triangle_soup<K, FaceData>& soup) {
     ++element_it;
   }
   while (std::getline(is, line)) {
+    std::istringstream iss{line};
+
+    if (element_it == elements.end() || !element_it->properties.empty()) {
+      if (iss >> eof) {
+        continue;
+      }
+      iss.clear();
+    }
+
     if (element_it == elements.end()) {
       std::cerr << "unexpected line: " << line << std::endl;
       return false;
     }
 
-    std::istringstream iss{line};
-
     auto& properties = element_it->properties;
     if (element_it == vertex_element_it) {
       Double x;
-- 
2.43.0


From f736a2d24fcaa2e34ab901edaba2d79a46bb0c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:08 +0000
Subject: [PATCH 09/19] fix: continue OBJ statements on the next line after a
 backslash

---
 include/kigumi/io/obj.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/kigumi/io/obj.h b/include/kigumi/io/obj.h
index aa35d9e..b291b62 100644
--- a/include/kigumi/io/obj.h
+++ b/include/kigumi/io/obj.h
@@ -51,6 +51,16 @@ bool read_obj(std::istream& is, Triangle_soup<K, FaceData>& soup) {
     }
     iss.clear();
 
+    // A backslash at the end of a line continues the statement on the next line.
+    while (line.ends_with('\\') || line.ends_with("\\\r")) {
+      line.resize(line.rfind('\\'));
+      std::string next_line;
+      if (std::getline(is, next_line)) {
+        line += next_line;
+      }
+      iss.str(line);
+    }
+
     iss >> s;
     if (s == "v") {
       Double x;
-- 
2.43.0


From 2c9f4f3a2a1fa710640f378ac2b2735f13de5903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:14 +0000
Subject: [PATCH 10/19] fix: read empty numbers of .kigumi data without running
 past the buffer

---
 include/kigumi/io.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/kigumi/io.h b/include/kigumi/io.h
index be0c378..e61e2e1 100644
--- a/include/kigumi/io.h
+++ b/include/kigumi/io.h
@@ -135,11 +135,15 @@ struct Read<boost::multiprecision::cpp_rational> {
 
     kigumi_read<std::int32_t>(in, count);
     read_bytes(in, buf, count);
-    import_bits(num, buf.begin(), buf.end());
+    if (count != 0) {
+      import_bits(num, buf.begin(), buf.end());
+    }
 
     kigumi_read<std::int32_t>(in, count);
     read_bytes(in, buf, count);
-    import_bits(den, buf.begin(), buf.end());
+    if (count != 0) {
+      import_bits(den, buf.begin(), buf.end());
+    }
 
     if (den == 0) {
       throw std::runtime_error("invalid denominator");
-- 
2.43.0


From 5c847bcd2fcb19211c673ff124ab29740fd0801f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:25 +0000
Subject: [PATCH 11/19] fix: write subnormal and huge coordinates as the
 doubles they are

---
 include/kigumi/io/obj.h | 3 +--
 include/kigumi/io/off.h | 3 +--
 include/kigumi/io/ply.h | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/kigumi/io/obj.h b/include/kigumi/io/obj.h
index b291b62..9655f60 100644
--- a/include/kigumi/io/obj.h
+++ b/include/kigumi/io/obj.h
@@ -133,8 +133,7 @@ bool write_obj(std::ostream& os, const Triangle_soup<K, FaceData>& soup) {
   }
 
   for (auto vi : soup.vertices()) {
-    const auto& p = soup.point(vi);
-    p.exact();
+    const auto& p = soup.point(vi).exact();
     Double x{CGAL::to_double(p.x())};
     Double y{CGAL::to_double(p.y())};
     Double z{CGAL::to_double(p.z())};
diff --git a/include/kigumi/io/off.h b/include/kigumi/io/off.h
index 7224d6a..2368067 100644
--- a/include/kigumi/io/off.h
+++ b/include/kigumi/io/off.h
@@ -208,8 +208,7 @@ bool write_off(std::ostream& os, const Triangle_soup<K, FaceData>& soup) {
      << soup.num_vertices() << ' ' << soup.num_faces() << " 0\n";
 
   for (auto vi : soup.vertices()) {
-    const auto& p = soup.point(vi);
-    p.exact();
+    const auto& p = soup.point(vi).exact();
     Double x{CGAL::to_double(p.x())};
     Double y{CGAL::to_double(p.y())};
     Double z{CGAL::to_double(p.z())};
diff --git a/include/kigumi/io/ply.h b/include/kigumi/io/ply.h
index 2626728..807837b 100644
--- a/include/kigumi/io/ply.h
+++ b/include/kigumi/io/ply.h
@@ -326,8 +326,7 @@ bool write_ply(std::ostream& os, const Triangle_soup<K, FaceData>& soup) {
   os << "end_header\n";
 
   for (auto vi : soup.vertices()) {
-    const auto& p = soup.point(vi);
-    p.exact();
+    const auto& p = soup.point(vi).exact();
     Double x{CGAL::to_double(p.x())};
     Double y{CGAL::to_double(p.y())};
     Double z{CGAL::to_double(p.z())};
-- 
2.43.0


From 930eaf5998f94d0a179d43e82f4df83b7664dc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:12 +0000
Subject: [PATCH 12/19] fix: write text files in the classic locale

---
 include/kigumi/io/obj.h | 2 ++
 include/kigumi/io/off.h | 2 ++
 include/kigumi/io/ply.h | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/include/kigumi/io/obj.h b/include/kigumi/io/obj.h
index 9655f60..d852a67 100644
--- a/include/kigumi/io/obj.h
+++ b/include/kigumi/io/obj.h
@@ -9,6 +9,7 @@
 
 #include <fstream>
 #include <iostream>
+#include <locale>
 #include <sstream>
 #include <string>
 #include <utility>
@@ -159,6 +160,7 @@ bool write_obj(std::ostream& os, const Triangle_soup<K, FaceData>& soup) {
 template <class K, class FaceData>
 bool write_obj(const std::string& filename, const Triangle_soup<K, FaceData>& soup) {
   std::ofstream ofs{filename};
+  ofs.imbue(std::locale::classic());
   if (!ofs) {
     std::cerr << "failed to open file: " << filename << std::endl;
     return false;
diff --git a/include/kigumi/io/off.h b/include/kigumi/io/off.h
index 2368067..fb8b230 100644
--- a/include/kigumi/io/off.h
+++ b/include/kigumi/io/off.h
@@ -9,6 +9,7 @@
 #include <cstdint>
 #include <fstream>
 #include <iostream>
+#include <locale>
 #include <sstream>
 #include <string>
 #include <string_view>
@@ -227,6 +228,7 @@ bool write_off(std::ostream& os, const Triangle_soup<K, FaceData>& soup) {
 template <class K, class FaceData>
 bool write_off(const std::string& filename, const Triangle_soup<K, FaceData>& soup) {
   std::ofstream ofs{filename};
+  ofs.imbue(std::locale::classic());
   if (!ofs) {
     std::cerr << "failed to open file: " << filename << std::endl;
     return false;
diff --git a/include/kigumi/io/ply.h b/include/kigumi/io/ply.h
index 807837b..db2759c 100644
--- a/include/kigumi/io/ply.h
+++ b/include/kigumi/io/ply.h
@@ -9,6 +9,7 @@
 #include <cstdint>
 #include <fstream>
 #include <iostream>
+#include <locale>
 #include <sstream>
 #include <string>
 #include <utility>
@@ -345,6 +346,7 @@ bool write_ply(std::ostream& os, const Triangle_soup<K, FaceData>& soup) {
 template <class K, class FaceData>
 bool write_ply(const std::string& filename, const Triangle_soup<K, FaceData>& soup) {
   std::ofstream ofs{filename};
+  ofs.imbue(std::locale::classic());
   if (!ofs) {
     std::cerr << "failed to open file: " << filename << std::endl;
     return false;
-- 
2.43.0


From f09514f3f4cb7c34631029e62bcc00167c517bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:10 +0000
Subject: [PATCH 13/19] fix: rebuild the search tree after adding faces

---
 include/kigumi/Triangle_soup.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/kigumi/Triangle_soup.h b/include/kigumi/Triangle_soup.h
index 022faaa..6b85e06 100644
--- a/include/kigumi/Triangle_soup.h
+++ b/include/kigumi/Triangle_soup.h
@@ -86,6 +86,7 @@ class Triangle_soup {
   Face_index add_face(const Face& face) {
     faces_.push_back(face);
     face_data_.emplace_back();
+    aabb_tree_.reset();
     return Face_index{faces_.size() - 1};
   }
 
-- 
2.43.0


From 89e3902b1fdca3e9a8451dee9203fb8b8c988b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:10 +0000
Subject: [PATCH 14/19] fix: let every parallel loop obey the thread limit

---
 include/kigumi/parallel_do.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/kigumi/parallel_do.h b/include/kigumi/parallel_do.h
index 149bb29..dc97879 100644
--- a/include/kigumi/parallel_do.h
+++ b/include/kigumi/parallel_do.h
@@ -80,8 +80,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, Body bod
     return;
   }
 
-  auto num_threads = std::clamp(static_cast<std::size_t>(std::thread::hardware_concurrency()),
-                                std::size_t{1}, size);
+  auto num_threads = std::min(Threading_context::current().num_threads(), size);
   if (num_threads == 1) {
     for (auto it = first; it != last; ++it) {
       body(*it);
-- 
2.43.0


From 6dd0bf4bf0005720785bfddb59c6bded81cfd727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:21 +0000
Subject: [PATCH 15/19] fix: stop parallel loops on errors without racing on
 the exception

---
 include/kigumi/parallel_do.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/kigumi/parallel_do.h b/include/kigumi/parallel_do.h
index dc97879..4e5331f 100644
--- a/include/kigumi/parallel_do.h
+++ b/include/kigumi/parallel_do.h
@@ -31,15 +31,16 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, State st
 
   std::vector<std::thread> threads;
   std::atomic<std::size_t> next_index{};
+  std::atomic<bool> failed{};
   std::mutex mutex;
   std::exception_ptr exception_ptr;
 
   threads.reserve(num_threads);
   for (std::size_t tid = 0; tid < num_threads; ++tid) {
     threads.emplace_back([&] {
-      auto local_state = state;
-
       try {
+        auto local_state = state;
+
         while (true) {
           auto index = next_index++;
           if (index >= size) {
@@ -48,7 +49,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, State st
 
           body(*(first + index), local_state);
 
-          if (exception_ptr) {
+          if (failed) {
             return;
           }
         }
@@ -59,6 +60,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, State st
         std::lock_guard lock{mutex};
         if (!exception_ptr) {
           exception_ptr = std::current_exception();
+          failed = true;
         }
       }
     });
@@ -90,6 +92,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, Body bod
 
   std::vector<std::thread> threads;
   std::atomic<std::size_t> next_index{};
+  std::atomic<bool> failed{};
   std::mutex mutex;
   std::exception_ptr exception_ptr;
 
@@ -105,7 +108,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, Body bod
 
           body(*(first + index));
 
-          if (exception_ptr) {
+          if (failed) {
             return;
           }
         }
@@ -113,6 +116,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, Body bod
         std::lock_guard lock{mutex};
         if (!exception_ptr) {
           exception_ptr = std::current_exception();
+          failed = true;
         }
       }
     });
-- 
2.43.0


From 7fbddb09b5f38703c1faa9332b81e9c1076da85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:50 +0000
Subject: [PATCH 16/19] fix: keep work nested in a parallel loop within the
 thread limit

---
 include/kigumi/parallel_do.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/kigumi/parallel_do.h b/include/kigumi/parallel_do.h
index 4e5331f..e27290d 100644
--- a/include/kigumi/parallel_do.h
+++ b/include/kigumi/parallel_do.h
@@ -29,6 +29,10 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, State st
     return;
   }
 
+  // The workers use up the limit; anything parallel within the body runs on the worker itself.
+  Threading_options nested_options;
+  nested_options.set_num_threads(1);
+
   std::vector<std::thread> threads;
   std::atomic<std::size_t> next_index{};
   std::atomic<bool> failed{};
@@ -39,6 +43,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, State st
   for (std::size_t tid = 0; tid < num_threads; ++tid) {
     threads.emplace_back([&] {
       try {
+        Threading_context context{nested_options};
         auto local_state = state;
 
         while (true) {
@@ -90,6 +95,10 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, Body bod
     return;
   }
 
+  // The workers use up the limit; anything parallel within the body runs on the worker itself.
+  Threading_options nested_options;
+  nested_options.set_num_threads(1);
+
   std::vector<std::thread> threads;
   std::atomic<std::size_t> next_index{};
   std::atomic<bool> failed{};
@@ -100,6 +109,8 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, Body bod
   for (std::size_t tid = 0; tid < num_threads; ++tid) {
     threads.emplace_back([&] {
       try {
+        Threading_context context{nested_options};
+
         while (true) {
           auto index = next_index++;
           if (index >= size) {
-- 
2.43.0


From 303bc8d7d1ffa39dbf451f0358dcfdf04eb125e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:13 +0000
Subject: [PATCH 17/19] fix: index the current faces when a mesh is finalized
 again

---
 include/kigumi/Triangle_mesh.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/kigumi/Triangle_mesh.h b/include/kigumi/Triangle_mesh.h
index 10d6d56..00a7344 100644
--- a/include/kigumi/Triangle_mesh.h
+++ b/include/kigumi/Triangle_mesh.h
@@ -116,6 +116,8 @@ class Triangle_mesh {
 
     parallel_sort(map.begin(), map.end());
 
+    face_indices_.clear();
+    indices_.clear();
     face_indices_.reserve(3 * faces_.size());
     indices_.reserve(points_.size() + 1);
     std::size_t index{};
-- 
2.43.0


From cc1f99fc7954daaa3e288b603abcdf87677392d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 18/19] fix: report a failing standard output from the defects
 command

---
 cli/defects_command.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/defects_command.cc b/cli/defects_command.cc
index 6aa85e2..f9784ea 100644
--- a/cli/defects_command.cc
+++ b/cli/defects_command.cc
@@ -100,4 +100,8 @@ void Defects_command::operator()(const std::vector<std::string>& args) const {
   if (!overlapping_faces.empty()) {
     std::cout << overlapping_faces.size() << " overlapping faces" << std::endl;
   }
+
+  if (!std::cout) {
+    throw std::runtime_error("writing failed: standard output");
+  }
 }
-- 
2.43.0


From 4f2e4314daa52ee51435f8985608546ea4a8d449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:48 +0000
Subject: [PATCH 19/19] fix: share face tags between threads without a data
 race

---
 include/kigumi/Classify_faces_locally.h |  2 +-
 include/kigumi/Mixed.h                  | 32 ++++++++++++++++++++++++-
 include/kigumi/Propagate_face_tags.h    |  2 +-
 3 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/include/kigumi/Classify_faces_locally.h b/include/kigumi/Classify_faces_locally.h
index 26ffee1..468958f 100644
--- a/include/kigumi/Classify_faces_locally.h
+++ b/include/kigumi/Classify_faces_locally.h
@@ -147,7 +147,7 @@ class Classify_faces_locally {
 
       auto consistent = true;
       for (auto dry_run : {true, false}) {
-        auto tag = m.data(faces_.at(k).fi).tag;
+        Face_tag tag = m.data(faces_.at(k).fi).tag;
         auto orientation = faces_.at(k).orientation;
         // Go around and return to the starting point to check consistency.
         for (std::size_t i = k + 1; i <= k + faces_.size(); ++i) {
diff --git a/include/kigumi/Mixed.h b/include/kigumi/Mixed.h
index 4625fbd..df45577 100644
--- a/include/kigumi/Mixed.h
+++ b/include/kigumi/Mixed.h
@@ -4,12 +4,42 @@
 #include <kigumi/Triangle_mesh.h>
 #include <kigumi/Triangle_soup.h>
 
+#include <atomic>
+
 namespace kigumi {
 
+// A face tag that several threads may read and set at the same time.
+class Shared_face_tag {
+ public:
+  Shared_face_tag() = default;
+
+  ~Shared_face_tag() = default;
+
+  // NOLINTNEXTLINE(google-explicit-constructor)
+  Shared_face_tag(Face_tag tag) : tag_{tag} {}
+
+  Shared_face_tag(const Shared_face_tag& other) : tag_{static_cast<Face_tag>(other)} {}
+
+  Shared_face_tag& operator=(const Shared_face_tag& other) {
+    return *this = static_cast<Face_tag>(other);
+  }
+
+  Shared_face_tag& operator=(Face_tag tag) {
+    tag_.store(tag, std::memory_order_relaxed);
+    return *this;
+  }
+
+  // NOLINTNEXTLINE(google-explicit-constructor)
+  operator Face_tag() const { return tag_.load(std::memory_order_relaxed); }
+
+ private:
+  std::atomic<Face_tag> tag_{Face_tag::UNKNOWN};
+};
+
 template <class FaceData>
 struct Mixed_face_data {
   bool from_left{};
-  Face_tag tag{};
+  Shared_face_tag tag;
   FaceData data{};
 };
 
diff --git a/include/kigumi/Propagate_face_tags.h b/include/kigumi/Propagate_face_tags.h
index 4a1dad6..e963afc 100644
--- a/include/kigumi/Propagate_face_tags.h
+++ b/include/kigumi/Propagate_face_tags.h
@@ -18,7 +18,7 @@ class Propagate_face_tags {
   Warnings operator()(Mixed_triangle_mesh& m, const Edge_set& border_edges, Face_index seed) const {
     const auto& data = m.data(seed);
     auto from_left = data.from_left;
-    auto tag = data.tag;
+    Face_tag tag = data.tag;
 
     Warnings warnings{};
 
-- 
2.43.0

