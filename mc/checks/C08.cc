// C08: triangle-triangle intersection is exact and symmetric.
#define KMC_OWN_HARDWARE_CONCURRENCY
#include <kigumi/Face_face_intersection.h>
#include <kigumi/Intersection_point_inserter.h>
#include <kigumi/Point_list.h>

#include "../geom.h"
#include "../tri_ref.h"

using geom::K;
using namespace tri_ref;
using Region2 = kigumi::Triangle_region;

namespace {

struct World {
  std::vector<I3> pts;
  kigumi::Point_list<K> list;
  std::vector<std::size_t> id;
  kigumi::Face_face_intersection<K> ffi{list};
  explicit World(std::vector<I3> p, bool reversed) : pts(std::move(p)) {
    list.start_uniqueness_check();
    id.resize(pts.size());
    for (std::size_t i = 0; i < pts.size(); ++i) {
      auto k = reversed ? pts.size() - 1 - i : i;
      id[k] = list.insert(K::Point_3(pts[k][0], pts[k][1], pts[k][2]));
    }
  }
  void run(const std::array<int, 3>& l, const std::array<int, 3>& r, kmc::Ctx& ctx) {
    T3 lt{pts[l[0]], pts[l[1]], pts[l[2]]}, rt{pts[r[0]], pts[r[1]], pts[r[2]]};
    auto want = reference(lt, rt);
    ctx.count("evaluations");
    auto text = [&] {
      std::ostringstream o;
      for (auto* t : {&lt, &rt}) {
        o << (t == &lt ? "left" : " right");
        for (auto& v : *t) o << " (" << v[0] << "," << v[1] << "," << v[2] << ")";
      }
      return o.str();
    };
    std::set<std::pair<int, int>> got;
    std::vector<std::pair<int, int>> order;
    auto res = ffi(id[l[0]], id[l[1]], id[l[2]], id[r[0]], id[r[1]], id[r[2]]);
    for (auto x : res) {
      int m = static_cast<int>(x);
      std::pair<int, int> pr{m & 7, m >> 3};
      order.push_back(pr);
      if (!got.insert(pr).second) ctx.fail("duplicate", text() + ": an intersection is listed twice");
    }
    if (got != want) {
      std::ostringstream o;
      o << text() << ": got";
      for (auto& [x, y] : got) o << " " << x << "/" << y;
      o << ", expected";
      for (auto& [x, y] : want) o << " " << x << "/" << y;
      ctx.fail("set", o.str());
      return;
    }
    ctx.count("intersections", got.size());
    if (!want.empty()) ctx.count("nontrivial");
    // Positions, as the next stage computes them, and their order.
    kigumi::Point_list<K> copy{list};
    kigumi::Intersection_point_inserter<K> ins{copy};
    std::vector<geom::V3> ps;
    for (auto [x, y] : order) {
      auto k = ins.insert(static_cast<Region2>(x), id[l[0]], id[l[1]], id[l[2]], static_cast<Region2>(y << 3), id[r[0]], id[r[1]], id[r[2]]);
      auto p = copy.at(k);
      auto& q = list;
      auto on = [&](const std::array<int, 3>& t, int mask) {
        K::Point_3 c[3] = {q.at(id[t[0]]), q.at(id[t[1]]), q.at(id[t[2]])};
        if (CGAL::orientation(c[0], c[1], c[2], p) != CGAL::COPLANAR) return false;
        for (int i = 0; i < 3; ++i) {
          bool in_edge_line = CGAL::collinear(c[i], c[(i + 1) % 3], p);
          bool expect = (mask & (1 << ((i + 2) % 3))) == 0;
          if (in_edge_line != expect) return false;
        }
        return true;
      };
      if (!on(l, x) || !on(r, y)) ctx.fail("position", text() + ": the point inserted for an intersection is not in its regions");
      ps.push_back(geom::to_v3(p));
    }
    if (ps.size() >= 3) {
      ctx.count("polygons");
      geom::V3 n{};
      auto in = cross(sub(lt[1], lt[0]), sub(lt[2], lt[0]));
      n = {double(in[0]), double(in[1]), double(in[2])};
      int first = 0;
      bool ok = true;
      for (std::size_t i = 0; i < ps.size(); ++i)
        for (std::size_t j = 0; j < ps.size(); ++j) {
          auto i2 = (i + 1) % ps.size();
          if (j == i || j == i2) continue;
          double s = n.dot((ps[i2] - ps[i]).cross(ps[j] - ps[i]));
          int g = s > 1e-9 ? 1 : s < -1e-9 ? -1 : 0;
          if (first == 0) first = g;
          ok = ok && g != 0 && g == first;
        }
      if (!ok) ctx.fail("order", text() + ": the points are not in boundary order");
    }
  }
};

std::vector<std::array<int, 3>> triangles(const std::vector<I3>& p) {
  std::vector<std::array<int, 3>> r;
  int n = static_cast<int>(p.size());
  for (int i = 0; i < n; ++i)
    for (int j = i + 1; j < n; ++j)
      for (int k = j + 1; k < n; ++k) {
        I3 c = cross(sub(p[j], p[i]), sub(p[k], p[i]));
        if (c[0] || c[1] || c[2]) r.push_back({i, j, k});
      }
  return r;
}

// Is the triangle the first of its class under the symmetries of the grid?
bool first_of_class(const std::vector<I3>& p, const std::array<int, 3>& t, int n, int axes) {
  std::map<I3, int> idx;
  for (std::size_t i = 0; i < p.size(); ++i) idx[p[i]] = static_cast<int>(i);
  int perms3[6][3] = {{0, 1, 2}, {1, 0, 2}, {0, 2, 1}, {2, 1, 0}, {1, 2, 0}, {2, 0, 1}};
  for (int pi = 0; pi < (axes == 2 ? 2 : 6); ++pi)
    for (int f = 0; f < (1 << axes); ++f) {
      std::array<int, 3> o{};
      for (int i = 0; i < 3; ++i) {
        I3 v = p[t[i]], w{};
        for (int k = 0; k < 3; ++k) w[k] = v[perms3[pi][k]];
        for (int k = 0; k < axes; ++k)
          if ((f >> k) & 1) w[k] = n - w[k];
        o[i] = idx.at(w);
      }
      std::sort(o.begin(), o.end());
      if (o < t) return false;
    }
  return true;
}

kmc::Space space(std::string name, std::vector<I3> pts, int n, int axes, std::function<I3(const I3&)> embed, bool all_left, int orders) {
  auto tris = std::make_shared<std::vector<std::array<int, 3>>>(triangles(pts));
  auto lefts = std::make_shared<std::vector<std::array<int, 3>>>();
  for (auto& t : *tris)
    if (all_left || first_of_class(pts, t, n, axes)) lefts->push_back(t);
  auto ep = std::make_shared<std::vector<I3>>();
  for (auto& p : pts) ep->push_back(embed(p));
  auto worlds = std::make_shared<std::array<std::unique_ptr<World>, 2>>();
  kmc::Space s;
  s.name = std::move(name);
  const std::size_t chunk = 64;
  auto chunks = (tris->size() + chunk - 1) / chunk;
  s.size = lefts->size() * chunks;
  s.run = [=](std::uint64_t id, kmc::Ctx& ctx) {
    auto& l = (*lefts)[id / chunks];
    for (auto j = id % chunks * chunk; j < std::min<std::size_t>((id % chunks + 1) * chunk, tris->size()); ++j) {
      auto& w = (*worlds)[j % 2];
      if (!w) w = std::make_unique<World>(*ep, j % 2 == 1);
      auto& r = (*tris)[j];
      ctx.count("pairs");
      static const int pm[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {2, 1, 0}, {1, 0, 2}};
      for (int o = 0; o < orders; ++o) {
        // 36: all; fewer: a stride that meets every order of each triangle.
        int k = orders == 36 ? o : static_cast<int>((o * 7 + j) % 36);
        auto &x = pm[k / 6], &y = pm[k % 6];
        std::array<int, 3> a{l[x[0]], l[x[1]], l[x[2]]}, b{r[y[0]], r[y[1]], r[y[2]]};
        w->run(a, b, ctx);
        w->run(b, a, ctx);
      }
      if (ctx.failed()) return;
    }
  };
  s.describe = [=](std::uint64_t id) {
    std::ostringstream o;
    o << "left";
    for (int v : (*lefts)[id / chunks]) o << " (" << (*ep)[v][0] << "," << (*ep)[v][1] << "," << (*ep)[v][2] << ")";
    o << ", right triangles number " << id % chunks * chunk << " and following";
    return o.str();
  };
  return s;
}

}  // namespace

int main(int argc, char** argv) {
  bool thorough = kmc::tier_of(argc, argv) == "thorough";
  kmc::Check c;
  c.property = "C08";
  c.rule =
      "an evaluation is an ordered pair of triangles with an order of their vertices; the symbolic intersection is compared with "
      "the pairs of simplices whose relative interiors meet in exactly one point (integer arithmetic), its points with those "
      "simplices (exact predicates) and their cyclic order with convexity; non-trivial: the triangles intersect";
  c.assumptions = {"vertices on a 3x3x3 grid, on a 4x4 grid for coplanar pairs, and on skewed images of both",
                   "left triangles are one per symmetry class of the grid; both triangles take both roles"};
  c.evaluations_counter = "evaluations";
  std::vector<I3> g3, g2;
  for (int x = 0; x < 3; ++x)
    for (int y = 0; y < 3; ++y)
      for (int z = 0; z < 3; ++z) g3.push_back({x, y, z});
  for (int x = 0; x < 4; ++x)
    for (int y = 0; y < 4; ++y) g2.push_back({x, y, 0});
  auto id = [](const I3& p) { return p; };
  c.spaces.push_back(space("space", g3, 2, 3, id, false, thorough ? 36 : 6));
  c.spaces.push_back(space("coplanar", g2, 3, 2, id, false, thorough ? 36 : 24));
  c.spaces.push_back(space("coplanar-skew", g2, 3, 2, [](const I3& p) { return I3{p[0] + 2 * p[1], p[0] - p[1], 3 * p[0] + p[1]}; }, false, thorough ? 36 : 6));
  c.spaces.push_back(space("coplanar-vertical", g2, 3, 2, [](const I3& p) { return I3{1, -p[1], p[0]}; }, false, thorough ? 36 : 6));
  if (thorough)
    c.spaces.push_back(space("space-skew", g3, 2, 3, [](const I3& p) { return I3{2 * p[0] + p[1], p[1] - 3 * p[2], 5 * p[2] + p[0]}; }, false, 6));
  kmc::g_hardware_concurrency = 1;
  return kmc::Driver(std::move(c), argc, argv).run();
}
