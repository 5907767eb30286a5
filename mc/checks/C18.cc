// C18: tree queries return exactly the intersecting leaves.
#define KMC_OWN_HARDWARE_CONCURRENCY
#include <kigumi/AABB_tree/AABB_leaf.h>
#include <kigumi/AABB_tree/AABB_tree.h>

#include "../geom.h"

using geom::K;

namespace {

struct Leaf : kigumi::AABB_leaf {
  int id;
  Leaf(const CGAL::Bbox_3& b, int i) : AABB_leaf{b}, id{i} {}
};
using Tree = kigumi::AABB_tree<Leaf>;

// Integer boxes; the trees get half of the coordinates.
struct B {
  std::array<int, 3> lo{}, hi{};
  bool meets(const B& o) const {
    for (int k = 0; k < 3; ++k)
      if (lo[k] > o.hi[k] || o.lo[k] > hi[k]) return false;
    return true;
  }
  CGAL::Bbox_3 bbox(double s, double t) const {
    return {lo[0] * s + t, lo[1] * s + t, lo[2] * s + t, hi[0] * s + t, hi[1] * s + t, hi[2] * s + t};
  }
};

// The line or ray p + u * d (u >= 0 for a ray) meets the closed box; integers.
bool ray_meets(const std::array<int, 3>& p, const std::array<int, 3>& d, const B& b) {
  // u in [lo, hi] as fractions with positive denominators.
  long ln = 0, ld = 1, hn = 1, hd = 0;
  for (int k = 0; k < 3; ++k) {
    if (d[k] == 0) {
      if (p[k] < b.lo[k] || p[k] > b.hi[k]) return false;
      continue;
    }
    long a = b.lo[k] - p[k], c = b.hi[k] - p[k], n = d[k];
    if (n < 0) {
      std::swap(a, c);
      a = -a;
      c = -c;
      n = -n;
    }
    if (a * ld > ln * n) ln = a, ld = n;
    if (c * hd < hn * n) hn = c, hd = n;
  }
  return ln * hd <= hn * ld;
}

std::string text_of(const std::vector<B>& bs) {
  std::ostringstream o;
  if (bs.size() > 40) return std::to_string(bs.size()) + " boxes";
  for (auto& b : bs) {
    o << " [";
    for (int k = 0; k < 3; ++k) o << (k ? " x " : "") << b.lo[k] << ".." << b.hi[k];
    o << "]";
  }
  return o.str();
}

struct Placement {
  double scale, shift;
};

// Every query against the tree; each leaf exactly once iff it meets the query.
void check(const std::vector<B>& bs, const std::vector<B>& queries, const std::vector<std::array<std::array<int, 3>, 2>>& rays,
           Placement pl, kmc::Ctx& ctx) {
  std::vector<Leaf> leaves;
  for (std::size_t i = 0; i < bs.size(); ++i) leaves.emplace_back(bs[i].bbox(pl.scale, pl.shift), static_cast<int>(i));
  Tree tree{std::move(leaves)};
  ctx.count("trees");
  std::vector<const Leaf*> got;
  std::vector<int> n(bs.size());
  auto compare = [&](auto&& meets, const char* key, const std::string& q) {
    ctx.count("queries");
    std::fill(n.begin(), n.end(), 0);
    for (auto* l : got) {
      if (l->id < 0 || l->id >= static_cast<int>(bs.size())) {
        ctx.fail(key, "a leaf that is none");
        return;
      }
      ++n[l->id];
    }
    std::size_t w = 0;
    for (std::size_t i = 0; i < bs.size(); ++i) {
      int want = meets(bs[i]) ? 1 : 0;
      w += want;
      if (n[i] != want)
        ctx.fail(key, "boxes" + text_of(bs) + ", query" + q + ": leaf " + std::to_string(i) + " returned " + std::to_string(n[i]) +
                          " times instead of " + std::to_string(want) + " (threads " + std::to_string(kmc::g_hardware_concurrency) + ")");
    }
    if (w > 0 && w < bs.size()) ctx.count("nontrivial");
    ctx.count("returned", w);
  };
  for (auto& q : queries) {
    got.clear();
    tree.get_intersecting_leaves(std::back_inserter(got), q.bbox(pl.scale, pl.shift));
    compare([&](const B& b) { return b.meets(q); }, "box", text_of({q}));
  }
  for (auto& r : rays) {
    got.clear();
    auto pt = [&](const std::array<int, 3>& v) { return K::Point_3(v[0] * pl.scale + pl.shift, v[1] * pl.scale + pl.shift, v[2] * pl.scale + pl.shift); };
    K::Ray_3 ray{pt(r[0]), pt({r[0][0] + r[1][0], r[0][1] + r[1][1], r[0][2] + r[1][2]})};
    tree.get_intersecting_leaves(std::back_inserter(got), ray);
    compare([&](const B& b) { return ray_meets(r[0], r[1], b); }, "ray",
            " ray from " + std::to_string(r[0][0]) + "," + std::to_string(r[0][1]) + "," + std::to_string(r[0][2]) + " along " +
                std::to_string(r[1][0]) + "," + std::to_string(r[1][1]) + "," + std::to_string(r[1][2]));
  }
}

std::vector<B> boxes(int n, int axes, int step) {  // all boxes with coordinates in {0, step, ...}
  std::vector<std::pair<int, int>> iv;
  for (int a = 0; a < n; ++a)
    for (int b = a; b < n; ++b) iv.emplace_back(a * step, b * step);
  std::vector<B> r;
  for (auto& x : iv)
    for (auto& y : axes > 1 ? iv : std::vector<std::pair<int, int>>{{0, 0}})
      for (auto& z : axes > 2 ? iv : std::vector<std::pair<int, int>>{{0, 0}})
        r.push_back({{x.first, y.first, z.first}, {x.second, y.second, z.second}});
  return r;
}

// Points, slabs and boxes on even and odd coordinates.
std::vector<B> all_queries(int n, int axes, bool wide) {
  std::vector<B> r;
  for (auto& b : boxes(2 * n + 1, axes, 1)) {
    B c = b;
    for (int k = 0; k < 3; ++k) --c.lo[k], --c.hi[k];
    if (axes < 3) c.lo[2] = -1, c.hi[2] = 1;
    if (axes < 2) c.lo[1] = -1, c.hi[1] = 1;
    bool keep = wide;
    if (!wide) {  // extents of at most one unit, or everything
      keep = true;
      for (int k = 0; k < axes; ++k) keep = keep && c.hi[k] - c.lo[k] <= 1;
    }
    if (keep) r.push_back(c);
  }
  r.push_back({{-9, -9, -9}, {9, 9, 9}});
  return r;
}

std::vector<std::array<std::array<int, 3>, 2>> some_rays(int n, bool flat) {
  std::vector<std::array<std::array<int, 3>, 2>> r;
  for (int x : {-1, 1, 2 * n - 1})
    for (int y : {-1, 0, 3})
      for (int z : {0, flat ? 0 : 1})
        for (std::array<int, 3> d : {std::array{1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {1, 1, 0}, {2, -1, 0}, {1, 1, 1}, {1, -2, 3}, {0, 0, -1}})
          r.push_back({std::array{x, y, z}, d});
  return r;
}

// Sequences of `len` boxes.
kmc::Space sequences(std::string name, std::vector<B> bs, int len, bool sorted, std::vector<B> qs,
                     std::vector<std::array<std::array<int, 3>, 2>> rays) {
  kmc::Space s;
  s.name = std::move(name);
  auto b = std::make_shared<std::vector<B>>(std::move(bs));
  auto q = std::make_shared<std::vector<B>>(std::move(qs));
  auto rr = std::make_shared<std::vector<std::array<std::array<int, 3>, 2>>>(std::move(rays));
  s.size = len >= 2 ? b->size() * b->size() : b->size();
  s.run = [=](std::uint64_t id, kmc::Ctx& ctx) {
    std::vector<std::size_t> at;
    if (len >= 2) at = {id / b->size(), id % b->size()};
    else at = {id};
    if (sorted && at.size() > 1 && at[1] < at[0]) return;
    std::function<void()> rec = [&] {
      if (static_cast<int>(at.size()) == len) {
        std::vector<B> v;
        for (auto i : at) v.push_back((*b)[i]);
        kmc::g_hardware_concurrency = 1;
        check(v, *q, *rr, {0.5, 0.25}, ctx);
        if (sorted) {
          std::reverse(v.begin(), v.end());
          check(v, *q, {}, {0.5, 0.25}, ctx);
        }
        return;
      }
      for (auto j = sorted ? at.back() : 0; j < b->size() && !ctx.failed(); ++j) {
        at.push_back(j);
        rec();
        at.pop_back();
      }
    };
    rec();
    if (id == 0) check({}, *q, *rr, {1, 0}, ctx);
  };
  s.describe = [=](std::uint64_t id) {
    return "sequences of " + std::to_string(len) + " boxes from" + text_of(len >= 2 ? std::vector<B>{(*b)[id / b->size()], (*b)[id % b->size()]} : std::vector<B>{(*b)[id]});
  };
  return s;
}

// Families with any number of boxes.
std::vector<B> family(int kind, int n) {
  std::vector<B> r;
  for (int i = 0; i < n; ++i) {
    switch (kind) {
      case 0: r.push_back({{0, 0, 0}, {2, 2, 2}}); break;                                   // all equal
      case 1: r.push_back({{n - i, n - i, n - i}, {n + i, n + i, n + i}}); break;           // nested
      case 2: r.push_back({{2 * i, 0, 0}, {2 * i + 2, 1, 1}}); break;                       // touching chain
      case 3: r.push_back({{i, -i, 2 * i}, {i, -i, 2 * i}}); break;                         // points on a line
      case 4: r.push_back({{3 * (i % 5), 3 * (i / 5 % 5), 3 * (i / 25)}, {3 * (i % 5) + 2, 3 * (i / 5 % 5) + 2, 3 * (i / 25) + 2}}); break;
      case 5: r.push_back({{-i, 0, n - i}, {i, n - i, n + i}}); break;                      // equal centres on an axis
      case 6: r.push_back({{(i * 7) % 13, (i * 5) % 11, 0}, {(i * 7) % 13 + i % 3, (i * 5) % 11 + i % 4, 0}}); break;  // flat
      case 7: r.push_back({{0, 0, (i * 37) % n}, {i % 2 ? 40 : 0, 1, (i * 37) % n}}); break;  // slivers
      case 8: r.push_back(i == n / 2 ? B{{-50, -50, -50}, {50, 50, 50}} : B{{i % 4, i % 3, i % 5}, {i % 4, i % 3, i % 5}}); break;
      case 9: r.push_back({{1 << (i % 20), 0, 0}, {(1 << (i % 20)) + 1, 1, i}}); break;     // geometric spacing
    }
  }
  return r;
}
constexpr int kinds = 10;

}  // namespace

int main(int argc, char** argv) {
  bool thorough = kmc::tier_of(argc, argv) == "thorough";
  kmc::Check c;
  c.property = "C18";
  c.rule =
      "an evaluation is one query of one tree: the multiset of returned leaves against closed-interval arithmetic on integers; "
      "non-trivial: some but not all leaves meet the query";
  c.assumptions = {"boxes on a small integer grid (all sequences of few, all multisets of more) and structured families of any number of boxes"};
  c.evaluations_counter = "queries";
  c.spaces.push_back(sequences("one-3d", boxes(3, 3, 2), 1, false, all_queries(3, 3, true), some_rays(3, false)));
  c.spaces.push_back(sequences("two-3d", boxes(3, 3, 2), 2, !thorough, all_queries(2, 3, false), some_rays(3, false)));
  c.spaces.push_back(sequences("three-2d", boxes(3, 2, 2), 3, false, all_queries(3, 2, false), {}));
  c.spaces.push_back(sequences("three-3d", boxes(2, 3, 2), 3, false, all_queries(2, 3, false), some_rays(2, false)));
  c.spaces.push_back(sequences("four-3d", boxes(2, 3, 2), 4, !thorough, all_queries(2, 3, false), {}));
  c.spaces.push_back(sequences("four-2d", boxes(3, 2, 2), 4, true, all_queries(3, 2, false), {}));
  for (int n = 4; n <= (thorough ? 8 : 6); ++n) c.spaces.push_back(sequences("line-" + std::to_string(n), boxes(3, 1, 2), n, false, all_queries(3, 1, true), {}));
  for (int n = 7; n <= (thorough ? 16 : 10); ++n) c.spaces.push_back(sequences("line-multiset-" + std::to_string(n), boxes(3, 1, 2), n, true, all_queries(3, 1, true), {}));
  {
    int max = thorough ? 400 : 130;
    kmc::Space s;
    s.name = "families";
    s.size = kinds * (max + 1);
    s.run = [=](std::uint64_t id, kmc::Ctx& ctx) {
      int kind = static_cast<int>(id % kinds), n = static_cast<int>(id / kinds);
      auto base = family(kind, n);
      std::vector<B> qs{{{-99, -99, -99}, {2000000, 999, 999}}};
      for (auto& b : base) {
        qs.push_back(b);
        qs.push_back({b.lo, b.lo});
        qs.push_back({b.hi, b.hi});
        qs.push_back({{b.hi[0] + 1, b.lo[1], b.lo[2]}, {b.hi[0] + 1, b.hi[1], b.hi[2]}});
        qs.push_back({{b.lo[0], b.lo[1], b.lo[2] - 1}, {b.hi[0], b.hi[1], b.lo[2] - 1}});
      }
      auto rays = some_rays(3, false);
      for (unsigned threads : {1U, 2U, 3U, 4U, 5U, 8U, 16U}) {
        kmc::g_hardware_concurrency = threads;
        for (int perm = 0; perm < 4; ++perm) {
          if (perm && threads != 1 && perm != static_cast<int>(threads % 4)) continue;
          auto v = base;
          if (perm == 1) std::reverse(v.begin(), v.end());
          if (perm == 2) std::rotate(v.begin(), v.begin() + v.size() / 3, v.end());
          if (perm == 3)
            for (std::size_t i = 0; i < v.size(); ++i) std::swap(v[i], v[(i * 31 + 7) % v.size()]);
          check(v, qs, rays, perm == 2 ? Placement{0.125, -1000} : Placement{1, 0}, ctx);
        }
      }
      kmc::g_hardware_concurrency = 1;
    };
    s.describe = [](std::uint64_t id) { return "family " + std::to_string(id % kinds) + " with " + std::to_string(id / kinds) + " boxes"; };
    c.spaces.push_back(s);
  }
  kmc::g_hardware_concurrency = 1;
  return kmc::Driver(std::move(c), argc, argv).run();
}
