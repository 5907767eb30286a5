// C06: set algebra holds under composition, and every result is a valid operand.
#define KMC_OWN_HARDWARE_CONCURRENCY
#include "../geom.h"
#include "../zoo.h"

using namespace geom;

namespace {

// Do two non-degenerate triangles meet anywhere but in vertices and edges they share?
std::string meet_badly(const Tri& s, const Tri& t) {
  const V3 *a[3] = {&s.a, &s.b, &s.c}, *b[3] = {&t.a, &t.b, &t.c};
  const double E = 1e-9;
  for (int k = 0; k < 3; ++k) {
    auto get = [&](const V3& v) { return k == 0 ? v.x : k == 1 ? v.y : v.z; };
    double amax = std::max({get(s.a), get(s.b), get(s.c)}), amin = std::min({get(s.a), get(s.b), get(s.c)});
    double bmax = std::max({get(t.a), get(t.b), get(t.c)}), bmin = std::min({get(t.a), get(t.b), get(t.c)});
    if (amax < bmin - E || bmax < amin - E) return {};
  }
  auto same = [&](const V3& p, const V3& q) { return (p - q).norm() < E; };
  int shared = 0;
  for (auto* p : a)
    for (auto* q : b) shared += same(*p, *q) ? 1 : 0;
  if (shared == 3) return "duplicate faces";
  auto check = [&](const V3* const* p, const V3* const* q) -> std::string {
    V3 n = (*q[1] - *q[0]).cross(*q[2] - *q[0]).unit();
    double d[3];
    for (int i = 0; i < 3; ++i) d[i] = n.dot(*p[i] - *q[0]);
    // Signed distances from the edges' planes.
    auto margin = [&](const V3& x) {
      double m = 1e9;
      for (int i = 0; i < 3; ++i) {
        V3 e = (*q[(i + 1) % 3] - *q[i]).unit();
        m = std::min(m, n.cross(e).dot(x - *q[i]));
      }
      return m;
    };
    for (int i = 0; i < 3; ++i) {
      if (std::abs(d[i]) < E && margin(*p[i]) > -E) {
        bool vertex = false;
        for (int j = 0; j < 3; ++j) vertex = vertex || same(*p[i], *q[j]);
        if (!vertex) return "a vertex of one face lies on another face";
      }
      int j = (i + 1) % 3;
      if ((d[i] > E && d[j] < -E) || (d[i] < -E && d[j] > E)) {
        V3 x = *p[i] + (*p[j] - *p[i]) * (d[i] / (d[i] - d[j]));
        if (margin(x) > -E) return "an edge of one face pierces another";
      }
      if (std::abs(d[i]) < E && std::abs(d[j]) < E) {  // coplanar edge: proper crossings with q's edges
        for (int k = 0; k < 3; ++k) {
          V3 &c = const_cast<V3&>(*q[k]), &e = const_cast<V3&>(*q[(k + 1) % 3]);
          auto side = [&](const V3& x, const V3& y, const V3& z) { return n.dot((y - x).cross(z - x)); };
          double s1 = side(*p[i], *p[j], c), s2 = side(*p[i], *p[j], e), s3 = side(c, e, *p[i]), s4 = side(c, e, *p[j]);
          if (((s1 > E && s2 < -E) || (s1 < -E && s2 > E)) && ((s3 > E && s4 < -E) || (s3 < -E && s4 > E))) return "coplanar faces overlap";
        }
      }
    }
    return {};
  };
  if (auto r = check(a, b); !r.empty()) return r;
  if (auto r = check(b, a); !r.empty()) return r;
  // Coplanar, one corner shared and the rest inside is caught by the vertex rule; the same wedge is left:
  if (shared == 2) {
    V3 n = (s.b - s.a).cross(s.c - s.a).unit(), m = (t.b - t.a).cross(t.c - t.a).unit();
    if (n.cross(m).norm() < E) {
      auto in = [&](const V3& p, const V3* const* q) { return same(p, *q[0]) || same(p, *q[1]) || same(p, *q[2]); };
      const V3 *e[2] = {}, *x = nullptr, *y = nullptr;
      int k = 0;
      for (auto* p : a) {
        if (in(*p, b)) e[k++] = p;
        else x = p;
      }
      for (auto* p : b)
        if (!in(*p, a)) y = p;
      V3 d = *e[1] - *e[0];
      if (n.dot(d.cross(*x - *e[0])) * n.dot(d.cross(*y - *e[0])) > 0) return "coplanar faces overlap";
    }
  }
  return {};
}

struct Expr {
  Region r;
  TT tt;
  std::string text;
};

class World {
 public:
  World(std::vector<Shape> base) : base_(std::move(base)), oracle_(base_) {
    static const char* names[] = {"a", "b", "c", "d"};
    for (std::size_t i = 0; i < base_.size(); ++i)
      level0_.push_back({region_of(base_[i], static_cast<int>(100 * i)), tt_var(static_cast<int>(i)), names[i]});
  }

  Oracle& oracle() { return oracle_; }
  const std::vector<Expr>& level0() const { return level0_; }

  // Checks that the region denotes the set and is a valid operand.
  void check(const Region& r, TT tt, const std::string& text, kmc::Ctx& ctx) {
    ctx.count("transitions");
    auto fp = fingerprint(r, false);
    ctx.state(fp);
    auto den = oracle_.denotation(tt);
    auto [it, ins] = seen_.emplace(std::make_pair(fp, den), true);
    if (!ins && it->second) return;
    auto v = oracle_.check(tt, r, text);
    if (v) {
      it->second = false;
      ctx.fail(v.key, v.text);
      return;
    }
    if (r.is_empty_or_full()) return;
    auto ts = tris_of(r.boundary());
    for (std::size_t i = 0; i < ts.size(); ++i)
      for (std::size_t j = i + 1; j < ts.size(); ++j)
        if (auto m = meet_badly(ts[i], ts[j]); !m.empty()) {
          it->second = false;
          ctx.fail("invalid-result", text + ": " + m + ": " + Oracle::str(ts[i]) + " and " + Oracle::str(ts[j]));
          return;
        }
  }

  // All 16 operators on two expressions.
  void step(const Expr& x, const Expr& y, kmc::Ctx& ctx, std::vector<Expr>* out) {
    std::optional<Builder> b;
    auto T = [&](Op op) { return std::string(op_name(op)) + "(" + x.text + "," + y.text + ")"; };
    try {
      b.emplace(x.r, y.r);
      ctx.count("evaluations");
    } catch (const std::exception& e) {
      ctx.fail("exception", "combining " + x.text + " and " + y.text + " threw: " + e.what());
      return;
    }
    if (b->warnings() != kigumi::Warnings::NONE) ctx.fail("warning", "combining " + x.text + " and " + y.text + " raised a warning");
    for (int o = 0; o < 16; ++o) {
      auto op = static_cast<Op>(o);
      auto tt = tt_apply(op, x.tt, y.tt);
      try {
        auto r = (*b)(op);
        check(r, tt, T(op), ctx);
        if (out) out->push_back({std::move(r), tt, T(op)});
      } catch (const std::exception& e) {
        ctx.fail("exception", T(op) + " threw: " + e.what());
      }
    }
  }

  // Expressions by structure, so that they can be computed anew: nothing has looked at the coordinates of what they
  // are made of, which are therefore still intervals (as in a program that only combines).
  struct Tree {
    int base = -1;
    Op op{};
    int left = -1, right = -1;  // trees
  };
  const std::vector<Tree>& trees() {
    if (trees_.empty()) {
      int n = static_cast<int>(base_.size());
      for (int i = 0; i < n; ++i) trees_.push_back({i, {}, -1, -1});
      const Op ops[] = {Op::A, Op::K, Op::L};
      for (auto op : ops)
        for (int i = 0; i < n; ++i)
          for (int j = 0; j < n; ++j)
            if (i != j) trees_.push_back({-1, op, i, j});
      small_trees_ = trees_.size();
      for (std::size_t t = n; t < small_trees_; ++t)
        for (auto op : ops)
          for (int k = 0; k < n; ++k) {
            if (k == trees_[t].left || k == trees_[t].right) continue;
            trees_.push_back({-1, op, static_cast<int>(t), k});
            trees_.push_back({-1, op, k, static_cast<int>(t)});
          }
    }
    return trees_;
  }
  std::size_t small_trees() { return trees(), small_trees_; }
  TT tt_of(int t) {
    auto& x = trees()[t];
    return x.base >= 0 ? tt_var(x.base) : tt_apply(x.op, tt_of(x.left), tt_of(x.right));
  }
  std::string text_of(int t) {
    auto& x = trees()[t];
    return x.base >= 0 ? std::string(1, static_cast<char>('a' + x.base)) : std::string(op_name(x.op)) + "(" + text_of(x.left) + "," + text_of(x.right) + ")";
  }
  Region compute(int t, int scale) {  // 0 as given, 1 and 2 a third of the size, computed in one of two ways
    auto& x = trees()[t];
    if (x.base >= 0 && scale == 0) return region_of(base_[x.base], 100 * x.base);
    if (x.base >= 0) return region_of_thirds(base_[x.base], 100 * x.base, scale - 1);
    return Builder{compute(x.left, scale), compute(x.right, scale)}(x.op);
  }
  // Two expressions computed anew and combined; only the results of that are looked at.
  void combine_fresh(int i, int j, bool thirds, kmc::Ctx& ctx) {
    Unscale u{thirds ? 3.0 : 1.0};
    auto text = text_of(i) + " and " + text_of(j) + ", computed without being looked at" + (thirds ? ", a third of the size in two ways" : "");
    try {
      Builder b{compute(i, thirds ? 1 : 0), compute(j, thirds ? 2 : 0)};
      ctx.count("evaluations");
      if (b.warnings() != kigumi::Warnings::NONE) ctx.fail("warning", "combining " + text + " raised a warning");
      for (auto op : {Op::J, Op::K, Op::L, Op::A}) check(b(op), tt_apply(op, tt_of(i), tt_of(j)), std::string(op_name(op)) + " of " + text, ctx);
    } catch (const std::exception& e) {
      ctx.fail("exception", "combining " + text + " threw: " + e.what());
    }
  }

  // The distinct results of one operator on two base shapes.
  const std::vector<Expr>& level1(kmc::Ctx& ctx) {
    if (level1_.empty()) {
      std::vector<Expr> all = level0_;
      for (auto& x : level0_)
        for (auto& y : level0_) step(x, y, ctx, &all);
      std::set<std::uint64_t> fps;
      for (auto& e : all)
        if (fps.insert(fingerprint(e.r, false)).second) level1_.push_back(std::move(e));
    }
    return level1_;
  }

  // One representative of every set that can be expressed over the base shapes, by depth.
  const std::vector<Expr>& closure(kmc::Ctx& ctx) {
    if (closure_.empty()) {
      std::set<std::string> known;
      std::vector<Expr> next;
      for (auto& e : level0_)
        if (known.insert(oracle_.denotation(e.tt)).second) closure_.push_back(e);
      for (std::size_t i = 0; i < closure_.size(); ++i) {
        for (auto& y : std::vector<Expr>(level0_)) {
          next.clear();
          auto x = closure_[i];
          step(x, y, ctx, &next);
          for (auto& e : next)
            if (known.insert(oracle_.denotation(e.tt)).second) closure_.push_back(std::move(e));
        }
      }
    }
    return closure_;
  }

 private:
  std::vector<Shape> base_;
  Oracle oracle_;
  std::vector<Expr> level0_, level1_, closure_;
  std::vector<Tree> trees_;
  std::size_t small_trees_ = 0;
  std::map<std::pair<std::uint64_t, std::string>, bool> seen_;
};

std::vector<std::vector<Shape>> triples(bool thorough) {
  std::vector<std::vector<Shape>> r;
  r.push_back({box({0, 0, 0}, {2, 2, 2}, 0), box({1, 1, 0}, {3, 3, 2}, 1), box({0, 1, 1}, {2, 3, 3}, 0)});
  r.push_back({tet({0, 0, 0}, {2, 0, 0}, {0, 2, 0}, {0, 0, 2}), tet({0, 0, 0}, {2, 2, 0}, {2, 0, 2}, {0, 2, 2}), box({0, 0, 0}, {1, 1, 1}, 0)});
  r.push_back({octahedron({1, 1, 1}, 1), zoo::prism({0, 0, 0}), zoo::pyramid({0, 0, 0}, 0)});
  r.push_back({box({0, 0, 0}, {1, 2, 1}, 0), box({1, 0, 0}, {2, 2, 1}, 1), box({0, 0, 1}, {2, 2, 2}, 0)});
  r.push_back({voxels(0b01101001, 2, 2, 2, 0), voxels(0b00001111, 2, 2, 2, 1), voxels(0b00110011, 2, 2, 2, 2)});
  r.push_back({box({0, 0, 0}, {2, 2, 2}, 0), octahedron({2, 2, 2}, 1), tet({1, 1, 1}, {3, 1, 2}, {1, 3, 1}, {2, 1, 3})});
  if (thorough) {
    r.push_back({octahedron({1, 1, 1}, 1.5), box({0, 0, 0}, {2, 2, 2}, 1), tet({0, 0, 0}, {2, 2, 0}, {2, 0, 2}, {0, 2, 2})});
    r.push_back({inverted(box({0, 0, 0}, {3, 3, 3}, 0)), voxels(0b10010110, 2, 2, 2, 1), zoo::prism({0, 0, 0})});
    r.push_back({zoo::cube_star({0, 0, 0}, 2), zoo::cube_star({1, 0, 0}, 2), zoo::cube_star({0.5, 1, 0}, 1)});
  }
  return r;
}

// Solids that meet in points no double represents.
std::vector<std::vector<Shape>> skew_triples() {
  std::vector<std::vector<Shape>> r;
  auto t1 = tet({0, 0, 0}, {3, 0, 0}, {0, 3, 0}, {0, 0, 3}), t2 = tet({1, 1, 1}, {-1, 0.25, 0.5}, {0.25, -1, 0.25}, {0.25, 0.5, -1});
  r.push_back({t1, t2, box({0.25, 0.25, 0.25}, {1.5, 1.25, 1.125}, 0)});
  r.push_back({octahedron({1, 1, 1}, 1.5), t1, octahedron({1.5, 1, 1.25}, 1.25)});
  r.push_back({tet({0, 0, 0}, {2, 0, 0}, {0, 2, 0}, {0, 0, 2}), tet({0, 0, 0}, {2, 2, 0}, {2, 0, 2}, {0, 2, 2}), box({0, 0, 0}, {1, 1, 1}, 0)});
  r.push_back({octahedron({1, 1, 1}, 1), zoo::prism({0, 0, 0}), zoo::pyramid({0, 0, 0}, 0)});
  return r;
}

}  // namespace

int main(int argc, char** argv) {
  bool thorough = kmc::tier_of(argc, argv) == "thorough";
  kmc::Check c;
  c.property = "C06";
  c.rule =
      "states are regions (as boundaries), transitions are operators on two regions already reached from three base shapes; "
      "each result is compared with the truth table of its expression and checked as an operand (no degenerate, crossing, "
      "overlapping or badly touching faces); in the last space the operands are computed anew and nothing looks at them before they are "
      "combined; non-trivial: both operands of the step are themselves results";
  c.assumptions = {"the oracle evaluates winding numbers and contacts in floating point with margins"};
  c.evaluations_counter = "evaluations";
  c.transitions_counter = "transitions";
  c.bounds = {{"depth", "two operators in every shape of expression, one representative of every set over three shapes against every base shape"}};
  auto ts = std::make_shared<std::vector<std::vector<Shape>>>(triples(thorough));
  auto worlds = std::make_shared<std::map<std::size_t, std::unique_ptr<World>>>();
  auto world = [=](std::size_t t) -> World& {
    auto& w = (*worlds)[t];
    if (!w) w = std::make_unique<World>((*ts)[t]);
    return *w;
  };
  {  // (x op y) op (z op w), x op (y op z), (x op y) op z: one case per left operand.
    kmc::Space s;
    s.name = "pairs-of-results";
    const std::size_t slots = 160;
    s.size = ts->size() * slots;
    s.run = [=](std::uint64_t id, kmc::Ctx& ctx) {
      auto& w = world(id / slots);
      auto& l1 = w.level1(ctx);
      auto i = id % slots;
      if (i >= l1.size()) return;
      for (std::size_t j = 0; j < l1.size(); ++j) {
        w.step(l1[i], l1[j], ctx, nullptr);
        ctx.count("nontrivial");
      }
    };
    s.describe = [=](std::uint64_t id) {
      std::string d = "all operators on result number " + std::to_string(id % slots) + " and every other, over";
      for (auto& x : (*ts)[id / slots]) d += " | " + x.text();
      return d;
    };
    c.spaces.push_back(s);
  }
  {  // One representative of every expressible set, combined with the base shapes (and with each other).
    kmc::Space s;
    s.name = "closure";
    const std::size_t slots = 256;
    s.size = ts->size() * slots;
    s.run = [=](std::uint64_t id, kmc::Ctx& ctx) {
      auto& w = world(id / slots);
      auto& cl = w.closure(ctx);
      auto i = id % slots;
      if (i >= cl.size()) return;
      if (thorough) {
        for (auto& y : cl) w.step(cl[i], y, ctx, nullptr);
        ctx.count("nontrivial", cl.size());
      } else {
        for (auto& y : w.level0()) {
          w.step(cl[i], y, ctx, nullptr);
          w.step(y, cl[i], ctx, nullptr);
        }
        // Complementary and equal sets, and a stride of the others.
        for (std::size_t j = i; j < cl.size(); j += 16) {
          w.step(cl[i], cl[j], ctx, nullptr);
          ctx.count("nontrivial");
        }
      }
    };
    s.describe = [=](std::uint64_t id) {
      std::string d = "representative of expressible set number " + std::to_string(id % slots) + ", over";
      for (auto& x : (*ts)[id / slots]) d += " | " + x.text();
      return d;
    };
    c.spaces.push_back(s);
  }
  {
    kmc::Space s;
    s.name = "unevaluated";
    const std::size_t slots = 160;
    auto us = std::make_shared<std::vector<std::vector<Shape>>>(skew_triples());
    auto uworlds = std::make_shared<std::map<std::size_t, std::unique_ptr<World>>>();
    s.size = us->size() * slots;
    s.run = [=](std::uint64_t id, kmc::Ctx& ctx) {
      auto& w = (*uworlds)[id / slots];
      if (!w) w = std::make_unique<World>((*us)[id / slots]);
      auto n = static_cast<int>(w->trees().size());
      auto i = static_cast<int>(id % slots);
      if (i >= n) return;
      for (int j = 0; j < n; ++j) {
        bool small = j < static_cast<int>(w->small_trees());
        bool same = w->oracle().denotation(w->tt_of(i)) == w->oracle().denotation(w->tt_of(j));
        if (!thorough && !(small || same)) continue;
        w->combine_fresh(i, j, false, ctx);
        ctx.count("nontrivial");
        if (!thorough && !same && j >= 6) continue;
        w->combine_fresh(i, j, true, ctx);
        ctx.count("nontrivial");
      }
    };
    s.describe = [=](std::uint64_t id) {
      std::string d = "fresh expression number " + std::to_string(id % slots) + " and every other, over";
      for (auto& x : (*us)[id / slots]) d += " | " + x.text();
      return d;
    };
    c.spaces.push_back(s);
  }
  kmc::g_hardware_concurrency = 1;
  return kmc::Driver(std::move(c), argc, argv).run();
}
