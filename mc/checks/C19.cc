// C19: results do not depend on the number of threads or on scheduling.
#define KMC_OWN_HARDWARE_CONCURRENCY
#include <kigumi/Find_defects.h>

#include "../geom.h"
#include "../kmc.h"
#include "../sched.h"
#include "../zoo.h"

namespace {

using namespace geom;
using kigumi::Warnings;

struct Limit {
  kigumi::Threading_options o;
  explicit Limit(int n) { o.set_num_threads(static_cast<std::size_t>(n)); }
};

struct Silence {
  std::streambuf* old;
  Silence() : old{std::cout.rdbuf(nullptr)} {}
  ~Silence() {
    std::cout.rdbuf(old);
    std::cout.clear();
  }
};

std::string error_text(const std::exception& e) { return std::string{"error: "} + e.what(); }

struct Pair {
  std::string name;
  Shape a, b;
  bool valid = true;  // otherwise only the error is compared
};

std::vector<Pair> make_pairs() {
  std::vector<Pair> r;
  auto t1 = tet({0, 0, 0}, {2, 0, 0}, {0, 2, 0}, {0, 0, 2});
  auto add = [&](const char* n, Shape a, Shape b, bool valid = true) { r.push_back({n, std::move(a), std::move(b), valid}); };
  add("crossing tetrahedra", t1, tet({1, 1, 1}, {-1, 0.25, 0.5}, {0.25, -1, 0.25}, {0.25, 0.5, -1}));                  // 0
  add("tetrahedra overlapping in a face", t1, tet({0.5, 0.5, 0}, {2, 0.5, 0}, {0.5, 2, 0}, {0.5, 0.5, 1}));            // 1
  add("equal tetrahedra", t1, t1);                                                                                     // 2
  add("tetrahedron and its complement", t1, inverted(t1));                                                             // 3
  add("nested tetrahedra", t1, tet({0.25, 0.25, 0.25}, {0.75, 0.25, 0.25}, {0.25, 0.75, 0.25}, {0.25, 0.25, 0.75}));   // 4
  add("tetrahedra sharing a face", t1, tet({0, 0, 0}, {2, 0, 0}, {0, 2, 0}, {0, 0, -2}));                              // 5
  add("tetrahedra sharing an edge", t1, tet({0, 0, 0}, {2, 0, 0}, {0, -2, 0}, {0, -1, -2}));                           // 6
  add("two components against one", merged(t1, moved(t1, {4, 0, 0})), moved(t1, {0.5, 0.25, 0.125}));                  // 7
  add("disjoint components", merged(t1, moved(t1, {9, 0, 0})), merged(moved(t1, {0, 9, 0}), moved(t1, {0, 0, 9})));    // 8
  add("crossing boxes", box({0, 0, 0}, {2, 2, 2}, 0), box({1, 1, 1}, {3, 3, 3}, 1));                                   // 9
  add("stacked boxes with different diagonals", box({0, 0, 0}, {2, 2, 2}, 0), box({0, 0, 2}, {2, 2, 4}, 1));           // 10
  add("box through a box", box({0, 0, 0}, {3, 3, 1}, 0), box({1, 1, -1}, {2, 2, 2}, 0));                               // 11
  add("octahedra", octahedron({1, 1, 1}, 1), octahedron({1.5, 1, 1}, 1));                                              // 12
  add("edge-connected cubes and a box", voxels(0b1001, 2, 2, 1, 0), box({0.5, 0.5, 0.5}, {1.5, 1.5, 1.5}, 0));         // 13
  {
    Shape s = t1;  // a vertex pushed through the opposite face of another component: crosses itself
    s = merged(s, moved(t1, {0.5, 0.25, 0.25}));
    s.name = "self-crossing";
    add("a solid and one that crosses itself", tet({1, 1, 1}, {-1, 0.25, 0.5}, {0.25, -1, 0.25}, {0.25, 0.5, -1}), s, false);  // 14
    add("one that crosses itself and a solid", s, tet({1, 1, 1}, {-1, 0.25, 0.5}, {0.25, -1, 0.25}, {0.25, 0.5, -1}), false);  // 15
  }
  return r;
}
const std::vector<Pair> g_pairs = make_pairs();

struct Answer {
  std::string error;
  Warnings warnings{};
  std::vector<std::pair<Op, Region>> regions;
};

Answer combine(const Region& a, const Region& b, int limit, const std::vector<Op>& ops) {
  kigumi::Threading_context context{Limit{limit}.o};
  Answer r;
  try {
    Builder m{a, b};
    r.warnings = m.warnings();
    for (auto op : ops) r.regions.emplace_back(op, m(op));
  } catch (const std::exception& e) {
    r.error = error_text(e);
  }
  return r;
}

struct Plan {
  int pair = 0, limit = 1;
  int delays = 0, rotate = 0;
  std::uint64_t shard = 0, shards = 1;
  bool fine = false;
  std::string text() const {
    std::ostringstream o;
    o << ", limit " << limit << ", up to " << delays << " delays";
    if (rotate) o << ", turns of " << rotate;
    if (fine) o << ", every atomic access";
    if (shards > 1) o << ", part " << shard << '/' << shards;
    return o.str();
  }
  kmc::sched::Options options() const {
    kmc::sched::Options o;
    o.strategy = kmc::sched::Options::DELAY;
    o.fine = fine;
    o.delays = delays;
    o.rotate = rotate;
    o.shard = shard;
    o.shards = shards;
    return o;
  }
};

void note(const kmc::sched::Result& r, kmc::Ctx& ctx) {
  ctx.count("executions", r.executions);
  if (r.max_live > 1) ctx.count("executions with parallel workers", r.executions);
  ctx.count("scheduling points", r.events);
  ctx.count("accesses checked", r.accesses);
  ctx.outcome(std::to_string(r.max_live));
  if (!strcmp(r.key, "broken")) ctx.count("broken");
  else if (r.violated()) ctx.fail(r.key, r.text);
}

// The regions written by different schedules may be triangulated differently; the set must be the same.
void run_booleans(const Plan& p, kmc::Ctx& ctx) {
  Silence silence;
  const auto& pr = g_pairs[p.pair];
  static const std::vector<Op> ops{Op::A, Op::L, Op::J, Op::K};
  auto a = region_of(pr.a, 0), b = region_of(pr.b, 1000);
  auto serial = combine(a, b, 1, ops);
  auto before_a = canonical(a), before_b = canonical(b);
  std::optional<Pair_oracle> oracle;
  if (pr.valid) {
    oracle.emplace(pr.a, pr.b);
    if (!serial.error.empty()) return ctx.fail("serial-error", serial.error);
    for (auto& [op, r] : serial.regions)
      if (auto v = oracle->check(op, r)) return ctx.fail("serial-" + v.key, v.text);
  }
  Answer got;
  auto r = kmc::sched::explore(
      p.options(),
      [&] {
        Region x{a}, y{b};
        got = combine(x, y, p.limit, ops);
      },
      [&]() -> std::string {
        if (pr.valid) {
          if (got.error != serial.error) return "error: " + (got.error.empty() ? "none" : got.error) + ", but serially " + (serial.error.empty() ? "none" : serial.error);
          if (got.warnings != serial.warnings) return "warnings: " + std::to_string(static_cast<int>(got.warnings)) + ", but serially " + std::to_string(static_cast<int>(serial.warnings));
          for (auto& [op, r] : got.regions)
            if (auto v = oracle->check(op, r)) return v.key + ": " + v.text;
        } else if (serial.error.empty() != got.error.empty()) {
          return "error: " + (got.error.empty() ? "none" : got.error) + ", but serially " + (serial.error.empty() ? "none" : serial.error);
        }
        if (kmc::sched::live_threads()) return "early-return: workers were running when the call returned";
        return {};
      });
  if (canonical(a) != before_a || canonical(b) != before_b) ctx.fail("operand-modified", "an operand was modified");
  note(r, ctx);
}

// ---------------------------------------------------------------- defects

std::string describe_defects(const kigumi::Find_defects<K, int>& d) {
  std::ostringstream o;
  auto vs = [&](const char* n, std::vector<Vertex_index> v) {
    std::sort(v.begin(), v.end());
    o << n << ':';
    for (auto i : v) o << ' ' << i.idx();
    o << "; ";
  };
  auto fs = [&](const char* n, std::vector<Face_index> v) {
    std::sort(v.begin(), v.end());
    o << n << ':';
    for (auto i : v) o << ' ' << i.idx();
    o << "; ";
  };
  auto es = [&](const char* n, std::vector<kigumi::Edge> v) {
    std::sort(v.begin(), v.end());
    o << n << ':';
    for (auto& e : v) o << ' ' << e[0].idx() << '-' << e[1].idx();
    o << "; ";
  };
  vs("isolated", d.isolated_vertices());
  vs("non-manifold vertices", d.non_manifold_vertices());
  es("boundary", d.boundary_edges());
  es("inconsistent", d.inconsistent_edges());
  es("non-manifold edges", d.non_manifold_edges());
  fs("trivially degenerate", d.trivial_degenerate_faces());
  fs("degenerate", d.non_trivial_degenerate_faces());
  fs("overlapping", d.overlapping_faces());
  return o.str();
}

std::vector<Shape> make_soups() {
  std::vector<Shape> r;
  auto t1 = tet({0, 0, 0}, {2, 0, 0}, {0, 2, 0}, {0, 0, 2});
  r.push_back(t1);
  r.push_back(merged(t1, moved(t1, {0.5, 0.25, 0.25})));  // crossing itself
  {
    Shape s;  // everything at once
    s.name = "all defects";
    s.p = {{0, 0, 0}, {2, 0, 0}, {0, 2, 0}, {0, 0, 2}, {0, 0, 0}, {1, 0, 0}, {7, 7, 7}, {1, 1, 0}, {1, 1, 3}};
    s.f = {{0, 1, 2}, {0, 1, 3}, {4, 2, 1}, {0, 0, 1}, {0, 5, 1}, {0, 1, 2}, {7, 8, 3}, {1, 7, 2}};
    r.push_back(s);
  }
  r.push_back(box({0, 0, 0}, {1, 1, 1}, 0));
  {
    Shape s = voxels(0b1001, 2, 2, 1, 0);
    s.f.pop_back();
    r.push_back(s);
  }
  return r;
}
const std::vector<Shape> g_soups = make_soups();

void run_defects(const Plan& p, kmc::Ctx& ctx) {
  Silence silence;
  auto soup = soup_of(g_soups[p.pair]);
  std::string serial, got;
  auto find = [&](int limit) {
    kigumi::Threading_context context{Limit{limit}.o};
    try {
      return describe_defects(kigumi::Find_defects<K, int>{soup});
    } catch (const std::exception& e) {
      return error_text(e);
    }
  };
  serial = find(1);
  auto r = kmc::sched::explore(
      p.options(), [&] { got = find(p.limit); },
      [&]() -> std::string { return got == serial ? "" : "defects: " + got + "\nbut serially " + serial; });
  note(r, ctx);
}

// ---------------------------------------------------------------- point queries

void run_points(const Plan& p, kmc::Ctx& ctx) {
  Silence silence;
  const auto& sh = g_pairs[p.pair].a;
  auto region = region_of(sh);
  const std::vector<K::Point_3> points{{0.25, 0.25, 0.25}, {5, 5, 5}, {0, 0, 0}, {0.5, 0.5, 0}, {-1, 0.5, 0.5}, {1, 0, 0}};
  auto ask = [&](int limit) {
    kigumi::Threading_context context{Limit{limit}.o};
    Region x{region};
    std::string r;
    for (auto& q : points) {
      try {
        r += std::to_string(static_cast<int>(x.bounded_side(q))) + " ";
      } catch (const std::exception& e) {
        r += error_text(e) + " ";
      }
    }
    return r;
  };
  std::string serial = ask(1), got;
  auto r = kmc::sched::explore(
      p.options(), [&] { got = ask(p.limit); },
      [&]() -> std::string { return got == serial ? "" : "sides: " + got + "but serially " + serial; });
  note(r, ctx);
}

// ---------------------------------------------------------------- larger operands, by turns

std::vector<Pair> make_large() {
  std::vector<Pair> r;
  r.push_back({"4x4x2 checkerboard and a slab", {}, {}});
  {
    unsigned m = 0;
    for (int z = 0; z < 2; ++z)
      for (int y = 0; y < 3; ++y)
        for (int x = 0; x < 3; ++x)
          if ((x + y) % 2 == 0) m |= 1U << (x + 3 * (y + 3 * z));
    r[0].a = voxels(m, 3, 3, 2, 0);
    r[0].b = box({-1, 0.5, 0.5}, {4, 2.5, 1.5}, 1);
  }
  auto z = zoo::zoo();
  for (std::size_t i = 0; i < z.size(); i += 2) {
    const auto& other = z[(i * 7 + 5) % z.size()];
    r.push_back({z[i].name + " and " + other.name, z[i], moved(other, {0.5, 0.25, 0.125})});
  }
  {
    // Enough faces for the sort of the mixed mesh to be parallel (more than 1024 incidences).
    unsigned m = 0;
    for (int i = 0; i < 27; ++i)
      if (i % 2 == 0) m |= 1U << i;
    r.push_back({"3x3x3 checkerboard twice", voxels(m, 3, 3, 3, 0), voxels(m, 3, 3, 3, 1, {0.5, 0.5, 0.5})});
    r.push_back({"3x3x3 checkerboard against itself", voxels(m, 3, 3, 3, 0), voxels(m, 3, 3, 3, 1)});
  }
  return r;
}
const std::vector<Pair> g_large = make_large();

void run_large(const Plan& p, kmc::Ctx& ctx) {
  Silence silence;
  const auto& pr = g_large[p.pair];
  static const std::vector<Op> ops{Op::J, Op::L};
  auto a = region_of(pr.a, 0), b = region_of(pr.b, 1000);
  Pair_oracle oracle{pr.a, pr.b};
  Answer got;
  auto r = kmc::sched::explore(
      p.options(),
      [&] {
        Region x{a}, y{b};
        got = combine(x, y, p.limit, ops);
      },
      [&]() -> std::string {
        if (!got.error.empty()) return got.error;
        if (got.warnings != Warnings::NONE) return "warnings: " + std::to_string(static_cast<int>(got.warnings));
        for (auto& [op, r] : got.regions)
          if (auto v = oracle.check(op, r)) return v.key + ": " + v.text;
        return {};
      });
  note(r, ctx);
}

}  // namespace

int main(int argc, char** argv) {
  bool thorough = kmc::tier_of(argc, argv) == "thorough";
  kmc::g_hardware_concurrency = 16;

  static std::vector<Plan> booleans, defects, points, large;
  for (int pair = 0; pair < static_cast<int>(g_pairs.size()); ++pair)
    for (int limit : {2, 3, 4}) {
      for (std::uint64_t s = 0; s < 4; ++s) booleans.push_back({pair, limit, 1, 0, s, 4});
      for (int turn : {1, 2, 3, 5, 7}) booleans.push_back({pair, limit, thorough || limit == 2 ? 1 : 0, turn, 0, 1});
      // Also switching between any two accesses to a face's tag and the like.
      for (std::uint64_t s = 0; s < 16; ++s) if (thorough || (limit == 2 && (pair <= 1 || pair == 3 || pair == 7 || pair == 10))) booleans.push_back({pair, limit, 1, 0, s, 16, true});
      for (std::uint64_t s = 0; s < 256; ++s) if (thorough && limit <= 3) booleans.push_back({pair, limit, 2, 0, s, 256});
    }
  for (int soup = 0; soup < static_cast<int>(g_soups.size()); ++soup)
    for (int limit : {2, 3, 4}) {
      for (std::uint64_t s = 0; s < 4; ++s) defects.push_back({soup, limit, thorough || limit == 2 ? 2 : 1, 0, s, 4});
      for (int turn : {1, 2, 3, 5, 7}) defects.push_back({soup, limit, 1, turn, 0, 1});
    }
  for (int pair = 0; pair < 14; ++pair)
    for (int limit : {2, 3, 4, 8}) points.push_back({pair, limit, limit <= 4 ? 2 : 1, 0, 0, 1});
  for (int pair = 0; pair < static_cast<int>(g_large.size()); ++pair)
    for (int limit : {2, 3, 4, 8})
      for (int turn : {1, 3}) large.push_back({pair, limit, 0, turn, 0, 1});

  kmc::Check c;
  c.property = "C19";
  c.level = "exploration";
  c.rule =
      "a case is one call on fixed operands under one thread limit; in it every schedule of the workers that deviates from the base schedule "
      "at most the stated number of times is executed on the real code - base schedules that run each thread until it blocks, or pass on "
      "every so many steps -, with switches at thread starts and ends, locks and sequentially consistent atomics, and at all atomic accesses where stated; "
      "every execution is checked for data races on all instrumented memory, deadlock and workers left behind, and its result against the set oracle "
      "and the answer with one thread; evaluations: executions judged";
  c.assumptions = {"atomics behave sequentially consistently between scheduling points (weaker orders only take part in race detection)",
                   "solids of one's own crossing themselves are only compared in whether an error occurs; other invalid operands are not explored",
                   "GMP's code is not instrumented"};
  c.evaluations_counter = "executions";
  c.nontrivial_counter = "executions with parallel workers";
  c.transitions_counter = "scheduling points";
  c.spaces.push_back({"booleans", booleans.size(), [](std::uint64_t id, kmc::Ctx& ctx) { run_booleans(booleans[id], ctx); },
                      [](std::uint64_t id) { return g_pairs[booleans[id].pair].name + booleans[id].text(); }, 900});
  c.spaces.push_back({"defects", defects.size(), [](std::uint64_t id, kmc::Ctx& ctx) { run_defects(defects[id], ctx); },
                      [](std::uint64_t id) { return g_soups[defects[id].pair].text() + defects[id].text(); }, 900});
  c.spaces.push_back({"points", points.size(), [](std::uint64_t id, kmc::Ctx& ctx) { run_points(points[id], ctx); },
                      [](std::uint64_t id) { return g_pairs[points[id].pair].a.name + points[id].text(); }, 900});
  c.spaces.push_back({"large", large.size(), [](std::uint64_t id, kmc::Ctx& ctx) { run_large(large[id], ctx); },
                      [](std::uint64_t id) { return g_large[large[id].pair].name + large[id].text(); }, 900});
  return kmc::Driver(std::move(c), argc, argv).run();
}
