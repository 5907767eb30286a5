// C02: empty, full and vanishing results.
#define KMC_OWN_HARDWARE_CONCURRENCY
#include "../geom.h"
#include "../zoo.h"

using namespace geom;

namespace {

void run_pair(const Shape& a, const Shape& b, kmc::Ctx& ctx) {
  Pair_oracle oracle{a, b};
  if (!oracle.valid_inputs()) {
    ctx.count("invalid_inputs");
    return;
  }
  auto ra = region_of(a), rb = region_of(b, 1000);
  std::optional<Builder> builder;
  try {
    builder.emplace(ra, rb);
  } catch (const std::exception& e) {
    ctx.fail("exception", std::string("combining the operands threw: ") + e.what());
    return;
  }
  if (builder->warnings() != kigumi::Warnings::NONE) ctx.fail("warning", "a warning was raised for valid operands");
  bool vanishing = false;
  std::string out;
  for (int o = 0; o < 16; ++o) {
    auto op = static_cast<Op>(o);
    int k = oracle.expected_kind(tt_apply(op, tt_var(0), tt_var(1)));
    if (k != 2 && op != Op::V && op != Op::O) {
      vanishing = true;
      ctx.count(k == 0 ? "empty_results" : "full_results");
    }
    for (bool prefer : {true, false}) {
      try {
        auto r = (*builder)(op, prefer);
        ctx.count("operators");
        out += r.is_empty() ? "e" : r.is_full() ? "f" : std::to_string(r.boundary().num_faces());
        if (auto v = oracle.check(op, r)) ctx.fail(v.key, v.text + (prefer ? "" : " (preferring the second operand)"));
      } catch (const std::exception& e) {
        ctx.fail("exception", std::string("operator ") + op_name(op) + " threw: " + e.what());
      }
    }
  }
  ctx.outcome(out);
  if (vanishing) ctx.count("nontrivial");
}

using Shapes = std::vector<Shape>;

kmc::Space pairs_space(std::string name, Shapes as, Shapes bs) {
  auto pa = std::make_shared<Shapes>(std::move(as));
  auto pb = std::make_shared<Shapes>(std::move(bs));
  kmc::Space s;
  s.name = std::move(name);
  s.size = pa->size() * pb->size();
  s.run = [=](std::uint64_t id, kmc::Ctx& ctx) { run_pair((*pa)[id / pb->size()], (*pb)[id % pb->size()], ctx); };
  s.describe = [=](std::uint64_t id) {
    return "A: " + (*pa)[id / pb->size()].text() + " | B: " + (*pb)[id % pb->size()].text();
  };
  return s;
}

// Pairs (shape, other representation of the same, complementary or nearly the same set).
kmc::Space listed_pairs(std::string name, std::vector<std::pair<Shape, Shape>> ps) {
  auto p = std::make_shared<std::vector<std::pair<Shape, Shape>>>(std::move(ps));
  kmc::Space s;
  s.name = std::move(name);
  s.size = p->size();
  s.run = [=](std::uint64_t id, kmc::Ctx& ctx) { run_pair((*p)[id].first, (*p)[id].second, ctx); };
  s.describe = [=](std::uint64_t id) { return "A: " + (*p)[id].first.text() + " | B: " + (*p)[id].second.text(); };
  return s;
}

Shape permuted(Shape s, int how) {
  // Same mesh, other representation: reversed face order, rotated faces, reversed vertex numbering.
  if (how & 1) std::reverse(s.f.begin(), s.f.end());
  if (how & 2)
    for (std::size_t i = 0; i < s.f.size(); ++i) std::rotate(s.f[i].begin(), s.f[i].begin() + 1 + i % 2, s.f[i].end());
  if (how & 4) {
    int n = static_cast<int>(s.p.size());
    std::reverse(s.p.begin(), s.p.end());
    for (auto& t : s.f)
      for (auto& v : t) v = n - 1 - v;
  }
  if (how & 8) {  // split every face into three
    Shape r = s;
    r.f.clear();
    for (auto& t : s.f) {
      V3 c = (s.p[t[0]] * 0.5 + s.p[t[1]] * 0.25 + s.p[t[2]] * 0.25);
      int n = static_cast<int>(r.p.size());
      r.p.push_back(c);
      for (int i = 0; i < 3; ++i) r.f.push_back({t[i], t[(i + 1) % 3], n});
    }
    s = r;
  }
  s.name += " repr" + std::to_string(how);
  return s;
}

}  // namespace

int main(int argc, char** argv) {
  bool thorough = kmc::tier_of(argc, argv) == "thorough";
  kmc::Check c;
  c.property = "C02";
  c.rule =
      "a case is an ordered pair of operands, each the empty set, the universe or a solid; all 16 operators x both "
      "preferences are evaluated and their kind and boundary compared with the reference; a case is non-trivial if some "
      "operator other than V and O denotes the empty set or the universe on it";
  c.assumptions = {"the oracle evaluates winding numbers in floating point at points with a checked margin from every plane",
                   "operands outside the enumerated families are not covered"};

  Shapes specials{empty_shape(), full_shape()};
  // Solids: everything in the zoo, all canonical voxel sets, with complements.
  Shapes solids = zoo::zoo();
  for (unsigned m = 1; m < 256; ++m)
    for (int d = 0; d < 4; ++d) {
      solids.push_back(voxels(m, 2, 2, 2, d));
      if (d < 2) solids.push_back(inverted(voxels(m, 2, 2, 2, d)));
    }
  for (auto& s : zoo::all_tets(2, false)) solids.push_back(s);
  {
    Shapes all = specials;
    c.spaces.push_back(pairs_space("special-special", specials, specials));
    c.spaces.push_back(pairs_space("special-solid", specials, solids));
    c.spaces.push_back(pairs_space("solid-special", solids, specials));
  }
  {  // Same set or complementary sets in other representations.
    std::vector<std::pair<Shape, Shape>> ps;
    auto add = [&](const Shape& a, const Shape& b) {
      ps.emplace_back(a, b);
      ps.emplace_back(a, inverted(b));
      ps.emplace_back(inverted(a), b);
      ps.emplace_back(inverted(a), inverted(b));
    };
    for (auto& s : zoo::zoo())
      for (int h = 0; h < 16; ++h) add(s, permuted(s, h));
    for (unsigned m = 1; m < 256; ++m)
      for (int d = 0; d < 4; ++d)
        for (int d2 = 0; d2 < 4; ++d2)
          if (thorough || zoo::canonical_mask(m)) add(voxels(m, 2, 2, 2, d), voxels(m, 2, 2, 2, d2));
    for (unsigned m = 1; m < 256; ++m) add(voxels(m, 2, 2, 2, m % 4), permuted(voxels(m, 2, 2, 2, (m + 1) % 4), m % 8));
    for (auto& t : zoo::circle_polygons())
      for (std::size_t r = 0; r < t.size(); ++r) add(zoo::prism_over(t, 0, 1), zoo::prism_over(t, 0, 1, static_cast<int>(r)));
    c.spaces.push_back(listed_pairs("equal-or-complementary", ps));
  }
  {  // Nested, disjoint, touching: small against large, and the parts of a partition.
    std::vector<std::pair<Shape, Shape>> ps;
    for (unsigned m = 1; m < 255; ++m) {
      ps.emplace_back(voxels(m, 2, 2, 2, 0), voxels(255U & ~m, 2, 2, 2, 1));
      ps.emplace_back(voxels(m, 2, 2, 2, 0), inverted(voxels(255U & ~m, 2, 2, 2, 1)));
      ps.emplace_back(voxels(m, 2, 2, 2, 0), box({0, 0, 0}, {2, 2, 2}, 1));
      ps.emplace_back(inverted(box({0, 0, 0}, {2, 2, 2}, 1)), voxels(m, 2, 2, 2, 2));
      ps.emplace_back(voxels(m, 2, 2, 2, 0), box({-1, -1, -1}, {3, 3, 3}, 0));
      ps.emplace_back(inverted(box({-1, -1, -1}, {3, 3, 3}, 0)), voxels(m, 2, 2, 2, 0));
    }
    Shapes z = zoo::zoo();
    for (auto& a : z)
      for (auto& b : z)
        for (int w = 0; w < 3; ++w) {
          auto small = moved(b, w == 0 ? V3{0.875, 0.875, 0.875} : w == 1 ? V3{0.125, 0.0625, 0.1875} : V3{5, 5, 5}, 1.0 / 16);
          ps.emplace_back(a, small);
          ps.emplace_back(small, a);
        }
    c.spaces.push_back(listed_pairs("nested-disjoint", ps));
  }
  {
    kmc::Space s;
    s.name = "no-faces-refused";
    s.size = 3;
    s.run = [](std::uint64_t id, kmc::Ctx& ctx) {
      std::vector<K::Point_3> pts;
      if (id >= 1) pts.emplace_back(0, 0, 0);
      if (id >= 2) pts.emplace_back(1, 0, 0);
      Soup soup;
      for (auto& p : pts) soup.add_vertex(p);
      try {
        Region r{std::move(soup)};
        ctx.fail("accepted", "a boundary-defined region without faces was constructed");
      } catch (const std::invalid_argument&) {
      }
      if (!Region{}.is_empty() || !Region::empty().is_empty() || Region::empty().is_full() || !Region::full().is_full() ||
          Region::full().is_empty() || !Region::full().is_empty_or_full())
        ctx.fail("predicates", "kind predicates of special regions are wrong");
    };
    c.spaces.push_back(s);
  }
  kmc::g_hardware_concurrency = 1;
  return kmc::Driver(std::move(c), argc, argv).run();
}
