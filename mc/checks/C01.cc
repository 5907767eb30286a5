// C01: every Boolean of two solids is exactly the regularised set operation.
#define KMC_OWN_HARDWARE_CONCURRENCY
#include "../geom.h"
#include "../zoo.h"

using namespace geom;

namespace {

void run_pair(const Shape& a, const Shape& b, kmc::Ctx& ctx, bool thirds = false) {
  Unscale unscale{thirds ? 3.0 : 1.0};
  Pair_oracle oracle{a, b};
  if (!oracle.valid_inputs()) {
    ctx.count("invalid_inputs");
    return;
  }
  bool nontrivial = false;
  for (std::size_t i = 0; i < oracle.num_cells(); ++i) nontrivial = nontrivial || (oracle.in_a(i) != a.inf && oracle.in_b(i) != b.inf);
  auto ra = thirds ? region_of_thirds(a, 0, 0) : region_of(a), rb = thirds ? region_of_thirds(b, 1000, 1) : region_of(b, 1000);
  std::optional<Builder> builder;
  try {
    builder.emplace(ra, rb);
  } catch (const std::exception& e) {
    ctx.fail("exception", std::string("combining the operands threw: ") + e.what());
    return;
  }
  if (builder->warnings() != kigumi::Warnings::NONE) ctx.fail("warning", "a warning was raised for valid operands");
  std::string out;
  for (int o = 0; o < 16; ++o) {
    auto op = static_cast<Op>(o);
    try {
      auto r = (*builder)(op);
      ctx.count("operators");
      out += std::to_string(r.boundary().num_faces()) + ",";
      if (auto v = oracle.check(op, r)) ctx.fail(v.key, v.text);
    } catch (const std::exception& e) {
      ctx.fail("exception", std::string("operator ") + op_name(op) + " threw: " + e.what());
    }
  }
  ctx.outcome(out);
  if (nontrivial) ctx.count("nontrivial");
}

kmc::Space pairs_space(std::string name, std::vector<Shape> as, std::vector<Shape> bs, bool thirds = false) {
  auto pa = std::make_shared<std::vector<Shape>>(std::move(as));
  auto pb = std::make_shared<std::vector<Shape>>(std::move(bs));
  kmc::Space s;
  s.name = std::move(name);
  s.size = pa->size() * pb->size();
  s.run = [=](std::uint64_t id, kmc::Ctx& ctx) { run_pair((*pa)[id / pb->size()], (*pb)[id % pb->size()], ctx, thirds); };
  s.describe = [=](std::uint64_t id) {
    return "A: " + (*pa)[id / pb->size()].text() + " | B: " + (*pb)[id % pb->size()].text();
  };
  return s;
}

}  // namespace

int main(int argc, char** argv) {
  bool thorough = kmc::tier_of(argc, argv) == "thorough";
  kmc::Check c;
  c.property = "C01";
  c.rule =
      "a case is a pair of closed shapes; all 16 operators are evaluated on it and compared, at one point of every "
      "cell of the arrangement of supporting planes and on both sides of every output face, with the truth table; "
      "a case is non-trivial if the bodies have a common cell";
  c.assumptions = {"the oracle evaluates winding numbers in floating point at points with a checked margin from every plane",
                   "operands outside the enumerated families are not covered"};

  // All pairs of subsets of a 2x2x2 grid (quick: 2x2x1 grid x all 2x2x2; thorough: all x all).
  for (auto [da, db] : std::vector<std::pair<int, int>>{{0, 0}, {0, 1}, {2, 3}}) {
    std::vector<Shape> as, bs;
    for (unsigned m = 1; m < 256; ++m) bs.push_back(voxels(m, 2, 2, 2, db));
    for (unsigned m = 1; m < 256; ++m)
      if (thorough || zoo::canonical_mask(m)) as.push_back(voxels(m, 2, 2, 2, da));
    c.spaces.push_back(pairs_space("voxels" + std::to_string(da) + std::to_string(db), as, bs));
  }
  // Grids displaced by half a cell and scaled.
  {
    std::vector<Shape> as, bs;
    for (unsigned m = 1; m < 256; ++m)
      if (zoo::canonical_mask(m)) as.push_back(voxels(m, 2, 2, 2, 2));
    for (V3 off : {V3{0.5, 0, 0}, V3{0.5, 0.5, 0}, V3{0.5, 0.5, 0.5}, V3{0, 0.5, 1}})
      for (unsigned m = 1; m < 256; ++m)
        if (thorough || zoo::canonical_mask(m)) bs.push_back(voxels(m, 2, 2, 2, 0, off));
    for (unsigned m = 1; m < 256; ++m)
      if (thorough || zoo::canonical_mask(m)) bs.push_back(voxels(m, 2, 2, 2, 1, {0.25, 0.25, 0}, 0.75));
    c.spaces.push_back(pairs_space("voxels-shifted", as, bs));
  }
  // Boxes on a 4x4x4 grid of points.
  {
    std::vector<Shape> bs;
    for (int dg = 0; dg < 4; ++dg)
      for (auto& s : zoo::boxes(3, dg)) bs.push_back(s);
    std::vector<Shape> as;
    for (int dg = 0; dg < 2; ++dg) {
      as.push_back(box({0, 0, 0}, {1, 1, 1}, dg));
      as.push_back(box({1, 1, 1}, {2, 2, 2}, dg));
      as.push_back(box({0, 0, 0}, {2, 2, 2}, dg));
      as.push_back(box({1, 0, 0}, {2, 3, 2}, dg));
      as.push_back(box({0, 1, 0}, {3, 2, 3}, dg));
      as.push_back(box({0, 0, 0}, {3, 3, 3}, dg));
    }
    c.spaces.push_back(pairs_space("boxes", as, bs));
  }
  // Tetrahedra.
  c.spaces.push_back(pairs_space("tetrahedra", zoo::base_tets(), zoo::all_tets(2, !thorough)));
  // Prisms over grid triangles: coplanar overlaps of every kind, equal and opposite.
  for (auto [nm, z0, z1] : std::vector<std::tuple<const char*, double, double>>{
           {"prisms-same", 0, 1}, {"prisms-opposite", 1, 2}, {"prisms-crossing", 0.5, 1}}) {
    std::vector<Shape> as, bs;
    for (auto& t : zoo::grid_triangles(thorough ? 3 : 2, true)) as.push_back(zoo::prism_over(t, 0, 1));
    for (auto& t : zoo::grid_triangles(3, false)) bs.push_back(zoo::prism_over(t, z0, z1));
    c.spaces.push_back(pairs_space(nm, as, bs));
  }
  // Prisms over polygons with cocircular vertices.
  {
    std::vector<Shape> as, bs;
    for (auto& t : zoo::circle_polygons())
      if (thorough || t.size() == 4 || t.size() == 8) as.push_back(zoo::prism_over(t, 0, 1, 0));
    for (auto& t : zoo::circle_polygons()) {
      bs.push_back(zoo::prism_over(t, 1, 2, 1));
      bs.push_back(zoo::prism_over(t, 0, 1, 1));
    }
    c.spaces.push_back(pairs_space("prisms-cocircular", as, bs));
  }
  // Everything against everything.
  c.spaces.push_back(pairs_space("zoo", zoo::zoo(), zoo::zoo_shifted(thorough)));
  // The same a third of the size, with coordinates that no double represents, computed in another way for each operand.
  c.spaces.push_back(pairs_space("thirds", zoo::zoo(), zoo::zoo_shifted(thorough), true));
  {
    std::vector<Shape> as, bs;
    for (unsigned m = 1; m < 256; ++m) {
      if (zoo::canonical_mask(m)) as.push_back(voxels(m, 2, 2, 2, 0));
      if (thorough || zoo::canonical_mask(m)) bs.push_back(voxels(m, 2, 2, 2, 1));
    }
    c.spaces.push_back(pairs_space("thirds-voxels", as, bs, true));
  }
  kmc::g_hardware_concurrency = 1;
  return kmc::Driver(std::move(c), argc, argv).run();
}
