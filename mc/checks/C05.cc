// C05: face data follow the faces they were attached to.
#define KMC_OWN_HARDWARE_CONCURRENCY
#include "../geom.h"
#include "../zoo.h"

using namespace geom;

namespace {

struct Source {
  Tri t;
  V3 n;
  double d;
  int data;
};

std::vector<Source> sources(const Shape& s, int data0) {
  std::vector<Source> r;
  for (auto& t : tris_of(s)) {
    V3 n = (t.b - t.a).cross(t.c - t.a).unit();
    r.push_back({t, n, n.dot(t.a), data0++});
  }
  return r;
}

// The triangle has its corners in the closed source triangle.
bool piece_of(const Tri& t, const Source& s, double eps) {
  const V3* v[3] = {&t.a, &t.b, &t.c};
  const V3* w[3] = {&s.t.a, &s.t.b, &s.t.c};
  for (auto* p : v) {
    if (std::abs(s.n.dot(*p) - s.d) > 1e-9) return false;
    for (int i = 0; i < 3; ++i)
      if (s.n.dot((*w[(i + 1) % 3] - *w[i]).cross(*p - *w[i])) < -eps) return false;
  }
  return true;
}

void run_pair(const Shape& a, const Shape& b, kmc::Ctx& ctx) {
  auto sa = sources(a, 0), sb = sources(b, 1000);
  auto ra = region_of(a), rb = region_of(b, 1000);
  Builder builder{ra, rb};
  std::string out;
  bool nontrivial = false;
  std::map<std::string, std::pair<const Source*, const Source*>> cache;
  for (int o = 0; o < 16; ++o)
    for (bool prefer : {true, false}) {
      auto op = static_cast<Op>(o);
      auto r = builder(op, prefer);
      ctx.count("operators");
      const auto& soup = r.boundary();
      auto ts = tris_of(soup);
      std::size_t i = 0;
      for (auto fi : soup.faces()) {
        auto& t = ts[i++];
        ctx.count("faces");
        const Source *fa = nullptr, *fb = nullptr;
        for (auto& s : sa)
          if (piece_of(t, s, 1e-9)) fa = &s;
        for (auto& s : sb)
          if (piece_of(t, s, 1e-9)) fb = &s;
        std::string where = std::string("operator ") + op_name(op) + (prefer ? "" : " (preferring the second operand)") + ": face " + Oracle::str(t);
        int data = soup.data(fi);
        if (!fa && !fb) {
          ctx.fail("not-a-piece", where + " is not a piece of any operand's face");
          continue;
        }
        const Source* want = fa && fb ? (prefer ? fa : fb) : fa ? fa : fb;
        if (fa && fb) {
          nontrivial = true;
          ctx.count("shared_faces");
        }
        if (data != want->data) {
          ctx.fail(fa && fb ? "preference" : "data", where + " carries data " + std::to_string(data) + ", expected " + std::to_string(want->data));
        }
        out += std::to_string(data) + ",";
      }
    }
  ctx.outcome(out);
  if (nontrivial) ctx.count("nontrivial");
}

using Shapes = std::vector<Shape>;
kmc::Space pairs_space(std::string name, Shapes as, Shapes bs) {
  auto pa = std::make_shared<Shapes>(std::move(as));
  auto pb = std::make_shared<Shapes>(std::move(bs));
  kmc::Space s;
  s.name = std::move(name);
  s.size = pa->size() * pb->size();
  s.run = [=](std::uint64_t id, kmc::Ctx& ctx) { run_pair((*pa)[id / pb->size()], (*pb)[id % pb->size()], ctx); };
  s.describe = [=](std::uint64_t id) {
    return "A: " + (*pa)[id / pb->size()].text() + " | B: " + (*pb)[id % pb->size()].text();
  };
  return s;
}

}  // namespace

int main(int argc, char** argv) {
  bool thorough = kmc::tier_of(argc, argv) == "thorough";
  kmc::Check c;
  c.property = "C05";
  c.rule =
      "a case is a pair of operands whose faces all carry different data; each face of each of the 16 x 2 results must lie in a "
      "face of an operand and carry its data, the preferred operand's where both contribute; a case is non-trivial if some "
      "piece of surface is contributed by both operands";
  c.assumptions = {"positions are compared in floating point with a margin"};
  c.evaluations_counter = "cases";
  Shapes specials{empty_shape(), full_shape()};
  Shapes z = zoo::zoo();
  {
    Shapes as = specials, bs = z;
    c.spaces.push_back(pairs_space("special-solid", as, bs));
    c.spaces.push_back(pairs_space("solid-special", bs, as));
  }
  {
    Shapes as, bs;
    for (unsigned m = 1; m < 256; ++m) {
      if (zoo::canonical_mask(m)) as.push_back(voxels(m, 2, 2, 2, m % 2 ? 0 : 3));
      bs.push_back(voxels(m, 2, 2, 2, 0));
      if (thorough || zoo::canonical_mask(m)) bs.push_back(voxels(m, 2, 2, 2, 1)), bs.push_back(inverted(voxels(m, 2, 2, 2, 2)));
    }
    c.spaces.push_back(pairs_space("voxels", as, bs));
  }
  {
    Shapes as, bs;
    for (int d = 0; d < 2; ++d) {
      as.push_back(box({0, 0, 0}, {2, 2, 2}, d));
      as.push_back(inverted(box({0, 0, 0}, {2, 3, 1}, d)));
      as.push_back(box({1, 1, 0}, {2, 2, 3}, d));
      for (auto& s : zoo::boxes(3, d)) bs.push_back(s);
    }
    c.spaces.push_back(pairs_space("boxes", as, bs));
    c.spaces.push_back(pairs_space("boxes-swapped", bs, as));
  }
  for (double z0 : {0.0, 1.0}) {
    Shapes as, bs;
    for (auto& t : zoo::grid_triangles(2, !thorough)) as.push_back(zoo::prism_over(t, 0, 1));
    for (auto& t : zoo::grid_triangles(3, false)) bs.push_back(zoo::prism_over(t, z0, z0 + 1));
    c.spaces.push_back(pairs_space(z0 == 0 ? "prisms-same" : "prisms-opposite", as, bs));
  }
  {
    Shapes as, bs;
    for (auto& t : zoo::circle_polygons()) {
      if (t.size() == 4 || t.size() == 8 || thorough) as.push_back(zoo::prism_over(t, 0, 1, 0));
      if (t.size() >= 6 || thorough) bs.push_back(zoo::prism_over(t, 1, 2, 1)), bs.push_back(zoo::prism_over(t, 0, 1, 2));
    }
    c.spaces.push_back(pairs_space("prisms-cocircular", as, bs));
  }
  {
    Shapes bs;
    for (auto& t : zoo::all_tets(1, false)) bs.push_back(t);
    c.spaces.push_back(pairs_space("tetrahedra", zoo::base_tets(), bs));
  }
  c.spaces.push_back(pairs_space("zoo", z, zoo::zoo_shifted(thorough)));
  kmc::g_hardware_concurrency = 1;
  return kmc::Driver(std::move(c), argc, argv).run();
}
