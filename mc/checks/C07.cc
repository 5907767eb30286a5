// C07: point location is exact.
#define KMC_OWN_HARDWARE_CONCURRENCY
#include "../geom.h"
#include "../zoo.h"

using namespace geom;

namespace {

constexpr std::int64_t S = 64 * 3;  // all coordinates are multiples of 1/S
struct I3 {
  std::int64_t x, y, z;
  I3 operator-(const I3& o) const { return {x - o.x, y - o.y, z - o.z}; }
  std::int64_t dot(const I3& o) const { return x * o.x + y * o.y + z * o.z; }
  I3 cross(const I3& o) const { return {y * o.z - z * o.y, z * o.x - x * o.z, x * o.y - y * o.x}; }
  bool operator<(const I3& o) const { return std::tie(x, y, z) < std::tie(o.x, o.y, o.z); }
  bool operator==(const I3& o) const { return x == o.x && y == o.y && z == o.z; }
};

I3 to_i(const V3& v) {
  auto c = [](double d) {
    auto r = std::llround(d * S);
    if (std::abs(r - d * S) > 1e-6) throw std::runtime_error("a coordinate is not on the lattice");
    return static_cast<std::int64_t>(r);
  };
  return {c(v.x), c(v.y), c(v.z)};
}

bool on_face(const I3& p, const std::array<I3, 3>& t) {
  I3 n = (t[1] - t[0]).cross(t[2] - t[0]);
  // |coordinates| <= 4 * S ~ 1200: n ~ 3e6, all products fit.
  if (n.dot(p - t[0]) != 0) return false;
  for (int i = 0; i < 3; ++i)
    if (n.dot((t[(i + 1) % 3] - t[i]).cross(p - t[i])) < 0) return false;
  return true;
}

struct Reference {
  std::vector<std::array<I3, 3>> ts;
  std::vector<Tri> tris;
  bool inf;
  explicit Reference(const Shape& s) : tris{tris_of(s)}, inf{s.inf} {
    for (auto& t : tris) ts.push_back({to_i(t.a), to_i(t.b), to_i(t.c)});
  }
  int side(const I3& p) const {  // 0 boundary, 1 inside, -1 outside
    for (auto& t : ts)
      if (on_face(p, t)) return 0;
    double w = winding(tris, V3{double(p.x) / S, double(p.y) / S, double(p.z) / S}) + (inf ? 1 : 0);
    if (std::abs(w) > 1e-6 && std::abs(w - 1) > 1e-6) throw std::runtime_error("bad winding number");
    return w > 0.5 ? 1 : -1;
  }
};

K::Point_3 to_k(const I3& p) {
  auto c = [](std::int64_t v) { return v % 3 == 0 ? K::FT(double(v) / S) : K::FT(double(v)) / K::FT(double(S)); };
  return {c(p.x), c(p.y), c(p.z)};
}

int ask(const Region& r, const I3& p) {
  switch (r.bounded_side(to_k(p))) {
    case CGAL::ON_BOUNDED_SIDE: return 1;
    case CGAL::ON_UNBOUNDED_SIDE: return -1;
    default: return 0;
  }
}

// Lattice points, plus all the special points of the mesh.
std::vector<I3> queries(const Shape& s, int step) {
  std::set<I3> q;
  for (std::int64_t x = -S / 2; x <= 5 * S / 2; x += step)
    for (std::int64_t y = -S / 2; y <= 5 * S / 2; y += step)
      for (std::int64_t z = -S / 2; z <= 5 * S / 2; z += step) q.insert({x, y, z});
  auto add = [&](const I3& p) {
    q.insert(p);
    for (int d : {-1, 1}) {
      q.insert({p.x + d, p.y, p.z});
      q.insert({p.x, p.y + d, p.z});
      q.insert({p.x, p.y, p.z + d});
    }
  };
  std::vector<I3> cs;
  for (auto& t : tris_of(s)) {
    I3 a = to_i(t.a), b = to_i(t.b), c = to_i(t.c);
    I3 g{(a.x + b.x + c.x) / 3, (a.y + b.y + c.y) / 3, (a.z + b.z + c.z) / 3};
    cs.push_back(g);
    add(g);
    for (auto [u, v] : {std::pair(a, b), std::pair(b, c), std::pair(c, a)}) {
      add({(u.x + v.x) / 2, (u.y + v.y) / 2, (u.z + v.z) / 2});
      q.insert({2 * u.x - v.x, 2 * u.y - v.y, 2 * u.z - v.z});  // on the extension of the edge
      q.insert({2 * v.x - u.x, 2 * v.y - u.y, 2 * v.z - u.z});
      q.insert({2 * u.x - g.x, 2 * u.y - g.y, 2 * u.z - g.z});  // seen through the vertex
      q.insert({u.x + v.x - g.x, u.y + v.y - g.y, u.z + v.z - g.z});  // seen through the edge
    }
    add(a);
  }
  return {q.begin(), q.end()};
}

void run_shape(const Shape& s, int step, kmc::Ctx& ctx) {
  Reference ref{s};
  auto qs = queries(s, step);
  auto r = region_of(s);
  std::vector<int> want;
  int n[3] = {};
  auto text = [&](const I3& p, int w, int g) {
    std::ostringstream o;
    static const char* nm[] = {"outside", "on the boundary", "inside"};
    o << "(" << p.x << "," << p.y << "," << p.z << ")/" << S << ": expected " << nm[w + 1] << ", got " << nm[g + 1];
    return o.str();
  };
  for (auto& p : qs) {
    int w = ref.side(p);
    want.push_back(w);
    ++n[w + 1];
    ctx.count("queries");
    int g;
    try {
      g = ask(r, p);
    } catch (const std::exception& e) {
      ctx.fail("exception", text(p, w, 0) + ": threw " + e.what());
      continue;
    }
    if (g != w) ctx.fail(w == 0 ? "boundary-missed" : g == 0 ? "boundary-invented" : "side", text(p, w, g));
  }
  ctx.count("nontrivial", n[1] + std::min(n[0], n[2]));
  ctx.count("on_boundary", n[1]);
  ctx.count("inside", n[2]);
  // Again in another order, on a copy, and first-time queries on fresh regions: earlier queries must not matter.
  auto copy = r;
  auto n1 = qs.size();
  for (std::size_t i = 0; i < n1; i += 3) {
    auto j = n1 - 1 - i;
    try {
      if (ask(copy, qs[j]) != want[j]) ctx.fail("copy", "a copy answers differently at " + text(qs[j], want[j], 0));
      if (ask(r, qs[j]) != want[j]) ctx.fail("again", "asking again answers differently at " + text(qs[j], want[j], 0));
      ctx.count("queries", 2);
      if (i % 51 == 0) {
        auto fresh = region_of(s);
        ctx.count("queries");
        if (ask(fresh, qs[j]) != want[j]) ctx.fail("first", "the first query of a region is answered wrong: " + text(qs[j], want[j], 0));
      }
    } catch (const std::exception& e) {
      ctx.fail("exception", std::string("threw ") + e.what());
    }
  }
  std::string o;
  for (int w : want) o += static_cast<char>('1' + w);
  ctx.outcome(o);
}

// What comes out of Boolean operations is asked, too.
void run_result(const Shape& a, const Shape& b, kmc::Ctx& ctx) {
  Reference fa{a}, fb{b};
  auto ra = region_of(a), rb = region_of(b);
  Builder builder{ra, rb};
  std::vector<I3> qs;
  for (std::int64_t x = -S / 4; x <= 3 * S; x += S / 4 + 1)
    for (std::int64_t y = -S / 4; y <= 3 * S; y += S / 4)
      for (std::int64_t z = -S / 4; z <= 3 * S; z += S / 3) qs.push_back({x, y, z});
  std::vector<std::pair<int, int>> w;
  for (auto& p : qs) w.emplace_back(fa.side(p), fb.side(p));
  for (int o = 0; o < 16; ++o) {
    auto r = builder(static_cast<Op>(o));
    for (std::size_t i = 0; i < qs.size(); ++i) {
      if (w[i].first == 0 || w[i].second == 0) continue;  // the regularised boundary is C01's business
      ctx.count("queries");
      int want = apply(static_cast<Op>(o), w[i].first > 0, w[i].second > 0) ? 1 : -1;
      int got = ask(r, qs[i]);
      if (want != got) ctx.fail("result", std::string("in the result of operator ") + op_name(static_cast<Op>(o)));
    }
  }
  ctx.count("nontrivial");
}

}  // namespace

int main(int argc, char** argv) {
  bool thorough = kmc::tier_of(argc, argv) == "thorough";
  kmc::Check c;
  c.property = "C07";
  c.rule =
      "a case is one region asked at every point of a lattice around it and at every vertex, edge midpoint, face centroid, "
      "their neighbours one lattice unit away, and points that see a centroid through a vertex or edge; the reference is an "
      "exact integer on-face test and a winding number; non-trivial queries are those on the boundary and on its rarer side";
  c.assumptions = {"the winding number of points off the boundary is evaluated in floating point with a checked margin"};
  c.evaluations_counter = "queries";
  auto shapes = std::make_shared<std::vector<Shape>>();
  auto steps = std::make_shared<std::vector<int>>();
  auto add = [&](const Shape& s, int step) {
    shapes->push_back(s);
    steps->push_back(thorough ? std::max<int>(S / 8, step / 2) : step);
  };
  for (auto& s : zoo::zoo()) {
    add(s, S / 4);
    if (!s.inf) add(inverted(s), S / 4);
  }
  for (unsigned m = 1; m < 256; ++m) {
    if (zoo::canonical_mask(m))
      for (int d = 0; d < 4; ++d) add(voxels(m, 2, 2, 2, d), S / 4);
    else if (thorough) add(voxels(m, 2, 2, 2, m % 4), S / 4);
    else add(voxels(m, 2, 2, 2, m % 4), S / 2);
  }
  for (unsigned m = 1; m < (thorough ? 1U << 16 : 1U << 12); m += thorough ? 37 : 29) add(voxels(m * 11213 & 0xffff ? m * 11213 & 0xffff : 1, 4, 4, 1, m % 4, {}, 0.5), S / 2);
  {
    auto tets = zoo::all_tets(thorough ? 2 : 1, false);
    for (std::size_t i = 0; i < tets.size(); ++i) add(tets[i], S / 2);
  }
  {
    kmc::Space s;
    s.name = "shapes";
    s.size = shapes->size();
    s.run = [=](std::uint64_t id, kmc::Ctx& ctx) { run_shape((*shapes)[id], (*steps)[id], ctx); };
    s.describe = [=](std::uint64_t id) { return (*shapes)[id].text(); };
    c.spaces.push_back(s);
  }
  {
    auto z = std::make_shared<std::vector<Shape>>(zoo::zoo());
    kmc::Space s;
    s.name = "results";
    s.size = 8 * z->size();
    s.run = [=](std::uint64_t id, kmc::Ctx& ctx) {
      auto& a = (*z)[id % z->size()];
      auto b = moved((*z)[id / z->size() * 3], {id % 2 ? 1.0 : 0.0, 0.5, id % 3 ? 0.5 : 0.0});
      run_result(a, b, ctx);
    };
    s.describe = [=](std::uint64_t id) { return (*z)[id % z->size()].name + " with " + (*z)[id / z->size() * 3].name; };
    c.spaces.push_back(s);
  }
  {
    kmc::Space s;
    s.name = "special";
    s.size = 2;
    s.run = [=](std::uint64_t id, kmc::Ctx& ctx) {
      auto r = id ? Region::full() : Region::empty();
      for (auto& p : queries(box({0, 0, 0}, {2, 2, 2}, 0), S / 4)) {
        ctx.count("queries");
        if (ask(r, p) != (id ? 1 : -1)) ctx.fail("special", "a special region answers wrong");
      }
    };
    c.spaces.push_back(s);
  }
  kmc::g_hardware_concurrency = 1;
  return kmc::Driver(std::move(c), argc, argv).run();
}
