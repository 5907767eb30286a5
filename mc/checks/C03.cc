// C03: open meshes clipped by a common convex region (a box here).
#define KMC_OWN_HARDWARE_CONCURRENCY
#include "../geom.h"
#include "../zoo.h"

using namespace geom;

namespace {

struct Open_shape {
  Shape mesh;
  std::function<bool(const V3&)> inside;  // for points of the box
  bool sheet = true;
};

const V3 kLo{0, 0, 0}, kHi{2, 2, 2};

double clampd(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }

double get(const V3& v, int i) { return i == 0 ? v.x : i == 1 ? v.y : v.z; }
void set(V3& v, int i, double x) { (i == 0 ? v.x : i == 1 ? v.y : v.z) = x; }

// A height field over [0,2]^2 in direction `ax`, nu x nv squares.
Open_shape sheet(int ax, int nu, int nv, const std::vector<double>& h, unsigned diags, bool flip, std::string name = "sheet") {
  Open_shape r;
  int u = (ax + 1) % 3, v = (ax + 2) % 3;
  std::ostringstream nm;
  nm << name << " axis=" << ax << " grid=" << nu << "x" << nv << " diags=" << diags << (flip ? " flipped" : "") << " heights=";
  for (double x : h) nm << x << ",";
  r.mesh.name = nm.str();
  for (int j = 0; j <= nv; ++j)
    for (int i = 0; i <= nu; ++i) {
      V3 p{};
      set(p, u, 2.0 * i / nu);
      set(p, v, 2.0 * j / nv);
      set(p, ax, h[i + (nu + 1) * j]);
      r.mesh.p.push_back(p);
    }
  for (int j = 0; j < nv; ++j)
    for (int i = 0; i < nu; ++i) {
      int a = i + (nu + 1) * j, b = a + 1, c = b + nu + 1, d = a + nu + 1;
      std::vector<std::array<int, 3>> ts;
      if ((diags >> (i + nu * j)) & 1U) ts = {{a, b, d}, {b, c, d}};
      else ts = {{a, b, c}, {a, c, d}};
      for (auto t : ts) {
        if (flip) std::swap(t[1], t[2]);
        r.mesh.f.push_back(t);
      }
    }
  auto mesh = std::make_shared<Shape>(r.mesh);
  r.inside = [=](const V3& q0) {
    V3 q{clampd(q0.x, 0, 2), clampd(q0.y, 0, 2), clampd(q0.z, 0, 2)};
    double x = get(q, u), y = get(q, v);
    for (auto& t : mesh->f) {
      const V3 *A = &mesh->p[t[0]], *B = &mesh->p[t[1]], *C = &mesh->p[t[2]];
      double x0 = get(*A, u), y0 = get(*A, v), x1 = get(*B, u), y1 = get(*B, v), x2 = get(*C, u), y2 = get(*C, v);
      double det = (x1 - x0) * (y2 - y0) - (x2 - x0) * (y1 - y0);
      double s = ((x - x0) * (y2 - y0) - (x2 - x0) * (y - y0)) / det;
      double w = ((x1 - x0) * (y - y0) - (x - x0) * (y1 - y0)) / det;
      if (s > -1e-12 && w > -1e-12 && s + w < 1 + 1e-12) {
        double hh = get(*A, ax) * (1 - s - w) + get(*B, ax) * s + get(*C, ax) * w;
        return (get(q, ax) < hh) != flip;
      }
    }
    return false;
  };
  return r;
}

// The set between two sheets (or outside), as one open mesh with two components.
Open_shape slab(const Open_shape& upper, const Open_shape& lower_flipped) {
  Open_shape r;
  r.mesh = merged(upper.mesh, lower_flipped.mesh);
  r.inside = [=](const V3& p) { return upper.inside(p) && lower_flipped.inside(p); };
  return r;
}
Open_shape unslab(const Open_shape& upper_flipped, const Open_shape& lower) {
  Open_shape r;
  r.mesh = merged(upper_flipped.mesh, lower.mesh);
  r.inside = [=](const V3& p) { return upper_flipped.inside(p) || lower.inside(p); };
  return r;
}

Open_shape solid(const Shape& s) {
  Open_shape r;
  r.mesh = s;
  r.sheet = false;
  auto ts = std::make_shared<std::vector<Tri>>(tris_of(s));
  bool inf = s.inf;
  r.inside = [=](const V3& p) { return winding(*ts, p) + (inf ? 1 : 0) > 0.5; };
  return r;
}

// Signed number of faces crossed from inside to outside along p -> q; nothing if the segment is not generic.
std::optional<int> crossings(const std::vector<Tri>& ts, const V3& p, const V3& q) {
  int n = 0;
  const double eps = 1e-7;
  for (auto& t : ts) {
    V3 nn = (t.b - t.a).cross(t.c - t.a);
    double dp = nn.dot(p - t.a), dq = nn.dot(q - t.a);
    double e[3];
    const V3* v[3] = {&t.a, &t.b, &t.c};
    V3 d = q - p;
    for (int i = 0; i < 3; ++i) e[i] = d.dot((*v[i] - p).cross(*v[(i + 1) % 3] - p));
    bool pos = e[0] > eps && e[1] > eps && e[2] > eps, neg = e[0] < -eps && e[1] < -eps && e[2] < -eps;
    bool out = (e[0] > eps || e[1] > eps || e[2] > eps) && (e[0] < -eps || e[1] < -eps || e[2] < -eps);
    if (std::abs(dp) < 1e-10 || std::abs(dq) < 1e-10) return {};
    if ((dp > 0) == (dq > 0)) continue;
    if (out) continue;
    if (!pos && !neg) return {};
    n += dp < 0 ? 1 : -1;
  }
  return n;
}

bool on_wall(const V3& a, const V3& b) {
  for (int i = 0; i < 3; ++i)
    for (double w : {get(kLo, i), get(kHi, i)})
      if (std::abs(get(a, i) - w) < 1e-9 && std::abs(get(b, i) - w) < 1e-9) return true;
  return false;
}

void run_pair(const Open_shape& a, const Open_shape& b, kmc::Ctx& ctx) {
  std::vector<Tri> all = tris_of(a.mesh);
  for (auto& t : tris_of(b.mesh)) all.push_back(t);
  auto input_planes = planes_of(all);
  auto planes = input_planes;
  for (int i = 0; i < 3; ++i)
    for (double w : {get(kLo, i), get(kHi, i)}) {
      V3 n{};
      set(n, i, 1);
      Plane p{n, w};
      bool dup = false;
      for (auto& o : planes) dup = dup || same_plane(o, p);
      if (!dup) planes.push_back(p);
    }
  std::vector<V3> cells;
  for (auto& p : cell_points(planes)) {
    bool in = true;
    for (int i = 0; i < 3; ++i) in = in && get(p, i) > get(kLo, i) && get(p, i) < get(kHi, i);
    if (in) cells.push_back(p);
  }
  std::vector<unsigned> bits;
  for (auto& p : cells) bits.push_back((a.inside(p) ? 1U : 0U) | (b.inside(p) ? 2U : 0U));
  unsigned seen = 0;
  for (auto m : bits) seen |= 1U << m;
  if (__builtin_popcount(seen) >= 3) ctx.count("nontrivial");

  auto ra = Region{soup_of(a.mesh)}, rb = Region{soup_of(b.mesh, 1000)};
  std::optional<Builder> builder;
  try {
    builder.emplace(ra, rb);
  } catch (const std::exception& e) {
    ctx.fail("exception", std::string("combining the operands threw: ") + e.what());
    return;
  }
  if (builder->warnings() != kigumi::Warnings::NONE) ctx.fail("warning", "a warning was raised for valid operands");
  std::string out;
  for (int o = 0; o < 16; ++o) {
    auto op = static_cast<Op>(o);
    auto tt = tt_apply(op, tt_var(0), tt_var(1));
    std::string what = std::string("operator ") + op_name(op);
    ctx.count("operators");
    Region r;
    try {
      r = (*builder)(op);
    } catch (const std::exception& e) {
      ctx.fail("exception", what + " threw: " + e.what());
      continue;
    }
    bool any0 = false, any1 = false;
    for (auto m : bits) (tt_at(tt, m) ? any1 : any0) = true;
    out += std::to_string(r.boundary().num_faces()) + ",";
    int kind = any0 && any1 ? 2 : any1 ? 1 : 0, got = r.is_empty() ? 0 : r.is_full() ? 1 : 2;
    if (kind != got) {
      static const char* kn[] = {"empty", "full", "boundary-defined"};
      ctx.fail("kind", what + ": expected " + kn[kind] + " inside the convex region, got " + kn[got]);
      continue;
    }
    if (got != 2) continue;
    auto ts = tris_of(r.boundary());
    std::map<std::pair<PKey, PKey>, int> he;
    for (auto& t : ts) {
      auto pl = plane_of(t);
      if (!pl) {
        ctx.fail("degenerate-face", what + ": a degenerate face");
        break;
      }
      bool known = false;
      for (auto& p : input_planes) known = known || same_plane(p, *pl);
      if (!known) ctx.fail("alien-face", what + ": a face on no plane of the operands");
      V3 n = (t.b - t.a).cross(t.c - t.a).unit(), g = t.a * 0.34567 + t.b * 0.33456 + t.c * 0.31977;
      auto in = [&](const V3& p) { return tt_at(tt, (a.inside(p) ? 1U : 0U) | (b.inside(p) ? 2U : 0U)); };
      if (in(g + n * 1e-6) || !in(g - n * 1e-6))
        ctx.fail("face-sides", what + ": a face does not separate inside from outside: " + Oracle::str(t));
      const V3* v[3] = {&t.a, &t.b, &t.c};
      for (int i = 0; i < 3; ++i) {
        auto &p = *v[i], &q = *v[(i + 1) % 3];
        for (int k = 0; k < 3; ++k)
          if (get(p, k) < get(kLo, k) - 1e-9 || get(p, k) > get(kHi, k) + 1e-9) ctx.fail("outside", what + ": a vertex outside the convex region");
        if (on_wall(p, q)) continue;
        auto x = pkey(p), y = pkey(q);
        if (x < y) ++he[{x, y}];
        else --he[{y, x}];
      }
    }
    for (auto& [e, n] : he)
      if (n != 0) {
        ctx.fail("open-edge", what + ": an edge inside the convex region is not balanced");
        break;
      }
    // Membership of every cell, along a path from cell 0.
    for (std::size_t i = 1; i < cells.size(); ++i) {
      auto c = crossings(ts, cells[0], cells[i]);
      for (std::size_t j = 1; !c && j < cells.size(); ++j) {
        auto x = crossings(ts, cells[0], cells[j]), y = crossings(ts, cells[j], cells[i]);
        if (x && y) c = *x + *y;
      }
      if (!c) {
        ctx.count("no_generic_path");
        continue;
      }
      int want = int(tt_at(tt, bits[0])) - int(tt_at(tt, bits[i]));
      if (*c != want) {
        std::ostringstream s;
        s << what << ": wrong membership at (" << cells[i].x << "," << cells[i].y << "," << cells[i].z << "), bits " << bits[i]
          << ": crossed " << *c << " faces outwards from (" << cells[0].x << "," << cells[0].y << "," << cells[0].z << "), expected " << want;
        ctx.fail("membership", s.str());
        break;
      }
    }
  }
  ctx.outcome(out);
}

using Shapes = std::vector<Open_shape>;

kmc::Space pairs_space(std::string name, Shapes as, Shapes bs) {
  auto pa = std::make_shared<Shapes>(std::move(as));
  auto pb = std::make_shared<Shapes>(std::move(bs));
  kmc::Space s;
  s.name = std::move(name);
  s.size = pa->size() * pb->size();
  s.run = [=](std::uint64_t id, kmc::Ctx& ctx) { run_pair((*pa)[id / pb->size()], (*pb)[id % pb->size()], ctx); };
  s.describe = [=](std::uint64_t id) {
    return "A: " + (*pa)[id / pb->size()].mesh.text() + " | B: " + (*pb)[id % pb->size()].mesh.text();
  };
  return s;
}

// All height vectors over the given values.
std::vector<std::vector<double>> heights(int n, const std::vector<double>& values) {
  std::vector<std::vector<double>> r{{}};
  for (int i = 0; i < n; ++i) {
    std::vector<std::vector<double>> next;
    for (auto& h : r)
      for (double v : values) {
        auto g = h;
        g.push_back(v);
        next.push_back(g);
      }
    r = std::move(next);
  }
  return r;
}

// Representatives under the mirror images of the nu x nv grid.
bool rep(const std::vector<double>& h, int nu, int nv) {
  for (int g = 1; g < 4; ++g) {
    std::vector<double> o(h.size());
    for (int j = 0; j <= nv; ++j)
      for (int i = 0; i <= nu; ++i) o[i + (nu + 1) * j] = h[((g & 1) ? nu - i : i) + (nu + 1) * ((g & 2) ? nv - j : j)];
    if (o < h) return false;
  }
  return true;
}

}  // namespace

int main(int argc, char** argv) {
  bool thorough = kmc::tier_of(argc, argv) == "thorough";
  kmc::Check c;
  c.property = "C03";
  c.rule =
      "a case is a pair of meshes clipped by the box [0,2]^3, at least one of them open; all 16 operators are evaluated and "
      "compared inside the box, cell by cell of the arrangement of supporting planes, along paths that count crossed faces; "
      "a case is non-trivial if at least three of the four membership combinations occur inside the box";
  c.assumptions = {"the convex region is the box [0,2]^3 in every case",
                   "the oracle is evaluated in floating point with margins"};

  // One square: every pair of heights over four levels, both diagonals, all orientations.
  {
    Shapes as, bs;
    for (auto& h : heights(4, {0.5, 1, 1.5}))
      for (unsigned d : {0U, 1U}) {
        bs.push_back(sheet(2, 1, 1, h, d, false));
        bs.push_back(sheet(2, 1, 1, h, d, true));
        if (rep(h, 1, 1) || thorough) as.push_back(sheet(2, 1, 1, h, d, false));
        if (thorough) as.push_back(sheet(2, 1, 1, h, d, true));
      }
    c.spaces.push_back(pairs_space("squares", as, bs));
  }
  // Two squares.
  {
    Shapes as, bs;
    for (auto& h : heights(6, {0.5, 1.5}))
      for (unsigned d : {0U, 1U})
        if (rep(h, 2, 1)) as.push_back(sheet(2, 2, 1, h, d, false));
    for (auto& h : heights(6, thorough ? std::vector<double>{0.5, 1, 1.5} : std::vector<double>{0.5, 1.5}))
      for (unsigned d : {0U, 1U, 2U, 3U})
        for (bool f : {false, true}) bs.push_back(sheet(2, 2, 1, h, d, f));
    c.spaces.push_back(pairs_space("two-squares", as, bs));
    Shapes bs2;
    for (auto& h : heights(6, {0.5, 1})) bs2.push_back(sheet(2, 1, 2, h, 1, h[0] > 0.75));
    c.spaces.push_back(pairs_space("two-squares-crossed", as, bs2));
  }
  // Sheets in perpendicular directions.
  {
    Shapes as, bs;
    for (auto& h : heights(4, {0.5, 1, 1.5}))
      for (unsigned d : {0U, 1U}) {
        if (rep(h, 1, 1)) as.push_back(sheet(2, 1, 1, h, d, false));
        for (int ax : {0, 1}) bs.push_back(sheet(ax, 1, 1, h, d, h[0] + h[1] > 2));
      }
    for (auto& h : heights(6, {0.5, 1.5})) as.push_back(sheet(2, 2, 1, h, 1, false));
    c.spaces.push_back(pairs_space("perpendicular", as, bs));
  }
  // Slabs against sheets and slabs.
  {
    Shapes as, bs;
    for (auto& h : heights(4, {1.25, 1.75}))
      for (auto& g : heights(4, {0.25, 0.75})) {
        if (!rep(g, 1, 1)) continue;
        as.push_back(slab(sheet(2, 1, 1, h, 0, false), sheet(2, 1, 1, g, 0, true)));
        as.push_back(unslab(sheet(2, 1, 1, h, 0, true), sheet(2, 1, 1, g, 1, false)));
      }
    for (auto& h : heights(4, {0.25, 1, 1.75})) bs.push_back(sheet(2, 1, 1, h, 0, false));
    for (auto& h : heights(4, {0.5, 1.5})) {
      bs.push_back(sheet(0, 1, 1, h, 1, true));
      bs.push_back(slab(sheet(1, 1, 1, h, 0, false), sheet(1, 1, 1, {0.25, 0.25, 0.25, 0.25}, 0, true)));
    }
    c.spaces.push_back(pairs_space("slabs", as, bs));
  }
  // Solids strictly inside the box against sheets.
  {
    Shapes as, bs;
    for (auto& s : zoo::zoo()) as.push_back(solid(moved(s, {0.5, 0.5, 0.5}, 0.5)));
    for (unsigned m = 1; m < 256; ++m)
      if (zoo::canonical_mask(m)) as.push_back(solid(voxels(m, 2, 2, 2, 0, {0.5, 0.5, 0.5}, 0.5)));
    for (auto& h : heights(4, {0.5, 1, 1.5}))
      if (rep(h, 1, 1)) bs.push_back(sheet(2, 1, 1, h, 0, false)), bs.push_back(sheet(1, 1, 1, h, 1, true));
    for (auto& h : heights(6, {0.5, 1.25}))
      if (thorough || rep(h, 2, 1)) bs.push_back(sheet(2, 2, 1, h, 1, false));
    c.spaces.push_back(pairs_space("solid-sheet", as, bs));
    if (thorough) c.spaces.push_back(pairs_space("sheet-solid", bs, as));
  }
  kmc::g_hardware_concurrency = 1;
  return kmc::Driver(std::move(c), argc, argv).run();
}
