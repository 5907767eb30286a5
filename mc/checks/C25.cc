// C25: faces around an intersection edge are classified by the true geometry.
#define KMC_OWN_HARDWARE_CONCURRENCY
#include <kigumi/Classify_faces_locally.h>
#include <kigumi/Face_tag.h>
#include <kigumi/Mixed.h>
#include <kigumi/Null_data.h>

#include "../geom.h"
#include "../zoo.h"

using namespace geom;
using kigumi::Face_tag;
using Mesh = kigumi::Mixed_triangle_mesh<K, kigumi::Null_data>;
using Mesh_data = kigumi::Mixed_face_data<kigumi::Null_data>;
using Classify = kigumi::Classify_faces_locally<K, kigumi::Null_data>;

namespace {

constexpr int N = 8;  // directions

struct Fan_face {
  int dir;
  bool left;
  bool ccw;  // outside counterclockwise of the face
};

// Faces of one mesh: a subset of directions with alternating orientations.
std::vector<Fan_face> fan(unsigned mask, bool left, bool first_ccw) {
  std::vector<Fan_face> r;
  bool o = first_ccw;
  for (int d = 0; d < N; ++d)
    if ((mask >> d) & 1U) {
      r.push_back({d, left, o});
      o = !o;
    }
  return r;
}

// State (inside?) of a mesh just before direction d, going counterclockwise from direction 0.
// The faces alternate, so any face tells.
bool state_at(const std::vector<Fan_face>& fs, int d) {
  // Next face at or after d: before a ccw-outside face is inside. (Linear fans: if none, after the last one.)
  for (auto& f : fs)
    if (f.dir >= d) return f.ccw;
  return !fs.back().ccw;
}

Face_tag truth(const Fan_face& f, const std::vector<Fan_face>& other) {
  for (auto& g : other)
    if (g.dir == f.dir) return g.ccw == f.ccw ? Face_tag::COPLANAR : Face_tag::OPPOSITE;
  return state_at(other, f.dir) ? Face_tag::INTERIOR : Face_tag::EXTERIOR;
}

const char* tag_name(Face_tag t) {
  switch (t) {
    case Face_tag::INTERIOR: return "INTERIOR";
    case Face_tag::EXTERIOR: return "EXTERIOR";
    case Face_tag::COPLANAR: return "COPLANAR";
    case Face_tag::OPPOSITE: return "OPPOSITE";
    default: return "UNKNOWN";
  }
}

struct Frame {
  V3 p, q;                  // the edge
  std::vector<V3> dirs;     // counterclockwise seen from q
};

std::vector<Frame> frames() {
  std::vector<Frame> r;
  auto make = [&](V3 p, V3 axis, V3 u, V3 v, const std::vector<std::array<double, 2>>& ds) {
    Frame f{p, p + axis, {}};
    for (auto& d : ds) f.dirs.push_back(p + u * d[0] + v * d[1] + axis * (0.25 * d[0]));
    r.push_back(f);
  };
  std::vector<std::array<double, 2>> regular{{1, 0}, {1, 1}, {0, 1}, {-1, 1}, {-1, 0}, {-1, -1}, {0, -1}, {1, -1}};
  std::vector<std::array<double, 2>> skewed{{3, 1}, {1, 1}, {-1, 2}, {-2, 1}, {-3, -1}, {-1, -3}, {1, -4}, {2, -1}};  // 0 and 4 opposite
  make({0, 0, 0}, {0, 0, 1}, {1, 0, 0}, {0, 1, 0}, regular);
  make({1, 2, 3}, {2, 0, 0}, {0, 1, 0}, {0, 0, 1}, regular);
  make({0, 1, 0}, {0, 3, 0}, {0, 0, 1}, {1, 0, 0}, skewed);
  make({0, 0, 0}, {1, 1, 1}, {1, -1, 0}, {1, 1, -2}, skewed);
  make({0, 0, 0}, {-1, 2, -1}, {1, 0, -1}, {-1, -1, -1}, regular);
  return r;
}

// Runs the classifier on the faces in the given order; every face must be classified truly or left alone.
void run_fan(const std::vector<Fan_face>& l, const std::vector<Fan_face>& r, const Frame& fr, int order, bool swap_edge, bool must_know, kmc::Ctx& ctx) {
  std::vector<Fan_face> fs(l);
  fs.insert(fs.end(), r.begin(), r.end());
  std::size_t n = fs.size();
  std::vector<Fan_face> in;
  switch (order % 4) {
    case 0: in = fs; break;
    case 1: in.assign(fs.rbegin(), fs.rend()); break;
    case 2:
      for (std::size_t i = 0; i < n; ++i) in.push_back(fs[(i * 2 + (i * 2 >= n && n % 2 == 0 ? 1 : 0)) % n]);
      break;
    case 3:
      for (std::size_t i = 0; i < n; ++i) in.push_back(fs[i % 2 ? n - 1 - i / 2 : i / 2]);
      break;
  }
  Mesh m;
  kigumi::Vertex_index p, q;
  if (swap_edge) {
    q = m.add_vertex({fr.q.x, fr.q.y, fr.q.z});
    p = m.add_vertex({fr.p.x, fr.p.y, fr.p.z});
  } else {
    p = m.add_vertex({fr.p.x, fr.p.y, fr.p.z});
    q = m.add_vertex({fr.q.x, fr.q.y, fr.q.z});
  }
  std::vector<kigumi::Vertex_index> rv;
  for (auto& d : fr.dirs) rv.push_back(m.add_vertex({d.x, d.y, d.z}));
  std::vector<kigumi::Face_index> idx;
  int k = order;
  for (auto& f : in) {
    std::array<kigumi::Vertex_index, 3> v{p, q, rv[f.dir]};
    if (!f.ccw) std::swap(v[0], v[1]);
    std::rotate(v.begin(), v.begin() + (k++ % 3), v.end());
    auto fi = m.add_face({v[0], v[1], v[2]});
    m.data(fi).from_left = f.left;
    idx.push_back(fi);
  }
  m.finalize();
  auto edge = kigumi::make_edge(p, q);
  kigumi::Edge_set border{edge};
  auto text = [&] {
    std::ostringstream o;
    for (auto& f : in) o << (f.left ? "L" : "R") << f.dir << (f.ccw ? "+" : "-") << " ";
    return o.str();
  };
  ctx.count("fans");
  kigumi::Warnings w;
  try {
    w = Classify{}(m, edge, border);
  } catch (const std::exception& e) {
    ctx.fail("exception", text() + "threw " + e.what());
    return;
  }
  if (w != kigumi::Warnings::NONE) ctx.fail("warning", text() + "raised a warning");
  std::string out;
  for (std::size_t i = 0; i < in.size(); ++i) {
    auto want = truth(in[i], in[i].left ? r : l);
    auto got = m.data(idx[i]).tag;
    out += tag_name(got)[0];
    bool overlap = want == Face_tag::COPLANAR || want == Face_tag::OPPOSITE;
    if (got == Face_tag::UNKNOWN && !overlap) {
      ctx.count("left_unknown");
      if (must_know) ctx.fail("unknown", text() + ": face " + std::to_string(i) + " is left unknown, expected " + tag_name(want));
      continue;
    }
    if (got != want) ctx.fail("wrong", text() + ": face " + std::to_string(i) + " is " + tag_name(got) + ", expected " + tag_name(want));
  }
  ctx.outcome(out);
}

// Sectors of an octagonal prism, around the z axis.
Shape sectors(unsigned mask, double radius, double z0, double z1) {
  static const double d[8][2] = {{1, 0}, {1, 1}, {0, 1}, {-1, 1}, {-1, 0}, {-1, -1}, {0, -1}, {1, -1}};
  Shape s;
  s.name = "sectors " + std::to_string(mask) + " radius " + std::to_string(radius);
  s.p = {{0, 0, z0}, {0, 0, z1}};
  for (auto& x : d) s.p.push_back({x[0] * radius, x[1] * radius, z0});
  for (auto& x : d) s.p.push_back({x[0] * radius, x[1] * radius, z1});
  for (int i = 0; i < 8; ++i) {
    int j = (i + 1) % 8;
    bool a = (mask >> i) & 1U, prev = (mask >> ((i + 7) % 8)) & 1U;
    int b0 = 2 + i, b1 = 2 + j, t0 = 10 + i, t1 = 10 + j;
    if (a) {
      s.f.push_back({0, b1, b0});
      s.f.push_back({1, t0, t1});
      s.f.push_back({b0, b1, t1});
      s.f.push_back({b0, t1, t0});
    }
    if (a && !prev) {  // outside is clockwise
      s.f.push_back({0, b0, t0});
      s.f.push_back({0, t0, 1});
    }
    if (!a && prev) {
      s.f.push_back({0, t0, b0});
      s.f.push_back({0, 1, t0});
    }
  }
  return s;
}

}  // namespace

int main(int argc, char** argv) {
  bool thorough = kmc::tier_of(argc, argv) == "thorough";
  kmc::Check c;
  c.property = "C25";
  c.rule =
      "a fan is a choice, for each of eight directions around an edge, of a face of either mesh, both or none, with the "
      "orientations that bound solids; every fan is classified in several orders, positions and edge directions and compared "
      "with the sectors; and pairs of solids with such fans are combined; non-trivial: fans in which faces of the meshes "
      "interleave";
  c.assumptions = {"a face may be left to the global classification, but never classified wrongly",
                   "fans that touch the border of an open mesh span at most 180 degrees (a convex clipping region)"};
  c.evaluations_counter = "fans";
  auto frs = std::make_shared<std::vector<Frame>>(frames());
  {
    std::vector<unsigned> even;
    for (unsigned m = 1; m < 256; ++m)
      if (__builtin_popcount(m) % 2 == 0) even.push_back(m);
    auto ev = std::make_shared<std::vector<unsigned>>(even);
    kmc::Space s;
    s.name = "closed-fans";
    s.size = ev->size() * 2 * ev->size() * 2;
    s.run = [=](std::uint64_t id, kmc::Ctx& ctx) {
      auto n = ev->size() * 2;
      auto a = id / n, b = id % n;
      auto l = fan((*ev)[a / 2], true, a % 2 == 0), r = fan((*ev)[b / 2], false, b % 2 == 0);
      bool inter = (*ev)[a / 2] != (*ev)[b / 2];
      for (std::size_t f = 0; f < frs->size(); ++f)
        for (int o = 0; o < 4; ++o) {
          if (!thorough && f != 0 && o != static_cast<int>((id + f) % 4)) continue;
          run_fan(l, r, (*frs)[f], o, (o + f) % 2 == 1, false, ctx);
        }
      if (inter) ctx.count("nontrivial");
    };
    s.describe = [=](std::uint64_t id) {
      auto n = ev->size() * 2;
      return "left directions " + std::to_string((*ev)[id / n / 2]) + (id / n % 2 ? "-" : "+") + " right directions " + std::to_string((*ev)[id % n / 2]) + (id % n % 2 ? "-" : "+");
    };
    c.spaces.push_back(s);
  }
  {  // Borders of open meshes: all fans within a half-plane.
    kmc::Space s;
    s.name = "border-fans";
    s.size = 31 * 2 * 31 * 2 * 8;
    s.run = [=](std::uint64_t id, kmc::Ctx& ctx) {
      auto rot = static_cast<int>(id % 8);
      id /= 8;
      auto a = id / 62, b = id % 62;
      auto l = fan(static_cast<unsigned>(a / 2 + 1), true, a % 2 == 0), r = fan(static_cast<unsigned>(b / 2 + 1), false, b % 2 == 0);
      for (std::size_t f = 0; f < frs->size(); ++f) {
        // Rotate the fan so that the half-plane is in every position; directions 0 and 4 must stay opposite.
        Frame fr = (*frs)[f];
        if (f == 2 || f == 3) {
          if (rot % 4 != 0) continue;
        }
        std::rotate(fr.dirs.begin(), fr.dirs.begin() + rot, fr.dirs.end());
        for (int o = 0; o < 4; ++o) run_fan(l, r, fr, o, (o + f) % 2 == 1, false, ctx);
      }
      ctx.count("nontrivial");
    };
    c.spaces.push_back(s);
  }
  {  // Solids.
    auto as = std::make_shared<std::vector<Shape>>(), bs = std::make_shared<std::vector<Shape>>();
    for (unsigned m = 1; m < 255; ++m) {
      bool first = true;
      for (int k = 1; k < 8; ++k) first = first && (((m << k) | (m >> (8 - k))) & 255U) >= m;
      if (first || thorough) as->push_back(sectors(m, 2, 0, 2));
      bs->push_back(sectors(m, 1, m % 2 ? 0 : -1, m % 3 ? 2 : 1));
    }
    kmc::Space s;
    s.name = "solids";
    s.size = as->size() * bs->size();
    s.run = [=](std::uint64_t id, kmc::Ctx& ctx) {
      auto &a = (*as)[id / bs->size()], &b = (*bs)[id % bs->size()];
      Pair_oracle oracle{a, b};
      if (!oracle.valid_inputs()) throw std::runtime_error("invalid input");
      try {
        Builder builder{region_of(a), region_of(b, 1000)};
        if (builder.warnings() != kigumi::Warnings::NONE) ctx.fail("warning", "a warning was raised");
        for (auto op : {Op::A, Op::E, Op::K, Op::L, Op::M, Op::D}) {
          ctx.count("operators");
          if (auto v = oracle.check(op, builder(op))) ctx.fail("solid-" + v.key, v.text);
        }
      } catch (const std::exception& e) {
        ctx.fail("solid-exception", e.what());
      }
    };
    s.describe = [=](std::uint64_t id) { return (*as)[id / bs->size()].text() + " | " + (*bs)[id % bs->size()].text(); };
    c.spaces.push_back(s);
  }
  kmc::g_hardware_concurrency = 1;
  return kmc::Driver(std::move(c), argc, argv).run();
}
