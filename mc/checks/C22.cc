// C22: meshes are values: edits, copies and moves never show stale answers.
//
// Every sequence of operations up to a depth is executed on real objects, in lockstep with plain vectors;
// after the last operation every query of every live object is compared with brute force over (or a fresh
// object made from) the vectors.  Queries are operations too, so that whatever they cache is in the history.
#define KMC_OWN_HARDWARE_CONCURRENCY
#include <kigumi/Find_defects.h>
#include <kigumi/Region_io.h>
#include <kigumi/Triangle_mesh.h>

#include <optional>
#include <sstream>

#include "../geom.h"
#include "../zoo.h"

using namespace geom;

namespace {

using Mesh = kigumi::Triangle_mesh<K, int>;

struct Model {
  std::vector<V3> p;
  std::vector<std::array<int, 3>> f;
  std::vector<int> d;
  bool operator==(const Model&) const = default;
};

const V3 kPoints[] = {{0, 0, 0}, {4, 0, 0}, {0, 4, 0}, {0, 0, 4}, {4, 4, 4}, {-4, 1, 2}, {1, -4, 2}, {9, 9, 9}};
const int kFaces[][3] = {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}, {1, 3, 4}, {2, 4, 3}};

Model tetra() {
  Model m;
  for (int i = 0; i < 4; ++i) m.p.push_back(kPoints[i]), m.f.push_back({kFaces[i][0], kFaces[i][1], kFaces[i][2]}), m.d.push_back(10 + i);
  return m;
}
Model box(double lo, double hi, int d0) {
  Model m;
  auto t = voxels(1, 1, 1, 1, 0);
  for (auto& v : t.p) m.p.push_back(v * (hi - lo) + V3{lo, lo, lo});
  m.f = t.f;
  for (std::size_t i = 0; i < m.f.size(); ++i) m.d.push_back(d0 + static_cast<int>(i));
  return m;
}
Model triangle() {
  Model m;
  m.p = {kPoints[1], kPoints[2], kPoints[3]};
  m.f = {{0, 1, 2}};
  m.d = {7};
  return m;
}
Model points_only() {
  Model m;
  m.p = {kPoints[0], kPoints[1], kPoints[2], kPoints[3]};
  return m;
}

K::Point_3 pt(const V3& v) { return {v.x, v.y, v.z}; }
Face face(const std::array<int, 3>& t) { return {Vertex_index(t[0]), Vertex_index(t[1]), Vertex_index(t[2])}; }

template <class M>
M make(const Model& m) {
  std::vector<K::Point_3> p;
  std::vector<Face> f;
  for (auto& v : m.p) p.push_back(pt(v));
  for (auto& t : m.f) f.push_back(face(t));
  return M{std::move(p), std::move(f), std::vector<int>(m.d)};
}

// What the object itself says it contains.
template <class M>
Model contents(const M& s) {
  Model m;
  for (auto vi : s.vertices()) m.p.push_back(to_v3(s.point(vi)));
  for (auto fi : s.faces()) {
    auto& f = s.face(fi);
    m.f.push_back({static_cast<int>(f[0].idx()), static_cast<int>(f[1].idx()), static_cast<int>(f[2].idx())});
    m.d.push_back(s.data(fi));
  }
  return m;
}

struct Box {
  double lo[3], hi[3];
};
const Box kBoxes[] = {{{-20, -20, -20}, {20, 20, 20}}, {{3, -1, -1}, {5, 1, 1}}, {{-1, -1, 3}, {1, 1, 5}}, {{3, 3, 3}, {4, 4, 4}}, {{-5, 0, 0}, {-1, 2, 3}}, {{7, 7, 7}, {8, 8, 8}}, {{0, 0, 0}, {0, 0, 0}}};

std::vector<int> brute(const Model& m, const Box& b) {
  std::vector<int> r;
  for (std::size_t i = 0; i < m.f.size(); ++i) {
    bool hit = true;
    for (int a = 0; a < 3; ++a) {
      double lo = 1e300, hi = -1e300;
      for (int v : m.f[i]) {
        double c = a == 0 ? m.p[v].x : a == 1 ? m.p[v].y : m.p[v].z;
        lo = std::min(lo, c), hi = std::max(hi, c);
      }
      hit = hit && lo <= b.hi[a] && hi >= b.lo[a];
    }
    if (hit) r.push_back(static_cast<int>(i));
  }
  return r;
}

std::vector<int> search(const Soup& s, const Box& b) {
  std::vector<const Soup::Leaf*> leaves;
  s.aabb_tree().get_intersecting_leaves(std::back_inserter(leaves), CGAL::Bbox_3{b.lo[0], b.lo[1], b.lo[2], b.hi[0], b.hi[1], b.hi[2]});
  std::vector<int> r;
  for (auto* l : leaves) r.push_back(static_cast<int>(l->face_index().idx()));
  std::sort(r.begin(), r.end());
  return r;
}

std::string list(const std::vector<int>& v) {
  std::string s = "{";
  for (int x : v) s += (s.size() > 1 ? "," : "") + std::to_string(x);
  return s + "}";
}

template <class M>
std::string check_bbox(const M& s, const Model& m) {
  if (m.p.empty()) return {};
  CGAL::Bbox_3 want;
  for (auto& v : m.p) want += CGAL::Bbox_3{v.x, v.y, v.z, v.x, v.y, v.z};
  return s.bbox() == want ? "" : "the bounding box is not that of the current points";
}

std::string check_soup(const Soup& s, const Model& m) {
  if (!(contents(s) == m)) return "the contents are not what was put in";
  for (auto fi : s.faces())
    for (int k = 0; k < 3; ++k)
      if (s.triangle(fi)[k] != s.point(s.face(fi)[k])) return "a triangle is not made of its face's points";
  for (auto& b : kBoxes) {
    auto got = search(s, b), want = brute(m, b);
    if (got != want) return "the search tree finds faces " + list(got) + " where " + list(want) + " are";
  }
  return check_bbox(s, m);
}

std::string defects(const Soup& s) {
  std::ostringstream o;
  std::ostringstream sink;
  auto* old = std::cout.rdbuf(sink.rdbuf());
  try {
    kigumi::Find_defects<K, int> d{s};
    auto n = [&](const auto& v) { o << v.size() << ' '; };
    n(d.isolated_vertices()), n(d.non_manifold_vertices()), n(d.boundary_edges()), n(d.inconsistent_edges()), n(d.non_manifold_edges());
    n(d.trivial_degenerate_faces()), n(d.non_trivial_degenerate_faces()), n(d.overlapping_faces());
  } catch (const std::exception& e) {
    o << "error " << e.what();
  }
  std::cout.rdbuf(old);
  return o.str();
}

std::string side(const Region& r, const V3& v) {
  try {
    return std::to_string(r.bounded_side(pt(v)));
  } catch (const std::exception& e) {
    return e.what();
  }
}
std::string side(const Soup& s, const V3& v) {
  try {
    return std::to_string(kigumi::Side_of_triangle_soup<K, int>{}(s, pt(v)));
  } catch (const std::exception& e) {
    return e.what();
  }
}

const V3 kProbes[] = {{0.5, 0.5, 0.5}, {3, 3, 3}, {-1, 1, 2}, {4, 0, 0}, {1, 1, 1.5}, {6, 6, 6}};

// ---------------------------------------------------------------------------------------------------
// Two triangle soups.

constexpr int kSoupOps = 26;
const char* kSoupNames[kSoupOps] = {"A.add_vertex", "B.add_vertex", "A.add_face", "B.add_face", "A.data=", "B.data=", "search A", "search B",
                                    "A=B", "B=A", "A=move(B)", "B=move(A)", "A(copy of B)", "B(copy of A)", "A(move of B)", "B(move of A)",
                                    "swap", "A=A", "A={}", "B={vectors}", "A.read", "write B", "A=B'=B", "sides A", "defects A", "bbox A"};

struct Soup_run {
  std::optional<Soup> s[2];
  Model m[2];
  int next = 100;
  std::string stored;
  Model stored_model;

  void init(int k) {
    auto put = [&](int i, const Model& x) { m[i] = x, s[i].emplace(make<Soup>(x)); };
    if (k == 0) put(0, tetra()), put(1, triangle());
    else if (k == 1) put(0, points_only()), put(1, Model{});
    else put(0, box(0, 4, 0)), put(1, tetra());
  }

  // False: not applicable here.
  bool apply(int op, std::string& bad) {
    switch (op) {
      case 0: case 1: {
        int i = op;
        if (m[i].p.size() >= 16) return false;
        auto v = kPoints[m[i].p.size() % 8];
        if (s[i]->add_vertex(pt(v)).idx() != m[i].p.size()) bad = "add_vertex returns a wrong index";
        m[i].p.push_back(v);
        return true;
      }
      case 2: case 3: {
        int i = op - 2;
        int n = static_cast<int>(m[i].p.size());
        if (n < 3) return false;
        auto& f = kFaces[m[i].f.size() % 6];
        std::array<int, 3> t{f[0] % n, f[1] % n, f[2] % n};
        if (t[0] == t[1] || t[1] == t[2] || t[0] == t[2]) t = {0, 1, n - 1};
        if (s[i]->add_face(face(t)).idx() != m[i].f.size()) bad = "add_face returns a wrong index";
        m[i].f.push_back(t);
        m[i].d.push_back(0);
        return true;
      }
      case 4: case 5: {
        int i = op - 4;
        if (m[i].f.empty()) return false;
        auto k = m[i].f.size() - 1;
        s[i]->data(Face_index{k}) = next;
        m[i].d[k] = next++;
        return true;
      }
      case 6: case 7: {
        int i = op - 6;
        for (auto& b : kBoxes)
          if (search(*s[i], b) != brute(m[i], b)) bad = "the search tree does not find the faces there are";
        return true;
      }
      case 8: *s[0] = *s[1], m[0] = m[1]; return true;
      case 9: *s[1] = *s[0], m[1] = m[0]; return true;
      case 10: *s[0] = std::move(*s[1]), m[0] = m[1], m[1] = contents(*s[1]); return true;
      case 11: *s[1] = std::move(*s[0]), m[1] = m[0], m[0] = contents(*s[0]); return true;
      case 12: s[0].reset(), s[0].emplace(*s[1]), m[0] = m[1]; return true;
      case 13: s[1].reset(), s[1].emplace(*s[0]), m[1] = m[0]; return true;
      case 14: s[0].reset(), s[0].emplace(std::move(*s[1])), m[0] = m[1], m[1] = contents(*s[1]); return true;
      case 15: s[1].reset(), s[1].emplace(std::move(*s[0])), m[1] = m[0], m[0] = contents(*s[0]); return true;
      case 16: std::swap(*s[0], *s[1]), std::swap(m[0], m[1]); return true;
      case 17: {
        auto& same = *s[0];
        *s[0] = same;
        return true;
      }
      case 18: *s[0] = Soup{}, m[0] = Model{}; return true;
      case 19: m[1] = triangle(), m[1].d[0] = next++, *s[1] = make<Soup>(m[1]); return true;
      case 20: {
        if (stored.empty()) return false;
        std::istringstream in{stored};
        kigumi::kigumi_read<Soup>(in, *s[0]);
        m[0] = stored_model;
        return true;
      }
      case 21: {
        std::ostringstream out;
        kigumi::kigumi_write<Soup>(out, *s[1]);
        stored = out.str(), stored_model = m[1];
        return true;
      }
      case 22: {
        Soup c;
        *s[0] = c = *s[1];
        m[0] = m[1];
        return true;
      }
      case 23: {
        if (m[0].f.empty()) return false;
        auto fresh = make<Soup>(m[0]);
        for (auto& v : kProbes)
          if (side(*s[0], v) != side(fresh, v)) bad = "point location differs from that of a fresh mesh";
        return true;
      }
      case 24: {
        if (defects(*s[0]) != defects(make<Soup>(m[0]))) bad = "the defects differ from those of a fresh mesh";
        return true;
      }
      case 25: bad = check_bbox(*s[0], m[0]); return true;
      default: return false;
    }
  }
};

template <class Run>
void run_sequences(std::uint64_t id, int init, int prefix, int depth, const std::vector<int>& ops, kmc::Ctx& ctx, const char* const* names,
                   const std::function<std::string(Run&)>& final_check) {
  // The case fixes the first `prefix` operations; every continuation up to `depth` is explored.
  std::vector<int> seq;
  for (int i = 0; i < prefix; ++i) seq.push_back(ops[id % ops.size()]), id /= ops.size();
  auto history = [&](int n) {
    std::string h;
    for (int i = 0; i < n; ++i) h += (i ? ", " : "") + std::string(names[seq[i]]);
    return h;
  };
  // Returns false if the last operation is not applicable (nothing below is).
  auto execute = [&]() -> bool {
    Run r;
    r.init(init);
    std::string bad;
    for (std::size_t i = 0; i < seq.size(); ++i) {
      if (!r.apply(seq[i], bad)) return false;
      ctx.count("transitions");
      if (!bad.empty()) {
        if (i + 1 == seq.size()) ctx.fail(std::string(names[seq[i]]), "after " + history(static_cast<int>(i)) + ": " + bad);
        break;
      }
    }
    ctx.count("sequences");
    if (bad.empty()) {
      bad = final_check(r);
      if (!bad.empty()) ctx.fail(std::string("after ") + names[seq.back()], "after " + history(static_cast<int>(seq.size())) + ": " + bad);
    }
    std::ostringstream o;
    for (auto& m : r.m) {
      o << '|';
      for (auto& v : m.p) o << v.x << ',' << v.y << ',' << v.z << ' ';
      for (auto& f : m.f) o << f[0] << ',' << f[1] << ',' << f[2] << ' ';
    }
    ctx.state(kmc::hash_bytes(o.str()));
    return true;
  };
  std::function<void()> dfs = [&] {
    if (!execute()) return;
    ctx.count("nontrivial");
    if (ctx.failed() || static_cast<int>(seq.size()) == depth) return;
    for (int o : ops) {
      seq.push_back(o);
      dfs();
      seq.pop_back();
    }
  };
  dfs();
}

// ---------------------------------------------------------------------------------------------------
// Two regions and a Boolean computation.

constexpr int kRegionOps = 21;
const char* kRegionNames[kRegionOps] = {"A.boundary.add_face", "A.boundary.data=", "A.boundary=other", "B=A", "A=B", "A=move(B)", "A(copy of B)", "swap",
                                        "locate A", "locate B", "compute A,B", "A=A op B", "A=empty", "B=universe", "A=Region(soup)", "write A",
                                        "read into B", "defects A", "A.boundary flipped", "B=A.boundary", "self"};

struct Region_model {
  int kind = 0;
  Model m;
};

struct Region_run {
  std::optional<Region> s[2];
  Region_model r[2];
  Model m[2];  // for the state hash
  std::optional<Builder> b;
  std::vector<std::uint64_t> b_answers;
  int next = 100;
  std::string stored;
  Region_model stored_model;

  static constexpr Op kAsk[3] = {Op::A, Op::K, Op::L};

  static Region fresh(const Region_model& x) {
    return x.kind == 0 ? Region::empty() : x.kind == 1 ? Region::full() : Region{make<Soup>(x.m)};
  }
  static Region_model read_back(const Region& g) {
    Region_model x;
    x.kind = g.is_empty() ? 0 : g.is_full() ? 1 : 2;
    if (x.kind == 2) x.m = contents(g.boundary());
    return x;
  }
  static std::vector<std::uint64_t> answers(const Builder& b) {
    std::vector<std::uint64_t> r;
    for (auto op : kAsk) {
      try {
        auto g = b(op);
        r.push_back(fingerprint(g));
      } catch (const std::exception& e) {
        r.push_back(kmc::hash_bytes(e.what()));
      }
    }
    return r;
  }
  static std::vector<std::uint64_t> compute(const Region& a, const Region& b, std::optional<Builder>* keep = nullptr) {
    try {
      Builder x{a, b};
      auto r = answers(x);
      if (keep) keep->emplace(x);
      return r;
    } catch (const std::exception& e) {
      if (keep) keep->reset();
      return {kmc::hash_bytes(e.what())};
    }
  }

  void init(int k) {
    auto put = [&](int i, int kind, const Model& x) { r[i] = {kind, x}, s[i].emplace(fresh(r[i])); };
    if (k == 0) put(0, 2, tetra()), put(1, 2, box(1, 3, 50));
    else put(0, 2, box(0, 2, 20)), put(1, 0, {});
  }
  void sync() { m[0] = r[0].m, m[1] = r[1].m; }

  std::string locate(int i) {
    auto f = fresh(r[i]);
    for (auto& v : kProbes) {
      auto x = side(*s[i], v), y = side(f, v);
      if (x != y) return "point location answers " + x + " instead of " + y;
    }
    return {};
  }
  // A closed surface is needed for most questions; the ops below keep it closed, except add_face.
  bool apply(int op, std::string& bad) {
    switch (op) {
      case 0: {
        if (r[0].kind != 2 || r[0].m.f.size() > 16) return false;
        // A small disjoint tetrahedron, face by face (the boundary is closed again after all of them).
        auto& bd = s[0]->boundary_unsafe();
        int n = static_cast<int>(r[0].m.p.size());
        V3 o{6.0 + 2 * n, 5.5, 5.5};
        for (int i = 0; i < 4; ++i) {
          auto v = kPoints[i] * 0.25 + o;
          bd.add_vertex(pt(v)), r[0].m.p.push_back(v);
        }
        for (int i = 0; i < 4; ++i) {
          std::array<int, 3> t{kFaces[i][0] + n, kFaces[i][1] + n, kFaces[i][2] + n};
          bd.add_face(face(t)), r[0].m.f.push_back(t), r[0].m.d.push_back(0);
        }
        return true;
      }
      case 1: {
        if (r[0].kind != 2) return false;
        s[0]->boundary_unsafe().data(Face_index{0}) = next, r[0].m.d[0] = next++;
        return true;
      }
      case 2: {
        if (r[0].kind != 2) return false;
        r[0].m = box(2, 6, next++);
        s[0]->boundary_unsafe() = make<Soup>(r[0].m);
        return true;
      }
      case 3: *s[1] = *s[0], r[1] = r[0]; return true;
      case 4: *s[0] = *s[1], r[0] = r[1]; return true;
      case 5: *s[0] = std::move(*s[1]), r[0] = r[1], *s[1] = Region::empty(), r[1] = {}; return true;
      case 6: s[0].reset(), s[0].emplace(*s[1]), r[0] = r[1]; return true;
      case 7: std::swap(*s[0], *s[1]), std::swap(r[0], r[1]); return true;
      case 8: bad = locate(0); return true;
      case 9: bad = locate(1); return true;
      case 10: {
        auto got = compute(*s[0], *s[1], &b);
        if (got != compute(fresh(r[0]), fresh(r[1]))) bad = "a Boolean answers differently from one of fresh regions";
        b_answers = got;
        return true;
      }
      case 11: {
        try {
          auto g = Builder{*s[0], *s[1]}(Op::A);
          auto h = Builder{fresh(r[0]), fresh(r[1])}(Op::A);
          if (fingerprint(g) != fingerprint(h)) bad = "a union differs from that of fresh regions";
          *s[0] = std::move(g);
        } catch (const std::exception&) {
          return false;
        }
        r[0] = read_back(*s[0]);
        return r[0].m.f.size() < 120;
      }
      case 12: *s[0] = Region::empty(), r[0] = {}; return true;
      case 13: *s[1] = Region::full(), r[1] = {1, {}}; return true;
      case 14: r[0] = {2, box(-1, 1, next++)}, *s[0] = Region{make<Soup>(r[0].m)}; return true;
      case 15: {
        std::ostringstream out;
        kigumi::kigumi_write<Region>(out, *s[0]);
        stored = out.str(), stored_model = r[0];
        return true;
      }
      case 16: {
        if (stored.empty()) return false;
        std::istringstream in{stored};
        kigumi::kigumi_read<Region>(in, *s[1]);
        r[1] = stored_model;
        return true;
      }
      case 17: {
        if (r[0].kind != 2) return false;
        if (defects(s[0]->boundary()) != defects(make<Soup>(r[0].m))) bad = "the defects differ from those of a fresh mesh";
        return true;
      }
      case 18: {
        if (r[0].kind != 2) return false;
        auto x = r[0].m;
        for (auto& t : x.f) std::swap(t[1], t[2]);
        Soup n;
        for (auto& v : x.p) n.add_vertex(pt(v));
        for (std::size_t i = 0; i < x.f.size(); ++i) n.data(n.add_face(face(x.f[i]))) = x.d[i];
        s[0]->boundary_unsafe() = n;
        r[0].m = x;
        return true;
      }
      case 19: {
        if (r[0].kind != 2) return false;
        *s[1] = Region{s[0]->boundary()}, r[1] = r[0];
        return true;
      }
      case 20: {
        auto& same = *s[0];
        *s[0] = same;
        return true;
      }
      default: return false;
    }
  }

  std::string final_check() {
    for (int i = 0; i < 2; ++i) {
      auto x = read_back(*s[i]);
      if (x.kind != r[i].kind) return "a region has changed its kind";
      if (x.kind == 2 && !(x.m == r[i].m)) return "a region's contents are not what was put in";
      if (auto t = locate(i); !t.empty()) return t;
      if (x.kind == 2)
        if (auto t = check_soup(s[i]->boundary(), r[i].m); !t.empty()) return t;
    }
    // A computation keeps answering for the operands it was given.
    if (b && answers(*b) != b_answers) return "an earlier computation's answers changed";
    return {};
  }
};

// ---------------------------------------------------------------------------------------------------
// Indexed meshes.

constexpr int kMeshOps = 13;
const char* kMeshNames[kMeshOps] = {"A.add_vertex", "A.add_face", "A.finalize", "B.finalize", "A=B", "B=A", "A=move(B)", "A(copy of B)",
                                    "B(move of A)", "swap", "A.data=", "A={vectors}", "B.add_face"};

struct Mesh_run {
  std::optional<Mesh> s[2];
  Model m[2];
  bool indexed[2] = {false, false};
  int next = 100;

  void init(int k) {
    m[0] = k == 0 ? tetra() : points_only(), m[1] = k == 0 ? triangle() : box(0, 2, 0);
    for (int i = 0; i < 2; ++i) s[i].emplace(make<Mesh>(m[i]));
  }
  bool add_face(int i, std::string& bad) {
    int n = static_cast<int>(m[i].p.size());
    if (n < 3) return false;
    auto& f = kFaces[m[i].f.size() % 6];
    std::array<int, 3> t{f[0] % n, f[1] % n, f[2] % n};
    if (t[0] == t[1] || t[1] == t[2] || t[0] == t[2]) t = {0, 1, n - 1};
    if (s[i]->add_face(face(t)).idx() != m[i].f.size()) bad = "add_face returns a wrong index";
    m[i].f.push_back(t), m[i].d.push_back(0);
    indexed[i] = false;
    return true;
  }
  bool apply(int op, std::string& bad) {
    auto moved_from = [&](int i) { m[i] = contents(*s[i]), indexed[i] = false; };
    switch (op) {
      case 0: {
        if (m[0].p.size() >= 16) return false;
        auto v = kPoints[m[0].p.size() % 8];
        s[0]->add_vertex(pt(v)), m[0].p.push_back(v);
        return true;
      }
      case 1: return add_face(0, bad);
      case 2: s[0]->finalize(), indexed[0] = true; return true;
      case 3: s[1]->finalize(), indexed[1] = true; return true;
      case 4: *s[0] = *s[1], m[0] = m[1], indexed[0] = indexed[1]; return true;
      case 5: *s[1] = *s[0], m[1] = m[0], indexed[1] = indexed[0]; return true;
      case 6: *s[0] = std::move(*s[1]), m[0] = m[1], indexed[0] = indexed[1], moved_from(1); return true;
      case 7: s[0].reset(), s[0].emplace(*s[1]), m[0] = m[1], indexed[0] = indexed[1]; return true;
      case 8: s[1].reset(), s[1].emplace(std::move(*s[0])), m[1] = m[0], indexed[1] = indexed[0], moved_from(0); return true;
      case 9: std::swap(*s[0], *s[1]), std::swap(m[0], m[1]), std::swap(indexed[0], indexed[1]); return true;
      case 10: {
        if (m[0].f.empty()) return false;
        s[0]->data(Face_index{0}) = next, m[0].d[0] = next++;
        return true;
      }
      case 11: m[0] = triangle(), *s[0] = make<Mesh>(m[0]), indexed[0] = false; return true;
      case 12: return add_face(1, bad);
      default: return false;
    }
  }
  std::string final_check() {
    for (int i = 0; i < 2; ++i) {
      if (!(contents(*s[i]) == m[i])) return "the contents are not what was put in";
      if (auto t = check_bbox(*s[i], m[i]); !t.empty()) return t;
      if (!indexed[i]) continue;
      std::set<std::array<int, 2>> edges;
      for (auto& f : m[i].f)
        for (int k = 0; k < 3; ++k) edges.insert({std::min(f[k], f[(k + 1) % 3]), std::max(f[k], f[(k + 1) % 3])});
      auto has = [&](const std::array<int, 3>& f, int a, int b) {
        return std::count(f.begin(), f.end(), a) != 0 && std::count(f.begin(), f.end(), b) != 0;
      };
      for (auto& e : edges) {
        std::vector<int> got, want;
        for (auto fi : s[i]->faces_around_edge(kigumi::make_edge(Vertex_index(e[0]), Vertex_index(e[1])))) got.push_back(static_cast<int>(fi.idx()));
        for (std::size_t k = 0; k < m[i].f.size(); ++k)
          if (has(m[i].f[k], e[0], e[1])) want.push_back(static_cast<int>(k));
        std::sort(got.begin(), got.end());
        if (got != want) return "the faces around an edge are given as " + list(got) + " instead of " + list(want);
      }
      for (std::size_t k = 0; k < m[i].f.size(); ++k) {
        std::vector<int> got, want;
        for (auto fi : s[i]->faces_around_face(Face_index{k}, {}))
          if (fi.idx() != k) got.push_back(static_cast<int>(fi.idx()));
        for (std::size_t l = 0; l < m[i].f.size(); ++l)
          for (int e = 0; e < 3; ++e)
            if (l != k && has(m[i].f[l], m[i].f[k][e], m[i].f[k][(e + 1) % 3])) want.push_back(static_cast<int>(l));
        std::sort(got.begin(), got.end());
        got.erase(std::unique(got.begin(), got.end()), got.end());
        std::sort(want.begin(), want.end());
        want.erase(std::unique(want.begin(), want.end()), want.end());
        if (got != want) return "the faces around a face are given as " + list(got) + " instead of " + list(want);
      }
    }
    return {};
  }
};

template <class Run>
kmc::Space sequences(const std::string& name, int init, int prefix, int depth, std::vector<int> ops, const char* const* names,
                     std::function<std::string(Run&)> final_check) {
  kmc::Space s;
  s.name = name;
  s.size = 1;
  for (int i = 0; i < prefix; ++i) s.size *= ops.size();
  s.case_timeout_s = 600;
  s.run = [=](std::uint64_t id, kmc::Ctx& ctx) { run_sequences<Run>(id, init, prefix, depth, ops, ctx, names, final_check); };
  s.describe = [=](std::uint64_t id) {
    std::string t = "sequences starting with ";
    for (int i = 0; i < prefix; ++i) t += (i ? ", " : "") + std::string(names[ops[id % ops.size()]]), id /= ops.size();
    return t + ", up to length " + std::to_string(depth);
  };
  return s;
}

std::vector<int> iota(int n, std::initializer_list<int> skip = {}) {
  std::vector<int> r;
  for (int i = 0; i < n; ++i)
    if (std::find(skip.begin(), skip.end(), i) == skip.end()) r.push_back(i);
  return r;
}

}  // namespace

int main(int argc, char** argv) {
  bool thorough = kmc::tier_of(argc, argv) == "thorough";
  kmc::Check c;
  c.property = "C22";
  c.rule =
      "every sequence of operations (edits, copies, moves, swaps, assignments, reads, queries) up to the stated length on two soups, two "
      "regions with a Boolean computation, and two indexed meshes, from several initial contents; after each, every query is compared "
      "with brute force over plain vectors kept alongside, or with a fresh object made from them";
  c.assumptions = {"a moved-from object may contain anything, but must answer for what it says it contains",
                   "assigning an object to itself by move is not explored"};
  c.evaluations_counter = "sequences";
  auto soup_check = [](Soup_run& r) {
    for (int i = 0; i < 2; ++i)
      if (auto t = check_soup(*r.s[i], r.m[i]); !t.empty()) return t;
    return std::string{};
  };
  // The slow queries (point location, defects) are asked in shorter sequences.
  for (int init = 0; init < 3; ++init) {
    auto n = std::to_string(init);
    c.spaces.push_back(sequences<Soup_run>("soups" + n, init, 2, thorough ? 5 : 4, iota(kSoupOps, {23, 24}), kSoupNames, soup_check));
    c.spaces.push_back(sequences<Soup_run>("soup-queries" + n, init, 1, thorough ? 4 : 3, iota(kSoupOps), kSoupNames, soup_check));
  }
  for (int init = 0; init < 2; ++init) {
    auto n = std::to_string(init);
    c.spaces.push_back(sequences<Region_run>("regions" + n, init, 2, thorough ? 4 : 3, iota(kRegionOps), kRegionNames,
                                             [](Region_run& r) { return r.sync(), r.final_check(); }));
    c.spaces.push_back(sequences<Mesh_run>("meshes" + n, init, 2, thorough ? 6 : 5, iota(kMeshOps), kMeshNames,
                                           [](Mesh_run& r) { return r.final_check(); }));
  }
  return kmc::Driver(std::move(c), argc, argv).run();
}
