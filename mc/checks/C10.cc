// C10: the defect finder reports exactly the defects of a mesh.
#define KMC_OWN_HARDWARE_CONCURRENCY
#include <kigumi/Find_defects.h>

#include "../geom.h"
#include "../tri_ref.h"
#include "../zoo.h"

using geom::K;
using kigumi::Face_index;
using kigumi::Vertex_index;
using tri_ref::I3;

namespace {

using Soup = kigumi::Triangle_soup<K, int>;
using Finder = kigumi::Find_defects<K, int>;
using T = std::array<int, 3>;
using E2 = std::pair<int, int>;

struct Lists {
  std::multiset<int> isolated, pinched, trivial, flat, overlap;
  std::multiset<E2> boundary, inconsistent, fans;
  bool operator==(const Lists&) const = default;
};

int rank_of(const I3& a, const I3& b, const I3& c) {
  I3 n = tri_ref::cross(tri_ref::sub(b, a), tri_ref::sub(c, a));
  return n[0] || n[1] || n[2];
}

bool overlap(const std::vector<I3>& p, const T& a, const T& b) {
  int shared = 0;
  for (int v : a) shared += std::count(b.begin(), b.end(), v) > 0;
  if (shared == 3) return true;
  auto s = tri_ref::reference({p[a[0]], p[a[1]], p[a[2]]}, {p[b[0]], p[b[1]], p[b[2]]});
  auto single = [](int m) { return m == 1 || m == 2 || m == 4; };
  for (auto [x, y] : s)
    if (!single(x) || !single(y)) return true;
  return false;
}

using Pair_cache = std::map<std::pair<T, T>, bool>;

// By the definitions; vertices are the distinct points.
Lists reference(const std::vector<I3>& p, const std::vector<T>& fs, Pair_cache* cache) {
  Lists r;
  std::vector<char> used(p.size());
  std::vector<int> kind;  // 0 proper, 1 trivially degenerate, 2 collinear
  std::map<E2, int> he;
  for (std::size_t i = 0; i < fs.size(); ++i) {
    auto& f = fs[i];
    for (int v : f) used[v] = 1;
    bool t = f[0] == f[1] || f[1] == f[2] || f[2] == f[0];
    kind.push_back(t ? 1 : rank_of(p[f[0]], p[f[1]], p[f[2]]) ? 0 : 2);
    if (t) r.trivial.insert(static_cast<int>(i));
    if (kind.back() == 2) r.flat.insert(static_cast<int>(i));
    if (!t)
      for (int k = 0; k < 3; ++k) ++he[{f[k], f[(k + 1) % 3]}];
  }
  for (std::size_t v = 0; v < p.size(); ++v)
    if (!used[v]) r.isolated.insert(static_cast<int>(v));
  std::set<E2> edges;
  for (auto& [e, n] : he) edges.insert({std::min(e.first, e.second), std::max(e.first, e.second)});
  for (auto& e : edges) {
    auto get = [&](E2 x) { auto it = he.find(x); return it == he.end() ? 0 : it->second; };
    int a = get(e), b = get({e.second, e.first});
    if (a + b == 1) r.boundary.insert(e);
    if (a + b == 2 && a != b) r.inconsistent.insert(e);
    if (a + b > 2) r.fans.insert(e);
  }
  for (int v = 0; v < static_cast<int>(p.size()); ++v) {
    // The link must be one simple path or cycle.
    std::vector<E2> link;
    for (std::size_t i = 0; i < fs.size(); ++i) {
      if (kind[i] == 1) continue;
      for (int k = 0; k < 3; ++k)
        if (fs[i][k] == v) link.push_back(std::minmax(fs[i][(k + 1) % 3], fs[i][(k + 2) % 3]));
    }
    if (link.empty()) continue;
    std::map<int, std::vector<int>> adj;
    for (auto [a, b] : link) {
      adj[a].push_back(b);
      adj[b].push_back(a);
    }
    bool bad = std::set<E2>(link.begin(), link.end()).size() != link.size();
    for (auto& [a, ns] : adj) bad = bad || ns.size() > 2;
    std::set<int> seen{adj.begin()->first};
    std::vector<int> todo{adj.begin()->first};
    while (!todo.empty()) {
      int a = todo.back();
      todo.pop_back();
      for (int b : adj[a])
        if (seen.insert(b).second) todo.push_back(b);
    }
    bad = bad || seen.size() != adj.size();
    if (bad) r.pinched.insert(v);
  }
  for (std::size_t i = 0; i < fs.size(); ++i) {
    if (kind[i] != 0) continue;
    for (std::size_t j = i + 1; j < fs.size(); ++j) {
      if (kind[j] != 0) continue;
      bool o;
      if (cache) {
        auto [it, ins] = cache->try_emplace({fs[i], fs[j]}, false);
        if (ins) it->second = overlap(p, fs[i], fs[j]);
        o = it->second;
      } else {
        o = overlap(p, fs[i], fs[j]);
      }
      if (o) {
        r.overlap.insert(static_cast<int>(i));
        break;
      }
    }
  }
  return r;
}

std::string text_of(const std::vector<I3>& p, const std::vector<T>& fs) {
  std::ostringstream o;
  o << "points";
  for (auto& v : p) o << " (" << v[0] << "," << v[1] << "," << v[2] << ")";
  o << " faces";
  for (auto& f : fs) o << " " << f[0] << "," << f[1] << "," << f[2];
  return o.str();
}

// `pts` may repeat points.
void check(const std::vector<I3>& pts, const std::vector<K::Point_3>& kp, const std::vector<T>& fs, kmc::Ctx& ctx, Pair_cache* cache = nullptr) {
  ctx.count("soups");
  Soup s;
  for (auto& p : kp) s.add_vertex(p);
  for (auto& f : fs) s.add_face({Vertex_index(f[0]), Vertex_index(f[1]), Vertex_index(f[2])});
  Finder d{s};
  auto text = [&] { return text_of(pts, fs); };
  // The merged mesh: every distinct point once, every face with the same points.
  std::map<I3, int> ids;
  std::vector<I3> p;
  for (auto& v : pts)
    if (ids.emplace(v, static_cast<int>(p.size())).second) p.push_back(v);
  auto& m = d.triangle_soup();
  if (m.num_vertices() != p.size() || m.num_faces() != fs.size()) {
    ctx.fail("merged", text() + ": the merged mesh has the wrong size");
    return;
  }
  std::vector<int> to_ref;
  for (auto v : m.vertices()) {
    auto q = m.point(v);
    I3 c{};
    for (int k = 0; k < 3; ++k) c[k] = static_cast<int>(std::lround(CGAL::to_double(q[k])));
    auto it = ids.find(c);
    if (it == ids.end() || K::Point_3(c[0], c[1], c[2]) != q) {
      ctx.fail("merged", text() + ": the merged mesh has a foreign point");
      return;
    }
    to_ref.push_back(it->second);
  }
  if (std::set<int>(to_ref.begin(), to_ref.end()).size() != p.size()) {
    ctx.fail("merged", text() + ": the merged mesh repeats a point");
    return;
  }
  std::vector<T> ref_faces;
  for (auto& f : fs) ref_faces.push_back({ids.at(pts[f[0]]), ids.at(pts[f[1]]), ids.at(pts[f[2]])});
  for (std::size_t i = 0; i < fs.size(); ++i) {
    auto f = m.face(Face_index{i});
    T g{to_ref[f[0].idx()], to_ref[f[1].idx()], to_ref[f[2].idx()]}, h = g;
    bool same = false;
    for (int k = 0; k < 3; ++k) {
      same = same || h == ref_faces[i];
      std::rotate(h.begin(), h.begin() + 1, h.end());
    }
    if (!same) ctx.fail("merged", text() + ": a face of the merged mesh differs");
  }
  auto want = reference(p, ref_faces, cache);
  Lists got;
  for (auto v : d.isolated_vertices()) got.isolated.insert(to_ref[v.idx()]);
  for (auto v : d.non_manifold_vertices()) got.pinched.insert(to_ref[v.idx()]);
  for (auto f : d.trivial_degenerate_faces()) got.trivial.insert(static_cast<int>(f.idx()));
  for (auto f : d.non_trivial_degenerate_faces()) got.flat.insert(static_cast<int>(f.idx()));
  for (auto f : d.overlapping_faces()) got.overlap.insert(static_cast<int>(f.idx()));
  auto es = [&](const std::vector<kigumi::Edge>& l) {
    std::multiset<E2> r;
    for (auto& e : l) r.insert(std::minmax(to_ref[e[0].idx()], to_ref[e[1].idx()]));
    return r;
  };
  got.boundary = es(d.boundary_edges());
  got.inconsistent = es(d.inconsistent_edges());
  got.fans = es(d.non_manifold_edges());
  auto cmp = [&](auto& a, auto& b, const char* n) {
    ctx.count(std::string("found:") + n, b.size());
    if (a != b) ctx.fail(n, text() + ": " + n + ": " + std::to_string(a.size()) + " reported, " + std::to_string(b.size()) + " by the definition");
  };
  cmp(got.isolated, want.isolated, "isolated-vertices");
  cmp(got.pinched, want.pinched, "non-manifold-vertices");
  cmp(got.trivial, want.trivial, "trivial-degenerate-faces");
  cmp(got.flat, want.flat, "non-trivial-degenerate-faces");
  cmp(got.overlap, want.overlap, "overlapping-faces");
  cmp(got.boundary, want.boundary, "boundary-edges");
  cmp(got.inconsistent, want.inconsistent, "inconsistent-edges");
  cmp(got.fans, want.fans, "non-manifold-edges");
  std::uint64_t h = 0;
  for (auto n : {want.isolated.size(), want.pinched.size(), want.trivial.size(), want.flat.size(), want.overlap.size(), want.boundary.size(), want.inconsistent.size(), want.fans.size()})
    h = kmc::mix64(h + n);
  ctx.outcome(h);
  if (!want.overlap.empty() || !want.pinched.empty() || !want.fans.empty() || !want.flat.empty() || !want.inconsistent.empty()) ctx.count("nontrivial");
}

std::vector<K::Point_3> to_k(const std::vector<I3>& p) {
  std::vector<K::Point_3> r;
  for (auto& v : p) r.emplace_back(v[0], v[1], v[2]);
  return r;
}

// All ordered triples up to rotation; with the degenerate ones or without.
std::vector<T> face_classes(int n, bool degenerate) {
  std::vector<T> r;
  for (int a = 0; a < n; ++a)
    for (int b = 0; b < n; ++b)
      for (int c = 0; c < n; ++c) {
        if (!degenerate && (a == b || b == c || c == a)) continue;
        T t{a, b, c}, x{b, c, a}, y{c, a, b};
        if (t <= x && t <= y) r.push_back(t);
      }
  return r;
}

struct Config {
  const char* name;
  std::vector<I3> p;
};

std::vector<Config> configs() {
  return {
      {"general", {{0, 0, 0}, {2, 0, 0}, {0, 2, 0}, {0, 0, 2}, {2, 2, 2}, {0, 0, 0}}},
      {"quad", {{0, 0, 0}, {2, 0, 0}, {2, 2, 0}, {0, 2, 0}, {1, 1, 0}, {1, 1, 2}}},
      {"on-edge", {{0, 0, 0}, {2, 0, 0}, {0, 2, 0}, {1, 0, 0}, {0, 0, 2}, {1, 0, 0}}},
      {"line", {{0, 0, 0}, {1, 0, 0}, {2, 0, 0}, {3, 0, 0}, {0, 2, 0}, {0, 0, 2}}},
      {"pierce", {{0, 0, 0}, {4, 0, 0}, {0, 4, 0}, {1, 1, 2}, {1, 1, -2}, {1, 1, 0}}},
      {"cross", {{-2, 0, 0}, {2, 0, 0}, {0, -2, 0}, {0, 2, 0}, {0, 0, 2}, {0, 0, -2}}},
  };
}

}  // namespace

int main(int argc, char** argv) {
  bool thorough = kmc::tier_of(argc, argv) == "thorough";
  kmc::Check c;
  c.property = "C10";
  c.rule =
      "an evaluation is one triangle soup; all eight lists are compared, as sets without repetition, with the definitions "
      "evaluated by brute force in integer arithmetic on the mesh with equal points merged; non-trivial: a soup with an "
      "overlap, a pinched vertex, a fan or flipped edge or a zero-area face";
  c.assumptions = {"soups of up to 6 faces over 5 or 6 chosen points (general, coplanar, on an edge, collinear, piercing, repeated)",
                   "and every single and, for small shapes, double edit of a zoo of solids"};
  c.evaluations_counter = "soups";
  auto cfg = std::make_shared<std::vector<Config>>(configs());
  // Sequences of up to three faces of any kind.
  for (std::size_t ci = 0; ci < cfg->size(); ++ci) {
    int n = thorough ? 6 : 5;
    for (int first = 0; first <= (thorough ? 0 : 1); ++first) {  // which 5 of the 6 points
      if (first == 1 && !thorough) n = 5;
      auto pts = std::make_shared<std::vector<I3>>((*cfg)[ci].p.begin() + first, (*cfg)[ci].p.begin() + first + n);
      auto kp = std::make_shared<std::vector<K::Point_3>>(to_k(*pts));
      auto fc = std::make_shared<std::vector<T>>(face_classes(n, true));
      kmc::Space s;
      s.name = std::string("sequences-") + (*cfg)[ci].name + (first ? "2" : "");
      s.size = fc->size() * fc->size();
      s.run = [=](std::uint64_t id, kmc::Ctx& ctx) {
        std::vector<T> fs{(*fc)[id % fc->size()], (*fc)[id / fc->size()]};
        // The faces may be written starting at any vertex.
        std::rotate(fs[1].begin(), fs[1].begin() + id % 3, fs[1].end());
        check(*pts, *kp, fs, ctx);
        if (first == 1 && ci % 2) return;
        for (auto& f : *fc) {
          auto g = fs;
          g.push_back(f);
          check(*pts, *kp, g, ctx);
        }
        if (id == 0) {
          check(*pts, *kp, {}, ctx);
          check({}, {}, {}, ctx);
          for (auto& f : *fc) check(*pts, *kp, {f}, ctx);
        }
      };
      s.describe = [=](std::uint64_t id) { return text_of(*pts, {(*fc)[id % fc->size()], (*fc)[id / fc->size()]}) + " and each third face"; };
      c.spaces.push_back(s);
    }
  }
  // Sets of four and more proper faces.
  auto sets = [&](std::string name, const Config& cf, std::vector<int> use, int k, bool oriented) {
    auto pts = std::make_shared<std::vector<I3>>();
    for (int i : use) pts->push_back(cf.p[i]);
    auto kp = std::make_shared<std::vector<K::Point_3>>(to_k(*pts));
    auto fc = std::make_shared<std::vector<T>>();
    for (auto& t : face_classes(static_cast<int>(use.size()), false))
      if (oriented || t[1] < t[2]) fc->push_back(t);
    kmc::Space s;
    s.name = std::move(name);
    s.size = fc->size() * fc->size();
    s.run = [=](std::uint64_t id, kmc::Ctx& ctx) {
      auto a = id % fc->size(), b = id / fc->size();
      if (b < a) return;
      Pair_cache cache;
      std::vector<T> fs{(*fc)[a], (*fc)[b]};
      std::function<void(std::size_t)> rec = [&](std::size_t from) {
        if (static_cast<int>(fs.size()) == k) {
          check(*pts, *kp, fs, ctx, &cache);
          return;
        }
        for (auto j = from; j < fc->size(); ++j) {
          fs.push_back((*fc)[j]);
          rec(j);
          fs.pop_back();
        }
      };
      rec(b);
    };
    s.describe = [=](std::uint64_t id) { return text_of(*pts, {(*fc)[id % fc->size()], (*fc)[id / fc->size()]}) + " and later ones"; };
    c.spaces.push_back(s);
  };
  for (auto& cf : *cfg) {
    sets(std::string("four-") + cf.name, cf, {0, 1, 2, 3, 4, 5}, 4, thorough);
    sets(std::string("four-oriented-") + cf.name, cf, {0, 1, 2, 3, 4}, 4, true);
    sets(std::string("five-") + cf.name, cf, {0, 1, 2, 3, 4}, 5, thorough);
    if (thorough) {
      sets(std::string("five-6-") + cf.name, cf, {0, 1, 2, 3, 4, 5}, 5, false);
      sets(std::string("six-") + cf.name, cf, {0, 1, 2, 3, 4}, 6, true);
    }
  }
  sets("six-general", (*cfg)[5], {0, 1, 2, 3, 4}, 6, false);
  // Edits of solids.
  {
    auto shapes = std::make_shared<std::vector<geom::Shape>>();
    for (auto& s : zoo::zoo())
      if (s.f.size() <= 64) shapes->push_back(s);
    kmc::Space s;
    s.name = "edits";
    s.size = shapes->size() * 16;
    auto edit = [](std::vector<I3>& p, std::vector<T>& f, int kind, int i, int j) {
      switch (kind) {
        case 0: f.erase(f.begin() + i % f.size()); break;
        case 1: std::swap(f[i % f.size()][0], f[i % f.size()][1]); break;
        case 2: f.insert(f.begin() + j % f.size(), f[i % f.size()]); break;
        case 3: p[i % p.size()] = p[j % p.size()]; break;
        case 4: f[i % f.size()][j % 3] = f[i % f.size()][(j + 1) % 3]; break;
        case 5: {  // split a vertex off
          p.push_back(p[f[i % f.size()][j % 3]]);
          f[i % f.size()][j % 3] = static_cast<int>(p.size()) - 1;
          break;
        }
        case 6: p.push_back(p[i % p.size()]); break;  // unused repeated point
        case 7: f[i % f.size()][j % 3] = j % static_cast<int>(p.size()); break;
      }
    };
    s.run = [=](std::uint64_t id, kmc::Ctx& ctx) {
      auto& sh = (*shapes)[id / 16];
      int kind = id % 8, second = (id / 8) % 2;
      std::vector<I3> p0;
      for (auto& v : sh.p) p0.push_back({(int)std::lround(v.x * 48), (int)std::lround(v.y * 48), (int)std::lround(v.z * 48)});
      std::vector<T> f0(sh.f.begin(), sh.f.end());
      int n = static_cast<int>(std::max(p0.size(), f0.size()));
      int nj = kind == 3 || kind == 7 ? static_cast<int>(p0.size()) : 3;
      // The number of threads must not matter.
      kmc::g_hardware_concurrency = id % 4 == 3 ? 3 : 1;
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < nj; ++j) {
          auto p = p0;
          auto f = f0;
          edit(p, f, kind, i, j);
          if (second) {
            if (f0.size() > (thorough ? 28 : 14) || (kind == 3 && !thorough)) continue;
            for (int k2 : {0, 1, 2, 4, 5})
              for (int i2 = 0; i2 < static_cast<int>(f.size()); ++i2) {
                auto p2 = p;
                auto f2 = f;
                edit(p2, f2, k2, i2, i + j);
                check(p2, to_k(p2), f2, ctx);
              }
          } else {
            check(p, to_k(p), f, ctx);
          }
        }
      kmc::g_hardware_concurrency = 1;
    };
    s.describe = [=](std::uint64_t id) { return "edits of kind " + std::to_string(id % 8) + " of " + (*shapes)[id / 16].text(); };
    s.case_timeout_s = 300;
    c.spaces.push_back(s);
  }
  kmc::g_hardware_concurrency = 1;
  return kmc::Driver(std::move(c), argc, argv).run();
}
