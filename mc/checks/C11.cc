// C11: the binary format stores and restores a region without any loss.
#define KMC_OWN_HARDWARE_CONCURRENCY
#include "../io_ref.h"
#include "../zoo.h"

using namespace ior;
using geom::Op;
using Q = CGAL::Exact_rational;

struct Tag {
  std::string s;
  bool operator==(const Tag&) const = default;
};
template <>
struct kigumi::Write<Tag> {
  void operator()(std::ostream& o, const Tag& t) const {
    kigumi_write<std::int32_t>(o, t.s.size());
    o.write(t.s.data(), static_cast<std::streamsize>(t.s.size()));
  }
};
template <>
struct kigumi::Read<Tag> {
  void operator()(std::istream& i, Tag& t) const {
    std::size_t n{};
    kigumi_read<std::int32_t>(i, n);
    t.s.resize(n);
    i.read(t.s.data(), static_cast<std::streamsize>(n));
  }
};

namespace {

template <class D>
std::string data_text(const D& d) {
  if constexpr (std::is_same_v<D, kigumi::Null_data>) return "-";
  else if constexpr (std::is_same_v<D, Tag>) return d.s;
  else {
    std::string r;
    for (std::size_t i = 0; i < sizeof(D); ++i) r += std::to_string(reinterpret_cast<const unsigned char*>(&d)[i]) + ".";
    return r;
  }
}

template <class D>
std::string exact_text(const kigumi::Triangle_soup<K, D>& s) {
  std::ostringstream o;
  for (auto v : s.vertices()) {
    auto& p = s.point(v).exact();
    o << p.x() << " " << p.y() << " " << p.z() << "\n";
  }
  for (auto f : s.faces()) {
    for (auto v : s.face(f)) o << v.idx() << " ";
    o << data_text(s.data(f)) << "\n";
  }
  return o.str();
}
template <class D>
std::string exact_text(const kigumi::Region<K, D>& r) {
  return (r.is_empty() ? "E" : r.is_full() ? "F" : "B") + exact_text(r.boundary());
}

template <class D>
std::string written(const kigumi::Region<K, D>& r, kmc::Ctx& ctx) {
  std::ostringstream o;
  if (!kigumi::write_kigumi_region(o, r)) ctx.fail("write", "writing fails");
  return o.str();
}

// Writes, restores into `target`, compares; and the bytes are stable from then on.
template <class D>
void round_trip(const kigumi::Region<K, D>& r, kigumi::Region<K, D> target, const std::string& what, kmc::Ctx& ctx, const Scratch* scratch = nullptr) {
  ctx.count("round-trips");
  std::string bytes;
  if (scratch) {
    auto f = scratch->dir + "/r" + std::to_string(getpid()) + ".kigumi";
    if (!kigumi::write_kigumi_region(f, r)) ctx.fail("write", "writing a file fails: " + what);
    bytes = slurp(f);
    if (!kigumi::read_kigumi_region(f, target)) {
      ctx.fail("read", "reading the file back fails: " + what);
      ::unlink(f.c_str());
      return;
    }
    ::unlink(f.c_str());
  } else {
    bytes = written(r, ctx);
    std::istringstream i{bytes};
    if (!kigumi::read_kigumi_region(i, target)) {
      ctx.fail("read", "reading back fails: " + what);
      return;
    }
    if (i.peek() != EOF) ctx.fail("left-over", "data are left over: " + what);
  }
  auto a = exact_text(r), b = exact_text(target);
  if (a != b) {
    ctx.fail("lost", what + ": restored as\n" + b.substr(0, 600) + "\ninstead of\n" + a.substr(0, 600));
    return;
  }
  ctx.outcome(a);
  auto b1 = written(target, ctx);
  kigumi::Region<K, D> again;
  std::istringstream i1{b1};
  if (!kigumi::read_kigumi_region(i1, again) || exact_text(again) != a) ctx.fail("lost", what + ": a restored region is not restored again");
  else if (written(again, ctx) != b1) ctx.fail("unstable", what + ": restoring changes the bytes");
}

// --- coordinates --------------------------------------------------------------------------------------

struct Coordinate {
  std::string name;
  K::FT v;
};
const std::vector<Coordinate>& coordinates() {
  static const auto r = [] {
    std::vector<Coordinate> c;
    for (double d : {0.0, -0.0, 1.0, -1.0, 0.1, -3.25, 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, 4503599627370497.5, 1e-300}) {
      std::ostringstream o;
      o << std::setprecision(17) << d;
      c.push_back({o.str(), K::FT(d)});
    }
    Q third = Q(1) / Q(3);
    boost::multiprecision::cpp_int one = 1;
    c.push_back({"1/3", K::FT(third)});
    c.push_back({"-1/3", K::FT(Q(-third))});
    c.push_back({"255/256 as a rational", K::FT(Q(255) / Q(256))});
    c.push_back({"0 as a rational", K::FT(Q(0))});
    c.push_back({"-256 as a rational", K::FT(Q(-256))});
    c.push_back({"2^2000", K::FT(Q(one << 2000))});
    c.push_back({"-2^-2000", K::FT(Q(boost::multiprecision::cpp_rational(-one, one << 2000)))});
    c.push_back({"(2^600+1)/(2^600-1)", K::FT(Q(boost::multiprecision::cpp_rational((one << 600) + 1, (one << 600) - 1)))});
    c.push_back({"-(2^520-1)/(2^8+1)", K::FT(Q(boost::multiprecision::cpp_rational(-((one << 520) - 1), (one << 8) + 1)))});
    c.push_back({"lazy 1/3*3", K::FT(1) / K::FT(3) * K::FT(3)});
    c.push_back({"lazy 1/3-1/3", K::FT(1) / K::FT(3) - K::FT(1) / K::FT(3)});
    c.push_back({"lazy 0.1*0.1", K::FT(0.1) * K::FT(0.1)});
    c.push_back({"lazy -(1/7+2^-1000)", -(K::FT(1) / K::FT(7) + K::FT(9.332636185032189e-302))});
    {
      K::FT x = K::FT(2) / K::FT(3) * K::FT(3);
      x.exact();
      c.push_back({"lazy 2/3*3, evaluated", x});
    }
    return c;
  }();
  return r;
}

kmc::Space coordinate_space(std::shared_ptr<Scratch> scratch) {
  kmc::Space s;
  s.name = "coordinates";
  auto n = coordinates().size();
  s.size = n * n;
  auto make = [=](std::uint64_t id) {
    auto& c = coordinates();
    kigumi::Triangle_soup<K, int> t;
    for (std::size_t k = 0; k < n; ++k) t.add_vertex({c[id / n].v, c[id % n].v, c[k].v});
    for (std::size_t k = 0; k + 2 < n; ++k) t.data(t.add_face({Vertex_index{k}, Vertex_index{k + 2}, Vertex_index{k + 1}})) = static_cast<int>(id) - static_cast<int>(k);
    return Region{std::move(t)};
  };
  s.run = [=](std::uint64_t id, kmc::Ctx& ctx) {
    auto what = coordinates()[id / n].name + ", " + coordinates()[id % n].name + ", ...";
    if (id / n >= 13 || id % n >= 13) ctx.count("nontrivial");
    round_trip<int>(make(id), Region::empty(), what, ctx, id % 2 ? scratch.get() : nullptr);
    if (id / n == id % n) {  // each value alone, in each place
      for (int k = 0; k < 3; ++k)
        for (bool together : {false, true}) {
          kigumi::Triangle_soup<K, int> t;
          for (int q = 0; q < 3; ++q) {
            K::FT p[3] = {K::FT(1), K::FT(2), K::FT(3)};
            if (together || q == k) p[k] = coordinates()[id / n].v;
            t.add_vertex({p[0], p[1], p[2]});
          }
          t.add_face({Vertex_index{2}, Vertex_index{0}, Vertex_index{1}});
          round_trip<int>(Region{t}, Region::full(), what, ctx);
        }
    }
  };
  s.describe = [=](std::uint64_t id) { return "points (" + coordinates()[id / n].name + ", " + coordinates()[id % n].name + ", each of the values)"; };
  return s;
}

// Numbers of every length in bytes, of both backends, each read by the other.
boost::multiprecision::cpp_int pattern(int bytes, int kind) {
  boost::multiprecision::cpp_int x = 0;
  for (int i = 0; i < bytes; ++i) {
    int b = kind == 0 ? 0xff : kind == 1 ? (i == 0 ? 1 : 0) : kind == 2 ? (i == 0 ? 0x80 : 0) + (i + 1 == bytes) : 0x5a + 7 * i;
    x = (x << 8) + (b & 0xff);
  }
  return x;
}
kmc::Space number_space(int max_bytes) {
  kmc::Space s;
  s.name = "numbers";
  s.size = (max_bytes + 1) * 4;
  s.run = [=](std::uint64_t id, kmc::Ctx& ctx) {
    using B = boost::multiprecision::cpp_rational;
    auto num = pattern(static_cast<int>(id / 4), static_cast<int>(id % 4));
    for (int bytes = 1; bytes <= max_bytes; ++bytes)
      for (int kind = 0; kind < 4; ++kind)
        for (bool neg : {false, true}) {
          auto den = pattern(bytes, kind);
          if (den == 0) continue;
          B q(num, den);
          if (neg) q = -q;
          mpq_class m(q.str());
          ctx.count("round-trips");
          ctx.count("nontrivial");
          std::stringstream a, b;
          kigumi::kigumi_write<B>(a, q);
          kigumi::kigumi_write<mpq_class>(b, m);
          auto ta = a.str(), tb = b.str();
          for (auto* t : {&ta, &tb}) {
            std::istringstream i{*t}, j{*t};
            B x = 7;
            mpq_class y = 7;
            try {
              kigumi::kigumi_read<B>(i, x);
              kigumi::kigumi_read<mpq_class>(j, y);
            } catch (const std::exception& e) {
              ctx.fail("read", q.str() + " is not read back: " + e.what());
              continue;
            }
            if (x != q) ctx.fail("lost", q.str() + " is read back as " + x.str());
            if (y != m) ctx.fail("lost", q.str() + " is read back as " + y.get_str());
            if (i.peek() != EOF || j.peek() != EOF) ctx.fail("left-over", "data left over after " + q.str());
          }
        }
  };
  s.describe = [](std::uint64_t id) { return "numerator " + pattern(static_cast<int>(id / 4), static_cast<int>(id % 4)).str() + " over denominators of all lengths"; };
  return s;
}

// --- data ---------------------------------------------------------------------------------------------

template <class D>
void data_case(const std::vector<D>& values, kmc::Ctx& ctx) {
  auto n = values.size();
  for (std::size_t a = 0; a < n; ++a)
    for (std::size_t b = 0; b < n; ++b) {
      kigumi::Triangle_soup<K, D> s;
      for (int k = 0; k < 4; ++k) s.add_vertex({k == 1, k == 2, k == 3});
      std::size_t v[4] = {a, b, (a + b) % n, 0};
      int f[4][3] = {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}};
      for (int k = 0; k < 4; ++k) s.data(s.add_face({Vertex_index(f[k][0]), Vertex_index(f[k][1]), Vertex_index(f[k][2])})) = values[v[k]];
      ctx.count("nontrivial");
      round_trip<D>(kigumi::Region<K, D>{std::move(s)}, {}, "data", ctx);
    }
}
template <class T>
std::vector<T> ints() {
  using L = std::numeric_limits<T>;
  std::vector<T> r{0, 1, L::min(), L::max(), T(L::max() / 3)};
  if (L::is_signed) r.push_back(T(-1));
  return r;
}
kmc::Space data_space() {
  kmc::Space s;
  s.name = "data";
  s.size = 14;
  s.run = [](std::uint64_t id, kmc::Ctx& ctx) {
    switch (id) {
      case 0: return data_case<kigumi::Null_data>({{}, {}}, ctx);
      case 1: return data_case<std::int8_t>(ints<std::int8_t>(), ctx);
      case 2: return data_case<std::uint8_t>(ints<std::uint8_t>(), ctx);
      case 3: return data_case<std::int16_t>(ints<std::int16_t>(), ctx);
      case 4: return data_case<std::uint16_t>(ints<std::uint16_t>(), ctx);
      case 5: return data_case<int>(ints<int>(), ctx);
      case 6: return data_case<unsigned>(ints<unsigned>(), ctx);
      case 7: return data_case<std::int64_t>(ints<std::int64_t>(), ctx);
      case 8: return data_case<std::uint64_t>(ints<std::uint64_t>(), ctx);
      case 9: return data_case<char>(ints<char>(), ctx);
      case 10: return data_case<float>({0.F, -0.F, 1.5F, -3e38F, 1e-45F, INFINITY, NAN}, ctx);
      case 11: return data_case<double>({0., -0., 1.5, -1e308, 5e-324, double(INFINITY), double(NAN)}, ctx);
      case 12: return data_case<Tag>({{}, {"a"}, {std::string("\0\n\xff", 3)}, {std::string(300, 'x')}}, ctx);
      case 13: return data_case<long>(ints<long>(), ctx);
    }
  };
  s.describe = [](std::uint64_t id) { return "all pairs of values of data type " + std::to_string(id); };
  return s;
}

// --- regions and targets --------------------------------------------------------------------------------

std::vector<Region>& regions() {
  static auto r = [] {
    std::vector<Region> v;
    v.push_back(Region::empty());
    v.push_back(Region::full());
    auto z = zoo::zoo();
    for (auto& s : z) v.push_back(geom::region_of(s, 10));
    for (std::size_t i = 0; i + 1 < z.size(); i += 2) {  // results of exact computations
      geom::Builder b{v[2 + i], geom::region_of(geom::moved(z[i + 1], {0.3, 0.7, 0.1}, 0.9), 500)};
      v.push_back(b(Op::A));
      v.push_back(b(Op::V));
      v.push_back(b(Op::D));
    }
    {
      kigumi::Triangle_soup<K, int> t;  // unused vertices and repeated faces
      for (int k = 0; k < 5; ++k) t.add_vertex({k, k * k, 1});
      t.data(t.add_face({Vertex_index{4}, Vertex_index{0}, Vertex_index{2}})) = 3;
      t.data(t.add_face({Vertex_index{4}, Vertex_index{0}, Vertex_index{2}})) = 3;
      t.data(t.add_face({Vertex_index{4}, Vertex_index{4}, Vertex_index{4}})) = 4;
      v.emplace_back(std::move(t));
    }
    return v;
  }();
  return r;
}

kmc::Space target_space(std::shared_ptr<Scratch> scratch) {
  kmc::Space s;
  s.name = "targets";
  auto n = regions().size();
  std::vector<int> t{0, 1, 2, 5, 7, 12, 16, 25, static_cast<int>(n) - 1, static_cast<int>(n) - 5};
  auto m = t.size();
  s.size = n * (m + 1) * 2;
  s.run = [=](std::uint64_t id, kmc::Ctx& ctx) {
    bool tree = id % 2;
    auto& src = regions()[id / 2 / (m + 1)];
    auto k = id / 2 % (m + 1);
    auto what = "region " + std::to_string(id / 2 / (m + 1)) + " into target " + std::to_string(k);
    Region target = k < m ? regions()[t[k]] : src;
    ctx.count("nontrivial");
    if (tree && !target.is_empty_or_full()) {
      target.boundary().aabb_tree();
      bool proper = k < m ? t[k] + 1 != static_cast<int>(n) : id / 2 / (m + 1) + 1 != n;
      if (proper) (void)target.bounded_side({0.5, 0.25, 0.75});
    }
    std::stringstream io;
    kigumi::write_kigumi_region(io, src);
    if (!kigumi::read_kigumi_region(io, target)) {
      ctx.fail("read", what + " fails");
      return;
    }
    ctx.count("round-trips");
    if (exact_text(target) != exact_text(src)) {
      ctx.fail("lost", what + ": a different region");
      return;
    }
    // The target answers like the source, as a query object and as an operand.
    bool closed = id / 2 / (m + 1) + 1 != n;
    if (closed) {
      for (double x : {-0.5, 0.25, 0.9, 1.0, 1.9})
        for (double y : {0.0, 0.3, 1.1, 1.75})
          for (double z : {0.125, 1.0, 1.5}) {
            ctx.count("queries");
            if (target.bounded_side({x, y, z}) != src.bounded_side({x, y, z})) {
              ctx.fail("queries", what + ": answers differ after restoring");
              return;
            }
          }
      std::vector<const Soup::Leaf*> leaves;
      if (!src.is_empty_or_full()) target.boundary().aabb_tree().get_intersecting_leaves(std::back_inserter(leaves), CGAL::Bbox_3(-9, -9, -9, 9, 9, 9));
      if (!src.is_empty_or_full() && leaves.size() != src.boundary().num_faces()) ctx.fail("queries", what + ": the tree is not the restored faces'");
    }
    round_trip<int>(src, k < m ? regions()[t[k]] : src, what, ctx, tree ? scratch.get() : nullptr);
  };
  s.describe = [=](std::uint64_t id) { return "region " + std::to_string(id / 2 / (m + 1)) + " into target " + std::to_string(id / 2 % (m + 1)) + (id % 2 ? ", which has been queried before" : ""); };
  return s;
}

// Several regions one after the other in a stream.
kmc::Space stream_space(bool thorough) {
  kmc::Space s;
  s.name = "streams";
  static std::vector<std::size_t> pick{0, 1, 2, 6, 14, regions().size() - 1, regions().size() - 4};
  auto n = pick.size();
  int len = thorough ? 4 : 3;
  s.size = 1;
  for (int i = 0; i < len; ++i) s.size *= n;
  s.run = [=](std::uint64_t id, kmc::Ctx& ctx) {
    std::stringstream io;
    io << "prefix";
    auto x = id;
    std::vector<std::size_t> seq;
    for (int i = 0; i < len; ++i, x /= n) seq.push_back(pick[x % n]);
    for (auto i : seq) kigumi::write_kigumi_region(io, regions()[i]);
    io << "suffix";
    char buf[7] = {};
    io.read(buf, 6);
    Region r;
    for (auto i : seq) {
      ctx.count("round-trips");
      if (!kigumi::read_kigumi_region(io, r)) {
        ctx.fail("read", "reading one of several regions fails");
        return;
      }
      if (exact_text(r) != exact_text(regions()[i])) ctx.fail("lost", "one of several regions is not restored");
    }
    io.read(buf, 6);
    if (std::string(buf) != "suffix") ctx.fail("left-over", "what follows the region cannot be read");
    ctx.count("nontrivial");
  };
  s.describe = [=](std::uint64_t id) {
    std::string r = "regions";
    for (int i = 0; i < len; ++i, id /= n) r += " " + std::to_string(pick[id % n]);
    return r;
  };
  return s;
}

// --- chains ---------------------------------------------------------------------------------------------

Region restored(const Region& r) {
  std::stringstream io;
  kigumi::write_kigumi_region(io, r);
  Region x;
  if (!kigumi::read_kigumi_region(io, x)) throw std::runtime_error("reading back fails");
  return x;
}
const Op ops[] = {Op::A, Op::B, Op::C, Op::D, Op::E, Op::F, Op::G, Op::H, Op::I, Op::J, Op::K, Op::L, Op::M, Op::O, Op::V, Op::X};

// The exact set of faces, whatever the order.
std::string canonical_exact(const Region& r) {
  std::vector<std::string> fs;
  for (auto f : r.boundary().faces()) {
    std::array<std::string, 3> p;
    for (int k = 0; k < 3; ++k) {
      std::ostringstream o;
      auto& q = r.boundary().point(r.boundary().face(f)[k]).exact();
      o << q.x() << " " << q.y() << " " << q.z() << ",";
      p[k] = o.str();
    }
    std::rotate(p.begin(), std::min_element(p.begin(), p.end()), p.end());
    fs.push_back(p[0] + p[1] + p[2] + std::to_string(r.boundary().data(f)));
  }
  std::sort(fs.begin(), fs.end());
  std::string t = r.is_empty() ? "E" : r.is_full() ? "F" : "B";
  for (auto& f : fs) t += f + "\n";
  return t;
}

struct Triple {
  std::string name;
  Region a, b, c;
};
std::vector<Triple>& triples() {
  static auto r = [] {
    std::vector<Triple> t;
    auto box = geom::region_of(geom::box({0, 0, 0}, {2, 2, 2}, 0), 0);
    auto oct = geom::region_of(geom::moved(geom::octahedron({1, 1, 1}, 1.3), {0.1, 0.2, 0.3}), 100);
    auto tt = geom::region_of(geom::tet({-0.3, 0.1, 0.2}, {2.7, 0.3, 0.4}, {0.2, 2.9, 0.1}, {0.7, 0.6, 3.1}), 200);
    auto box2 = geom::region_of(geom::box({1, 0, 0}, {3, 2, 1}, 1), 300);
    t.push_back({"box, octahedron, tetrahedron", box, oct, tt});
    t.push_back({"tetrahedron, octahedron, box", tt, oct, box2});
    t.push_back({"two boxes, tetrahedron", box, box2, tt});
    return t;
  }();
  return r;
}

kmc::Space chain_space(bool thorough) {
  kmc::Space s;
  s.name = "chains";
  auto nt = triples().size();
  const int no = thorough ? 16 : 6;
  s.size = nt * no * no;
  auto op_at = [=](int i) {
    if (no == 16) return ops[i];
    static const Op few[] = {Op::D, Op::V, Op::K, Op::L, Op::J, Op::X};
    return few[i];
  };
  s.run = [=](std::uint64_t id, kmc::Ctx& ctx) {
    auto& t = triples()[id / (no * no)];
    Op o1 = op_at(static_cast<int>(id / no % no)), o2 = op_at(static_cast<int>(id % no));
    std::string want;
    // Bits: restore a, b, the intermediate result, c, and run the second operation from a restored copy of a result that has
    // been used before.
    for (int m = 0; m < 32; ++m) {
      ctx.count("round-trips");
      auto a = m & 1 ? restored(t.a) : t.a, b = m & 2 ? restored(t.b) : t.b, c = m & 8 ? restored(t.c) : t.c;
      auto ab = geom::Builder{a, b}(o1);
      if (m & 16) (void)geom::Builder{ab, c}(o1);
      if (m & 4) ab = restored(ab);
      auto r = geom::Builder{ab, c}(o2);
      auto got = canonical_exact(r);
      if (m == 0) {
        want = got;
        ctx.outcome(got);
        if (got.size() > 1) ctx.count("nontrivial");
      } else if (got != want) {
        ctx.fail("chain", "restoring (mask " + std::to_string(m) + ") changes the final result");
        return;
      }
    }
  };
  s.describe = [=](std::uint64_t id) { return triples()[id / (no * no)].name + ": ((1) " + geom::op_name(op_at(static_cast<int>(id / no % no))) + " (2)) " + geom::op_name(op_at(static_cast<int>(id % no))) + " (3)"; };
  return s;
}

}  // namespace

int main(int argc, char** argv) {
  bool thorough = kmc::tier_of(argc, argv) == "thorough";
  auto scratch = std::make_shared<Scratch>();
  kmc::Check c;
  c.property = "C11";
  c.rule =
      "an evaluation is one write and restore of a region (or number) compared exactly - kind, rational coordinates, faces, order, data - "
      "or one Boolean chain computed with one subset of its operands saved and restored; non-trivial: rational coordinates, every "
      "data, target and chain case with a result";
  c.assumptions = {"coordinates from the stated alphabet, numerators and denominators of every length in bytes up to the bound; kernel: exact predicates and constructions with Boost rationals, the GMP encoding checked by itself"};
  c.evaluations_counter = "round-trips";
  c.spaces = {coordinate_space(scratch), number_space(thorough ? 80 : 34), data_space(), target_space(scratch), stream_space(thorough), chain_space(thorough)};
  return kmc::Driver(std::move(c), argc, argv).run();
}
