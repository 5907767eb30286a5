// C12: text formats restore the same mesh up to double rounding.
#define KMC_OWN_HARDWARE_CONCURRENCY
#include "../io_ref.h"

using namespace ior;
using Q = CGAL::Exact_rational;

namespace {

// The formats, with OBJ in both index styles.
enum Style { S_OBJ, S_OBJ_NEG, S_OFF, S_PLY };
const char* style_name[] = {"obj", "obj (negative indices)", "off", "ply"};
int format_of(int style) { return style == S_OBJ || style == S_OBJ_NEG ? OBJ : style == S_OFF ? OFF : PLY; }

struct Grouping : std::numpunct<char> {
  char do_thousands_sep() const override { return ','; }
  char do_decimal_point() const override { return ';'; }
  std::string do_grouping() const override { return "\1"; }
};

bool put(int style, std::ostream& o, const Soup& s) {
  kigumi::io::Write_obj_options opt;
  opt.set_negative_indices(style == S_OBJ_NEG);
  kigumi::io::Write_obj_context c{opt};
  return write(format_of(style), o, s);
}
bool put(int style, const std::string& f, const Soup& s) {
  kigumi::io::Write_obj_options opt;
  opt.set_negative_indices(style == S_OBJ_NEG);
  kigumi::io::Write_obj_context c{opt};
  return kigumi::write_triangle_soup(f, s);
}

// The soup after going through the formats in turn; nothing if some step fails.
std::optional<Soup> through(const std::vector<int>& styles, const Soup& s, const Scratch* scratch, kmc::Ctx& ctx, const std::string& what, bool dirty_target = false) {
  Soup cur = s;
  for (auto st : styles) {
    Soup next;
    if (dirty_target) {
      for (int k = 0; k < 3; ++k) next.add_vertex({k == 0, k == 1, k == 2});
      next.data(next.add_face({Vertex_index{0}, Vertex_index{1}, Vertex_index{2}})) = 77;
      next.aabb_tree();
    }
    ctx.count("conversions");
    if (scratch) {
      auto f = scratch->dir + "/m" + std::to_string(getpid()) + ext(format_of(st));
      if (!put(st, f, cur)) {
        ctx.fail("write", "writing " + std::string(style_name[st]) + " fails: " + what);
        return {};
      }
      if (!kigumi::read_triangle_soup(f, next)) {
        ctx.fail("read", "reading " + std::string(style_name[st]) + " back fails: " + what + "\n" + show(slurp(f)));
        ::unlink(f.c_str());
        return {};
      }
      ::unlink(f.c_str());
    } else {
      std::stringstream io;
      if (!put(st, io, cur)) {
        ctx.fail("write", "writing " + std::string(style_name[st]) + " fails: " + what);
        return {};
      }
      if (!read(format_of(st), io, next)) {
        ctx.fail("read", "reading " + std::string(style_name[st]) + " back fails: " + what + "\n" + show(io.str()));
        return {};
      }
    }
    if (dirty_target) {
      std::vector<const Soup::Leaf*> leaves;
      next.aabb_tree().get_intersecting_leaves(std::back_inserter(leaves), CGAL::Bbox_3(-1e308, -1e308, -1e308, 1e308, 1e308, 1e308));
      if (leaves.size() > next.num_faces()) ctx.fail("tree", "the tree of what was there before is still in use: " + what);
    }
    cur = std::move(next);
  }
  return cur;
}

// Empty if `got` is `want` with every coordinate rounded to a neighbouring double at most.
std::string compare(const Soup& got, const Soup& want) {
  std::ostringstream o;
  if (got.num_vertices() != want.num_vertices() || got.num_faces() != want.num_faces()) {
    o << got.num_vertices() << " vertices and " << got.num_faces() << " faces instead of " << want.num_vertices() << " and " << want.num_faces();
    return o.str();
  }
  for (auto v : want.vertices()) {
    auto approx = got.point(v).approx();  // before the exact value is asked for
    auto& p = want.point(v).exact();
    auto& q = got.point(v).exact();
    for (int k = 0; k < 3; ++k) {
      Q x = p[k], y = q[k];
      if (x == y) continue;
      auto i = approx[k];
      double d = i.inf();
      if (i.inf() != i.sup()) {
        o << "vertex " << v.idx() << " was read as something that is no double: " << std::setprecision(17) << i.inf() << ".." << i.sup();
        return o.str();
      }
      double up = std::nextafter(d, INFINITY), down = std::nextafter(d, -INFINITY);
      // d is a neighbour of x if x lies strictly between d and an adjacent double.
      bool ok = (x > y && (std::isinf(up) || x < Q(up))) || (x < y && (std::isinf(down) || x > Q(down)));
      if (!ok) {
        o << "coordinate " << k << " of vertex " << v.idx() << " is " << std::setprecision(17) << d << " instead of " << CGAL::to_double(x);
        return o.str();
      }
    }
  }
  for (auto f : want.faces())
    if (got.face(f) != want.face(f)) {
      auto& a = got.face(f);
      auto& b = want.face(f);
      o << "face " << f.idx() << " is " << a[0].idx() << " " << a[1].idx() << " " << a[2].idx() << " instead of " << b[0].idx() << " " << b[1].idx() << " " << b[2].idx();
      return o.str();
    }
  return {};
}

// --- coordinates -----------------------------------------------------------------------------------------

struct Coordinate {
  std::string name;
  K::FT v;
};
const std::vector<Coordinate>& coordinates() {
  static const auto r = [] {
    std::vector<Coordinate> c;
    auto d = [&](double x) {
      std::ostringstream o;
      o << std::setprecision(17) << x;
      c.push_back({o.str(), K::FT(x)});
    };
    for (double x : {0.0, -0.0, 1.0, -1.0, 0.1, 0.3, -3.25, 1e21, 1e22, 1e23, 123456789.12345678, 9007199254740993.0, 0.30000000000000004, 5e-324, -5e-324, 2.2250738585072014e-308, 2.2250738585072009e-308, 1.7976931348623157e308,
                     -1.7976931348623157e308, 8.98846567431158e307, 1e-5, 100000.0, 123456.0, 1234567.0, 1e15, 1e16, 1e17, 4503599627370497.5, 1e-300, -1e100, 3.4028234663852886e38, 16777217.0, 1000000.0})
      d(x);
    for (int e = -1074; e < 1024; e += 61) d(std::ldexp(1.0, e));
    boost::multiprecision::cpp_int one = 1;
    auto rat = [&](const std::string& n, const boost::multiprecision::cpp_rational& q) {
      c.push_back({n, K::FT(Q(q))});
      c.push_back({"-" + n, K::FT(Q(-q))});
    };
    using B = boost::multiprecision::cpp_rational;
    rat("1/3", B(1) / 3);
    rat("2/3", B(2) / 3);
    rat("2^53+1", B((one << 53) + 1));
    rat("1+2^-53", B((one << 53) + 1, one << 53));
    rat("1+2^-200", B((one << 200) + 1, one << 200));
    rat("1-2^-200", B((one << 200) - 1, one << 200));
    rat("2^-1080", B(1, one << 1080));
    rat("2^-1074*2/3", B(2, 3 * (one << 1074)));
    rat("2^-1022*2/3", B(2, 3 * (one << 1022)));
    rat("2^1000/7", B(one << 1000, 7));
    rat("2^1023*5/3", B((one << 1023) * 5, 3));
    c.push_back({"lazy 1/3*3", K::FT(1) / K::FT(3) * K::FT(3)});
    c.push_back({"lazy 1/3-1/3", K::FT(1) / K::FT(3) - K::FT(1) / K::FT(3)});
    c.push_back({"lazy 0.1*0.1", K::FT(0.1) * K::FT(0.1)});
    {
      K::FT x = 1;
      for (int i = 0; i < 40; ++i) x = x * K::FT(3) / K::FT(7) + K::FT(1) / K::FT(11);
      c.push_back({"a deep lazy number", x});
      for (int i = 0; i < 60; ++i) x = (x - K::FT(1) / K::FT(11)) * K::FT(7) / K::FT(3);
      c.push_back({"a deep lazy number of poor approximation", x});
    }
    return c;
  }();
  return r;
}

kmc::Space coordinate_space(std::shared_ptr<Scratch> scratch) {
  kmc::Space s;
  s.name = "coordinates";
  auto n = coordinates().size();
  s.size = n * n;
  s.run = [=](std::uint64_t id, kmc::Ctx& ctx) {
    auto& c = coordinates();
    Soup t;
    for (std::size_t k = 0; k < 8; ++k) {
      auto a = c[id / n].v, b = c[id % n].v, d = c[(id * 8 + k) % n].v;
      switch (k % 3) {
        case 0: t.add_vertex({a, b, d}); break;
        case 1: t.add_vertex({d, a, b}); break;
        case 2: t.add_vertex({b, d, a}); break;
      }
    }
    t.add_face({Vertex_index{0}, Vertex_index{1}, Vertex_index{2}});
    auto what = c[id / n].name + ", " + c[id % n].name;
    for (int st = 0; st < 4; ++st) {
      if (st == S_OBJ_NEG) continue;
      auto g = through({st}, t, id % 16 == 0 ? scratch.get() : nullptr, ctx, what);
      if (!g) return;
      auto d = compare(*g, t);
      if (!d.empty()) {
        ctx.fail("coordinates", std::string(style_name[st]) + ": " + d);
        return;
      }
      ctx.count("nontrivial");
      // What has been read is read again bit by bit.
      auto h = through({(st + 1) % 4}, *g, nullptr, ctx, what);
      if (!h) return;
      for (auto v : t.vertices())
        if (h->point(v) != g->point(v)) ctx.fail("coordinates", std::string("double coordinates change from ") + style_name[st] + " to " + style_name[(st + 1) % 4]);
    }
  };
  s.describe = [=](std::uint64_t id) { return "points of " + coordinates()[id / n].name + " and " + coordinates()[id % n].name; };
  return s;
}

// --- meshes ------------------------------------------------------------------------------------------------

// All lists of up to two faces over nv vertices, and conversions through all sequences of formats.
Soup small_soup(int nv, std::uint64_t code, int nf) {
  Soup s;
  for (int i = 0; i < nv; ++i) s.add_vertex({i * 0.5, i * i - 1.25, 1e-3 * i});
  for (int k = 0; k < nf; ++k) {
    kigumi::Face f;
    for (int j = 0; j < 3; ++j, code /= nv) f[j] = Vertex_index{code % nv};
    s.data(s.add_face(f)) = 5;
  }
  return s;
}
kmc::Space face_space(int nv, int nf, int len, std::shared_ptr<Scratch> scratch) {
  kmc::Space s;
  s.name = "faces" + std::to_string(nv) + "x" + std::to_string(nf);
  s.size = 1;
  for (int i = 0; i < 3 * nf; ++i) s.size *= std::max(nv, 1);
  s.run = [=](std::uint64_t id, kmc::Ctx& ctx) {
    auto t = small_soup(nv, id, nf);
    for (int l = 1; l <= len; ++l) {
      int n = 1 << (2 * l);
      for (int c = 0; c < n; ++c) {
        std::vector<int> seq;
        for (int i = 0; i < l; ++i) seq.push_back((c >> (2 * i)) & 3);
        std::string what = "a mesh of " + std::to_string(nv) + " vertices and " + std::to_string(nf) + " faces";
        for (bool file : {false, true}) {
          if (file && l > 1 && id % 64) continue;
          auto g = through(seq, t, file ? scratch.get() : nullptr, ctx, what, (c + l) % 2);
          if (!g) return;
          auto d = compare(*g, t);
          if (!d.empty()) {
            std::string q;
            for (int x : seq) q += std::string(" ") + style_name[x];
            ctx.fail("mesh", "through" + q + ": " + d);
            return;
          }
          if (nf > 0) ctx.count("nontrivial");
        }
      }
    }
    std::ostringstream o;
    put(S_PLY, o, t);
    ctx.outcome(o.str());
  };
  s.describe = [=](std::uint64_t id) {
    std::ostringstream o;
    put(S_OBJ, o, small_soup(nv, id, nf));
    return o.str();
  };
  return s;
}

// Numbers of vertices and faces with more and more digits, and a program that has chosen a locale that groups digits.
kmc::Space size_space(bool thorough, std::shared_ptr<Scratch> scratch) {
  kmc::Space s;
  s.name = "sizes";
  std::vector<int> sizes;
  for (int i = 0; i <= 40; ++i) sizes.push_back(i);
  for (int i : {99, 100, 101, 254, 255, 256, 257, 999, 1000, 1001, 4095, 4096, 9999, 10001, 32767, 32768, 65535, 65536, 70001}) sizes.push_back(i);
  if (thorough)
    for (int i : {99999, 100001, 131073, 262145, 1000001}) sizes.push_back(i);
  s.size = sizes.size() * 4 * 2;
  s.case_timeout_s = 200;
  s.run = [=](std::uint64_t id, kmc::Ctx& ctx) {
    int n = sizes[id / 8], st = static_cast<int>(id / 2 % 4);
    bool locale = id % 2;
    Soup t;
    for (int i = 0; i < n; ++i) t.add_vertex({i, -i, i * 0.001});
    for (int i = 0; i < n; ++i) t.add_face({Vertex_index(i), Vertex_index((i + n / 2) % n), Vertex_index(n - 1 - i)});
    std::locale old;
    if (locale) std::locale::global(std::locale(std::locale::classic(), new Grouping));
    auto f = scratch->dir + "/n" + std::to_string(getpid()) + ext(format_of(st));
    bool ok = put(st, f, t);
    std::locale::global(old);
    std::string what = std::to_string(n) + " vertices and faces" + (locale ? ", written and read under a locale that groups digits" : "");
    if (!ok) return ctx.fail("write", "writing " + what + " fails");
    auto text = slurp(f);
    {
      std::ostringstream o;
      put(st, o, t);
      if (o.str() != text) ctx.fail(locale ? "locale" : "file", std::string("a file (") + style_name[st] + ") of " + what + " is not what is written to a stream:\n" + show(text.substr(0, 300)));
    }
    // A file as other programs write it.
    {
      std::ofstream o;
      o.imbue(std::locale::classic());
      o.open(f);
      put(st, o, t);
    }
    if (locale) std::locale::global(std::locale(std::locale::classic(), new Grouping));
    Soup g;
    ok = kigumi::read_triangle_soup(f, g);
    std::locale::global(old);
    ::unlink(f.c_str());
    ctx.count("conversions");
    if (n > 0) ctx.count("nontrivial");
    if (!ok) return ctx.fail(locale ? "locale" : "read", "reading " + what + " fails");
    auto d = compare(g, t);
    if (!d.empty()) ctx.fail(locale ? "locale" : "mesh", std::string(style_name[st]) + ", " + what + ": " + d);
  };
  s.describe = [=](std::uint64_t id) { return std::to_string(sizes[id / 8]) + " vertices as " + style_name[id / 2 % 4] + (id % 2 ? " under a locale that groups digits" : ""); };
  return s;
}

}  // namespace

int main(int argc, char** argv) {
  bool thorough = kmc::tier_of(argc, argv) == "thorough";
  auto scratch = std::make_shared<Scratch>();
  kmc::Check c;
  c.property = "C12";
  c.rule =
      "an evaluation is one write and read of a mesh in one format; the mesh after every chain of conversions is compared vertex by "
      "vertex (exactly if the coordinate is a double, else a neighbouring double) and face by face; non-trivial: meshes with faces";
  c.assumptions = {"coordinates within the range of doubles, from the stated alphabet", "a program may have set a global locale; a stream handed in by the caller is used with the caller's locale"};
  c.evaluations_counter = "conversions";
  c.spaces = {coordinate_space(scratch), face_space(0, 0, thorough ? 5 : 4, scratch), face_space(1, 0, 3, scratch), face_space(5, 0, 3, scratch), face_space(1, 1, 3, scratch), face_space(3, 1, 3, scratch),
              face_space(4, 1, thorough ? 4 : 3, scratch), face_space(3, 2, thorough ? 3 : 2, scratch), face_space(4, 2, thorough ? 3 : 1, scratch), size_space(thorough, scratch)};
  return kmc::Driver(std::move(c), argc, argv).run();
}
