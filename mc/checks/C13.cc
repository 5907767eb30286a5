// C13: all spellings of a text mesh are read as the same mesh.
#define KMC_OWN_HARDWARE_CONCURRENCY
#include <iomanip>

#include "../io_ref.h"

using namespace ior;

namespace {

struct Poly {
  std::string name;
  std::vector<std::array<double, 3>> p;
  std::vector<std::vector<std::size_t>> f;
  Mesh mesh() const {
    Mesh m;
    m.p = p;
    for (auto& v : f) m.polygon(v);
    return m;
  }
};

std::vector<Poly> polys() {
  return {
      {"triangle", {{0, 0, 0}, {1.5, 0, 0}, {0, -0.25, 3e-5}}, {{0, 1, 2}}},
      {"quad", {{0.5, -2, 10}, {1, 0, 0}, {1, 1, 0.1}, {0, 1e22, 7}}, {{0, 1, 2, 3}, {3, 2, 0}}},
      {"mixed", {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0.5, 0.5, 1}, {123456.789, -1e-7, 4}}, {{0, 1, 4}, {0, 3, 2, 1}, {4, 3, 0, 1, 2}, {2, 3, 4}}},
      {"points", {{1, 2, 3}, {-4, 5.5, -6}}, {}},
      {"none", {}, {}},
  };
}

std::string fmt(const char* f, double v) {
  char b[64];
  std::snprintf(b, sizeof b, f, v);
  return b;
}

std::vector<std::string> spellings(double v) {
  std::ostringstream sh;
  for (int pr = 1; pr <= 17; ++pr) {
    auto t = fmt(("%." + std::to_string(pr) + "g").c_str(), v);
    if (std::strtod(t.c_str(), nullptr) == v) {
      sh << t;
      break;
    }
  }
  auto plain = sh.str();
  std::vector<std::string> r{plain, fmt("%.17g", v), fmt("%.17e", v), fmt("%.18E", v), fmt("%.25f", v)};
  if (r.back() == "" || std::strtod(r.back().c_str(), nullptr) != v) r.pop_back();
  if (v >= 0) r.push_back("+" + plain);
  if (plain.find_first_of(".e") == std::string::npos) {
    r.push_back(plain + ".");
    r.push_back(plain + ".0");
    r.push_back(plain + "e0");
    r.push_back(v < 0 ? "-0" + plain.substr(1) : "00" + plain);
  }
  if (plain.rfind("0.", 0) == 0) r.push_back(plain.substr(1));
  if (plain.rfind("-0.", 0) == 0) r.push_back("-" + plain.substr(2));
  if (v == 0) r.push_back("-0");
  return r;
}

const std::vector<std::string> separators{" ", "\t", "   ", " \t"};
const std::vector<std::string> leading{"", "  ", "\t"};
const std::vector<std::string> trailing{"", " ", "\t "};

struct Lines {
  std::string text, eol = "\n";
  void operator()(const std::string& s) { text += s + eol; }
};

std::string finish(Chooser& c, Lines& l) {
  // The last line may lack its end.
  if (c(2) && l.text.size() >= l.eol.size()) l.text.resize(l.text.size() - l.eol.size());
  return l.text;
}

std::string gen_obj(const Poly& m, Chooser& c) {
  Lines l;
  if (c(2)) l.eol = "\r\n";
  int interleave = c(2);
  auto junk = [&] {
    static const std::vector<std::string> j{"", "# comment", "\n", " \t", "#", "  # v 9 9 9", "vn 0 0 1", "vt 0.5 0.5", "g group 1", "o f 1 2 3", "s off",
                                            "usemtl v", "mtllib a b.mtl", "vp 1 2", "p 1", "l 1 2", "#f 1 1 1\\"};
    auto s = c.pick(j);
    if (!s.empty()) l(s == "\n" ? "" : s);
  };
  std::size_t nv = 0, nf = 0;
  auto vertex = [&] {
    auto& p = m.p[nv++];
    junk();
    auto s = c.pick(leading) + "v";
    for (double x : p) s += c.pick(separators) + c.pick(spellings(x));
    s += c.pick({"", " ", "\t", " 1.0", " 0.5 0.25 1", " # a vertex"});
    l(s);
  };
  auto face = [&] {
    auto& f = m.f[nf++];
    junk();
    auto s = c.pick(leading) + "f";
    int style = c(6);
    for (std::size_t i = 0; i < f.size(); ++i) {
      s += c.pick(separators);
      if (c(2)) s += "\\" + l.eol;  // continued on the next line
      auto pos = std::to_string(f[i] + 1), neg = "-" + std::to_string(nv - f[i]);
      int st = (style + (i == 1 ? c(6) : 0)) % 6;
      s += st == 0 ? pos : st == 1 ? pos + "/1" : st == 2 ? pos + "//2" : st == 3 ? pos + "/3/-1" : st == 4 ? neg : neg + "/-1/-2";
    }
    s += c.pick({"", " ", "\t", " # a face", "  #1 2 3"});
    l(s);
  };
  while (nv < m.p.size()) {
    vertex();
    if (interleave)
      while (nf < m.f.size() && *std::max_element(m.f[nf].begin(), m.f[nf].end()) < nv) face();
  }
  while (nf < m.f.size()) face();
  junk();
  return finish(c, l);
}

std::string gen_off(const Poly& m, Chooser& c) {
  Lines l;
  if (c(2)) l.eol = "\r\n";
  auto junk = [&] {
    static const std::vector<std::string> j{"", "# comment", "\n", " \t ", "#", "\t# 1 2 3"};
    auto s = c.pick(j);
    if (!s.empty()) l(s == "\n" ? "" : s);
  };
  auto tail = [&] { return c.pick({"", " ", "\t", " # remark", "#"}); };
  junk();
  int kind = c(7);
  static const char* heads[] = {"OFF", "COFF", "NOFF", "STOFF", "CNOFF", "STCNOFF", "STNOFF"};
  static const char* extra[] = {"", " 255 0 0 255", " 0 0 1", " 0.5 0.5", " 0 0 1 255 0 0 255", " 0 0 1 1 0 0 1 0.5 0.5", " 0 1 0 0.5 0.25"};
  {
    auto t = tail();
    l(c.pick(leading) + heads[kind] + (t == "#" ? " #" : t));
  }
  junk();
  {
    auto sep = c.pick(separators);
    auto t = tail();
    l(c.pick(leading) + std::to_string(m.p.size()) + sep + std::to_string(m.f.size()) + sep + c.pick({"0", "7", "12"}) + t);
  }
  for (auto& p : m.p) {
    junk();
    auto s = c.pick(leading);
    for (int k = 0; k < 3; ++k) s += (k ? c.pick(separators) : "") + c.pick(spellings(p[k]));
    auto t = tail();
    l(s + extra[kind] + (t == "#" ? " #" : t));
  }
  for (auto& f : m.f) {
    junk();
    auto s = c.pick(leading) + std::to_string(f.size());
    for (auto v : f) s += c.pick(separators) + std::to_string(v);
    l(s + c.pick({"", " 3", " 255 0 0", " 0.1 0.2 0.3", " 1 0 0 1", "  "}) + c.pick({"", " # face", " #"}));
  }
  junk();
  junk();
  return finish(c, l);
}

std::string gen_ply(const Poly& m, Chooser& c) {
  Lines l;
  if (c(2)) l.eol = "\r\n";
  auto comment = [&] {
    static const std::vector<std::string> j{"", "comment made by hand", "comment", "comment element vertex 99", "\n"};
    auto s = c.pick(j);
    if (!s.empty()) l(s == "\n" ? "" : s);
  };
  auto line = [&](const std::string& s) {  // a header line
    std::string t;
    auto sep = c.pick({" ", "  ", "\t"});
    for (char ch : s) t += ch == ' ' ? sep : std::string(1, ch);
    l(t + c.pick(trailing));
    comment();
  };
  line("ply");
  line("format ascii 1.0");
  auto ft = c.pick({"float", "double", "float32", "float64"});
  struct Prop {
    std::string decl, value;
  };
  static const std::vector<Prop> extras{{"", ""}, {"property uchar red", "255"}, {"property float nx", "-0.5e-3"}, {"property list uchar int items", "3 7 8 9"}, {"property list int float empty", "0"},
                                        {"property double w", "1"}};
  int order = c(3);
  static const int perms[3][3] = {{0, 1, 2}, {2, 1, 0}, {1, 2, 0}};
  // What stands before, between and after the coordinates.
  std::array<Prop, 4> vx;
  for (auto& e : vx) e = extras[c(static_cast<int>(extras.size()))];
  std::array<Prop, 2> fx;
  for (auto& e : fx) e = extras[c(static_cast<int>(extras.size()))];
  int face_first = c(2);
  // Other elements at three places: header lines and body lines.
  struct Elem {
    std::vector<std::string> head, body;
  };
  static const std::vector<Elem> others{{{}, {}},
                                        {{"element edge 2", "property int vertex1", "property int vertex2"}, {"0 1", "1 2"}},
                                        {{"element camera 0", "property float view"}, {}},
                                        {{"element strip 1", "property list int int vertex_indices"}, {"4 0 1 2 3"}},
                                        {{"element vertices 1", "property float x"}, {"9"}},
                                        {{"element material 2", "property float x", "property float y", "property float z"}, {"7 7 7", "8 8 8"}}};
  std::array<Elem, 3> ot;
  for (auto& e : ot) e = others[c(static_cast<int>(others.size()))];
  auto ln = c.pick({"property list uchar int vertex_index", "property list uchar int vertex_indices", "property list int uint vertex_index", "property list uint8 int32 vertex_indices",
                    "property list ushort ushort vertex_index"});
  auto head_other = [&](int i) {
    for (auto& s : ot[i].head) line(s);
  };
  auto head_vertex = [&] {
    line("element vertex " + std::to_string(m.p.size()));
    for (int k = 0; k < 4; ++k) {
      if (!vx[k].decl.empty()) line(vx[k].decl + "_" + std::to_string(k));
      if (k < 3) line("property " + ft + " " + std::string(1, static_cast<char>('x' + perms[order][k])));
    }
  };
  auto head_face = [&] {
    line("element face " + std::to_string(m.f.size()));
    if (!fx[0].decl.empty()) line(fx[0].decl + "_a");
    line(ln);
    if (!fx[1].decl.empty()) line(fx[1].decl + "_b");
  };
  head_other(0);
  face_first ? head_face() : head_vertex();
  head_other(1);
  face_first ? head_vertex() : head_face();
  head_other(2);
  l("end_header" + c.pick(trailing));
  auto body_other = [&](int i) {
    for (auto& s : ot[i].body) l(c.pick(leading) + s);
  };
  auto blank = [&] {
    if (c(2)) l("");
  };
  auto body_vertex = [&] {
    for (auto& p : m.p) {
      blank();
      auto s = c.pick(leading);
      for (int k = 0; k < 4; ++k) {
        if (!vx[k].value.empty()) s += vx[k].value + " ";
        if (k < 3) s += c.pick(spellings(p[perms[order][k]])) + c.pick(separators);
      }
      l(s);
    }
  };
  auto body_face = [&] {
    for (auto& f : m.f) {
      blank();
      auto s = c.pick(leading);
      if (!fx[0].value.empty()) s += fx[0].value + " ";
      s += std::to_string(f.size());
      for (auto v : f) s += c.pick(separators) + std::to_string(v);
      if (!fx[1].value.empty()) s += " " + fx[1].value;
      l(s + c.pick(trailing));
    }
  };
  body_other(0);
  face_first ? body_face() : body_vertex();
  body_other(1);
  face_first ? body_vertex() : body_face();
  body_other(2);
  blank();
  blank();
  return finish(c, l);
}

std::string generate(int format, const Poly& m, Chooser& c) { return format == OBJ ? gen_obj(m, c) : format == OFF ? gen_off(m, c) : gen_ply(m, c); }

}  // namespace

int main(int argc, char** argv) {
  bool thorough = kmc::tier_of(argc, argv) == "thorough";
  kmc::Check c;
  c.property = "C13";
  c.rule =
      "an evaluation is one text: a file generated from known polygons with at most the stated number of deviations from the plain "
      "spelling (white space, line ends, comments, blank lines, number spelling, index style, extra elements, properties and "
      "keywords); what is read must be exactly the polygons' fans; non-trivial: at least one deviation";
  c.assumptions = {"one element per line, as all three formats are conventionally written", "five meshes: a triangle, quads, mixed polygons, points only, nothing"};
  c.evaluations_counter = "files";
  auto ms = std::make_shared<std::vector<Poly>>(polys());
  auto scratch = std::make_shared<Scratch>();
  for (int f : {OBJ, OFF, PLY})
    for (std::size_t mi = 0; mi < ms->size(); ++mi) {
      auto& m = (*ms)[mi];
      int bound = mi == 2 && !thorough ? 1 : thorough && mi != 2 && mi != 1 ? 3 : 2;
      auto gen = [f, ms, mi](Chooser& ch) { generate(f, (*ms)[mi], ch); };
      auto table = std::make_shared<Table>(gen, bound);
      c.bounds[std::string(ext(f) + 1) + "-" + m.name] = std::to_string(bound) + " deviations";
      kmc::Space s;
      s.name = std::string(ext(f) + 1) + "-" + m.name;
      const std::size_t chunk = 16;
      s.size = (table->v.size() + chunk - 1) / chunk;
      auto text = [=](std::uint64_t i) {
        Chooser ch{table->v[i]};
        return generate(f, (*ms)[mi], ch);
      };
      s.run = [=](std::uint64_t id, kmc::Ctx& ctx) {
        auto want = (*ms)[mi].mesh();
        for (auto i = id * chunk; i < std::min<std::size_t>((id + 1) * chunk, table->v.size()); ++i) {
          auto t = text(i);
          ctx.count("files");
          if (!table->v[i].empty()) ctx.count("nontrivial");
          ctx.outcome(t);
          auto test = [&](bool ok, const Soup& got, const char* how) {
            if (!ok) {
              ctx.fail("rejected", std::string("a valid file is rejected (") + how + "):\n" + show(t));
              return;
            }
            auto d = differs(got, want);
            if (!d.empty()) ctx.fail("misread", d + " (" + how + "):\n" + show(t));
          };
          try {
            // What the target holds before must not matter.
            Soup got = i % 2 ? soup_of(Mesh{{{9, 9, 9}, {8, 8, 8}, {7, 7, 9}}, {{0, 1, 2}}}) : Soup{};
            std::istringstream is{t};
            bool ok = read(f, is, got);
            test(ok, got, "stream");
            if (table->v[i].size() < 2) {
              auto file = scratch->put("f" + std::to_string(getpid()) + ext(f), t);
              Soup g2;
              bool ok2 = kigumi::read_triangle_soup(file, g2);
              test(ok2, g2, "file");
            }
          } catch (const std::exception& e) {
            ctx.fail("exception", std::string("threw ") + e.what() + ":\n" + show(t));
          }
        }
      };
      s.describe = [=](std::uint64_t id) { return "texts " + std::to_string(id * chunk) + "...: " + text(id * chunk); };
      c.spaces.push_back(s);
    }
  kmc::g_hardware_concurrency = 1;
  return kmc::Driver(std::move(c), argc, argv).run();
}
