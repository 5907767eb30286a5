// C23: the command-line tool does what it reports.
//
// The tool is built from /repo/cli (its path comes in KMC_CLI) and run in a scratch directory; exit status,
// messages, printed lines and written files are compared with an independent reading of the arguments.
#define KMC_OWN_HARDWARE_CONCURRENCY
#include <kigumi/Find_defects.h>

#include <dirent.h>

#include "../geom.h"
#include "../io_ref.h"
#include "../zoo.h"

using namespace geom;

namespace {

using Null_region = kigumi::Region<K>;
using Null_soup = kigumi::Triangle_soup<K>;

std::string cli() {
  auto* p = std::getenv("KMC_CLI");
  return p ? p : "/tmp/w/kigumi-cli";
}

// ---------------------------------------------------------------------------------------------------
// Operands.

struct Operand {
  std::string name;  // the argument
  bool readable;
  Shape shape;     // special >= 0: empty or full
  bool solid = true;  // the set oracle applies
};

Shape sheet() {  // cuts into the cube [0,2]^3 but not through it
  Shape s;
  s.name = "sheet";
  s.p = {{-1, -1, 1}, {1, -1, 1}, {1, 1, 1}, {-1, 1, 1}};
  s.f = {{0, 1, 2}, {0, 2, 3}};
  return s;
}
Shape twisted() {
  Shape s = moved(voxels(1, 1, 1, 1, 0), {}, 2);
  s.name = "cube with a flipped face";
  std::swap(s.f[0][1], s.f[0][2]);
  return s;
}

std::vector<Operand> make_operands() {
  std::vector<Operand> r;
  auto cube = moved(voxels(1, 1, 1, 1, 0), {}, 2);
  r.push_back({"../in/a.off", true, cube});
  r.push_back({"../in/b.obj", true, moved(voxels(1, 1, 1, 1, 1), {1, 1, 1}, 2)});
  Shape tet;
  tet.name = "tetrahedron";
  tet.p = {{-1, 0, 0}, {3, 0, 0}, {-1, 4, 0}, {-1, 0, 4}};
  tet.f = {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}};
  r.push_back({"../in/c.ply", true, tet});
  r.push_back({"../in/k.kigumi", true, moved(voxels(0b1101, 2, 2, 1, 0), {0.5, 0, -0.5}, 1)});
  r.push_back({"../in/same.ply", true, moved(voxels(1, 1, 1, 1, 1), {}, 2)});
  r.push_back({"../in/inv.off", true, inverted(cube)});
  r.push_back({"../in/e.kigumi", true, empty_shape()});
  r.push_back({"../in/f.kigumi", true, full_shape()});
  r.push_back({":empty:", true, empty_shape()});
  r.push_back({":full:", true, full_shape()});
  r.push_back({"../in/sheet.off", true, sheet(), false});
  r.push_back({"../in/twisted.off", true, twisted(), false});
  for (auto* n : {"../in/missing.off", "../in/bad.off", "../in/bad.obj", "../in/bad.ply", "../in/cut.kigumi", "../in/noface.obj", "../in/x.stl", "../in/dir.off", "../in/dir.kigumi", "", ":Empty:", ":full"}) {
    Operand o;
    o.name = n;
    o.readable = false;
    r.push_back(o);
  }
  return r;
}
const std::vector<Operand>& operands() {
  static auto r = make_operands();
  return r;
}
const Operand* find(const std::string& n) {
  for (auto& o : operands())
    if (o.name == n) return &o;
  return nullptr;
}

// Files are written here by hand (not by the library).
std::string text_of(const Shape& s, const std::string& name) {
  std::ostringstream o;
  o.precision(17);
  if (name.ends_with(".off")) {
    o << "OFF\n" << s.p.size() << ' ' << s.f.size() << " 0\n";
    for (auto& v : s.p) o << v.x << ' ' << v.y << ' ' << v.z << '\n';
    for (auto& f : s.f) o << "3 " << f[0] << ' ' << f[1] << ' ' << f[2] << '\n';
  } else if (name.ends_with(".obj")) {
    for (auto& v : s.p) o << "v " << v.x << ' ' << v.y << ' ' << v.z << '\n';
    for (auto& f : s.f) o << "f " << f[0] + 1 << ' ' << f[1] + 1 << ' ' << f[2] + 1 << '\n';
  } else if (name.ends_with(".ply")) {
    o << "ply\nformat ascii 1.0\nelement vertex " << s.p.size() << "\nproperty double x\nproperty double y\nproperty double z\nelement face " << s.f.size()
      << "\nproperty list uchar int vertex_indices\nend_header\n";
    for (auto& v : s.p) o << v.x << ' ' << v.y << ' ' << v.z << '\n';
    for (auto& f : s.f) o << "3 " << f[0] << ' ' << f[1] << ' ' << f[2] << '\n';
  } else {
    Null_region r = s.special == 0 ? Null_region::empty() : s.special == 1 ? Null_region::full() : [&] {
      Null_soup t;
      for (auto& v : s.p) t.add_vertex({v.x, v.y, v.z});
      for (auto& f : s.f) t.add_face({Vertex_index(f[0]), Vertex_index(f[1]), Vertex_index(f[2])});
      return Null_region{t};
    }();
    kigumi::kigumi_write<Null_region>(o, r);
  }
  return o.str();
}

struct Case_defects {
  std::string name;
  Shape shape;
};
std::vector<Case_defects> make_defect_cases() {
  std::vector<Case_defects> r;
  auto add = [&](std::string n, std::vector<V3> p, std::vector<std::array<int, 3>> f) {
    Shape s;
    s.name = n, s.p = std::move(p), s.f = std::move(f);
    r.push_back({"../in/" + n + ".off", s});
  };
  V3 o{0, 0, 0}, x{2, 0, 0}, y{0, 2, 0}, z{0, 0, 2};
  add("d-open", {o, x, y}, {{0, 1, 2}});
  add("d-isolated", {o, x, y, z, {5, 5, 5}, {6, 6, 6}}, {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}});
  add("d-inconsistent", {o, x, y, z}, {{0, 1, 2}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}});
  add("d-non-manifold", {o, x, y, z, {1, -1, 0}}, {{0, 1, 2}, {0, 1, 3}, {1, 0, 4}});
  add("d-degenerate", {o, x, y, z, {1, 0, 0}}, {{0, 1, 2}, {0, 0, 1}, {0, 4, 1}});
  add("d-overlap", {o, x, y, {0.5, 0.5, -1}, {0.5, 0.5, 1}, {3, 3, 1}}, {{0, 1, 2}, {3, 4, 5}});
  add("d-bow-tie", {o, x, y, {-2, 0, 0}, {0, -2, 0}}, {{0, 1, 2}, {0, 3, 4}});
  add("d-all", {o, x, y, z, {1, 0, 0}, {9, 9, 9}, {0.5, 0.5, -1}, {0.5, 0.5, 1}, {3, 3, 1}, {1, -1, 0}},
      {{0, 1, 2}, {0, 1, 3}, {1, 0, 9}, {0, 0, 1}, {0, 4, 1}, {6, 7, 8}});
  Shape v = voxels(0x96, 2, 2, 2, 2);
  r.push_back({"../in/d-voxels.obj", v});
  v = voxels(0b1001, 2, 2, 1, 0);
  r.push_back({"../in/d-edge.ply", v});
  return r;
}
const std::vector<Case_defects>& defect_cases() {
  static auto r = make_defect_cases();
  return r;
}

// ---------------------------------------------------------------------------------------------------
// Running the tool.

struct World {
  ior::Scratch scratch;
  std::string in, out;
  World() {
    in = scratch.dir + "/in", out = scratch.dir + "/out";
    mkdir(in.c_str(), 0777);
    for (auto& o : operands())
      if (o.readable && o.name.starts_with("../in/")) put(o.name, text_of(o.shape, o.name));
    for (auto& d : defect_cases()) put(d.name, text_of(d.shape, d.name));
    put("../in/bad.off", "OFF\n4 4 0\n0 0 0\n1 0 zebra\n0 1 0\n0 0 1\n3 0 2 1\n3 0 1 3\n3 1 2 3\n3 2 0 3\n");
    put("../in/bad.obj", "v 0 0 0\nv 1 0 0\nv 0 1 0\nf 1 2 9\n");
    put("../in/bad.ply", "ply\nformat ascii 1.0\nelement vertex 3\n");
    put("../in/noface.obj", "v 0 0 0\nv 1 0 0\nv 0 1 0\n");
    put("../in/x.stl", "solid x\nendsolid x\n");
    auto k = text_of(operands()[3].shape, "k.kigumi");
    put("../in/cut.kigumi", k.substr(0, k.size() - 5));
    mkdir((in + "/dir.off").c_str(), 0777);
    mkdir((in + "/dir.kigumi").c_str(), 0777);
  }
  void put(const std::string& rel, const std::string& text) { scratch.put(rel.substr(3), text); }
  void fresh_out() {
    if (auto* d = opendir(out.c_str())) {
      while (auto* e = readdir(d)) {
        std::string n = e->d_name;
        if (n != "." && n != "..") ::remove((out + "/" + n).c_str());
      }
      closedir(d);
    }
    mkdir(out.c_str(), 0777);
    for (auto* e : {"off", "obj", "ply", "kigumi"}) {
      (void)!symlink("/dev/full", (out + "/full." + e).c_str());
      mkdir((out + "/dir." + e).c_str(), 0777);
    }
  }
};
World& world() {
  static World w;
  return w;
}

enum Stdout { PIPE, FULL, CLOSED };
struct Result {
  int status = -1;  // exit status, or 128 + signal
  std::string out, err;
};

Result run_tool(const std::vector<std::string>& args, Stdout so = PIPE, long fsize = -1) {
  auto& w = world();
  auto o = w.scratch.dir + "/stdout", e = w.scratch.dir + "/stderr";
  auto exe = cli();
  std::vector<char*> argv;
  argv.push_back(const_cast<char*>("kigumi"));
  for (auto& a : args) argv.push_back(const_cast<char*>(a.c_str()));
  argv.push_back(nullptr);
  int fo = open(o.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0666), fe = open(e.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0666);
  auto pid = fork();
  if (pid == 0) {
    if (chdir(w.out.c_str()) != 0) _exit(126);
    int nul = open("/dev/null", O_RDONLY);
    dup2(nul, 0);
    if (so == FULL) fo = open("/dev/full", O_WRONLY);
    dup2(fe, 2);
    if (so == CLOSED) close(1);
    else dup2(fo, 1);
    for (int i = 3; i < 64; ++i) close(i);
    signal(SIGXFSZ, SIG_IGN);
    signal(SIGPIPE, SIG_DFL);
    if (fsize >= 0) {
      rlimit l{static_cast<rlim_t>(fsize), static_cast<rlim_t>(fsize)};
      setrlimit(RLIMIT_FSIZE, &l);
    }
    alarm(60);
    execv(exe.c_str(), argv.data());
    _exit(127);
  }
  Result r;
  int st = 0;
  waitpid(pid, &st, 0);
  r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
  close(fo), close(fe);
  r.out = ior::slurp(o), r.err = ior::slurp(e);
  if (r.status == 126 || r.status == 127) throw std::runtime_error("cannot run the tool");
  return r;
}

// ---------------------------------------------------------------------------------------------------
// What should happen.

struct Plan {
  enum { OK, ERROR, OPEN } parse = OK;  // OPEN: the reading of the arguments is not settled by the documentation
  std::string command;
  std::map<std::string, std::string> opt;
};

Plan read_args(const std::vector<std::string>& a) {
  Plan p;
  auto error = [&] { return p.parse = p.parse == Plan::OPEN ? Plan::OPEN : Plan::ERROR, p; };
  if (a.empty()) return error();
  p.command = a[0];
  std::vector<std::string> pos, names;
  if (p.command == "boolean") pos = {"first", "second"}, names = {"first", "second", "int", "uni", "dif", "sym"};
  else if (p.command == "convert") pos = {"in", "out"}, names = pos;
  else if (p.command == "defects") pos = {"in"}, names = pos;
  else return error();
  std::vector<std::string> given;
  bool bad = false;
  for (std::size_t i = 1; i < a.size(); ++i) {
    auto& t = a[i];
    if (t.starts_with("--") && t.size() > 2) {
      auto eq = t.find('=');
      auto n = t.substr(2, eq == std::string::npos ? eq : eq - 2);
      if (std::find(names.begin(), names.end(), n) == names.end()) {
        bad = true;
        for (auto& m : names)
          if (m.starts_with(n)) p.parse = Plan::OPEN;  // abbreviations
        continue;
      }
      std::string v;
      if (eq != std::string::npos) {
        v = t.substr(eq + 1);
        if (v.empty()) p.parse = Plan::OPEN;
      } else if (i + 1 < a.size()) {
        v = a[++i];
        if (v.starts_with("-")) bad = true, p.parse = Plan::OPEN;  // an option as a value
        if (v.empty()) p.parse = Plan::OPEN;
      } else {
        bad = true;
      }
      if (p.opt.count(n)) p.parse = Plan::OPEN;  // given twice
      p.opt[n] = v;
    } else if (t.starts_with("-") || t.empty()) {
      p.parse = Plan::OPEN;
      given.push_back(t);
    } else {
      given.push_back(t);
    }
  }
  for (std::size_t i = 0; i < given.size(); ++i) {
    if (i >= pos.size()) {
      bad = true;
      break;
    }
    if (p.opt.count(pos[i])) p.parse = Plan::OPEN;  // given both ways
    p.opt[pos[i]] = given[i];
  }
  for (auto& n : pos)
    if (!p.opt.count(n)) bad = true;
  if (bad) return error();
  return p;
}

bool good_output(const std::string& f) {
  if (f.find('/') != std::string::npos || f.starts_with("full.") || f.starts_with("dir.")) return false;
  for (auto* e : {".off", ".obj", ".ply", ".kigumi"})
    if (f.ends_with(e)) return true;
  return false;
}

// The file as a region with integer data; error text otherwise.
std::optional<Region> load(const std::string& rel, std::string& error) {
  auto path = world().out + "/" + rel;
  Null_soup s;
  if (rel.ends_with(".kigumi")) {
    std::ifstream f(path, std::ios::binary);
    Null_region r;
    try {
      kigumi::kigumi_read<Null_region>(f, r);
    } catch (const std::exception& e) {
      error = e.what();
      return {};
    }
    if (f.peek() != EOF) {
      error = "trailing bytes";
      return {};
    }
    if (r.is_empty()) return Region::empty();
    if (r.is_full()) return Region::full();
    s = r.boundary();
  } else {
    std::ostringstream sink;
    auto* old = std::cerr.rdbuf(sink.rdbuf());
    bool ok = kigumi::read_triangle_soup<K, kigumi::Null_data>(path, s);
    std::cerr.rdbuf(old);
    if (!ok) {
      error = "it cannot be read";
      return {};
    }
    if (s.num_faces() == 0) return Region::empty();
  }
  Soup t;
  for (auto vi : s.vertices()) t.add_vertex(s.point(vi));
  for (auto fi : s.faces()) t.add_face(s.face(fi));
  return Region{t};
}

struct Pair_facts {
  bool fails = false;      // the computation as such
  bool inconsistent = false;  // the warnings may depend on the schedule
  bool op_fails[16] = {}, nothing[16] = {};  // asking an operator
  kigumi::Warnings w{};
  std::unique_ptr<Pair_oracle> oracle;
};
const Pair_facts& facts(const Operand& a, const Operand& b) {
  static std::map<std::pair<std::string, std::string>, Pair_facts> memo;
  auto [it, ins] = memo.try_emplace({a.name, b.name});
  auto& f = it->second;
  if (!ins) return f;
  f.inconsistent = a.shape.name == twisted().name || b.shape.name == twisted().name;
  std::ostringstream sink;
  auto* old = std::cout.rdbuf(sink.rdbuf());
  if (a.solid && b.solid) f.oracle = std::make_unique<Pair_oracle>(a.shape, b.shape);
  try {
    Builder x{region_of(a.shape), region_of(b.shape)};
    f.w = x.warnings();
    for (int o = 0; o < 16; ++o) {
      try {
        f.nothing[o] = x(static_cast<Op>(o)).is_empty_or_full();
      } catch (const std::exception&) {
        f.op_fails[o] = true;
      }
    }
  } catch (const std::exception&) {
    f.fails = true;
  }
  std::cout.rdbuf(old);
  return f;
}

std::string quoted(const std::vector<std::string>& a) {
  std::string s = "kigumi";
  for (auto& x : a) s += " '" + x + "'";
  return s;
}

std::string join(const std::string& t) { return ior::show(t.substr(0, 400)); }

void check_run(const std::vector<std::string>& args, kmc::Ctx& ctx, Stdout so = PIPE) {
  auto& w = world();
  auto p = read_args(args);
  for (auto* n : {"int", "uni", "dif", "sym", "out"})
    if (p.opt.count(n) && p.opt[n].starts_with("../in/")) return;  // would overwrite an operand
  w.fresh_out();
  auto r = run_tool(args, so);
  ctx.count("runs");
  ctx.outcome(std::to_string(r.status) + r.err.substr(0, 60));
  if (p.parse == Plan::OPEN) {  // an operand may have been taken as an output
    w.put(operands()[0].name, text_of(operands()[0].shape, operands()[0].name));
    ::remove((w.in + "/missing.off").c_str());
  }
  std::string where = quoted(args) + (so == FULL ? " with a full standard output" : so == CLOSED ? " with a closed standard output" : "");
  auto fail = [&](const std::string& key, const std::string& t) { ctx.fail(key, where + ": " + t + " (status " + std::to_string(r.status) + ", messages: " + join(r.err) + ")"); };
  if (r.status >= 128) return fail("crash", "the tool crashes or hangs");
  if (r.status != 0 && r.err.empty()) fail("silent", "fails without a message");
  for (auto& o : operands())
    if (o.readable && o.name.starts_with("../in/") && !w.scratch.dir.empty())
      if (std::find(args.begin(), args.end(), o.name) != args.end() && ior::slurp(w.scratch.dir + "/" + o.name.substr(3)) != text_of(o.shape, o.name)) fail("input", "an input was changed");
  if (p.parse == Plan::ERROR) {
    if (r.status == 0) fail("accepted", "unusable arguments are accepted");
    ctx.count("nontrivial");
    return;
  }
  if (p.parse == Plan::OPEN) return;
  ctx.count("nontrivial");
  bool expect_ok = true;
  std::vector<std::pair<std::string, std::function<std::string(const Region&)>>> outputs;
  auto match = [](const Shape& s) {
    return [s](const Region& g) -> std::string {
      if (s.special >= 0) return g.is_empty_or_full() ? "" : "it is not empty or full";
      auto want = region_of(s);
      for (auto fi : want.boundary().faces()) want.boundary_unsafe().data(fi) = 0;
      return fingerprint(g) == fingerprint(want) ? "" : "it is not the mesh that was read";
    };
  };
  std::vector<std::string> lines;
  bool check_lines = false;
  if (p.command == "boolean") {
    auto *a = find(p.opt["first"]), *b = find(p.opt["second"]);
    if (!a || !b || !a->readable || !b->readable) {
      expect_ok = false;
    } else {
      auto& f = facts(*a, *b);
      if (f.fails) expect_ok = false;
      static const std::pair<const char*, Op> ops[] = {{"int", Op::INTERSECTION}, {"uni", Op::UNION}, {"dif", Op::DIFFERENCE}, {"sym", Op::SYMMETRIC_DIFFERENCE}};
      std::set<std::string> names;
      bool twice = false;
      for (auto& [n, op] : ops) {
        if (!p.opt.count(n)) continue;
        auto file = p.opt[n];
        if (file == "full.obj" && f.nothing[static_cast<int>(op)]) return;  // no bytes to write: either
        if (f.op_fails[static_cast<int>(op)] || !good_output(file)) expect_ok = false;
        twice = twice || !names.insert(file).second;
        auto o = op;
        bool text = !file.ends_with(".kigumi");
        outputs.emplace_back(file, [&f, o, text](const Region& g) -> std::string {
          if (!f.oracle) return {};
          // A text file cannot tell the empty set from the universe.
          if (text && g.is_empty_or_full()) return f.oracle->check(o, Region::empty()) && f.oracle->check(o, Region::full()) ? "it is empty" : "";
          if (auto v = f.oracle->check(o, g)) return v.text;
          return {};
        });
      }
      if (twice) outputs.clear();
      if (expect_ok && r.status == 0 && !f.inconsistent) {
        using W = kigumi::Warnings;
        bool w1 = (f.w & W::FIRST_MESH_PARTIALLY_INTERSECTS_WITH_SECOND_MESH) != W::NONE, w2 = (f.w & W::SECOND_MESH_PARTIALLY_INTERSECTS_WITH_FIRST_MESH) != W::NONE;
        if (w1 != (r.err.find("first mesh partially intersects") != std::string::npos) || w2 != (r.err.find("second mesh partially intersects") != std::string::npos))
          fail("warnings", "the warnings are not the computation's");
      }
    }
  } else if (p.command == "convert") {
    auto* a = find(p.opt["in"]);
    auto out = p.opt["out"];
    if (a && a->readable && a->shape.special >= 0 && out == "full.obj") return;  // no bytes to write: either
    if (!a || !a->readable || !good_output(out)) expect_ok = false;
    else if (out.ends_with(".kigumi") && a->shape.special >= 0) {
      bool full = a->shape.special == 1;
      outputs.emplace_back(out, [full](const Region& g) -> std::string { return (full ? g.is_full() : g.is_empty()) ? "" : "it is not the set that was read"; });
    } else {
      outputs.emplace_back(out, match(a->shape));
    }
  } else {
    auto in = p.opt["in"];
    const Shape* s = nullptr;
    if (auto* a = find(in)) {
      if (a->readable) s = &a->shape;
    } else {
      for (auto& d : defect_cases())
        if (d.name == in) s = &d.shape;
    }
    if (!s) {
      expect_ok = false;
    } else {
      check_lines = true;
      auto soup = s->special >= 0 ? Soup{} : soup_of(*s);
      kigumi::Find_defects<K, int> d{soup};
      auto line = [&](std::size_t n, const char* what) {
        if (n != 0) lines.push_back(std::to_string(n) + " " + what);
      };
      line(d.isolated_vertices().size(), "isolated vertices");
      line(d.non_manifold_vertices().size(), "non-manifold vertices");
      line(d.boundary_edges().size(), "boundary edges");
      line(d.inconsistent_edges().size(), "inconsistent edges");
      line(d.non_manifold_edges().size(), "non-manifold edges");
      line(d.trivial_degenerate_faces().size(), "trivial degenerate faces");
      line(d.non_trivial_degenerate_faces().size(), "non-trivial degenerate faces");
      line(d.overlapping_faces().size(), "overlapping faces");
      if (so != PIPE && !lines.empty()) expect_ok = false;
      if (so != PIPE && lines.empty() && r.status != 0) return;  // either
    }
  }
  if (r.status == 0 && !expect_ok) return fail("false success", "success is reported");
  if (r.status != 0 && expect_ok) return fail("false failure", "failure is reported");
  if (!expect_ok) return;
  for (auto& [file, judge] : outputs) {
    std::string error;
    auto g = load(file, error);
    if (!g) fail("bad output", "the output " + file + " is reported as written, but " + error);
    else if (auto t = judge(*g); !t.empty()) fail("wrong output", "the output " + file + " is wrong: " + t);
  }
  if (check_lines && so == PIPE) {
    std::vector<std::string> got;
    std::istringstream in{r.out};
    for (std::string l; std::getline(in, l);) got.push_back(l);
    auto want = lines;
    std::sort(got.begin(), got.end()), std::sort(want.begin(), want.end());
    if (got != want) fail("defects", "prints " + join(r.out));
  }
}

// Writing stops at a byte.
void check_limit(const std::vector<std::string>& args, const std::string& file, long limit, kmc::Ctx& ctx) {
  world().fresh_out();
  auto full = run_tool(args);
  auto size = static_cast<long>(ior::slurp(world().out + "/" + file).size());
  ctx.count("runs");
  if (full.status != 0 || size == 0) return ctx.fail("limit", quoted(args) + ": fails without a limit");
  // Every byte of the output, in strides over the cases.
  for (long at = limit; at < size; at += 16) {
    world().fresh_out();
    auto r = run_tool(args, PIPE, at);
    ctx.count("runs"), ctx.count("nontrivial");
    if (r.status == 0) ctx.fail("cut off", quoted(args) + ": success is reported although the output could not grow beyond " + std::to_string(at) + " bytes");
    else if (r.status < 128 && at > 300 && r.err.empty()) ctx.fail("silent", quoted(args) + ": fails without a message");
    else if (r.status >= 128) ctx.fail("crash", quoted(args) + ": crashes when the output cannot grow beyond " + std::to_string(at) + " bytes");
  }
}

using Args = std::vector<std::string>;

}  // namespace

int main(int argc, char** argv) {
  bool thorough = kmc::tier_of(argc, argv) == "thorough";
  kmc::Check c;
  c.property = "C23";
  c.rule =
      "every pair of operands (each format, the special names, complements, open and inconsistent meshes, a dozen unreadable ones) x every "
      "output option and format; pairs of outputs over good and unwritable files; every conversion; every defect report with a working, full and "
      "closed standard output; every sequence of up to " + std::to_string(thorough ? 5 : 4) + " arguments over an alphabet; every byte at which an output can stop growing";
  c.assumptions = {"abbreviated, repeated and empty options may be accepted or refused", "a text file of no faces stands for the empty set or the universe"};
  c.evaluations_counter = "runs";
  auto list = std::make_shared<std::vector<Args>>();
  auto add_space = [&](const std::string& name, std::shared_ptr<std::vector<Args>> l, Stdout so = PIPE) {
    kmc::Space s;
    s.name = name;
    s.size = l->size();
    s.run = [l, so](std::uint64_t id, kmc::Ctx& ctx) { check_run((*l)[id], ctx, so); };
    s.describe = [l](std::uint64_t id) { return quoted((*l)[id]); };
    c.spaces.push_back(std::move(s));
  };
  const std::vector<std::string> good{"o.off", "o.obj", "o.ply", "o.kigumi"}, bad{"none/o.off", "none/o.kigumi", "full.off", "full.obj", "full.ply", "full.kigumi", "dir.off", "dir.kigumi", "o.stl", "o"};
  const std::vector<std::string> ops{"--int", "--uni", "--dif", "--sym"};
  {  // One output.
    auto l = std::make_shared<std::vector<Args>>();
    for (auto& a : operands())
      for (auto& b : operands()) {
        if (a.name.empty() || b.name.empty()) continue;
        if (a.readable && b.readable) {
          for (auto& op : ops)
            for (auto& o : good) l->push_back({"boolean", a.name, b.name, op, o});
          l->push_back({"boolean", a.name, b.name});
          l->push_back({"boolean", a.name, b.name, "--int", "i.kigumi", "--uni", "u.off", "--dif", "d.obj", "--sym", "s.ply"});
          l->push_back({"boolean", a.name, "--sym=s.kigumi", b.name, "--dif=d.kigumi", "--uni=u.kigumi", "--int=i.kigumi"});
          l->push_back({"boolean", "--second", b.name, "--dif", "d.kigumi", "--first", a.name});
        } else {
          l->push_back({"boolean", a.name, b.name, "--uni", "o.off"});
          l->push_back({"boolean", a.name, b.name});
        }
      }
    add_space("boolean", l);
  }
  {  // Two outputs, possibly unwritable.
    auto l = std::make_shared<std::vector<Args>>();
    auto outs = bad;
    outs.push_back("p.off"), outs.push_back("q.kigumi");
    for (auto [a, b] : {std::pair{0, 1}, {0, 4}, {2, 8}, {9, 9}})
      for (int i = 0; i < 4; ++i)
        for (int j = i + 1; j < 4; ++j)
          for (auto& o : outs)
            for (auto& q : outs)
              if (o != q && (good_output(o) || good_output(q) || o[0] == 'd')) l->push_back({"boolean", operands()[a].name, operands()[b].name, ops[i], o, ops[j], q});
    add_space("two-outputs", l);
  }
  {
    auto l = std::make_shared<std::vector<Args>>();
    auto outs = good;
    outs.insert(outs.end(), bad.begin(), bad.end());
    for (auto& a : operands())
      for (auto& o : outs) {
        if (a.name.empty()) continue;
        l->push_back({"convert", a.name, o});
        l->push_back({"convert", "--out", o, "--in", a.name});
        l->push_back({"convert", "--in=" + a.name, o});
      }
    add_space("convert", l);
  }
  for (auto so : {PIPE, FULL, CLOSED}) {
    auto l = std::make_shared<std::vector<Args>>();
    for (auto& a : operands())
      if (!a.name.empty()) l->push_back({"defects", a.name}), l->push_back({"defects", "--in", a.name});
    for (auto& d : defect_cases()) l->push_back({"defects", d.name});
    if (so != PIPE) {
      l->push_back({"boolean", "../in/a.off", "../in/b.obj", "--uni", "o.off", "--dif", "p.kigumi"});
      l->push_back({"convert", "../in/a.off", "o.kigumi"});
    }
    add_space(so == PIPE ? "defects" : so == FULL ? "full-stdout" : "closed-stdout", l, so);
  }
  {  // Every argument sequence.
    auto l = std::make_shared<std::vector<Args>>();
    const std::vector<std::string> first{"boolean", "convert", "defects", "Boolean", "", "--in"};
    const std::vector<std::string> tok{"../in/a.off", ":full:", "../in/missing.off", "o.off", "p.kigumi", "--int", "--uni=u.off", "--first", "--second", "--in", "--out", "--bogus"};
    l->push_back({});
    for (auto& f : first) {
      std::vector<Args> level{{f}};
      for (int n = 0; n < (thorough ? 4 : 3); ++n) {
        std::vector<Args> next;
        for (auto& a : level)
          for (auto& t : tok) {
            next.push_back(a);
            next.back().push_back(t);
          }
        l->insert(l->end(), level.begin(), level.end());
        level = std::move(next);
        if (n > 0 && f != "boolean" && f != "convert" && f != "defects") break;
      }
      l->insert(l->end(), level.begin(), level.end());
    }
    add_space("arguments", l);
  }
  {
    auto l = std::make_shared<std::vector<std::pair<Args, std::string>>>();
    for (auto& o : good) {
      l->push_back({{"boolean", "../in/a.off", "../in/b.obj", "--dif", o}, o});
      l->push_back({{"convert", "../in/c.ply", o}, o});
    }
    kmc::Space s;
    s.name = "size-limit";
    s.size = l->size() * 16;
    s.run = [l](std::uint64_t id, kmc::Ctx& ctx) { check_limit((*l)[id / 16].first, (*l)[id / 16].second, static_cast<long>(id % 16), ctx); };
    s.describe = [l](std::uint64_t id) { return quoted((*l)[id / 16].first); };
    c.spaces.push_back(std::move(s));
  }
  return kmc::Driver(std::move(c), argc, argv).run();
}
