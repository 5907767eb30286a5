// C20: no call influences a later one.
//
// Every sequence of calls up to a length is executed from a fresh process (forked before any library call was
// made), and every answer in it - including those kept from earlier calls - is compared with the answer of the
// same call made first in a fresh process.  Built with the address sanitizer: touching the state of a finished
// call is a crash.
#define KMC_OWN_HARDWARE_CONCURRENCY
#include <kigumi/Find_defects.h>

#include <cfenv>
#include <locale>

#include "../geom.h"
#include "../io_ref.h"
#include "../zoo.h"

using namespace geom;

namespace {

struct Quiet {
  std::ostringstream s, e;
  std::streambuf *old = std::cout.rdbuf(s.rdbuf()), *old_e = std::cerr.rdbuf(e.rdbuf());
  ~Quiet() { std::cout.rdbuf(old), std::cerr.rdbuf(old_e); }
};

// What a call left behind: describes its answer whenever asked.
using Answer = std::function<std::string()>;
struct Call {
  std::string name;
  std::function<Answer()> run;
};

Answer text(const std::string& s) {
  return [s] { return s; };
}

std::string region_text(const Region& r) { return std::to_string(fingerprint(r)); }

Answer booleans(const Region& a, const Region& b, std::vector<Op> ops, bool keep_builder = false) {
  try {
    auto x = std::make_shared<Builder>(a, b);
    auto res = std::make_shared<std::vector<Region>>();
    std::string errors = std::to_string(static_cast<int>(x->warnings()));
    for (auto op : ops) {
      try {
        res->push_back((*x)(op));
      } catch (const std::exception& e) {
        errors += e.what();
      }
    }
    if (!keep_builder) x.reset();
    return [x, res, errors, ops] {
      std::string s = errors;
      for (auto& r : *res) s += " " + region_text(r);
      if (x)
        for (auto op : ops) {
          try {
            s += " " + region_text((*x)(op));
          } catch (const std::exception& e) {
            s += e.what();
          }
        }
      return s;
    };
  } catch (const std::exception& e) {
    return text(std::string("error ") + e.what());
  }
}

Shape cube(V3 o = {}, double s = 1, int diag = 0) { return moved(voxels(1, 1, 1, 1, diag), o, s); }

Soup raw(const std::vector<V3>& p, const std::vector<std::array<int, 3>>& f) {
  Shape s;
  s.p = p, s.f = f;
  return soup_of(s);
}

Answer defects_of(const Soup& s) {
  try {
    auto d = std::make_shared<kigumi::Find_defects<K, int>>(s);
    return [d] {
      std::ostringstream o;
      auto edges = [&](auto v) {
        std::sort(v.begin(), v.end());
        for (auto& e : v) o << e[0].idx() << '-' << e[1].idx() << ' ';
        o << "; ";
      };
      auto items = [&](auto v) {
        std::sort(v.begin(), v.end());
        for (auto& e : v) o << e.idx() << ' ';
        o << "; ";
      };
      items(d->isolated_vertices()), items(d->non_manifold_vertices()), edges(d->boundary_edges()), edges(d->inconsistent_edges()), edges(d->non_manifold_edges());
      items(d->trivial_degenerate_faces()), items(d->non_trivial_degenerate_faces()), items(d->overlapping_faces());
      return o.str();
    };
  } catch (const std::exception& e) {
    return text(std::string("error ") + e.what());
  }
}

Answer locate(const Region& r, const std::vector<V3>& ps) {
  std::string s;
  for (auto& p : ps) {
    try {
      s += std::to_string(r.bounded_side({p.x, p.y, p.z})) + " ";
    } catch (const std::exception& e) {
      s += std::string("error ") + e.what() + " ";
    }
  }
  return text(s);
}

// A reading call: whether it succeeded, and the target afterwards.
Answer read_text(int format, const std::string& data) {
  auto s = std::make_shared<Soup>();
  std::istringstream in{data};
  bool ok = ior::read(format, in, *s);
  return [s, ok] {
    std::ostringstream o;
    o << ok << ' ' << s->num_vertices() << ' ' << s->num_faces() << ' ';
    if (ok) ior::write(ior::OFF, o, *s);
    return o.str();
  };
}
std::string kigumi_text(const Region& r) {
  std::ostringstream o;
  kigumi::write_kigumi_region(o, r);
  return o.str();
}
Answer read_binary(const std::string& data) {
  auto r = std::make_shared<Region>();
  std::istringstream in{data};
  bool ok = kigumi::read_kigumi_region<K, int>(in, *r);
  return [r, ok] { return std::to_string(ok) + (ok ? kigumi_text(*r) : ""); };
}

// A region with coordinates of many different lengths.
Region rationals() {
  auto s = soup_of(cube());
  std::vector<K::Point_3> p;
  std::vector<Face> f;
  int i = 1;
  for (auto vi : s.vertices()) {
    K::FT x = s.point(vi).x();
    for (int k = 0; k < i; ++k) x = x + K::FT{1} / K::FT{7 + k};
    p.emplace_back(x, s.point(vi).y() + K::FT{i}, s.point(vi).z() / K::FT{3});
    ++i;
  }
  for (auto fi : s.faces()) f.push_back(s.face(fi));
  return Region{Soup{std::move(p), std::move(f), std::vector<int>(s.num_faces())}};
}

const char* kOff = "OFF\n4 4 0\n0 0 0\n1 0 0\n0 1 0\n0 0 1\n3 0 2 1\n3 0 1 3\n3 1 2 3\n3 2 0 3\n";
const char* kOffOpen = "OFF\n4 4 0\n0 0 0\n1 0 0\n0 1 0\n0 0 1\n3 0 2 1\n3 0 1 3\n3 1 2 3\n3 2 0";
const char* kObj = "# a comment\nv 0 0 0\nv 1.5e0 0 0\nv 0 1 0\nv 0 0 1\nf 1/1 3/2 2/3\nf 1 2 4\nf 2 \\\n3 4\nf -2 -4 -1\n";
const char* kObjBad = "v 0 0 0\nv 1 0 0\nv 0 1 zebra\nf 1 2 3\n";
const char* kPly =
    "ply\nformat ascii 1.0\nelement vertex 3\nproperty float x\nproperty float y\nproperty float z\nelement face 1\nproperty list uchar int "
    "vertex_indices\nend_header\n0 0 0\n1 0 0\n0 1 0\n3 0 1 2\n";
const char* kPlyBad =
    "ply\nformat ascii 1.0\nelement vertex 3\nproperty float x\nproperty float y\nproperty float z\nelement face 1\nproperty list uchar int "
    "vertex_indices\nend_header\n0 0 0\n1 0 0\n0 1 0\n3 0 1 7\n";

std::vector<Call> calls() {
  std::vector<Call> r;
  auto add = [&](std::string n, std::function<Answer()> f) { r.push_back({std::move(n), std::move(f)}); };
  const std::vector<Op> some{Op::A, Op::K, Op::L, Op::J};
  // Booleans: crossing, touching in a face, equal, disjoint, nested, of large meshes.
  add("Boolean of crossing cubes", [=] { return booleans(region_of(cube()), region_of(cube({0.5, 0.25, 0.125})), some, true); });
  add("Boolean of cubes sharing part of a face", [=] { return booleans(region_of(cube()), region_of(cube({1, 0.5, 0.25}, 1, 1)), some); });
  add("Boolean of two large solids", [=] {
    return booleans(region_of(voxels(0x96, 2, 2, 2, 2)), region_of(moved(voxels(0xe9, 2, 2, 2, 1), {0.5, 0.5, 0.5})), some);
  });
  add("Boolean of nested and disjoint parts", [=] {
    return booleans(region_of(cube({0, 0, 0}, 4)), region_of(merged(cube({1, 1, 1}), cube({6, 6, 6}))), some);
  });
  add("Boolean of a solid and its complement", [=] { return booleans(region_of(cube()), region_of(inverted(cube())), {Op::A, Op::K, Op::L, Op::J, Op::E}); });
  // Calls that fail or warn.
  add("Boolean with a degenerate face", [=] {
    auto s = raw({{0, 0, 0}, {2, 0, 0}, {0, 2, 0}, {1, 0, 0}}, {{0, 1, 2}, {0, 3, 1}});
    return booleans(Region{s}, region_of(cube({5, -0.5, -0.5})), some);
  });
  add("Boolean of an open face far outside", [=] {
    auto s = raw({{5, 5, 0}, {6, 5, 0}, {5, 6, 0}}, {{0, 1, 2}});
    auto t = raw({{0, 0, 0}, {1, 0, 0}, {0, 1, 0}}, {{0, 1, 2}});
    return booleans(Region{s}, Region{t}, some);
  });
  add("Boolean of partially intersecting meshes", [=] {
    auto t = raw({{-1, -1, 0.5}, {0.5, -1, 0.5}, {0.5, 0.5, 0.5}, {-1, 0.5, 0.5}}, {{0, 1, 2}, {0, 2, 3}});
    return booleans(region_of(cube()), Region{t}, some);
  });
  add("Boolean of inconsistently oriented solids", [=] {
    auto s = cube();
    std::swap(s.f[0][1], s.f[0][2]);
    return booleans(region_of(s), region_of(cube()), some);
  });
  // Defects.
  add("defects of a good solid", [] { return defects_of(soup_of(voxels(0x96, 2, 2, 2, 2))); });
  add("defects of a bad one", [] {
    return defects_of(raw({{0, 0, 0}, {2, 0, 0}, {0, 2, 0}, {0, 0, 0}, {1, 1, -1}, {1, 1, 1}, {0.5, 0.5, 0}, {9, 9, 9}, {1, 0, 0}},
                          {{0, 1, 2}, {3, 4, 5}, {0, 2, 1}, {1, 1, 2}, {0, 8, 1}, {4, 5, 6}}));
  });
  // Point location.
  add("points in a solid", [] { return locate(region_of(voxels(0x96, 2, 2, 2, 2)), {{0.5, 0.5, 0.5}, {1.5, 0.5, 0.5}, {1, 1, 1}, {3, 3, 3}, {0.25, 0, 1}}); });
  add("points about an open face", [] { return locate(Region{raw({{0, 0, 0}, {1, 0, 0}, {0, 1, 0}}, {{0, 1, 2}})}, {{0.25, 0.25, 1}, {2, 2, 0}, {0.25, 0.25, 0}, {0, 0, 0}}); });
  // Reading and writing.
  add("reading OFF", [] { return read_text(ior::OFF, kOff); });
  add("reading cut-off OFF", [] { return read_text(ior::OFF, kOffOpen); });
  add("reading OBJ", [] { return read_text(ior::OBJ, kObj); });
  add("reading bad OBJ", [] { return read_text(ior::OBJ, kObjBad); });
  add("reading PLY", [] { return read_text(ior::PLY, kPly); });
  add("reading bad PLY", [] { return read_text(ior::PLY, kPlyBad); });
  add("writing and reading long numbers", [] { return read_binary(kigumi_text(rationals())); });
  add("writing and reading short numbers", [] { return read_binary(kigumi_text(region_of(cube({0.5, 0, 0})))); });
  add("reading cut-off numbers", [] {
    auto s = kigumi_text(rationals());
    return read_binary(s.substr(0, s.size() / 3));
  });
  add("writing text", [] {
    std::ostringstream o;
    auto r = rationals();
    for (int f : {ior::OBJ, ior::OFF, ior::PLY}) ior::write(f, o, r.boundary());
    return text(o.str());
  });
  return r;
}

// The process's settings.
std::string settings() {
  std::ostringstream o;
  o << std::fegetround() << ' ' << std::locale().name() << ' ' << std::cout.flags() << ' ' << std::cout.precision() << ' ' << std::cout.exceptions() << ' '
    << static_cast<int>(std::cout.fill()) << ' ' << std::cout.width() << ' ' << std::cerr.flags() << ' ' << std::cerr.precision() << ' '
    << std::cin.exceptions();
  return o.str();
}

Answer perform(const Call& c, bool own_thread) {
  Quiet q;
  Answer a;
  if (!own_thread) {
    a = c.run();
  } else {
    std::thread t([&] { a = c.run(); });
    t.join();
  }
  return a;
}

// Runs in a child; what it writes to `fd` is returned.
std::string in_child(const std::function<void(int)>& f, int* status = nullptr) {
  int p[2];
  if (pipe(p) != 0) throw std::runtime_error("pipe");
  auto pid = fork();
  if (pid == 0) {
    close(p[0]);
    f(p[1]);
    _exit(0);
  }
  close(p[1]);
  std::string s;
  char buf[4096];
  for (ssize_t n; (n = read(p[0], buf, sizeof buf)) > 0;) s.append(buf, n);
  close(p[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (status) *status = st;
  return s;
}

const std::vector<std::string>& fresh(const std::vector<Call>& cs) {
  static std::vector<std::string> r;
  if (r.empty())
    for (auto& c : cs) {
      int st = 0;
      r.push_back(in_child(
          [&](int fd) {
            auto a = perform(c, false)();
            (void)!write(fd, a.data(), a.size());
          },
          &st));
      if (st != 0) r.back() = "<crash>";
    }
  return r;
}

int* g_failures;  // shared by all processes of a case

void explore(const std::vector<Call>& cs, std::vector<int> prefix, int depth, bool own_threads, kmc::Ctx& ctx) {
  auto& want = fresh(cs);
  auto before = settings();
  auto report = in_child([&](int fd) {
    auto say = [&](const std::string& s) {
      if (s[0] == 'F') ++*g_failures;
      auto t = s.substr(0, 3000) + "\n";
      (void)!write(fd, t.data(), t.size());
    };
    std::vector<int> seq;
    std::vector<Answer> kept;
    auto history = [&] {
      std::string h;
      for (std::size_t i = 0; i + 1 < seq.size(); ++i) h += (i ? ", " : "") + cs[seq[i]].name;
      return h.empty() ? std::string("nothing") : h;
    };
    // Makes the call in this process; false if something is wrong.
    auto make = [&](int c) {
      seq.push_back(c);
      kept.push_back(perform(cs[c], own_threads));
      if (auto now = settings(); now != before) {
        say("F\tsettings\t" + cs[c].name + " after " + history() + " changes the process's settings: " + now + " instead of " + before);
        return false;
      }
      // The new answer, and those kept from before.
      for (std::size_t i = 0; i < seq.size(); ++i) {
        Quiet q;
        if (kept[i]() == want[seq[i]]) continue;
        if (i + 1 == seq.size()) say("F\t" + cs[c].name + "\t" + cs[c].name + " after " + history() + " answers differently from a fresh process");
        else say("F\tkept " + cs[seq[i]].name + "\tthe kept result of " + cs[seq[i]].name + " changed with " + cs[c].name);
        return false;
      }
      say("S");
      return true;
    };
    std::function<void()> dfs = [&] {
      if (static_cast<int>(seq.size()) >= depth) return;
      for (int c = 0; c < static_cast<int>(cs.size()); ++c) {
        if (*g_failures > 40) return;  // a violation anyway
        auto pid = fork();
        if (pid == 0) {
          if (make(c)) dfs();
          _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (st != 0) seq.push_back(c), say("F\tcrash\t" + cs[c].name + " after " + history() + " crashes (status " + std::to_string(st) + ")"), seq.pop_back();
      }
    };
    for (int c : prefix) {
      auto pid = fork();
      if (pid != 0) {
        int st = 0;
        waitpid(pid, &st, 0);
        if (st != 0) seq.push_back(c), say("F\tcrash\t" + cs[c].name + " after " + history() + " crashes (status " + std::to_string(st) + ")");
        _exit(0);
      }
      if (!make(c)) _exit(0);
    }
    dfs();
  });
  std::istringstream in{report};
  for (std::string l; std::getline(in, l);) {
    if (l == "S") {
      ctx.count("sequences"), ctx.count("nontrivial");
      continue;
    }
    auto a = l.find('\t'), b = l.find('\t', a + 1);
    if (l[0] == 'F' && b != std::string::npos) ctx.fail(l.substr(a + 1, b - a - 1), l.substr(b + 1));
  }
  for (auto& w : want) ctx.outcome(w);
}

}  // namespace

int main(int argc, char** argv) {
  if (getenv("KMC_SHOW")) { auto cs = calls(); auto& w = fresh(cs); for (std::size_t i = 0; i < cs.size(); ++i) std::cout << cs[i].name << ": " << w[i].substr(0, 150) << std::endl; }
  bool thorough = kmc::tier_of(argc, argv) == "thorough";
  g_failures = static_cast<int*>(mmap(nullptr, sizeof(int), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  kmc::Check c;
  c.property = "C20";
  auto cs = std::make_shared<std::vector<Call>>(calls());
  c.rule = "every sequence of up to " + std::to_string(thorough ? 4 : 3) + " of " + std::to_string(cs->size()) +
           " calls (Booleans of all kinds including failing and warning ones, defect searches, point location, reading good and bad "
           "data, writing), in one thread, and (up to one shorter) each in a thread of its own; every sequence starts in a fresh "
           "process; after every call the new answer and all kept earlier ones are compared with those of fresh processes, and the "
           "rounding mode, locale and stream settings with those before; built with the address and undefined-behaviour sanitizers";
  c.assumptions = {"one processor, so that scratch state kept per thread is shared by all calls"};
  c.evaluations_counter = "sequences";
  int n = static_cast<int>(cs->size());
  auto add = [&](std::string name, int depth, bool own) {
    kmc::Space s;
    s.name = name;
    s.size = static_cast<std::uint64_t>(n) * (thorough ? n : 1);
    s.case_timeout_s = 600;
    s.run = [=](std::uint64_t id, kmc::Ctx& ctx) {
      std::vector<int> prefix{static_cast<int>(id % n)};
      if (thorough) prefix.push_back(static_cast<int>(id / n));
      explore(*cs, prefix, depth, own, ctx);
    };
    s.describe = [=](std::uint64_t id) { return "sequences starting with: " + (*cs)[id % n].name + (thorough ? ", " + (*cs)[id / n].name : ""); };
    c.spaces.push_back(std::move(s));
  };
  add("one-thread", thorough ? 4 : 3, false);
  add("own-threads", thorough ? 3 : 2, true);
  return kmc::Driver(std::move(c), argc, argv).run();
}
