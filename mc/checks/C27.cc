// C27: several threads may use the same constant regions at the same time.
//
// A case is one short program of operations per thread on shared objects made afresh in every execution, so that the
// search trees are unbuilt and the exact coordinates not computed yet when the threads start.
#define KMC_OWN_HARDWARE_CONCURRENCY
#include <kigumi/Find_defects.h>
#include <kigumi/Triangle_soup_io.h>

#include <algorithm>
#include <cstring>
#include <string>
#include <thread>

#include "../geom.h"
#include "../kmc.h"
#include "../sched.h"

// The library reads text into strings by this function of the standard library, whose compiled code is not instrumented;
// the same, instrumented.
template <>
std::istream& std::operator>>(std::istream& in, std::string& s) {
  std::istream::sentry ok{in, false};
  auto state = std::ios::goodbit;
  std::size_t n = 0;
  if (ok) {
    s.erase();
    const auto& ct = std::use_facet<std::ctype<char>>(in.getloc());
    auto width = in.width() > 0 ? static_cast<std::size_t>(in.width()) : s.max_size();
    auto* buf = in.rdbuf();
    int c = buf->sgetc();
    while (n < width && c != EOF && !ct.is(std::ctype_base::space, static_cast<char>(c))) {
      s.resize(n + 1);
      s[n++] = static_cast<char>(c);
      c = buf->snextc();
    }
    if (n < width && c == EOF) state |= std::ios::eofbit;
    in.width(0);
  }
  if (n == 0) state |= std::ios::failbit;
  if (state != std::ios::goodbit) in.setstate(state);
  return in;
}

namespace {

using namespace geom;
using kigumi::Warnings;

struct Limit {
  kigumi::Threading_options o;
  explicit Limit(int n) { o.set_num_threads(static_cast<std::size_t>(n)); }
};

struct Silence {
  std::streambuf* old;
  Silence() : old{std::cout.rdbuf(nullptr)} {}
  ~Silence() {
    std::cout.rdbuf(old);
    std::cout.clear();
  }
};

// ---------------------------------------------------------------- what is shared

struct Scene {
  std::string name;
  Shape a, b;
  std::vector<V3> points;  // asked for by 'p', 'q', 'r', in this order, of the first region
  bool computed = false;   // the first region is a result of a computation, its coordinates not evaluated yet
};

std::vector<Scene> make_scenes() {
  std::vector<Scene> r;
  auto t1 = tet({0, 0, 0}, {2, 0, 0}, {0, 2, 0}, {0, 0, 2});
  auto t2 = tet({1, 1, 1}, {-1, 0.25, 0.5}, {0.25, -1, 0.25}, {0.25, 0.5, -1});
  r.push_back({"crossing tetrahedra", t1, t2, {{0.25, 0.25, 0.25}, {0.5, 0.5, 0}, {-5, 1, 1}}});
  r.push_back({"stacked boxes", box({0, 0, 0}, {2, 2, 2}, 0), box({0, 0, 2}, {2, 2, 4}, 1), {{1, 1, 1}, {1, 1, 2}, {1, 1, 3}}});
  r.push_back({"a computed solid", t1, t2, {{0.25, 0.25, 0.25}, {0.5, 0.5, 0}, {-5, 1, 1}}, true});
  r.push_back({"disjoint tetrahedra", t1, moved(t1, {9, 0, 0}), {{0.25, 0.25, 0.25}, {1, 0, 0}, {9.25, 0.25, 0.25}}});
  return r;
}
const std::vector<Scene> g_scenes = make_scenes();

struct World {
  std::optional<Region> a, b;
  std::optional<Builder> builder;
  const Scene* scene = nullptr;
};

// The coordinates of a computed solid are sums and products that no double represents: intervals until somebody asks.
void make_world(const Scene& s, bool with_builder, World& w) {
  w.scene = &s;
  if (s.computed) {
    auto third = K::FT(1) / K::FT(3);
    std::vector<K::Point_3> p;
    for (auto& v : s.a.p) p.emplace_back(v.x + third, v.y * third + K::FT(v.y), v.z - third * third);
    std::vector<Face> f;
    std::vector<int> d;
    for (auto& t : s.a.f) {
      f.push_back({Vertex_index(t[0]), Vertex_index(t[1]), Vertex_index(t[2])});
      d.push_back(static_cast<int>(d.size()));
    }
    w.a.emplace(Soup{std::move(p), std::move(f), std::move(d)});
  } else {
    w.a = region_of(s.a, 0);
  }
  w.b = region_of(s.b, 1000);
  if (with_builder) w.builder.emplace(*w.a, *w.b);
}

// ---------------------------------------------------------------- the programs

struct Outcome {
  std::string text;               // compared literally
  std::optional<Region> region;   // compared as a set
  Op op{};
  int operands = 0;               // of region: 0 first/second, 1 second/first, 2 first/first
};

Outcome perform(char what, const World& w) {
  Outcome o;
  const auto& a = *w.a;
  const auto& b = *w.b;
  try {
    auto side = [&](const Region& r, int i) {
      const auto& v = w.scene->points.at(i);
      return std::string("side ") + std::to_string(static_cast<int>(r.bounded_side({v.x, v.y, v.z})));
    };
    auto combine = [&](const Region& x, const Region& y, Op op, int operands) {
      Builder m{x, y};
      o.op = op;
      o.operands = operands;
      o.region = m(op);
      o.text = "warnings " + std::to_string(static_cast<int>(m.warnings()));
    };
    switch (what) {
      case 'p': o.text = side(a, 0); break;
      case 'q': o.text = side(a, 1); break;
      case 'r': o.text = side(a, 2); break;
      case 's': o.text = side(b, 2); break;
      case 'A': combine(a, b, Op::A, 0); break;
      case 'L': combine(a, b, Op::L, 0); break;
      case 'M': combine(b, a, Op::M, 1); break;
      case 'S': combine(a, a, Op::K, 2); break;
      case 'c': {
        Region c{a};
        o.text = side(c, 0);
        break;
      }
      case 'C': {
        Region c{Region::empty()};
        c = a;
        o.text = side(c, 1) + " faces " + std::to_string(c.boundary().num_faces());
        break;
      }
      case 'w': {
        std::stringstream s(std::ios::in | std::ios::out | std::ios::binary);
        kigumi::kigumi_write<Region>(s, a);
        Region back = Region::empty();
        kigumi::kigumi_read<Region>(s, back);
        o.text = "round trip " + canonical(back);
        break;
      }
      case 't': case 'o': {  // as text and back
        std::stringstream s;
        bool wrote = what == 't' ? kigumi::io::write_ply(s, a.boundary()) : kigumi::io::write_obj(s, a.boundary());
        Soup back;
        bool read = what == 't' ? kigumi::io::read_ply(s, back) : kigumi::io::read_obj(s, back);
        o.text = "text " + std::to_string(wrote) + std::to_string(read) + ' ' + std::to_string(back.num_vertices()) + ' ' + std::to_string(back.num_faces());
        // A coordinate that is no double may be rounded either way.
        if (!w.scene->computed && read && back.num_faces() > 0) o.text += canonical(Region{std::move(back)}, false);
        break;
      }
      case 'd': {
        kigumi::Find_defects<K, int> d{a.boundary()};
        o.text = "defects " + std::to_string(d.boundary_edges().size() + d.overlapping_faces().size() +
                                             d.non_trivial_degenerate_faces().size() + d.non_manifold_edges().size());
        break;
      }
      case 'x': case 'y': {  // one builder, used by several threads
        o.op = what == 'x' ? Op::A : Op::L;
        o.region = (*w.builder)(o.op);
        o.text = "warnings " + std::to_string(static_cast<int>(w.builder->warnings()));
        break;
      }
      default: o.text = "?";
    }
  } catch (const std::exception& e) {
    o.text = std::string("error: ") + e.what();
  }
  return o;
}

using Outcomes = std::vector<std::vector<Outcome>>;

std::vector<std::string> split(const std::string& s) {
  std::vector<std::string> r(1);
  for (char c : s)
    if (c == '|') r.emplace_back();
    else r.back() += c;
  return r;
}

struct Plan {
  int scene = 0;
  std::string program;  // one string of operations per thread, separated by |
  int limit = 1;
  bool fine = false;
  bool dpor = false;
  int delays = 1, rotate = 0;
  std::uint64_t shard = 0, shards = 1;
  std::string text() const {
    std::ostringstream o;
    o << g_scenes[scene].name << ": " << program << ", limit " << limit << (fine ? ", every atomic access" : "");
    if (dpor) o << ", all schedules";
    else o << ", up to " << delays << " delays";
    if (rotate) o << ", turns of " << rotate;
    if (shards > 1) o << ", part " << shard << '/' << shards;
    return o.str();
  }
};

void run(const Plan& p, kmc::Ctx& ctx) {
  Silence silence;
  const auto& sc = g_scenes[p.scene];
  auto programs = split(p.program);
  bool with_builder = p.program.find_first_of("xy") != std::string::npos;

  Outcomes serial;
  {
    kigumi::Threading_context context{Limit{1}.o};
    for (auto& prog : programs) {
      serial.emplace_back();
      for (char c : prog) {
        World w;  // of its own: nothing cached
        make_world(sc, with_builder, w);
        serial.back().push_back(perform(c, w));
      }
    }
  }
  // The set oracle needs doubles; a computed operand is compared with the sequential result instead.
  std::optional<Pair_oracle> oracle[3];
  auto judge_region = [&](const Outcome& got, const Outcome& want) -> std::string {
    if (got.region.has_value() != want.region.has_value()) return "result: one is missing";
    if (!got.region) return {};
    if (sc.computed) {
      auto g = canonical(*got.region), s = canonical(*want.region);
      return g == s ? "" : "set: the result is " + g + ", sequentially " + s;
    }
    auto& o = oracle[got.operands];
    if (!o) {
      if (got.operands == 0) o.emplace(sc.a, sc.b);
      else if (got.operands == 1) o.emplace(sc.b, sc.a);
      else o.emplace(sc.a, sc.a);
    }
    if (auto v = o->check(got.op, *got.region)) return v.key + ": " + v.text;
    return {};
  };
  for (auto& t : serial)
    for (auto& o : t) {
      if (o.text.rfind("error", 0) == 0) return ctx.fail("serial-error", o.text);
      if (auto s = judge_region(o, o); !s.empty()) return ctx.fail("serial-set", s);
    }

  kmc::sched::Options o;
  o.strategy = p.dpor ? kmc::sched::Options::DPOR : kmc::sched::Options::DELAY;
  o.fine = p.fine;
  o.delays = p.delays;
  o.rotate = p.rotate;
  o.shard = p.shard;
  o.shards = p.shards;
  Outcomes got;
  auto r = kmc::sched::explore(
      o,
      [&] {
        World w;
        {
          kigumi::Threading_context context{Limit{1}.o};
          make_world(sc, with_builder, w);
        }
        got.assign(programs.size(), {});
        for (std::size_t i = 0; i < programs.size(); ++i) got[i].reserve(programs[i].size());
        std::vector<std::thread> threads;
        threads.reserve(programs.size());
        const World& shared = w;
        for (std::size_t i = 0; i < programs.size(); ++i)
          threads.emplace_back([&, i] {
            kigumi::Threading_context context{Limit{p.limit}.o};
            for (char c : programs[i]) got[i].push_back(perform(c, shared));
          });
        for (auto& t : threads) t.join();
      },
      [&]() -> std::string {
        for (std::size_t i = 0; i < got.size(); ++i) {
          if (got[i].size() != serial[i].size()) return "unfinished: a thread did not finish its program";
          for (std::size_t k = 0; k < got[i].size(); ++k) {
            if (got[i][k].text != serial[i][k].text)
              return "answer: thread " + std::to_string(i) + " operation " + programs[i][k] + " gave \"" + got[i][k].text + "\", sequentially \"" +
                     serial[i][k].text + '"';
            if (auto s = judge_region(got[i][k], serial[i][k]); !s.empty()) return s;
          }
        }
        return {};
      });
  ctx.count("executions", r.executions);
  if (r.max_live > 1) ctx.count("executions with concurrent users", r.executions);
  ctx.count("scheduling points", r.events);
  ctx.count("accesses checked", r.accesses);
  if (!r.complete) ctx.count("incomplete");
  ctx.outcome(std::to_string(r.max_live));
  if (!strcmp(r.key, "broken")) ctx.count("broken");
  else if (r.violated()) ctx.fail(r.key, r.text);
}

}  // namespace

int main(int argc, char** argv) {
  bool thorough = kmc::tier_of(argc, argv) == "thorough";
  kmc::g_hardware_concurrency = 16;

  static std::vector<Plan> locks, atomics, booleans;
  int num_scenes = static_cast<int>(g_scenes.size());
  auto sharded = [](std::vector<Plan>& to, Plan p, std::uint64_t shards) {
    p.shards = shards;
    for (p.shard = 0; p.shard < shards; ++p.shard) to.push_back(p);
  };
  for (int scene = 0; scene < num_scenes; ++scene) {
    // Every schedule of the locks, one-time initialisations and thread starts and ends: all programs of up to two
    // operations on two threads and of one operation on three.
    const std::string light = "pqrscCwd";
    std::vector<std::string> ones, twos;
    for (char x : light) ones.emplace_back(1, x);
    for (char x : light)
      for (char y : light) twos.push_back({x, y});
    for (std::size_t i = 0; i < ones.size(); ++i) {
      for (std::size_t k = i; k < ones.size(); ++k) {
        locks.push_back({scene, ones[i] + "|" + ones[k], 1, false, true});
        for (std::size_t l = k; l < ones.size(); ++l) locks.push_back({scene, ones[i] + "|" + ones[k] + "|" + ones[l], 1, false, true});
      }
      for (auto& t : twos) locks.push_back({scene, ones[i] + "|" + t, 1, false, true});
    }
    if (thorough) {
      for (std::size_t i = 0; i < twos.size(); ++i)
        for (std::size_t k = i; k < twos.size(); ++k) locks.push_back({scene, twos[i] + "|" + twos[k], 1, false, true});
    } else {
      for (auto* p : {"pq|qp", "ps|sp", "pw|wp", "pc|Cp", "sp|ps"}) locks.push_back({scene, p, 1, false, true});
    }
    for (auto* p : {"x|x", "x|y", "x|y|x", "xy|yx", "p|x", "w|y", "A|p", "A|L", "L|M", "S|S", "A|x", "A|w", "S|p", "d|A", "A|C", "t|t", "t|o", "o|o", "t|w", "o|p", "t|A", "to|ot"}) locks.push_back({scene, p, 1, false, true});
    for (auto* p : {"A|p|q", "A|L|M", "pA|Lp"}) locks.push_back({scene, p, 1, false, true});

    // Also between any two atomic accesses (reference counts, states of lazy numbers and initialisations).
    for (auto* p : {"p|p", "p|q", "q|r", "p|s", "p|c", "p|C", "p|w", "w|w", "p|d", "p|x", "x|y", "p|q|r", "t|t", "o|o"}) {
      std::string name = p;
      bool deep = thorough || (scene == 2 && name == "p|p") || (scene == 0 && name == "x|y");
      if (deep) sharded(atomics, {scene, p, 1, true, false, 2, 0}, thorough ? 64 : 16);
      else sharded(atomics, {scene, p, 1, true, false, 1, 0}, 2);
      for (int turn : {1, 2, 3, 5, 7, 11, 13, 17}) atomics.push_back({scene, p, 1, true, false, thorough || turn == 3 ? 1 : 0, turn});
    }
    for (auto* p : {"p|A", "A|L", "S|M", "A|x", "A|w"}) {
      if (thorough || (scene == 3 && std::strcmp(p, "A|L") == 0) || (scene == 0 && std::strcmp(p, "p|A") == 0)) sharded(atomics, {scene, p, 1, true, false, 1, 0}, 16);
      for (int turn : {1, 2, 3, 5, 7, 11, 13, 17})
        if (thorough || turn == 1 || turn == 7) atomics.push_back({scene, p, 1, true, false, 0, turn});
    }
    // Users with workers of their own.
    for (int limit : {2, 3, 4})
      for (auto* p : {"A|L", "A|M", "p|A", "S|A", "d|A", "A|x", "d|d", "A|L|M"}) {
        if (!thorough && limit == 4) continue;
        if (thorough || limit == 2) sharded(booleans, {scene, p, limit, false, false, 1, 0}, 4);
        for (int turn : {1, 2, 3, 5, 7})
          if (thorough || turn <= 2 || turn == 5) booleans.push_back({scene, p, limit, false, false, thorough ? 1 : 0, turn});
        if (thorough && limit == 2) sharded(booleans, {scene, p, limit, false, false, 2, 0}, 64);
      }
  }

  kmc::Check c;
  c.property = "C27";
  c.level = "exploration";
  c.rule =
      "a case is one program - up to two operations on each of two threads or one on each of three - on the same constant regions (or one "
      "Boolean computation), made afresh in every execution; every schedule of the locks, one-time initialisations and thread starts is "
      "executed on the real code, then those within the delay bound between any two atomic accesses and with parallel workers; every "
      "execution is checked for data races, deadlock, and every answer against the sequential one or the set oracle; evaluations: executions judged";
  c.assumptions = {"atomics behave sequentially consistently between scheduling points (weaker orders only take part in race detection)",
                   "operands are valid solids, as documented; CGAL's code is instrumented too, GMP's is not"};
  c.evaluations_counter = "executions";
  c.nontrivial_counter = "executions with concurrent users";
  c.transitions_counter = "scheduling points";
  c.spaces.push_back({"locks", locks.size(), [](std::uint64_t id, kmc::Ctx& ctx) { run(locks[id], ctx); }, [](std::uint64_t id) { return locks[id].text(); }, 900});
  c.spaces.push_back({"atomics", atomics.size(), [](std::uint64_t id, kmc::Ctx& ctx) { run(atomics[id], ctx); }, [](std::uint64_t id) { return atomics[id].text(); }, 900});
  c.spaces.push_back({"booleans", booleans.size(), [](std::uint64_t id, kmc::Ctx& ctx) { run(booleans[id], ctx); }, [](std::uint64_t id) { return booleans[id].text(); }, 900});
  return kmc::Driver(std::move(c), argc, argv).run();
}
