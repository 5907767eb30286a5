// C21: thread-limit settings nest, clamp and are obeyed.
#define KMC_OWN_HARDWARE_CONCURRENCY
#include <dlfcn.h>
#include <kigumi/Find_defects.h>
#include <kigumi/Region_io.h>
#include <kigumi/Triangle_mesh.h>
#include <kigumi/parallel_do.h>
#include <kigumi/parallel_sort.h>
#include <kigumi/threading.h>
#include <pthread.h>

#include <condition_variable>
#include <memory>
#include <mutex>

#include "../geom.h"
#include "../zoo.h"

using namespace geom;

// ---------------------------------------------------------------------------------------------------
// Every thread created or joined is seen here.

namespace threads {

struct Node {
  struct Event {
    bool join;
    std::shared_ptr<Node> child;
  };
  std::vector<Event> events;
};

std::mutex g_mutex;
std::map<pthread_t, std::shared_ptr<Node>> g_known;
thread_local std::shared_ptr<Node> t_node;
std::uint64_t g_created;

std::shared_ptr<Node> self() {
  if (!t_node) t_node = std::make_shared<Node>();
  return t_node;
}

// How many threads can be at work at the same time, whatever the schedule: a thread that has threads of
// its own is taken to wait for them.
std::uint64_t at_work(const Node& n) {
  std::map<const Node*, std::uint64_t> live;
  std::uint64_t most = 1, now = 0;
  for (auto& e : n.events) {
    if (e.join) now -= live[e.child.get()], live.erase(e.child.get());
    else now += live[e.child.get()] = at_work(*e.child);
    most = std::max(most, now);
  }
  return most;
}

// True if a thread was left running.
bool left_over(const Node& n) {
  std::set<const Node*> live;
  for (auto& e : n.events) {
    if (e.join) live.erase(e.child.get());
    else live.insert(e.child.get());
    if (!e.join && left_over(*e.child)) return true;
  }
  return !live.empty();
}

struct Start {
  void* (*f)(void*);
  void* arg;
  std::shared_ptr<Node> node;
};
void* begin(void* p) {
  std::unique_ptr<Start> s{static_cast<Start*>(p)};
  t_node = s->node;
  return s->f(s->arg);
}

}  // namespace threads

extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
  static auto real = reinterpret_cast<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>(dlsym(RTLD_NEXT, "pthread_create"));
  auto node = std::make_shared<threads::Node>();
  threads::self()->events.push_back({false, node});
  std::lock_guard lock{threads::g_mutex};
  ++threads::g_created;
  int r = real(t, a, threads::begin, new threads::Start{f, arg, node});
  threads::g_known[*t] = node;
  return r;
}

extern "C" int pthread_join(pthread_t t, void** ret) {
  static auto real = reinterpret_cast<int (*)(pthread_t, void**)>(dlsym(RTLD_NEXT, "pthread_join"));
  std::shared_ptr<threads::Node> node;  // looked up first: the identifier may be used again afterwards
  {
    std::lock_guard lock{threads::g_mutex};
    auto it = threads::g_known.find(t);
    if (it != threads::g_known.end()) node = it->second, threads::g_known.erase(it);
  }
  int r = real(t, ret);
  if (node) threads::self()->events.push_back({true, node});
  return r;
}

namespace {

using kigumi::Threading_context;
using kigumi::Threading_options;

std::size_t limit() { return Threading_context::current().num_threads(); }

// ---------------------------------------------------------------------------------------------------
// Nested scopes on one or two threads.

enum Tok { PUSH0, PUSH1, PUSH2, PUSH5, PUSHMAX, POP, THROW1, THROW2, NTOK };
const char* kTok[] = {"set 0", "set 1", "set 2", "set 5", "set max", "leave", "throw out of 1", "throw out of 2"};
const std::size_t kValue[] = {0, 1, 2, 5, ~std::size_t{0}};

struct Step {
  int thread;
  int tok;
};

struct Unwind {
  int scopes;
};

struct Script_run {
  const std::vector<Step>& script;
  int nthreads;
  unsigned hw;
  std::string bad;

  std::mutex m;
  std::condition_variable cv;
  std::size_t pos = 0;
  bool ended[2] = {false, false};
  int observed = 0;  // how many threads have observed the state after step pos-1

  std::size_t dflt() const { return std::max(1U, hw); }
  std::size_t clamp(std::size_t v) const { return std::min(std::max(v, std::size_t{1}), dflt()); }

  // Returns the next token of this thread; observes after every step of any thread.
  int next(int me, const std::vector<std::size_t>& model) {
    std::unique_lock l{m};
    while (true) {
      if (ended[me]) return -1;
      cv.wait(l, [&] { return turn() == me; });
      if (observed < nthreads) {
        if (limit() != model.back() && bad.empty()) bad = explain(me, model.back());
        ++observed;
        cv.notify_all();
        if (pos == script.size()) {
          ended[me] = true;
          return -1;
        }
        continue;
      }
      observed = 0;
      return script[pos++].tok;
    }
  }
  // Observers go in order of the thread number, starting with the thread that made the step.
  int turn() const {
    int base = pos == 0 ? 0 : script[pos - 1].thread;
    if (observed < nthreads) return (base + observed) % nthreads;
    return pos < script.size() ? script[pos].thread : -1;
  }
  std::string explain(int me, std::size_t want) const {
    std::string s = "hardware answers " + std::to_string(hw) + "; after";
    for (std::size_t i = 0; i < pos; ++i) s += (i ? ", " : " ") + (nthreads > 1 ? "thread " + std::to_string(script[i].thread) + ": " : std::string{}) + kTok[script[i].tok];
    return s + ": the limit on thread " + std::to_string(me) + " is " + std::to_string(limit()) + " instead of " + std::to_string(want);
  }

  void scope(int me, std::vector<std::size_t>& model) {
    while (true) {
      int t = next(me, model);
      if (t < 0) return;
      if (t == POP) {
        if (model.size() > 1) return;
        continue;
      }
      if (t == THROW1 || t == THROW2) throw Unwind{t == THROW1 ? 1 : 2};
      std::size_t depth = model.size();
      try {
        Threading_options o;
        o.set_num_threads(kValue[t]);
        if (o.num_threads() != clamp(kValue[t]) && bad.empty()) bad = "the option does not keep the clamped value";
        Threading_context c{o};
        model.push_back(clamp(kValue[t]));
        scope(me, model);
      } catch (Unwind& u) {
        model.resize(depth);
        if (--u.scopes > 0) throw;
        continue;
      }
      model.resize(depth);
    }
  }

  void run() {
    std::vector<std::thread> ts;
    for (int i = 0; i < nthreads; ++i)
      ts.emplace_back([this, i] {
        std::vector<std::size_t> model{dflt()};
        try {
          scope(i, model);
        } catch (Unwind&) {
          bad = "harness: unwound too far";
        }
        // The whole stack is left: the default again.
        if (limit() != dflt() && bad.empty()) bad = "after leaving every scope the limit is not the default again";
      });
    for (auto& t : ts) t.join();
  }
};

void scripts(int nthreads, unsigned hw, int depth, const std::vector<int>& prefix, kmc::Ctx& ctx) {
  std::vector<Step> s;
  std::vector<std::vector<int>> open(nthreads, {0});
  auto allowed = [&](const Step& x) {
    int d = open[x.thread].back();
    if (x.tok == POP || x.tok == THROW1) return d >= 1;
    if (x.tok == THROW2) return d >= 2;
    return d < 4;
  };
  auto push = [&](const Step& x) {
    int d = open[x.thread].back();
    open[x.thread].push_back(x.tok == POP || x.tok == THROW1 ? d - 1 : x.tok == THROW2 ? d - 2 : d + 1);
    s.push_back(x);
  };
  for (int p : prefix) {
    Step x{p / NTOK, p % NTOK};
    if (!allowed(x)) return;
    push(x);
  }
  std::function<void()> dfs = [&] {
    kmc::g_hardware_concurrency = hw;
    Script_run r{s, nthreads, hw};
    r.run();
    ctx.count("sequences");
    ctx.count("transitions", s.size());
    if (!s.empty()) ctx.count("nontrivial");
    if (!r.bad.empty()) {
      ctx.fail("scopes", r.bad);
      return;
    }
    std::string st;
    for (auto& o : open) st += std::to_string(o.back()) + ",";
    ctx.state(kmc::hash_bytes(st + std::to_string(hw)));
    if (static_cast<int>(s.size()) == depth) return;
    for (int p = 0; p < nthreads * NTOK; ++p) {
      Step x{p / NTOK, p % NTOK};
      if (!allowed(x)) continue;
      push(x);
      dfs();
      open[x.thread].pop_back();
      s.pop_back();
    }
  };
  dfs();
  threads::g_known.clear();
  threads::t_node.reset();
}

// ---------------------------------------------------------------------------------------------------
// Every parallel stage.

struct Stage {
  std::string name;
  std::function<void()> run;
};

Soup fan(int n) {  // n faces in a strip
  std::vector<K::Point_3> p;
  std::vector<Face> f;
  for (int i = 0; i < n + 2; ++i) p.emplace_back(i, i % 2, (i * 7) % 5);
  for (int i = 0; i < n; ++i) f.push_back({Vertex_index(i), Vertex_index(i + 1), Vertex_index(i + 2)});
  return {std::move(p), std::move(f), std::vector<int>(n)};
}

struct Quiet {
  std::ostringstream s;
  std::streambuf* old = std::cout.rdbuf(s.rdbuf());
  ~Quiet() { std::cout.rdbuf(old); }
};

void boolean(const Shape& a, const Shape& b) {
  try {
    Builder x{region_of(a), region_of(b)};
    (void)x(Op::A);
    (void)x(Op::L);
  } catch (const std::exception&) {
  }
}
void find_defects(const Soup& s) {
  try {
    kigumi::Find_defects<K, int> d{s};
  } catch (const std::exception&) {
  }
}
void sort_some(int n) {
  std::vector<int> v(n);
  for (int i = 0; i < n; ++i) v[i] = (i * 7919) % (n + 1);
  kigumi::parallel_sort(v.begin(), v.end());
}
void loop_with_state(int n, const std::function<void(int)>& body) {
  std::vector<int> v(n);
  for (int i = 0; i < n; ++i) v[i] = i;
  int sum = 0;
  kigumi::parallel_do(
      v.begin(), v.end(), 0, [&](int i, int& s) { body(i), s += i; }, [&](int s) { sum += s; });
}
void loop(int n, const std::function<void(int)>& body) {
  std::vector<int> v(n);
  for (int i = 0; i < n; ++i) v[i] = i;
  kigumi::parallel_do(v.begin(), v.end(), [&](int i) { body(i); });
}

std::vector<Stage> stages(bool thorough) {
  std::vector<Stage> r;
  auto nothing = [](int) {};
  for (int n : {0, 1, 2, 3, 4, 5, 7, 8, 9, 20}) {
    r.push_back({"loop with state over " + std::to_string(n), [=] { loop_with_state(n, nothing); }});
    r.push_back({"loop over " + std::to_string(n), [=] { loop(n, nothing); }});
    for (int t : {0, 3}) {
      auto bad = [=](int i) {
        if (i >= t) throw std::runtime_error("x");
      };
      auto caught = [](auto f) {
        try {
          f();
        } catch (const std::runtime_error&) {
        }
      };
      r.push_back({"failing loop with state over " + std::to_string(n), [=] { caught([&] { loop_with_state(n, bad); }); }});
      r.push_back({"failing loop over " + std::to_string(n), [=] { caught([&] { loop(n, bad); }); }});
    }
  }
  for (int n : {0, 1, 2, 1023, 1024, 1025, 2048, 2049, 3073, 4097, 5000, 8193, 20000}) r.push_back({"sort " + std::to_string(n), [=] { sort_some(n); }});
  for (int n = 0; n <= (thorough ? 70 : 40); ++n)
    r.push_back({"search tree of " + std::to_string(n), [=] { (void)fan(n).aabb_tree(); }});
  for (int n : {100, 341, 342, 700, 1400}) {
    r.push_back({"search tree of " + std::to_string(n), [=] { (void)fan(n).aabb_tree(); }});
    r.push_back({"indexed mesh of " + std::to_string(n), [=] {
                   kigumi::Triangle_mesh<K, int> m;
                   auto s = fan(n);
                   for (auto vi : s.vertices()) m.add_vertex(s.point(vi));
                   for (auto fi : s.faces()) m.add_face(s.face(fi));
                   m.finalize();
                 }});
  }
  // Work nested in the workers of a loop.
  auto inner = [=](int what) {
    switch (what) {
      case 0: (void)fan(33).aabb_tree(); break;
      case 1: loop(6, nothing); break;
      case 2: loop_with_state(6, nothing); break;
      case 3: sort_some(5000); break;
      case 4: boolean(voxels(1, 1, 1, 1, 0), moved(voxels(1, 1, 1, 1, 0), {0.5, 0.25, 0.125})); break;
      default: find_defects(fan(6)); break;
    }
  };
  for (int what = 0; what < 6; ++what)
    for (int n : {2, 5}) {
      r.push_back({"loop over " + std::to_string(n) + " with nested work " + std::to_string(what), [=] { loop(n, [&](int) { inner(what); }); }});
      r.push_back({"loop with state over " + std::to_string(n) + " with nested work " + std::to_string(what), [=] { loop_with_state(n, [&](int) { inner(what); }); }});
    }
  // The pipeline.
  std::vector<Shape> sh{voxels(1, 1, 1, 1, 0), moved(voxels(1, 1, 1, 1, 1), {0.5, 0.25, 0.125}), moved(voxels(1, 1, 1, 1, 0), {1, 0, 0}), moved(voxels(1, 1, 1, 1, 0), {3, 3, 3}), voxels(0x96, 2, 2, 2, 2, {}, 0.5), moved(voxels(0xb7, 2, 2, 2, 1), {0.25, 0.25, 0.25}, 0.75), inverted(voxels(1, 1, 1, 1, 0)), empty_shape(), full_shape()};
  for (auto& a : sh)
    for (auto& b : sh) r.push_back({"Boolean of " + a.name + " and " + b.name, [=] { boolean(a, b); }});
  for (auto& a : sh) {
    if (a.special >= 0) continue;
    r.push_back({"defects of " + a.name, [=] { find_defects(soup_of(a)); }});
    r.push_back({"point location in " + a.name, [=] {
                   auto g = region_of(a);
                   for (double x : {0.3, 0.5, 1.7}) (void)g.bounded_side({x, x * 0.9, x * 0.8});
                 }});
    r.push_back({"writing and reading " + a.name, [=] {
                   std::stringstream io;
                   kigumi::kigumi_write<Region>(io, region_of(a));
                   Region g;
                   kigumi::kigumi_read<Region>(io, g);
                   (void)g.bounded_side({0.3, 0.4, 0.5});
                 }});
  }
  for (int n : {1, 5, 30}) r.push_back({"defects of a strip of " + std::to_string(n), [=] { find_defects(fan(n)); }});
  r.push_back({"Boolean of large meshes", [] {
                 Shape a = voxels(0x7fffffe & 0xffffff, 3, 3, 3, 2), b = moved(voxels(0x5a5a5a5, 3, 3, 3, 1), {0.25, 0.5, 0.75}, 0.8);
                 boolean(a, b);
               }});
  return r;
}

struct Limit_case {
  unsigned hw;
  std::vector<std::size_t> set;  // nested settings; empty: the default
};
std::vector<Limit_case> limits() {
  std::vector<Limit_case> r;
  for (unsigned hw : {0U, 1U, 2U, 3U, 5U, 8U}) r.push_back({hw, {}});
  for (std::size_t v : {1, 2, 3, 4, 5, 7, 8}) r.push_back({8, {v}});
  r.push_back({8, {0}});
  r.push_back({3, {100}});
  r.push_back({1, {100}});
  r.push_back({8, {6, 1}});
  r.push_back({8, {1, 6}});
  r.push_back({8, {2, 1, 3}});
  return r;
}

void run_stage(const Stage& st, const Limit_case& lc, kmc::Ctx& ctx) {
  kmc::g_hardware_concurrency = lc.hw;
  std::size_t dflt = std::max(1U, lc.hw), want = dflt;
  for (auto v : lc.set) want = std::min(std::max(v, std::size_t{1}), dflt);
  std::string bad;
  std::uint64_t made = 0, most = 0;
  bool left = false;
  std::function<void(std::size_t)> nest = [&](std::size_t i) {
    if (i < lc.set.size()) {
      Threading_options o;
      o.set_num_threads(lc.set[i]);
      Threading_context c{o};
      nest(i + 1);
      return;
    }
    threads::t_node = std::make_shared<threads::Node>();
    auto before = threads::g_created;
    st.run();
    made = threads::g_created - before;
    most = threads::at_work(*threads::t_node);
    left = threads::left_over(*threads::t_node);
    if (limit() != want) bad = "the limit is " + std::to_string(limit()) + " after it";
    threads::t_node.reset();
  };
  {
    // A fresh thread: its default is taken from the hardware's answer when it first asks.
    std::thread t([&] {
      nest(0);
      if (limit() != dflt) bad = "the limit is not restored";
    });
    t.join();
  }
  threads::t_node.reset();
  threads::g_known.clear();
  std::string where = st.name + " with the hardware answering " + std::to_string(lc.hw) + " and a limit of " + std::to_string(want);
  if (most > want) ctx.fail("exceeds the limit", where + ": " + std::to_string(most) + " threads can be at work at the same time");
  if (want == 1 && made > 0) ctx.fail("not serial", where + ": " + std::to_string(made) + " threads were started");
  if (left) ctx.fail("left running", where + ": a thread was not waited for");
  if (!bad.empty()) ctx.fail("limit changed", where + ": " + bad);
  ctx.count("stages");
  ctx.count("threads", made);
  if (made > 0) ctx.count("nontrivial");
  ctx.outcome(st.name + "#" + std::to_string(most));
}

}  // namespace

int main(int argc, char** argv) {
  bool thorough = kmc::tier_of(argc, argv) == "thorough";
  kmc::Check c;
  c.property = "C21";
  c.rule =
      "every well-nested sequence of entering (five requested values), leaving and throwing out of scopes, up to the stated length and four deep, on "
      "one thread for every hardware answer in {0,1,2,3,8,64} and in every interleaving on two threads, the limit compared on every "
      "thread after every step with a stack per thread; and every parallel entry point (loops, sort, search tree, indexing, nested "
      "combinations, the Boolean pipeline, defects, point location) under 19 limit settings, counting the threads that can be at work together";
  c.assumptions = {"scopes are left in the reverse order of entering (as block scopes are)", "thread creation does not fail"};
  c.evaluations_counter = "cases";
  for (unsigned hw : {0U, 1U, 2U, 3U, 8U, 64U}) {
    kmc::Space s;
    s.name = "one-thread-hw" + std::to_string(hw);
    s.size = NTOK * NTOK;
    s.case_timeout_s = 300;
    int depth = thorough ? 7 : 6;
    s.run = [hw, depth](std::uint64_t id, kmc::Ctx& ctx) { scripts(1, hw, depth, {static_cast<int>(id % NTOK), static_cast<int>(id / NTOK)}, ctx); };
    s.describe = [](std::uint64_t id) { return std::string("sequences starting with ") + kTok[id % NTOK] + ", " + kTok[id / NTOK]; };
    c.spaces.push_back(std::move(s));
  }
  {
    kmc::Space s;
    s.name = "two-threads";
    s.size = 4ULL * NTOK * NTOK;
    s.case_timeout_s = 300;
    int depth = thorough ? 6 : 5;
    s.run = [depth](std::uint64_t id, kmc::Ctx& ctx) { scripts(2, 8, depth, {static_cast<int>(id % (2 * NTOK)), static_cast<int>(id / (2 * NTOK))}, ctx); };
    s.describe = [](std::uint64_t id) {
      auto n = [](std::uint64_t p) { return "thread " + std::to_string(p / NTOK) + ": " + kTok[p % NTOK]; };
      return "sequences starting with " + n(id % (2 * NTOK)) + ", " + n(id / (2 * NTOK));
    };
    c.spaces.push_back(std::move(s));
  }
  {
    auto st = std::make_shared<std::vector<Stage>>(stages(thorough));
    auto li = std::make_shared<std::vector<Limit_case>>(limits());
    kmc::Space s;
    s.name = "stages";
    s.size = st->size() * li->size();
    s.run = [st, li](std::uint64_t id, kmc::Ctx& ctx) { run_stage((*st)[id / li->size()], (*li)[id % li->size()], ctx); };
    s.describe = [st, li](std::uint64_t id) { return (*st)[id / li->size()].name; };
    c.spaces.push_back(std::move(s));
  }
  return kmc::Driver(std::move(c), argc, argv).run();
}
