// C16: the parallel loop runs every item exactly once under every schedule.
//
// Every case is one call of parallel_do (number of items, thread limit, which items / state copies / merges throw);
// its executions are explored completely (every Mazurkiewicz trace of the synchronisation operations).
#define KMC_OWN_HARDWARE_CONCURRENCY
#include <kigumi/parallel_do.h>
#include <kigumi/threading.h>

#include "../kmc.h"
#include "../sched.h"

namespace {

constexpr int MAX = 16;

// Everything is plain memory: if two threads touch the same element unsynchronised, that is a data race of the loop.
struct Log {
  int runs[MAX] = {};            // per item
  int runner[MAX] = {};          // per item: thread
  int body_by[MAX] = {};         // per thread: bodies run
  int thrown[MAX][MAX] = {};     // per thread: what it threw, 1 + code
  int num_thrown[MAX] = {};
  int copies_by[MAX] = {};       // per thread
  int merges = 0;                // by post, which must not overlap
  std::vector<int> merged;       // items, in order of merging
  std::vector<int> merged_state; // identities of the states merged
  bool in_post = false;
  bool overlap = false;
  int caught = -1;               // what reached the caller
  int other_caught = 0;
  std::size_t live_at_return = 0;
};

Log* g_log;

struct Plan {
  int items = 0, limit = 1;
  bool state = true;
  unsigned throwing = 0;        // items
  unsigned throwing_copies = 0; // threads
  int throwing_post = 0;        // the first k merges throw
  int shape = 0;                // 0 plain, 1 nested in the body, 2 two callers
};
const Plan* g_plan;

[[noreturn]] void throw_code(int code) {
  int me = kmc::sched::self_id();
  g_log->thrown[me][g_log->num_thrown[me]++] = code;
  throw code;
}

struct State {
  int identity = -1;
  std::vector<int> items;
  State() = default;
  State(const State& o) : items{o.items} {
    int me = kmc::sched::self_id();
    identity = me * 100 + g_log->copies_by[me]++;
    if (me > 0 && (g_plan->throwing_copies >> me & 1)) throw_code(200 + me);
  }
  State(State&&) = default;
};

struct Limit {
  kigumi::Threading_options o;
  explicit Limit(int n) { o.set_num_threads(static_cast<std::size_t>(n)); }
  operator kigumi::Threading_options() const { return o; }
};

void one_body(int item) {
  int me = kmc::sched::self_id();
  g_log->runs[item]++;
  g_log->runner[item] = me;
  g_log->body_by[me]++;
  if (g_plan->throwing >> item & 1) throw_code(100 + item);
}

void call(const Plan& p) {
  std::vector<int> items(p.items);
  for (int i = 0; i < p.items; ++i) items[i] = i;
  kigumi::Threading_context context{Limit{p.limit}};
  try {
    if (p.state) {
      kigumi::parallel_do(
          items.begin(), items.end(), State{},
          [&](int item, State& s) {
            one_body(item);
            s.items.push_back(item);
          },
          [&](State& s) {
            auto& l = *g_log;
            l.overlap = l.overlap || l.in_post;
            l.in_post = true;
            int k = l.merges++;
            l.merged.insert(l.merged.end(), s.items.begin(), s.items.end());
            l.merged_state.push_back(s.identity);
            l.in_post = false;
            if (k < p.throwing_post) throw_code(300 + k);
          });
    } else if (p.shape == 1) {
      std::vector<int> outer{0, 1};
      kigumi::parallel_do(outer.begin(), outer.end(), [&](int o) {
        kigumi::parallel_do(items.begin(), items.end(), [&](int item) {
          if (item % 2 == o) one_body(item);
        });
      });
    } else {
      kigumi::parallel_do(items.begin(), items.end(), [&](int item) { one_body(item); });
    }
  } catch (int code) {
    g_log->caught = code;
  } catch (...) {
    g_log->other_caught++;
  }
  g_log->live_at_return = kmc::sched::live_threads();
}

// Two threads of the user's, each with a loop of its own.
void call_two(const Plan& p) {
  std::vector<int> a, b;
  for (int i = 0; i < p.items; ++i) (i % 2 ? a : b).push_back(i);
  auto go = [&](std::vector<int>& v) {
    kigumi::Threading_context context{Limit{p.limit}};
    kigumi::parallel_do(v.begin(), v.end(), [&](int item) { one_body(item); });
  };
  std::thread x([&] { go(a); }), y([&] { go(b); });
  x.join();
  y.join();
  g_log->live_at_return = kmc::sched::live_threads();
}

std::string judge(const Plan& p, const Log& l) {
  std::set<int> thrown;
  int workers = 0, copies_thrown = 0;
  for (int t = 0; t < MAX; ++t) {
    workers += l.body_by[t] > 0;
    for (int k = 0; k < l.num_thrown[t]; ++k) {
      thrown.insert(l.thrown[t][k]);
      copies_thrown += l.thrown[t][k] / 100 == 2;
    }
  }
  if (l.live_at_return) return "early-return: " + std::to_string(l.live_at_return) + " workers were running when the call returned";
  if (l.other_caught) return "exception: an exception nobody threw reached the caller";
  if (l.overlap) return "overlap: two merges overlapped";
  for (int i = 0; i < p.items; ++i) {
    if (l.runs[i] > 1) return "twice: item " + std::to_string(i) + " was run " + std::to_string(l.runs[i]) + " times";
    if (thrown.empty() && l.runs[i] != 1) return "missed: item " + std::to_string(i) + " was not run";
  }
  if (p.shape != 2 && workers > p.limit)
    return "limit: " + std::to_string(workers) + " threads ran bodies under a limit of " + std::to_string(p.limit);
  if (thrown.empty() && l.caught != -1) return "exception: something reached the caller although nothing was thrown";
  if (!thrown.empty() && !thrown.count(l.caught))
    return l.caught == -1 ? "swallowed: an exception was thrown and did not reach the caller"
                          : "exception: another exception than one thrown reached the caller";
  if (p.state) {
    std::vector<int> m = l.merged;
    std::sort(m.begin(), m.end());
    if (std::adjacent_find(m.begin(), m.end()) != m.end()) return "merge: the work of an item was merged twice";
    auto s = l.merged_state;
    std::sort(s.begin(), s.end());
    if (std::adjacent_find(s.begin(), s.end()) != s.end()) return "merge: a state was merged twice";
    if (thrown.empty() && static_cast<int>(m.size()) != p.items) return "merge: the work of an item was not merged";
    if (l.merges > p.limit) return "merge: more states were merged than workers allowed";
    for (int i : m)
      if (l.runs[i] != 1) return "merge: the work of an item not run was merged";
  }
  return {};
}

std::string describe(const Plan& p) {
  std::ostringstream o;
  o << (p.shape == 1 ? "nested loops" : p.shape == 2 ? "two callers" : p.state ? "loop with state" : "loop") << ", " << p.items
    << " items, limit " << p.limit;
  auto set = [&](const char* n, unsigned m) {
    if (!m) return;
    o << ", throwing " << n;
    for (int i = 0; i < MAX; ++i)
      if (m >> i & 1) o << ' ' << i;
  };
  set("items", p.throwing);
  set("state copies in threads", p.throwing_copies);
  if (p.throwing_post) o << ", the first " << p.throwing_post << " merges throw";
  return o.str();
}

}  // namespace

int main(int argc, char** argv) {
  bool thorough = kmc::tier_of(argc, argv) == "thorough";
  kmc::g_hardware_concurrency = 8;

  std::vector<Plan> plain, throwing, copies, posts, shapes;
  auto add = [](std::vector<Plan>& v, Plan p) { v.push_back(p); };
  for (bool state : {false, true})
    for (int limit = 1; limit <= 4; ++limit)
      for (int n = 0; n <= 6; ++n) {
        Plan p{n, limit, state};
        // Sizes of the explorations grow with both.
        int w = std::min(n, limit);
        if (w == 2 || w <= 1 || (w == 3 && n <= (thorough || !state ? 6 : 4)) ||
            (w == 4 && n <= (state ? (thorough ? 5 : 0) : thorough ? 6 : 4)))
          add(plain, p);
        int most = w <= 2 ? (thorough ? 6 : 5) : thorough ? 5 : 4;
        if (w <= 3 && n <= most && limit <= 3)
          for (unsigned m = 1; m < 1u << n; ++m) {
            if (w == 3 && n == most && state) continue;
            Plan q = p;
            q.throwing = m;
            add(throwing, q);
          }
        if (state && w >= 1 && w <= 3 && n <= (w == 3 ? 3 : 4) && limit <= 3) {
          for (unsigned c = 1; c < 1u << w; ++c) {
            Plan q = p;
            q.throwing_copies = c << 1;
            if (w > 1) add(copies, q);
            for (int i = 0; i < n; ++i) {
              q.throwing = 1u << i;
              if (w == 2) add(copies, q);
            }
          }
          for (int k = 1; k <= w; ++k) {
            Plan q = p;
            q.throwing_post = k;
            add(posts, q);
            for (int i = 0; i < n; ++i) {
              q.throwing = 1u << i;
              if (w <= 2 || thorough) add(posts, q);
            }
          }
        }
      }
  for (int limit = 1; limit <= 3; ++limit)
    for (int n = 1; n <= (limit == 3 ? 2 : 4); ++n) {
      Plan p{n, limit, false};
      p.shape = 1;
      add(shapes, p);
      for (int i = 0; i < n; ++i) {
        Plan q = p;
        q.throwing = 1u << i;
        add(shapes, q);
      }
      p.shape = 2;
      if (limit <= 2) add(shapes, p);
    }

  kmc::Check c;
  c.property = "C16";
  c.level = "exploration";
  c.rule =
      "a case is one call of parallel_do; in it every Mazurkiewicz trace of its synchronisation operations is executed on "
      "the real code (dynamic partial-order reduction, no preemption bound), every execution is checked for data races on all "
      "instrumented memory, deadlock, and against: each item exactly once, each state merged once, merges not overlapping, "
      "one of the thrown exceptions delivered after all workers ended, no more workers than the limit; evaluations: "
      "executions judged";
  c.assumptions = {"atomics behave sequentially consistently between scheduling points (weaker orders only take part in race detection)",
                   "libstdc++'s own code outside its headers is not instrumented",
                   "std::thread creation does not fail"};
  c.evaluations_counter = "executions";
  c.nontrivial_counter = "concurrent cases";
  c.transitions_counter = "scheduling points";
  c.bounds = {{"items", "0..6"}, {"threads", "1..4"}, {"preemptions", "unbounded"}};
  auto space = [&](const char* name, const std::vector<Plan>& plans) {
    c.spaces.push_back({name, plans.size(),
                        [&plans](std::uint64_t id, kmc::Ctx& ctx) {
                          const Plan p = plans[id];
                          g_plan = &p;
                          kmc::sched::Options o;
                          std::uint64_t outcomes_seen[4] = {};
                          (void)outcomes_seen;
                          auto r = kmc::sched::explore(
                              o,
                              [&] {
                                delete g_log;
                                g_log = new Log;
                                if (p.shape == 2) call_two(p);
                                else call(p);
                              },
                              [&] { return judge(p, *g_log); });
                          ctx.count("executions", r.executions);
                          ctx.count("pruned executions", r.pruned);
                          ctx.count("scheduling points", r.events);
                          ctx.count("accesses checked", r.accesses);
                          if (r.max_live > 1) ctx.count("concurrent cases");
                          if (!strcmp(r.key, "broken")) ctx.count("broken");
                          else if (r.violated()) ctx.fail(r.key, r.text);
                          ctx.outcome(std::to_string(r.executions) + " " + std::to_string(r.max_live));
                        },
                        [&plans](std::uint64_t id) { return describe(plans[id]); }, 600});
  };
  space("plain", plain);
  space("throwing", throwing);
  space("copies", copies);
  space("posts", posts);
  space("shapes", shapes);
  return kmc::Driver(std::move(c), argc, argv).run();
}
