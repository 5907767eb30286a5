// C17: parallel sort sorts every input under every schedule and thread count.
#define KMC_OWN_HARDWARE_CONCURRENCY
#include <kigumi/parallel_sort.h>
#include <kigumi/threading.h>

#include <deque>
#include <numeric>

#include "../kmc.h"
#include "../sched.h"

namespace {

struct Item {
  int key = 0;
  int serial = 0;
  bool operator<(const Item& o) const { return key < o.key; }
};
struct Move_only {
  int key = 0, serial = 0;
  Move_only(int k, int s) : key{k}, serial{s} {}
  Move_only(Move_only&& o) noexcept : key{o.key}, serial{o.serial} { o.serial = -1; }
  Move_only& operator=(Move_only&& o) noexcept {
    key = o.key;
    serial = o.serial;
    if (this != &o) o.serial = -1;
    return *this;
  }
  bool operator<(const Move_only& o) const { return key < o.key; }
};

// How a sequence of n keys for t threads is made.
struct Pattern {
  int kind = 0;
  std::uint64_t arg = 0;
};

std::vector<int> keys_of(const Pattern& p, std::size_t n, int t) {
  std::vector<int> k(n);
  auto per = std::max<std::size_t>(1, n / std::max(1, t));
  auto block = [&](std::size_t i) { return static_cast<int>(std::min<std::size_t>(i / per, static_cast<std::size_t>(t) - 1)); };
  switch (p.kind) {
    case 0: std::iota(k.begin(), k.end(), 0); break;
    case 1:
      for (std::size_t i = 0; i < n; ++i) k[i] = static_cast<int>(n - i);
      break;
    case 2:
      for (std::size_t i = 0; i < n; ++i) k[i] = static_cast<int>(kmc::mix64(i) >> 40);
      break;
    case 3:
      for (std::size_t i = 0; i < n; ++i) k[i] = static_cast<int>(kmc::mix64(i) >> 40) & 7;
      break;
    case 4:  // one element (arg: where, in eighths, and whether least or greatest) out of place
      std::iota(k.begin(), k.end(), 0);
      if (n) k[std::min(n - 1, n * (p.arg >> 1) / 8)] = p.arg & 1 ? -1 : static_cast<int>(n) + 1;
      break;
    case 5: {  // block b gets the rank arg-th permutation says, decreasing within
      std::vector<int> perm(t);
      std::iota(perm.begin(), perm.end(), 0);
      auto a = p.arg;
      for (int i = t - 1; i > 0; --i) {
        std::swap(perm[i], perm[a % (i + 1)]);
        a /= i + 1;
      }
      for (std::size_t i = 0; i < n; ++i) k[i] = perm[block(i)] * 1000000 - static_cast<int>(i);
      break;
    }
    case 6: {  // zeros and ones: block b has none, some (scattered) or only zeros
      std::vector<int> d(t);
      auto a = p.arg;
      for (auto& x : d) x = static_cast<int>(a % 3), a /= 3;
      for (std::size_t i = 0; i < n; ++i) {
        int x = d[block(i)];
        k[i] = x == 0 ? 1 : x == 2 ? 0 : static_cast<int>(kmc::mix64(i) & 1);
      }
      break;
    }
    case 7: std::fill(k.begin(), k.end(), 5); break;
    case 8:  // organ pipe
      for (std::size_t i = 0; i < n; ++i) k[i] = static_cast<int>(std::min(i, n - i));
      break;
  }
  return k;
}

struct Plan {
  std::size_t n = 0;
  int limit = 1;
  Pattern pattern;
  int flavour = 0;  // 0 vector of items, 1 greater, 2 deque, 3 move-only, 4 default comparison, 5 pointers
};

struct Limit {
  kigumi::Threading_options o;
  explicit Limit(int n) { o.set_num_threads(static_cast<std::size_t>(n)); }
};

std::string g_bad;

template <class C, class F>
void sort_and_judge(C& c, const std::vector<int>& keys, F greater, std::size_t, int flavour) {
  std::vector<char> seen(keys.size(), 0);
  std::size_t i = 0;
  int prev = 0;
  for (auto& x : c) {
    if (x.serial < 0 || static_cast<std::size_t>(x.serial) >= keys.size() || seen[x.serial] || keys[x.serial] != x.key) {
      g_bad = "not-a-permutation: element " + std::to_string(i) + " of the result is not one of the input, or occurs twice";
      return;
    }
    seen[x.serial] = 1;
    if (i > 0 && (greater ? prev < x.key : x.key < prev)) {
      g_bad = "not-sorted: elements " + std::to_string(i - 1) + " and " + std::to_string(i) + " of " + std::to_string(keys.size()) +
              " are out of order";
      return;
    }
    prev = x.key;
    ++i;
  }
  if (i != keys.size()) g_bad = "not-a-permutation: the number of elements changed";
}

void run_plan(const Plan& p, const std::vector<int>& keys) {
  g_bad.clear();
  kigumi::Threading_context context{Limit{p.limit}.o};
  auto fill = [&](auto& c) {
    for (std::size_t i = 0; i < keys.size(); ++i) c.push_back({keys[i], static_cast<int>(i)});
  };
  auto less = [](const auto& a, const auto& b) { return a.key < b.key; };
  switch (p.flavour) {
    case 0: {
      std::vector<Item> v;
      fill(v);
      kigumi::parallel_sort(v.begin(), v.end(), less);
      sort_and_judge(v, keys, false, 0, 0);
      break;
    }
    case 1: {
      std::vector<Item> v;
      fill(v);
      kigumi::parallel_sort(v.begin(), v.end(), [](const Item& a, const Item& b) { return b.key < a.key; });
      sort_and_judge(v, keys, true, 0, 1);
      break;
    }
    case 2: {
      std::deque<Item> v;
      fill(v);
      kigumi::parallel_sort(v.begin(), v.end(), less);
      sort_and_judge(v, keys, false, 0, 2);
      break;
    }
    case 3: {
      std::vector<Move_only> v;
      for (std::size_t i = 0; i < keys.size(); ++i) v.emplace_back(keys[i], static_cast<int>(i));
      kigumi::parallel_sort(v.begin(), v.end(), less);
      sort_and_judge(v, keys, false, 0, 3);
      break;
    }
    case 4: {
      std::vector<Item> v;
      fill(v);
      kigumi::parallel_sort(v.begin(), v.end());
      sort_and_judge(v, keys, false, 0, 4);
      break;
    }
    case 5: {
      std::vector<Item> v;
      fill(v);
      kigumi::parallel_sort(v.data(), v.data() + v.size(), less);
      sort_and_judge(v, keys, false, 0, 5);
      break;
    }
  }
  if (kmc::sched::live_threads()) g_bad = "early-return: workers were running when the call returned";
  if (kmc::sched::max_live_threads() > static_cast<std::size_t>(p.limit)) g_bad = "limit: more workers than the limit";
}

std::string describe(const Plan& p) {
  std::ostringstream o;
  o << p.n << " elements, limit " << p.limit << ", pattern " << p.pattern.kind << '/' << p.pattern.arg << ", flavour " << p.flavour;
  return o.str();
}

// Without schedules: the workers share nothing but the barrier, so one schedule decides the result; "schedules" explores them.
void run_data(const Plan& p, kmc::Ctx& ctx) {
  auto keys = keys_of(p.pattern, p.n, std::min<int>(p.limit, static_cast<int>((p.n + 1023) / 1024)));
  kmc::sched::Options o;
  o.strategy = kmc::sched::Options::DELAY;
  o.delays = 0;
  o.fork = false;
  std::set<int> distinct(keys.begin(), keys.end());
  auto r = kmc::sched::explore(o, [&] { run_plan(p, keys); }, [&] { return g_bad; });
  ctx.count("sorts", r.executions + 1);
  ctx.count("accesses checked", r.accesses);
  if (r.max_live > 1 && distinct.size() > 1 && !std::is_sorted(keys.begin(), keys.end())) ctx.count("parallel sorts of unsorted input");
  if (!strcmp(r.key, "broken")) ctx.count("broken");
  else if (r.violated()) ctx.fail(r.key, r.text);
  ctx.outcome(std::to_string(r.max_live));
}

}  // namespace

int main(int argc, char** argv) {
  bool thorough = kmc::tier_of(argc, argv) == "thorough";
  kmc::g_hardware_concurrency = 32;

  auto fact = [](int n) {
    std::uint64_t f = 1;
    for (int i = 2; i <= n; ++i) f *= i;
    return f;
  };
  auto pow3 = [](int n) {
    std::uint64_t f = 1;
    while (n-- > 0) f *= 3;
    return f;
  };

  std::vector<Plan> sizes, blocks, schedules, flavours;
  // Every size (quick: around the sizes where the number of threads or the length of a part changes) x limits.
  std::set<std::size_t> ns;
  for (std::size_t n = 0; n <= 40; ++n) ns.insert(n);
  for (std::size_t b = 1; b <= (thorough ? 20 : 17); ++b)
    for (int d = -3; d <= 3; ++d) ns.insert(b * 1024 + d);
  if (thorough)
    for (std::size_t n = 1000; n <= 5200; ++n) ns.insert(n);
  for (auto n : ns)
    for (int limit : {1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 32}) {
      if (limit > 2 && n <= static_cast<std::size_t>(limit - 2) * 1024) continue;  // no different from a smaller limit
      for (int k : {0, 1, 2, 3}) {
        if (thorough && n > 1100 && n < 5100 && n % 1024 > 40 && k != 2) continue;
        sizes.push_back({n, limit, {k, 0}, 0});
      }
    }
  for (int t = 2; t <= (thorough ? 6 : 5); ++t)
    for (std::size_t n : {static_cast<std::size_t>(t) * 1024, static_cast<std::size_t>(t) * 1024 - 1023, static_cast<std::size_t>(t) * 1024 - 1}) {
      if (t == 6 && n % 1024 != 0) continue;
      for (std::uint64_t a = 0; a < fact(t); ++a) blocks.push_back({n, t, {5, a}, 0});
      for (std::uint64_t a = 0; a < pow3(t); ++a) blocks.push_back({n, t, {6, a}, 0});
    }
  for (int t = 2; t <= 8; ++t)
    for (std::uint64_t a = 0; a < 18; ++a) blocks.push_back({static_cast<std::size_t>(t) * 1024, t, {4, a}, 0});
  for (int f = 0; f <= 5; ++f)
    for (std::size_t n : {0, 1, 2, 17, 1024, 1025, 2047, 2048, 2049, 3073, 4097, 5121, 8200})
      for (int limit : {1, 2, 3, 4, 5, 8})
        for (int k : {0, 1, 2, 3, 7, 8}) flavours.push_back({n, limit, {k, 0}, f});

  struct Sched_plan {
    Plan p;
    int delays;  // -1: all traces
    bool fine;
    std::uint64_t shard, shards;
  };
  static std::vector<Sched_plan> sp;
  for (int t = 2; t <= 8; ++t) {
    std::size_t n = static_cast<std::size_t>(t - 1) * 1024 + 1;
    Plan a{n, t, {1, 0}, 0}, b{n, t, {2, 0}, 0};
    if (t == 2) {
      sp.push_back({a, -1, true, 0, 1});
      sp.push_back({b, -1, true, 0, 1});
    }
    if (t <= 3 || thorough) {
      int d = t == 2 ? 6 : t == 3 ? (thorough ? 4 : 3) : t <= 5 ? 2 : 1;
      std::uint64_t shards = t == 2 ? 4 : 16;
      for (std::uint64_t s = 0; s < shards; ++s) sp.push_back({a, d, true, s, shards});
    }
    int d = t <= 4 ? 2 : 1;
    if (thorough) ++d;
    for (std::uint64_t s = 0; s < 16; ++s) sp.push_back({b, d, false, s, 16});
  }

  kmc::Check c;
  c.property = "C17";
  c.level = "exploration";
  c.rule =
      "schedules: for two workers every Mazurkiewicz trace of all atomics, futexes and thread operations of the real code "
      "(dynamic partial-order reduction), for more every schedule within the delay bound; every execution is checked for data "
      "races on all instrumented memory, deadlock, workers left behind, and the result against sorted permutation; the other "
      "spaces: every stated size x limit x order of the input, in the default schedule with the same race detection";
  c.assumptions = {"atomics behave sequentially consistently between scheduling points (weaker orders only take part in race detection)",
                   "comparators do not throw"};
  c.evaluations_counter = "sorts";
  c.nontrivial_counter = "parallel sorts of unsorted input";
  c.transitions_counter = "scheduling points";
  auto data = [&](const char* name, std::vector<Plan>& plans) {
    c.spaces.push_back({name, plans.size(), [&plans](std::uint64_t id, kmc::Ctx& ctx) { run_data(plans[id], ctx); },
                        [&plans](std::uint64_t id) { return describe(plans[id]); }, 120});
  };
  c.spaces.push_back({"schedules", sp.size(),
                      [&](std::uint64_t id, kmc::Ctx& ctx) {
                        auto& s = sp[id];
                        auto keys = keys_of(s.p.pattern, s.p.n, s.p.limit);
                        kmc::sched::Options o;
                        o.strategy = s.delays < 0 ? kmc::sched::Options::DPOR : kmc::sched::Options::DELAY;
                        o.delays = s.delays;
                        o.fine = s.fine;
                        o.shard = s.shard;
                        o.shards = s.shards;
                        auto r = kmc::sched::explore(o, [&] { run_plan(s.p, keys); }, [&] { return g_bad; });
                        ctx.count("sorts", r.executions);
                        ctx.count("schedules explored", r.executions);
                        ctx.count("parallel sorts of unsorted input", r.executions);
                        ctx.count("pruned executions", r.pruned);
                        ctx.count("scheduling points", r.events);
                        ctx.count("accesses checked", r.accesses);
                        if (!strcmp(r.key, "broken")) ctx.count("broken");
                        else if (r.violated()) ctx.fail(r.key, r.text);
                      },
                      [&](std::uint64_t id) {
                        auto& s = sp[id];
                        return describe(s.p) + (s.delays < 0 ? ", all traces" : ", schedules with up to " + std::to_string(s.delays) + " delays") +
                               (s.fine ? " at all atomics" : " at sequentially consistent atomics and blocking operations") + ", part " +
                               std::to_string(s.shard) + "/" + std::to_string(s.shards);
                      },
                      900});
  data("sizes", sizes);
  data("blocks", blocks);
  data("flavours", flavours);
  return kmc::Driver(std::move(c), argc, argv).run();
}
