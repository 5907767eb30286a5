#pragma once
// kmc: a small explicit enumeration driver.
//
// A check is a list of Spaces.  A Space is a finite set of cases [0, size); run(id, ctx) decodes case
// `id`, drives the real code, and compares it with a reference model.  The driver runs *every* case of
// every space in forked worker processes, so that a crash, an abort or a hang of the code under test is
// attributed to one case, re-run alone (replay before report) and reported as a violation.
//
// Exit status: 0 no violation (beyond the listed known findings), 1 violation, 2 the check is broken.

#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>

namespace kmc {

// The harness decides what std::thread::hardware_concurrency() answers (see the end of this file).
inline unsigned g_hardware_concurrency = 1;

struct Failure {
  std::string space;
  std::uint64_t id{};
  std::string key;   // stable identification of what fails (matched against known findings)
  std::string text;  // human-readable explanation
};

inline std::uint64_t mix64(std::uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}

inline std::uint64_t hash_bytes(const std::string& s) {
  std::uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ULL;
  }
  return mix64(h);
}

class Ctx {
 public:
  std::map<std::string, std::uint64_t> counters;
  std::unordered_set<std::uint64_t> outcomes;  // hashes of distinct observed outcomes
  std::unordered_set<std::uint64_t> states;    // hashes of distinct states
  std::vector<Failure> failures;
  bool replaying{};

  void count(const std::string& name, std::uint64_t n = 1) { counters[name] += n; }
  void outcome(std::uint64_t h) {
    if (outcomes.size() < 4000000) outcomes.insert(h);
  }
  void outcome(const std::string& s) { outcome(hash_bytes(s)); }
  void state(std::uint64_t h) {
    if (states.size() < 8000000) states.insert(h);
  }
  void fail(const std::string& key, const std::string& text) {
    if (cur_failed_.insert(key).second) {
      failures.push_back({cur_space_, cur_id_, key, text});
    }
  }
  bool failed() const { return !cur_failed_.empty(); }

  void begin(const std::string& space, std::uint64_t id) {
    cur_space_ = space;
    cur_id_ = id;
    cur_failed_.clear();
  }

 private:
  std::string cur_space_;
  std::uint64_t cur_id_{};
  std::set<std::string> cur_failed_;
};

struct Space {
  std::string name;
  std::uint64_t size{};
  std::function<void(std::uint64_t, Ctx&)> run;
  std::function<std::string(std::uint64_t)> describe;
  double case_timeout_s = 60;
};

struct Check {
  std::string property;
  std::string level = "exploration";  // evidence level
  std::string rule;
  std::vector<std::string> assumptions;
  std::vector<Space> spaces;
  // Names of the counters that make the evidence's headline numbers.
  std::string evaluations_counter = "cases";
  std::string nontrivial_counter = "nontrivial";
  std::string states_counter;       // if empty: number of distinct ctx.state() hashes
  std::string transitions_counter;  // used with level model_checking
  std::string traces_counter;
  std::map<std::string, std::string> bounds;  // free-form description of bounds
  std::size_t max_rss_gb = 4;
};

inline std::string json_escape(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    switch (c) {
      case '"': r += "\\\""; break;
      case '\\': r += "\\\\"; break;
      case '\n': r += "\\n"; break;
      case '\t': r += "\\t"; break;
      case '\r': r += "\\r"; break;
      default:
        if (c < 0x20 || c >= 0x7f) {
          char buf[8];
          std::snprintf(buf, sizeof buf, "\\u%04x", c);
          r += buf;
        } else {
          r += static_cast<char>(c);
        }
    }
  }
  return r;
}
inline std::string q(const std::string& s) { return "\"" + json_escape(s) + "\""; }

struct Slot {  // shared with the parent
  volatile std::uint64_t cur;        // global case number being run, or ~0
  volatile std::uint64_t next_k;     // the next k of this worker (case = worker + k * jobs)
  volatile double started;
};

inline double now_s() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

class Driver {
 public:
  Driver(Check check, int argc, char** argv) : check_(std::move(check)) {
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      auto val = [&]() -> std::string {
        if (i + 1 >= argc) throw std::runtime_error("missing value for " + a);
        return argv[++i];
      };
      if (a == "--tier") tier_ = val();
      else if (a == "--jobs") jobs_ = std::stoi(val());
      else if (a == "--evidence") evidence_ = val();
      else if (a == "--replay-dir") replay_dir_ = val();
      else if (a == "--known") known_ = val();
      else if (a == "--seed") seed_ = std::stoi(val());
      else if (a == "--only") only_ = val();
      else if (a == "--one") { one_ = val(); }
      else if (a == "--max-failures") max_failures_ = std::stoul(val());
      else if (a == "--extra-wall") extra_wall_ = std::stod(val());
    }
  }

  int run() {
    auto t0 = now_s();
    // Silence the code under test; keep a private copy of stdout for our own lines.
    out_fd_ = dup(1);
    int null = open("/dev/null", O_WRONLY);
    std::fflush(stdout);
    dup2(null, 1);
    if (!std::getenv("KMC_VERBOSE")) dup2(null, 2);
    close(null);

    if (!one_.empty()) return run_one();

    std::uint64_t total = 0;
    for (auto& s : check_.spaces) {
      if (!only_.empty() && s.name.find(only_) == std::string::npos) s.size = 0;
      starts_.push_back(total);
      total += s.size;
    }
    starts_.push_back(total);
    if (total == 0) {
      say("the check explored nothing");
      return 2;
    }

    char tmpl[] = "/tmp/kmc.XXXXXX";
    tmp_ = mkdtemp(tmpl);

    first_failure_ = static_cast<double*>(mmap(nullptr, sizeof(double), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    auto* slots = static_cast<Slot*>(mmap(nullptr, sizeof(Slot) * jobs_, PROT_READ | PROT_WRITE,
                                          MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::vector<pid_t> pids(jobs_, 0);
    std::vector<int> generation(jobs_, 0);
    std::vector<Failure> hard;  // crashes and hangs
    double confirming = 0;
    for (int w = 0; w < jobs_; ++w) {
      slots[w].cur = ~0ULL;
      slots[w].next_k = 0;
    }
    auto spawn = [&](int w) {
      pid_t pid = fork();
      if (pid == 0) {
        worker(w, generation[w], slots[w], total);
        _exit(0);
      }
      pids[w] = pid;
    };
    for (int w = 0; w < jobs_; ++w) spawn(w);
    int alive = jobs_;
    while (alive > 0) {
      bool progressed = false;
      for (int w = 0; w < jobs_; ++w) {
        if (pids[w] == 0) continue;
        int st = 0;
        pid_t r = waitpid(pids[w], &st, WNOHANG);
        bool hung = false;
        if (r == 0) {
          auto cur = slots[w].cur;
          if (cur != ~0ULL) {
            auto& sp = space_of(cur);
            if (now_s() - slots[w].started > sp.case_timeout_s) {
              kill(pids[w], SIGKILL);
              waitpid(pids[w], &st, 0);
              hung = true;
            } else {
              continue;
            }
          } else {
            continue;
          }
        }
        progressed = true;
        if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
          pids[w] = 0;
          --alive;
          continue;
        }
        auto cur = slots[w].cur;
        if (cur == ~0ULL) {
          say("a worker of the driver itself failed (status " + std::to_string(st) + ")");
          cleanup();
          return 2;
        }
        auto c0 = now_s();
        hard.push_back(confirm_hard(cur, hung, st));
        confirming += now_s() - c0;
        ++generation[w];
        slots[w].cur = ~0ULL;
        if (hard.size() >= 20 || (confirming > 100 && !hard.back().key.empty())) {  // enough: stop here, the run is a violation anyway
          for (int v = 0; v < jobs_; ++v)
            if (pids[v] && v != w) {
              kill(pids[v], SIGKILL);
              waitpid(pids[v], nullptr, 0);
              pids[v] = 0;
            }
          alive = 0;
          aborted_ = true;
          break;
        }
        spawn(w);
      }
      if (!progressed) usleep(2000);
    }

    Ctx sum;
    merge(sum);
    for (auto& f : hard)
      if (!f.key.empty()) sum.failures.push_back(f);
    std::sort(sum.failures.begin(), sum.failures.end(), [&](const Failure& a, const Failure& b) {
      return std::make_pair(index_of(a.space), a.id) < std::make_pair(index_of(b.space), b.id);
    });
    sum.counters["cases"] = 0;
    for (auto& s : check_.spaces) sum.counters["cases"] += sum.counters["cases:" + s.name];
    int rc = report(sum, now_s() - t0 + extra_wall_);
    cleanup();
    return rc;
  }

 private:
  void say(const std::string& s) {
    auto t = s + "\n";
    (void)!write(out_fd_, t.data(), t.size());
  }

  std::size_t index_of(const std::string& name) {
    for (std::size_t i = 0; i < check_.spaces.size(); ++i)
      if (check_.spaces[i].name == name) return i;
    return 0;
  }

  Space& space_of(std::uint64_t g) {
    auto it = std::upper_bound(starts_.begin(), starts_.end(), g);
    // Skips empty spaces, since their start equals the next one's.
    return check_.spaces[static_cast<std::size_t>(it - starts_.begin()) - 1];
  }
  std::uint64_t local_id(std::uint64_t g) {
    auto it = std::upper_bound(starts_.begin(), starts_.end(), g);
    return g - *(it - 1);
  }

  void limit_memory() {
    rlimit rl{check_.max_rss_gb << 30, check_.max_rss_gb << 30};
#if !defined(__SANITIZE_ADDRESS__)
#if defined(__has_feature)
#if !__has_feature(address_sanitizer) && !__has_feature(thread_sanitizer)
    setrlimit(RLIMIT_AS, &rl);
#endif
#endif
#endif
    (void)rl;
    rlimit core{0, 0};
    setrlimit(RLIMIT_CORE, &core);
  }

  void run_case(Space& sp, std::uint64_t id, Ctx& ctx) {
    ctx.begin(sp.name, id);
    ctx.count("cases:" + sp.name);
    try {
      sp.run(id, ctx);
    } catch (const std::exception& e) {
      ctx.fail("uncaught-exception", std::string("uncaught exception: ") + e.what());
    } catch (...) {
      ctx.fail("uncaught-exception", "uncaught exception of unknown type");
    }
  }

  void worker(int w, int gen, Slot& slot, std::uint64_t total) {
    limit_memory();
    Ctx ctx;
    auto k = slot.next_k;
    std::size_t n = 0;
    auto flush = [&] { save(ctx, tmp_ + "/w" + std::to_string(w) + "." + std::to_string(gen) + "." +
                                     std::to_string(n++)); };
    auto last = now_s();
    for (;; ++k) {
      auto g = static_cast<std::uint64_t>(w) + k * jobs_;
      if (g >= total) break;
      slot.next_k = k + 1;
      slot.started = now_s();
      slot.cur = g;
      auto& sp = space_of(g);
      run_case(sp, local_id(g), ctx);
      // Persist before leaving the case, so that a later crash does not lose it.
      slot.cur = ~0ULL;
      if (now_s() - last > 2 || !ctx.failures.empty()) {
        flush();
        nfail_ += ctx.failures.size();
        if (*first_failure_ == 0 && std::any_of(ctx.failures.begin(), ctx.failures.end(), [&](const Failure& f) { return !is_known(f); })) *first_failure_ = now_s();
        for (auto& f : ctx.failures)
          if (f.key == "hang") nfail_ += max_failures_ / 2;  // do not wait for them all
        ctx.failures.clear();
        ctx.counters.clear();
        last = now_s();
        if (nfail_ > max_failures_) break;
        if (*first_failure_ != 0 && now_s() - *first_failure_ > after_failure_s_) break;  // a violation anyway: some more examples, not all
      }
    }
    flush();
    saveset(ctx.outcomes, tmp_ + "/o" + std::to_string(w) + "." + std::to_string(gen));
    saveset(ctx.states, tmp_ + "/s" + std::to_string(w) + "." + std::to_string(gen));
  }

  static void saveset(const std::unordered_set<std::uint64_t>& s, const std::string& f) {
    std::ofstream o(f, std::ios::binary);
    for (auto h : s) o.write(reinterpret_cast<const char*>(&h), 8);
  }

  static void save(const Ctx& ctx, const std::string& f) {
    std::ofstream o(f + ".tmp", std::ios::binary);
    for (auto& [k, v] : ctx.counters) o << "C " << v << ' ' << k << '\n';
    for (auto& x : ctx.failures)
      o << "F " << x.id << ' ' << x.space << '\n' << json_escape(x.key) << '\n' << hex(x.text) << '\n';
    o.close();
    rename((f + ".tmp").c_str(), f.c_str());
  }
  static std::string hex(const std::string& s) {
    static const char* d = "0123456789abcdef";
    std::string r;
    for (unsigned char c : s) {
      r += d[c >> 4];
      r += d[c & 15];
    }
    return r;
  }
  static std::string unhex(const std::string& s) {
    auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    std::string r;
    for (std::size_t i = 0; i + 1 < s.size(); i += 2) r += static_cast<char>(v(s[i]) * 16 + v(s[i + 1]));
    return r;
  }

  void merge(Ctx& sum) {
    DIR* d = opendir(tmp_.c_str());
    while (auto* e = readdir(d)) {
      std::string n = e->d_name;
      std::string f = tmp_ + "/" + n;
      if (n[0] == 'w' && n.find(".tmp") == std::string::npos) {
        std::ifstream in(f, std::ios::binary);
        std::string line;
        while (std::getline(in, line)) {
          std::istringstream is(line);
          std::string t;
          is >> t;
          if (t == "C") {
            std::uint64_t v{};
            std::string k;
            is >> v >> std::ws;
            std::getline(is, k);
            sum.counters[k] += v;
          } else if (t == "F") {
            Failure x;
            is >> x.id >> x.space;
            std::getline(in, x.key);
            std::string h;
            std::getline(in, h);
            x.text = unhex(h);
            sum.failures.push_back(x);
          }
        }
      } else if (n[0] == 'o' || n[0] == 's') {
        std::ifstream in(f, std::ios::binary);
        std::uint64_t h{};
        auto& s = n[0] == 'o' ? sum.outcomes : sum.states;
        while (in.read(reinterpret_cast<char*>(&h), 8)) s.insert(h);
      }
    }
    closedir(d);
  }

  void cleanup() {
    if (tmp_.empty()) return;
    DIR* d = opendir(tmp_.c_str());
    while (auto* e = readdir(d)) {
      std::string n = e->d_name;
      if (n != "." && n != "..") unlink((tmp_ + "/" + n).c_str());
    }
    closedir(d);
    rmdir(tmp_.c_str());
  }

  // Re-runs the case alone, with a longer limit, before anything is reported.
  Failure confirm_hard(std::uint64_t g, bool hung, int st) {
    auto& sp = space_of(g);
    auto id = local_id(g);
    pid_t pid = fork();
    if (pid == 0) {
      limit_memory();
      Ctx c;
      c.replaying = true;
      run_case(sp, id, c);
      _exit(c.failed() ? 3 : 0);
    }
    double t0 = now_s();
    int st2 = 0;
    bool hung2 = false;
    for (;;) {
      if (waitpid(pid, &st2, WNOHANG) == pid) break;
      if (now_s() - t0 > 3 * sp.case_timeout_s) {
        kill(pid, SIGKILL);
        waitpid(pid, &st2, 0);
        hung2 = true;
        break;
      }
      usleep(2000);
    }
    Failure f;
    f.space = sp.name;
    f.id = id;
    auto how = [](bool h, int s) {
      if (h) return std::string("did not terminate");
      if (WIFSIGNALED(s)) return std::string("killed by signal ") + strsignal(WTERMSIG(s));
      return "exit status " + std::to_string(WEXITSTATUS(s));
    };
    if (hung2 || WIFSIGNALED(st2) || (WIFEXITED(st2) && WEXITSTATUS(st2) != 0)) {
      f.key = hung2 ? "hang" : "crash";
      f.text = "the code under test " + how(hung2, st2) + " (first run: " + how(hung, st) + ")";
    } else {
      // Not reproduced alone: not believed as such, but recorded in the evidence.
      ++unconfirmed_;
    }
    return f;
  }

  int run_one() {
    auto c = one_.rfind(':');
    auto name = one_.substr(0, c);
    auto id = std::stoull(one_.substr(c + 1));
    for (auto& sp : check_.spaces) {
      if (sp.name != name) continue;
      if (id >= sp.size) break;
      Ctx ctx;
      ctx.replaying = true;
      if (sp.describe) say(sp.describe(id));
      run_case(sp, id, ctx);
      for (auto& f : ctx.failures) say("FAILS key=" + f.key + "\n" + f.text);
      if (!ctx.failed()) { for (auto& [k, v] : ctx.counters) say("  " + k + "=" + std::to_string(v)); say("the case holds"); }
      return ctx.failed() ? 1 : 0;
    }
    say("no such case: " + one_);
    return 2;
  }

  struct Known {
    std::string space, key, text;
    std::uint64_t id{};
    bool any_id{};
  };
  std::vector<Known> load_known() {
    // Lines: KNOWN property=<id> case=<space>:<id> key=<key> :: <text>
    std::vector<Known> v;
    std::ifstream in(known_);
    std::string line;
    while (std::getline(in, line)) {
      if (line.rfind("KNOWN ", 0) != 0) continue;
      std::istringstream is(line);
      std::string w, prop, cs, key;
      is >> w >> prop >> cs >> key;
      if (prop != "property=" + check_.property) continue;
      Known k;
      cs = cs.substr(5);
      auto c = cs.rfind(':');
      k.space = cs.substr(0, c);
      k.any_id = cs.substr(c + 1) == "*";
      if (!k.any_id) k.id = std::stoull(cs.substr(c + 1));
      k.key = key.substr(4);
      auto p = line.find(":: ");
      k.text = p == std::string::npos ? "" : line.substr(p + 3);
      v.push_back(k);
    }
    return v;
  }

  bool is_known(const Failure& f) {
    auto known = load_known();
    return std::any_of(known.begin(), known.end(), [&](const Known& k) { return k.space == f.space && (k.any_id || k.id == f.id) && k.key == f.key; });
  }

  int report(Ctx& sum, double wall) {
    auto known = load_known();
    std::vector<Failure> bad;
    std::vector<bool> hit(known.size(), false);
    std::uint64_t known_hits = 0;
    for (auto& f : sum.failures) {
      bool k = false;
      for (std::size_t i = 0; i < known.size(); ++i) {
        if (known[i].space == f.space && (known[i].any_id || known[i].id == f.id) && known[i].key == f.key) {
          hit[i] = true;
          k = true;
        }
      }
      if (k) ++known_hits;
      else bad.push_back(f);
    }
    for (std::size_t i = 0; i < known.size(); ++i) {
      if (hit[i]) say("KNOWN-FINDING: property=" + check_.property + " " + known[i].text);
    }

    std::string samples;
    for (auto& sp : check_.spaces) {
      if (sp.size == 0 || !sp.describe) continue;
      for (auto id : {sp.size / 3, sp.size - 1}) {
        if (samples.size() > 20000) break;
        samples += (samples.empty() ? "" : ", ") + q(sp.name + ":" + std::to_string(id) + " " + sp.describe(id));
        if (sp.size == 1) break;
      }
    }
    std::ostringstream cov;
    auto C = [&](const std::string& n) -> std::uint64_t {
      auto it = sum.counters.find(n);
      return it == sum.counters.end() ? 0 : it->second;
    };
    if (check_.level == "model_checking") {
      cov << "\"states\": " << (check_.states_counter.empty() ? sum.states.size() : C(check_.states_counter))
          << ", \"transitions\": " << C(check_.transitions_counter)
          << ", \"traces_validated_against_impl\": " << C(check_.traces_counter) << ", ";
    } else {
      cov << "\"evaluations\": " << C(check_.evaluations_counter) << ", \"distinct_nontrivial\": "
          << C(check_.nontrivial_counter) << ", ";
      if (!check_.states_counter.empty() || !sum.states.empty())
        cov << "\"states\": " << (check_.states_counter.empty() ? sum.states.size() : C(check_.states_counter)) << ", ";
      if (!check_.transitions_counter.empty()) cov << "\"transitions\": " << C(check_.transitions_counter) << ", ";
      if (!check_.traces_counter.empty())
        cov << "\"traces_validated_against_impl\": " << C(check_.traces_counter) << ", ";
    }
    cov << "\"rule\": " << q(check_.rule) << ", \"samples\": [" << samples << "], \"distinct_outcomes\": "
        << sum.outcomes.size() << ", \"exhaustive\": " << (aborted_ || !only_.empty() ? "false" : "true")
        << ", \"spaces\": {";
    bool first = true;
    for (auto& sp : check_.spaces) {
      cov << (first ? "" : ", ") << q(sp.name) << ": {\"size\": " << sp.size
          << ", \"explored\": " << C("cases:" + sp.name) << "}";
      first = false;
    }
    cov << "}, \"counters\": {";
    first = true;
    for (auto& [k, v] : sum.counters) {
      if (k.rfind("cases:", 0) == 0) continue;
      cov << (first ? "" : ", ") << q(k) << ": " << v;
      first = false;
    }
    cov << "}, \"bounds\": {";
    first = true;
    for (auto& [k, v] : check_.bounds) {
      cov << (first ? "" : ", ") << q(k) << ": " << q(v);
      first = false;
    }
    cov << "}, \"known_finding_hits\": " << known_hits << ", \"unconfirmed_hard_failures\": " << unconfirmed_;

    if (!evidence_.empty()) {
      std::ofstream ev(evidence_);
      ev << "{\"property\": " << q(check_.property) << ", \"tier\": " << q(tier_) << ", \"seed\": " << seed_
         << ", \"level\": " << q(check_.level) << ", \"coverage\": {" << cov.str() << "}, \"assumptions\": [";
      for (std::size_t i = 0; i < check_.assumptions.size(); ++i)
        ev << (i ? ", " : "") << q(check_.assumptions[i]);
      ev << "], \"wall_s\": " << wall << ", \"violations\": " << bad.size() << "}\n";
    }

    std::ostringstream line;
    line << check_.property << " " << tier_ << ":";
    for (auto& sp : check_.spaces) line << " " << sp.name << "=" << C("cases:" + sp.name) << "/" << sp.size;
    line << " outcomes=" << sum.outcomes.size() << " states=" << sum.states.size() << " wall=" << wall << "s";
    say(line.str());
    std::ostringstream cl;
    for (auto& [k, v] : sum.counters)
      if (k.rfind("cases:", 0) != 0) cl << " " << k << "=" << v;
    say("  counters:" + cl.str());

    if (bad.empty()) {
      // Coverage must be complete; anything else is a broken check.
      if (C("broken")) {
        say("the check itself failed on " + std::to_string(C("broken")) + " cases");
        return 2;
      }
      for (auto& sp : check_.spaces) {
        if (C("cases:" + sp.name) + unconfirmed_ < sp.size) {
          say("incomplete exploration of " + sp.name);
          return 2;
        }
      }
      return 0;
    }
    std::map<std::string, int> keys;
    for (auto& f : bad) keys[f.space + " " + f.key]++;
    for (auto& [k, n] : keys) say("  failing: " + k + " (" + std::to_string(n) + " cases)");
    int shown = 0;
    std::set<std::string> done;
    for (auto& f : bad) {
      if (shown >= 5) break;
      if (!done.insert(f.space + f.key).second) continue;
      ++shown;
      mkdir(replay_dir_.c_str(), 0777);
      auto path = replay_dir_ + "/" + check_.property + "-" + f.space + "-" + std::to_string(f.id) + ".txt";
      std::ofstream r(path);
      r << "property: " << check_.property << "\ncase: " << f.space << ":" << f.id << "\nkey: " << f.key
        << "\nreplay: python3 /verif/mc/run.py " << check_.property << " --replay " << path << "\n\n";
      auto& sp = check_.spaces[index_of(f.space)];
      if (sp.describe) r << sp.describe(f.id) << "\n\n";
      r << f.text << "\n";
      say("VIOLATION property=" + check_.property + " replay=" + path);
      auto t = f.text.substr(0, 1500);
      say("  case " + f.space + ":" + std::to_string(f.id) + " key=" + f.key + ": " + t);
    }
    return 1;
  }

  Check check_;
  std::string tier_ = "quick", evidence_, replay_dir_ = "/verif/out/replay", known_, only_, one_, tmp_;
  int jobs_ = 8, seed_ = 1, out_fd_ = 1;
  std::size_t max_failures_ = 200, nfail_ = 0;
  double after_failure_s_ = 60;
  double* first_failure_ = nullptr;
  std::uint64_t unconfirmed_ = 0;
  bool aborted_ = false;
  double extra_wall_ = 0;
  std::vector<std::uint64_t> starts_;
};

inline std::string tier_of(int argc, char** argv) {
  for (int i = 1; i + 1 < argc; ++i)
    if (std::string(argv[i]) == "--tier") return argv[i + 1];
  return "quick";
}

}  // namespace kmc

#ifdef KMC_OWN_HARDWARE_CONCURRENCY
// The number of processors is an environment answer: the harness decides it.
unsigned int std::thread::hardware_concurrency() noexcept { return kmc::g_hardware_concurrency; }
#endif
